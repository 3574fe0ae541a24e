"""Compiler facts of /repo's current tree (cached by source hash) and the abstract interpreter over them."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PICA_REPO', '/repo')
BUILD = os.environ.get('PICA_SA_BUILD') or os.path.join(VERIF, '.build')


def source_hash():
    h = hashlib.sha256()
    files = []
    for top in (REPO, os.path.join(VERIF, 'extractor')):
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', '__pycache__', 'node_modules'))
            for f in sorted(fs):
                if f.endswith(('.rs', '.toml', '.lock', '.pdl', '.html', '.js', '.css', '.svg', '.yaml', '.yml', '.json')) or d.endswith('.cargo'):
                    files.append(os.path.join(d, f))
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def ensure_extractor():
    exe = os.path.join(VERIF, 'extractor', 'target', 'release', 'mirx')
    if not os.path.exists(exe):
        subprocess.run(['bash', os.path.join(VERIF, 'setup.sh')], check=True, stdout=sys.stderr, stderr=sys.stderr)
    return exe


def facts_dir():
    """Directory with the facts of the current tree, extracted now unless the sources are unchanged."""
    key = source_hash()
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'facts-' + key)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, 'pica-lib.json')) and os.path.exists(os.path.join(out, 'done')):
            return out
        exe = ensure_extractor()
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        tgt = tempfile.mkdtemp(prefix='pica-mirx-')
        try:
            sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], check=True, capture_output=True,
                                     text=True).stdout.strip()
            env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(sysroot, 'lib'), MIRX_OUT=tmp, CARGO_TARGET_DIR=tgt, RUSTFLAGS='-Zalways-encode-mir',
                       RUSTC_WORKSPACE_WRAPPER=exe)
            p = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--locked', '--manifest-path',
                                os.path.join(REPO, 'Cargo.toml')], env=env, capture_output=True, text=True)
            if p.returncode:
                sys.stderr.write(p.stderr[-4000:])
                raise RuntimeError('the tree does not build')
        finally:
            shutil.rmtree(tgt, ignore_errors=True)
        open(os.path.join(tmp, 'done'), 'w').close()
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        old = sorted((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD)
                     if d.startswith('facts-') and d != os.path.basename(out))
        for _, d in old[:-4]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    return out


_crates = {}


def crate(name='pica-lib'):
    import facts
    if name not in _crates:
        _crates[name] = facts.Crate(os.path.join(facts_dir(), name + '.json'))
    return _crates[name]


def engine(name='pica-lib'):
    import engine
    import pdl
    p = pdl.Pdl(os.path.join(REPO, 'src', 'uci_packets.pdl'))
    return engine.Eng(crate(name), p)
