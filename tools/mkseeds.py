#!/usr/bin/env python3
"""mkseeds.py [-n] NAME.. : writes seeded/NAME from seeds.py, using scratch copies of /repo under /tmp/seed,
then builds, runs the demo with and without the change, and (unless -n) the emulator checks on the changed copy."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import seeds
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(HERE)
DEMO_SH = '''#!/bin/bash
# run with cwd /repo, after the build
D=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 exec timeout 120 python3 "$D/demo.py"
'''
RUST_SH = '''#!/bin/bash
# run with cwd /repo, after the build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cp Cargo.lock "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
pica = { path = "$PWD" }
tokio = { version = "1", features = ["macros", "rt", "sync", "time", "net"] }
EOF
(cd "$T" && CARGO_TARGET_DIR="$T/target" cargo build -q --offline) || { echo "the demo does not build"; exit 3; }
timeout 60 "$T/target/debug/demo"
'''
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_PROFILE_DEV_DEBUG='line-tables-only')


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def copy(name):
    d = '/tmp/seed/' + name
    if not os.path.isdir(d):
        subprocess.run('cp -a /repo ' + d, shell=True, check=True)
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', d)
    return d


def one(arg):
    worker, names, check = arg
    res = []
    d = copy('w%d' % worker)
    for n in names:
        s = seeds.SEEDS[n]
        out = os.path.join(V, 'seeded', n)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        if s['rust']:
            open(out + '/main.rs', 'w').write(s['demo'].lstrip())
            open(out + '/demo.sh', 'w').write(RUST_SH)
        else:
            head = '#!/usr/bin/env python3\nimport struct, sys, time\nfrom uwb import *\n\nsrv = Server(%s)\ntry:\n' % ('http=True' if s['http'] else 'pcap=True' if s['pcap'] else '')
            body = '\n'.join('    ' + l if l else '' for l in s['demo'].strip().split('\n'))
            tail = "\n    check(srv.alive() and not srv.panicked(), 'emulator still runs')\nfinally:\n    srv.stop()\nprint('ok')\n"
            open(out + '/demo.py', 'w').write(head + body + tail)
            shutil.copy(HERE + '/seedlib/uwb.py', out + '/uwb.py')
            open(out + '/demo.sh', 'w').write(DEMO_SH)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what_it_breaks']}, open(out + '/meta.json', 'w'), indent=1)
        for f, a, b in s['edits']:
            p = d + '/' + f
            t = open(p).read()
            assert t.count(a) == 1, (n, t.count(a), a)
            open(p, 'w').write(t.replace(a, b))
        diff = sh('git diff', d).stdout
        open(out + '/patch.diff', 'w').write(diff)
        r = sh('cargo build --workspace --offline 2>&1 && cargo test --workspace --offline 2>&1 | tail -5', d, env=ENV)
        ok = r.returncode == 0 and 'error' not in r.stdout
        with_patch = sh('bash %s/demo.sh' % out, d)
        without = sh('bash %s/demo.sh' % out, '/repo')
        line = '%s: build %s, demo with patch %d (%s), without %d (%s)' % (n, ok, with_patch.returncode, with_patch.stdout.strip().split('\n')[-1],
                                                           without.returncode, without.stdout.strip().split('\n')[-1])
        if not ok:
            line += '\n' + r.stdout[-1500:]
        if with_patch.returncode == 0 or without.returncode:
            line += '\nBAD DEMO ' + with_patch.stdout[-300:] + without.stdout[-300:] + with_patch.stderr[-300:] + without.stderr[-500:]
        if check:
            r = sh('timeout 900 python3 %s/all.py' % HERE, V, env=dict(os.environ, PICA_REPO=d, PICA_SA_BUILD='/tmp/seed/b%d' % worker, W='160'))
            o = r.stdout + r.stderr[-800:]
            open('/tmp/seed/%s.out' % n, 'w').write(o)
            got = sorted({l.split()[1] for l in o.split('\n') if l.startswith('VIOL')})
            line += '\n   caught: %s %s' % (s['property'] in got, got) + ('' if s['property'] in got else '\n' + o[-3000:])
        sh('git checkout -q -- .', d)
        res.append(line)
        print(line)
        sys.stdout.flush()
    return res


if __name__ == '__main__':
    a = sys.argv[1:]
    check = '-n' not in a
    names = [x for x in a if x != '-n'] or list(seeds.SEEDS)
    w = min(4, len(names))
    with ThreadPoolExecutor(w) as ex:
        list(ex.map(one, [(i, names[i::w], check) for i in range(w)]))
