import sys,os,subprocess,shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.abspath(__file__))); import defs
cmd='/verif/tools/all.py'
args=sys.argv[1:]
if args[:1]==['-w']: cmd,args='/verif/sa/web.py',args[1:]
if args[:1]==['-c']: cmd,args=args[1],args[2:]
names=args or list(defs.R)
for x in list(names):
    if x.endswith('*'): names.remove(x); names+=[n for n in defs.R if n.startswith(x[:-1])]
def one(n):
    d='/tmp/ref/t/'+n
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run('git -C /repo archive HEAD | tar x -C '+d,shell=True,check=True)
    for f,a,b in defs.R[n]:
        p=d+'/'+f; s=open(p).read()
        if isinstance(a,tuple):     # (anchor, text): the first occurrence of text after the anchor
            i=s.find(a[0]); j=s.find(a[1],i)
            if i<0 or j<0: return n,'PATTERN %s'%(a,)
            open(p,'w').write(s[:j]+b+s[j+len(a[1]):]); continue
        if s.count(a)!=1: return n,'PATTERN x%d: %s'%(s.count(a),a[:80])
        open(p,'w').write(s.replace(a,b))
    env=dict(os.environ,PICA_REPO=d,PICA_SA_BUILD='/tmp/ref/b/'+n)
    p=subprocess.run(['timeout','900','python3',cmd],env=env,capture_output=True,text=True)
    shutil.rmtree(d,ignore_errors=True)
    shutil.rmtree('/tmp/ref/b/'+n,ignore_errors=True)
    return n,p.stdout+p.stderr[-1500:]
with ThreadPoolExecutor(6) as ex:
    for n,o in ex.map(one,names): print('=====',n); print(o); sys.stdout.flush()
