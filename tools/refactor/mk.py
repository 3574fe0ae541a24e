import sys,os,subprocess,shutil
sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.abspath(__file__))); import defs
for n in sys.argv[1:]:
    d='/tmp/ref/k/'+n
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run('git -C /repo archive HEAD | tar x -C '+d,shell=True,check=True)
    for f,a,b in defs.R[n]:
        p=d+'/'+f; s=open(p).read(); assert s.count(a)==1
        open(p,'w').write(s.replace(a,b))
