"""Systematic mutants of /repo's Rust sources: which compile, and which of those the checks leave quiet.
usage: mutate.py OUT FILE [start:end] [every k]   (mutants of one file; results appended to OUT)"""
import sys,os,re,subprocess,shutil,random
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
OPS=[(r' == ',' != '),(r' != ',' == '),(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),
 (r' && ',' || '),(r' \|\| ',' && '),(r' \+ ',' - '),(r' - ',' + '),(r' \+= ',' -= '),(r' -= ',' += '),
 (r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\bbreak\b;?','continue'),(r'\bcontinue\b','break'),
 (r'if !','if '),(r'\bSome\((\w+)\) =>',None),(r'\.insert\(','.remove('),
 (r' >> ',' << '),(r' << ',' >> '),(r'\.is_some\(\)','.is_none()'),(r'\.is_none\(\)','.is_some()'),(r'\.is_empty\(\)','.len() == 1'),
 (r'\.min\(','.max('),(r'\.any\(','.all('),(r'\.all\(','.any('),(r'0\.\.','1..')]
def mutants(f):
    s=open('/repo/'+f).read()
    end=s.find('#[cfg(test)]'); end=len(s) if end<0 else end
    lines=s[:end].split('\n'); out=[]
    off=0
    stat=sorted(set(re.findall(r'\b(?:uci::)?(?:Status|SessionState|ReasonCode|DeviceState|MulticastUpdateStatus|DataTransferNtfStatusCode|Category|HttpStatusCode|AppConfigTlvType)::\w+',s)))
    groups={}
    for x in stat: groups.setdefault(x.split('::')[-2],[]).append(x)
    enums={g:[x.split('::')[-1] for x in v] for g,v in groups.items()}
    for ln,l in enumerate(lines):
        t=l.strip(); o=off; off+=len(l)+1
        if not t or t.startswith('//') or t.startswith('#[') or 'log::' in t or t.startswith('use '): continue
        code=l.split('//')[0]
        for a,b in OPS:
            if b is None: continue
            for m in re.finditer(a,code):
                if '"' in code and code[:m.start()].count('"')%2: continue
                out.append((ln+1,o+m.start(),o+m.end(),b,'%s -> %s'%(m.group().strip(),b.strip())))
        for m in re.finditer(r'\b(\d+|0x[0-9a-fA-F]+)(?=[^\w.]|$)',code):
            if code[:m.start()].endswith(('.','"')) or code[:m.start()].count('"')%2: continue
            v=int(m.group(),0); out.append((ln+1,o+m.start(),o+m.end(),str(v+1),'%s -> %d'%(m.group(),v+1)))
        for m in re.finditer(r'\b(\w+)::(\w+)\b',code):
            g=enums.get(m.group(1))
            if g and m.group(2) in g and len(g)>1:
                other=g[(g.index(m.group(2))+1)%len(g)]
                out.append((ln+1,o+m.start(2),o+m.end(2),other,'%s -> %s'%(m.group(2),other)))
        if t.endswith(';') and not t.startswith(('let ','return','pub ','const ','break','continue','}',')')) and l.count('(')==l.count(')') and not t.startswith('.'):
            prev=lines[ln-1].strip()
            if prev.endswith((';','{','}')) or prev.startswith('//'):
                out.append((ln+1,o,o+len(l),'','delete: '+t))
        # multi-line statement deletion: expr( ... );
        if t.endswith(('(','{')) and not t.startswith(('let ','fn ','pub ','if ','match ','for ','while ','loop','}','else','impl','struct','enum','async','return','Some','Ok','Err')) and lines[ln-1].strip().endswith((';','{','}')):
            ind=len(l)-len(l.lstrip()); e=o+len(l)+1
            for k in range(ln+1,min(ln+30,len(lines))):
                e2=e+len(lines[k])
                if len(lines[k])-len(lines[k].lstrip())==ind:
                    if lines[k].strip() in(');','});','};'):
                        out.append((ln+1,o,e2,'','delete: '+t))
                    break
                e=e2+1
        if t.startswith('if ') and t.endswith('{') and ' let ' not in t:
            m=re.match(r'(\s*if )(.*)( \{)$',l)
            out.append((ln+1,o,o+len(l),m.group(1)+'false && ('+m.group(2)+')'+m.group(3),'if false: '+t))
            out.append((ln+1,o,o+len(l),m.group(1)+'true || ('+m.group(2)+')'+m.group(3),'if true: '+t))
    return s,out
def main():
    outf,f=sys.argv[1:3]; sl=sys.argv[3] if len(sys.argv)>3 else ':'
    s,ms=mutants(f); a,b=sl.split(':'); k=int(sys.argv[4]) if len(sys.argv)>4 else 1
    todo=list(enumerate(ms))[int(a or 0):int(b or len(ms))][::k]
    slots=Queue()
    for i in range(int(os.environ.get('JOBS','6'))):
        d='/tmp/mut/w%d'%i
        if True:  # a killed run leaves its last mutant behind
            os.makedirs(d+'/t',exist_ok=True); subprocess.run('git -C /repo archive HEAD | tar x -C '+d+'/t',shell=True,check=True)
        slots.put(d)
    def one(x):
        i,(ln,lo,hi,b,what)=x
        d=slots.get()
        try:
            p=d+'/t/'+f; open(p,'w').write(s[:lo]+b+s[hi:])
            q=subprocess.run(['cargo','check','--offline','--bins','--message-format','short'],cwd=d+'/t',capture_output=True,text=True,env=dict(os.environ,CARGO_TARGET_DIR=d+'/target'))
            if q.returncode: return 'nocompile',x,''
            env=dict(os.environ,PICA_REPO=d+'/t',PICA_SA_BUILD=d+'/b')
            q=subprocess.run(['timeout','600','python3',''+os.environ.get('V','/verif')+'/tools/all.py'],env=env,capture_output=True,text=True)
            o=q.stdout+q.stderr[-600:]
            return ('VIOL' if 'VIOL' in o else 'quiet' if q.returncode==0 and 'GAP' not in o else 'GAP'),x,o
        finally:
            open(p,'w').write(s); slots.put(d)
    with ThreadPoolExecutor(slots.qsize()) as ex:
        for r,(i,m),o in ex.map(one,todo):
            if r=='nocompile': continue
            with open(outf,'a') as h:
                h.write('%s %s:%d #%d %s\n'%(r,f,m[0],i,m[4]))
                if r=='GAP': h.write('   '+o[:300].replace('\n','\n   ')+'\n')
if __name__=='__main__':
    if sys.argv[1]=='-n': print(len(mutants(sys.argv[2])[1]))
    else: main()
