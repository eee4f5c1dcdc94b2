"""auto.py IDS FILE...: systematic one-line mutants of files; prints those that no check reports"""
import sys,os,re,subprocess,shutil
from concurrent.futures import ThreadPoolExecutor
R=os.environ.get('MR','/tmp/mrepo'); OUT=os.environ.get('MO','/tmp/mt')
def mutants(f):
    src=open('/repo/'+f).read()
    e=re.search(r'#\[cfg\(test\)\]\n(pub[^\n]* )?mod ',src); end=e.start() if e else len(src)
    pos=0
    for ln,line in enumerate(src.splitlines(keepends=True),1):
        if pos>=end: break
        t=line.strip(); p0=pos; pos+=len(line)
        if t.startswith('//') or t.startswith('#') or 'log::' in t or 'assert' in t: continue
        if re.match(r'^(pub |use |mod |impl|struct|enum|type |fn |where|const fn)',t): continue
        code=line.split('//')[0]
        def sub(a,b,name):
            for m in re.finditer(a,code):
                new=code[:m.start()]+m.expand(b)+code[m.end():]+line[len(code):]
                yield (f'{f}:{ln} {name} | {t[:90]}',p0,line,new)
        yield from sub(r' < ',' <= ','<->le'); yield from sub(r' <= ',' < ','le-><')
        yield from sub(r' > ',' >= ','>->ge'); yield from sub(r' >= ',' > ','ge->>')
        yield from sub(r' == ',' != ','eq->ne'); yield from sub(r' != ',' == ','ne->eq')
        yield from sub(r' && ',' || ','and->or'); yield from sub(r' \|\| ',' && ','or->and')
        yield from sub(r'\btrue\b','false','true->false'); yield from sub(r'\bfalse\b','true','false->true')
        yield from sub(r' \+ ',' - ','+->-'); yield from sub(r' - ',' + ','-->+')
        yield from sub(r'\+= ','-= ','+=->-=')
        yield from sub(r'(?<![\w!])!(?=[\w(])(?!\()','','drop !')
        yield from sub(r'\b1\b','2','1->2'); yield from sub(r'\b0\b','1','0->1')
        yield from sub(r'\.rev\(\)','','drop rev'); yield from sub(r'\.skip\(\w+\)','','drop skip')
        yield from sub(r'\bcontinue;','break;','continue->break'); yield from sub(r'\bbreak;','continue;','break->continue')
        yield from sub(r'\.min\(','.max(','min->max'); yield from sub(r'\.max\(','.min(','max->min')
        yield from sub(r'\.is_some\(\)','.is_none()','some->none'); yield from sub(r'\.is_none\(\)','.is_some()','none->some')
        yield from sub(r'\bif (?!let)(.+) \{$',r'if false && (\1) {','if false'); yield from sub(r'\bif (?!let)(.+) \{$',r'if true || (\1) {','if true')
        if t.endswith(';') and not re.match(r'^(let|return|\}|\)|break|continue|\.|use)',t) and t.count('(')==t.count(')') and t.count('{')==t.count('}'):
            yield (f'{f}:{ln} delete | {t[:90]}',p0,line,'\n')
def main():
    import fcntl; lk=open(R.replace('/','_').join(['/tmp/am/','.lock']),"w"); fcntl.flock(lk,fcntl.LOCK_EX)
    ids=sys.argv[1].split(','); n=dict(build=0,caught=0,dup=0)
    L=[(f,)+m for f in sys.argv[2:] for m in mutants(f)]
    print(len(L),'mutants',flush=True)
    os.makedirs(OUT,exist_ok=True)
    def run(i,name):
        try: r=subprocess.run(['python3','/verif/verify.py']+ids,env=dict(os.environ,VERIF_FACTS=f'{OUT}/f{i}'),capture_output=True,text=True,timeout=600)
        except subprocess.TimeoutExpired: return 'TIMEOUT '+name
        shutil.rmtree(f'{OUT}/f{i}',ignore_errors=True)
        if r.returncode>1: return f'CRASH {name} {r.stderr[-200:]}'
        if 'VIOLATION' in r.stdout: n['caught']+=1; return None
        return 'SURVIVED '+name
    with ThreadPoolExecutor(int(os.environ.get('J','6'))) as ex:
        fs=[]
        subprocess.run(['rsync','-a','--delete','--exclude','target','--exclude','.git','/repo/',R+'/'],check=True)
        for i,(f,name,p,old,new) in enumerate(L):
            s=open('/repo/'+f).read(); assert s[p:p+len(old)]==old
            open(R+'/'+f,'w').write(s[:p]+new+s[p+len(old):])
            r=subprocess.run(['python3','/verif/lib/build.py'],env=dict(os.environ,VERIF_REPO=R),capture_output=True,text=True)
            open(R+'/'+f,'w').write(s)
            d=r.stdout.strip().split('\n')[-1]
            if r.returncode or not os.path.isdir(d): n['build']+=1; continue
            shutil.rmtree(f'{OUT}/f{i}',ignore_errors=True); shutil.copytree(d,f'{OUT}/f{i}')
            fs.append(ex.submit(run,i,name))
            while sum(not x.done() for x in fs)>12:
                import time; time.sleep(.1)
            for x in [x for x in fs if x.done()]:
                if x.result(): print(x.result(),flush=True)
                fs.remove(x)
        for x in fs:
            if x.result(): print(x.result(),flush=True)
    print(n,flush=True)
main()
