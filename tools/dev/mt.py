"""mt.py FILE.py [idx...]: FILE defines M=[(name, checks 'M01,M02', expected 'M01' or '-', [(file,old,new)...])]"""
import sys,os,subprocess,shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0,'/verif/lib')
R='/tmp/mrepo'
def prep(i,m):
    subprocess.run(['rsync','-a','--delete','--exclude','target','--exclude','.git','/repo/',R+'/'],check=True)
    for f,o,n in m[3]:
        p=R+'/'+f; s=open(p).read()
        if o not in s: return 'PATTERN '+o[:60]
        open(p,'w').write(s.replace(o,n,1))
    r=subprocess.run(['python3','/verif/lib/build.py'],env=dict(os.environ,VERIF_REPO=R),capture_output=True,text=True)
    d=r.stdout.strip().split('\n')[-1]
    if r.returncode or not os.path.isdir(d): return 'BUILD '+(r.stdout+r.stderr)[-900:]
    out=f'/tmp/mt/f{i}'
    shutil.rmtree(out,ignore_errors=True); shutil.copytree(d,out)
    return None
def run(i,m):
    try:
        r=subprocess.run(['python3','/verif/verify.py']+m[1].split(','),env=dict(os.environ,VERIF_FACTS=f'/tmp/mt/f{i}'),capture_output=True,text=True,timeout=600)
    except subprocess.TimeoutExpired: return f'{m[0]}: TIMEOUT'
    got=sorted({l.split('property=')[1].split()[0] for l in r.stdout.split('\n') if l.startswith('VIOLATION')})
    exp=[x for x in m[2].split(',') if x!='-']
    ok='ok  ' if r.returncode<2 and set(exp)<=set(got) and (got or not exp) and (exp or not got) else 'MISS'
    lines=[l[:230] for l in r.stdout.split('\n') if l.startswith('  [')][:3]
    shutil.rmtree(f'/tmp/mt/f{i}',ignore_errors=True)
    return f'{ok} {m[0]}: got {got} expected {exp} rc {r.returncode}\n'+'\n'.join(lines)+(r.stderr[-150:] if r.stderr else '')
def main():
    import fcntl; lk=open("/tmp/mt.lock","w"); fcntl.flock(lk,fcntl.LOCK_EX)
    ns={}; exec(open(sys.argv[1]).read(),ns); M=ns['M']
    idx=[int(x) for x in sys.argv[2:]] or range(len(M))
    with ThreadPoolExecutor(7) as ex:
        fs=[]
        for i in idx:
            e=prep(i,M[i])
            if e: print('FAIL',M[i][0],e)
            else: fs.append(ex.submit(run,i,M[i]))
        for f in fs: print(f.result())
main()
