"""run checks against planted bugs: seeds.py [ids] (all claimed checks for each unless SEEDCHECKS=own)"""
import sys,os,subprocess,shutil,json,glob
from concurrent.futures import ThreadPoolExecutor
R='/tmp/mrepo'
ids=sys.argv[1:] or sorted(os.path.basename(p) for p in glob.glob('/verif/seeded/*'))
def prep(i):
    subprocess.run(['rsync','-a','--delete','--exclude','target','/repo/',R+'/'],check=True)
    r=subprocess.run(['git','-C',R,'apply',f'/verif/seeded/{i}/patch.diff'],capture_output=True,text=True)
    if r.returncode: return 'APPLY '+r.stderr
    r=subprocess.run(['python3','/verif/lib/build.py'],env=dict(os.environ,VERIF_REPO=R),capture_output=True,text=True)
    d=r.stdout.strip().split('\n')[-1]
    if r.returncode or not os.path.isdir(d): return 'BUILD '+(r.stdout+r.stderr)[-900:]
    shutil.rmtree(f'/tmp/mt/s_{i}',ignore_errors=True); shutil.copytree(d,f'/tmp/mt/s_{i}')
def run(i):
    p=json.load(open(f'/verif/seeded/{i}/meta.json'))['property']
    ch=[p] if os.environ.get('SEEDCHECKS')!='all' else [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
    r=subprocess.run(['python3','/verif/verify.py']+ch,env=dict(os.environ,VERIF_FACTS=f'/tmp/mt/s_{i}'),capture_output=True,text=True)
    got=sorted({l.split('property=')[1].split()[0] for l in r.stdout.split('\n') if l.startswith('VIOLATION')})
    shutil.rmtree(f'/tmp/mt/s_{i}',ignore_errors=True)
    return f"{'caught' if p in got else 'MISSED'} {i} [{p}] got {got} "+'\n    '.join([l[:200] for l in r.stdout.split('\n') if l.startswith('  [')][:2])+r.stderr[-300:]
with ThreadPoolExecutor(7) as ex:
    fs=[]
    for i in ids:
        e=prep(i)
        if e: print('FAIL',i,e)
        else: fs.append(ex.submit(run,i))
    for f in fs: print(f.result())
