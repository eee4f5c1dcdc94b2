"""mkseed.py SPEC.py: build seeded/<id> folders from a spec with S=[dict(id,prop,needs,breaks,edits=[(file,old,new)],deps,main|script,base)]"""
import sys,os,json,subprocess,shutil
T='/verif/tools/seed/'; SC='/tmp/seedrepo'
ns={}; exec(open(sys.argv[1]).read(),ns)
only=sys.argv[2:]
for s in ns['S']:
    if only and s['id'] not in only: continue
    d=f"/verif/seeded/{s['id']}"; os.makedirs(d,exist_ok=True)
    subprocess.run(['rsync','-a','--delete','--exclude','target','/repo/',SC+'/'],check=True)
    for f,o,n in s['edits']:
        p=f'{SC}/{f}'; t=open(p).read()
        assert t.count(o)>=1,(s['id'],f,o)
        open(p,'w').write(t.replace(o,n,1))
    diff=subprocess.run(['git','-C',SC,'diff'],capture_output=True,text=True,check=True).stdout
    open(d+'/patch.diff','w').write(diff)
    deps='\n'.join(f'{c} = {{ path = "$repo/{c}" }}' if '=' not in c else c for c in s['deps'])
    sh=open(T+'demo.sh.in').read().replace('@DEPS@',deps).replace('@RUN@',s.get('run','timeout 120 "$w/target/debug/demo" "$w/run" 2> /dev/null'))
    open(d+'/demo.sh','w').write(sh); os.chmod(d+'/demo.sh',0o755)
    base=open(T+s['base']).read() if s.get('base') else ''
    open(d+'/main.rs','w').write(base+'\n'+s['main'])
    if s.get('unit'): open(d+'/unit.rs','w').write(s['unit'])
    json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
    print('wrote',s['id'])
