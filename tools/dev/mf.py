"""mf.py FILE.py NAME: prepares facts of one mutant in /tmp/mt/keep (use with VERIF_FACTS=/tmp/mt/keep)"""
import sys, shutil
sys.argv, a = [sys.argv[0], '/dev/null'], sys.argv
exec(open('/verif/tools/dev/mt.py').read().replace("\nmain()\n", "\n"))
ns = {}; exec(open(a[1]).read(), ns)
m = [m for m in ns['M'] if m[0] == a[2]][0]
print(prep('keep', m))
shutil.rmtree('/tmp/mt/keep', ignore_errors=True); shutil.move('/tmp/mt/fkeep', '/tmp/mt/keep')
