"""ev.py FN [unwind]: print the events of an engine run over a function (development aid)"""
import sys,os
sys.path.insert(0,'/verif/lib'); sys.path.insert(0,'/verif/checks'); sys.setrecursionlimit(20000)
import base
from base import *
p=Prog(build.facts())
class A(Automaton):
    init=0
    unwind=len(sys.argv)>2 and 'unwind' in sys.argv[2]
    def step(self,q,ev,st):
        if ev.kind in ('maypanic',) and not self.unwind: return q
        k=(ev.kind,ev.path,str(ev.val),str(ev.extra)[:60],ev.bb,ev.fr.ctx)
        if k in seen: return q
        seen.add(k)
        if ev.kind=='assign' and not os.environ.get('ASSIGN'): return q
        print(ev.kind, ev.path or '', [show(a) for a in ev.args] if ev.args else '', 'val='+show(ev.val) if ev.val is not None else '', 'x=',str(ev.extra)[:80], 'res='+show(ev.res) if ev.res is not None else '', '@',ev.sp[1] if ev.sp else '', 'INL' if ev.inl else '')
        return q
seen=set()
b=p.path(sys.argv[1]) or (p.by_path.get(sys.argv[1]) or [None])[0]
if b is None:
    for k in p.by_path:
        if sys.argv[1] in k: print(k, [x.kind for x in p.by_path[k]])
    sys.exit()
e=Engine(p,A())
e.run(b)
print(e.steps)
