"""Shared infrastructure of the checks: program access, engine runs, reports."""
import collections, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build
from mir import Prog, Ty, subst
from absint import *

CHECKS = {}


def check(pid, title=""):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.p = Prog(build.facts())
        self.viol = {}
        self.counts = {}
        self.samples = {}
        self.roots = []
        self.rules = []
        self.t0 = time.time()
        self._threads = {}

    # -- bookkeeping
    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, kind, what):
        s = self.samples.setdefault(kind, [])
        if what not in s and len(s) < 40:
            s.append(what)

    def violation(self, rule, where, msg, key=None, path=(), stack=()):
        k = (rule, key or msg)
        if k not in self.viol:
            self.viol[k] = dict(rule=rule, where=where, msg=msg, path=list(path), stack=list(stack), key=str(key or msg))

    def absorb(self, eng, root):
        """take over the violations and coverage numbers of an engine run"""
        self.roots.append(dict(root=root, steps=eng.steps, events=eng.nevents, functions=len(eng.inlined)))
        self.count("abstract states", eng.steps)
        self.count("events", eng.nevents)
        self._fns = getattr(self, "_fns", set()) | {self.p.bodies[i].path for i in eng.inlined if i in self.p.bodies}
        self.absorb_reports(eng)

    def absorb_reports(self, eng):
        """take over what was reported on an engine (possibly after its run)"""
        for (rule, key), v in eng.viol.items():
            self.violation(rule, v["where"], v["msg"], key=key, path=v["path"], stack=v["stack"])

    def undecided(self, root, e):
        self.violation("undecided", root, f"the analysis could not finish: {e}", key="undecided " + root)

    # -- engine
    def run(self, body, auto, args=None, env=None, captures=None, opaque=()):
        e = Engine(self.p, auto, max_steps=1500000 if self.tier == "thorough" else 500000)
        e.no_inline |= set(opaque)
        try:
            e.run(body, args=args, env=env, captures=captures)
        except Incomplete as x:
            self.undecided(body.path, x)
        self.absorb(e, body.path)
        return e

    def fork(self, eng, rec, auto):
        f = eng.fork(auto, max_steps=1500000 if self.tier == "thorough" else 500000)
        name = self.p.bodies[rec[0].a[0]].path
        try:
            f.run_spawned(rec)
        except Incomplete as x:
            self.undecided(name, x)
        self.absorb(f, name)
        return f

    def anchor(self, what, x):
        """fail closed: an anchor that vanished is reported, not skipped"""
        if not x:
            self.violation("anchor", what, f"{what} was not found: the property cannot be established", key="anchor " + what)
        return x

    def adts(self, crate, name):
        """paths of the types of a crate with a given name"""
        out = tuple(a for a in self.p.adts if a.startswith(crate + "::") and a.rsplit("::", 1)[-1] == name)
        self.anchor(f"type {name} of {crate}", out)
        return out

    def public(self, path):
        return self.anchor(path, self.p.path(path))

    def threads(self, path):
        """thread tree started (transitively) by a function: [Thread]"""
        if path in self._threads:
            return self._threads[path]
        b = self.public(path)
        out = []
        if b is not None:
            e = Engine(self.p, Automaton())
            e.run(b)
            root = Thread(None, e, None, b, None)
            out.append(root)
            todo = [root]
            while todo:
                t = todo.pop(0)
                for cid, recs in t.after.spawned.items():
                    for r in t.after.merge_spawns(recs):
                        f = t.after.fork(Automaton())
                        try:
                            f.run_spawned(r)
                        except Incomplete as x:
                            self.undecided(self.p.bodies[cid].path, x)
                        n = Thread(t, t.after, r, self.p.bodies[cid], f)
                        if not any(o.rec is not None and o.rec[0] is r[0] and o.rec[2] == r[2] and len(out) > 12 for o in out):
                            out.append(n)
                            if len(out) < 64:
                                todo.append(n)
                            else:
                                self.undecided(path, "too many threads")
        self._threads[path] = out
        return out

    def explore(self, thread, auto):
        """run an automaton over a thread of a thread tree"""
        return self.fork(thread.base, thread.rec, auto) if thread.rec is not None else self.run(thread.body, auto)


def contains_ty(p, ty, target, seen=None):
    """does a value of this type own a value of the target type (through fields of known types)"""
    seen = set() if seen is None else seen
    if not isinstance(ty, Ty):
        return False
    k = ty.key()
    if k in seen:
        return False
    seen.add(k)
    if ty.path == target:
        return True
    if ty.k in ("ref", "rawptr", "ptr"):
        return False
    for x in list(ty.args) + list(ty.upvars or ()):
        if contains_ty(p, x, target, seen):
            return True
    a = p.adts.get(ty.path)
    for v in (a or {}).get("variants", ()):
        for f in v["fields"]:
            if "t" in f and contains_ty(p, f["t"], target, seen):
                return True
    return False


def call_graph(p):
    """body id -> ids of the bodies it may call or create (closures included)"""
    if not hasattr(p, "_cg"):
        p._cg, p._callers = {}, {}
        for b in p.bodies.values():
            out = set()
            for _, t in b.calls(cleanup=True):
                c = t.get("callee") or {}
                for k in ("rid", "id"):
                    if c.get(k) in p.bodies:
                        out.add(c[k])
                        break
            for c in p.children.get(b.id, ()):
                out.add(c.id if hasattr(c, "id") else c)
            p._cg[b.id] = out
            for o in out:
                p._callers.setdefault(o, set()).add(b.id)
    return p._cg, p._callers


def direct_calls(b, pred):
    for i, t in b.calls(cleanup=True):
        c = t.get("callee") or {}
        for k in ("rpath", "path"):
            if c.get(k) and pred(c[k]):
                yield i, t
                break


def owners(p, sites, target):
    """functions to analyse: callers of the given bodies up to the first one that does not hand a value of the target type to its own caller"""
    cg, callers = call_graph(p)
    out, seen, todo = [], set(), list(sites)
    while todo:
        b = todo.pop()
        if b.id in seen:
            continue
        seen.add(b.id)
        up = [p.bodies[c] for c in callers.get(b.id, ())]
        if contains_ty(p, b.local_ty(0), target) and up:
            todo += up
        else:
            out.append(b)
    return sorted(out, key=lambda b: b.path)


class Thread:
    def __init__(self, parent, base, rec, body, after):
        self.parent, self.base, self.rec, self.body = parent, base, rec, body
        self.after = after if after is not None else base

    def calls(self, *names):
        return any(x in names or short(x) in names for x in self.after.externs)


# ------------------------------------------------------------ vocabulary
def norm(path):
    """trait-normalised callee path"""
    if path and path.startswith("<") and " as " in path:
        tr, m = path[1:].rsplit(">::", 1)
        return tr.rsplit(" as ", 1)[1] + "::" + m
    return path or ""


def short(path):
    """last two components"""
    p = norm(path)
    return "::".join(p.split("::")[-2:])


def last(path):
    return norm(path).rsplit("::", 1)[-1]


ENTRY = "cmakeperf::commands::DatabaseEntry"
RECV_TIMED = {"Receiver::recv_timeout", "Receiver::try_recv", "Receiver::recv_deadline"}
RECV = RECV_TIMED | {"Receiver::recv"}
SEND = {"Sender::send", "SyncSender::send", "Sender::try_send"}


def is_path(p, crate_or_mod, names):
    return p is not None and p.startswith(crate_or_mod) and last(p) in names


def is_recv(p):
    return p and ("mpsc::" in p or "crossbeam_channel" in p) and last(p) in ("recv", "recv_timeout", "try_recv", "recv_deadline")


def is_send(p):
    return p and ("mpsc::" in p or "crossbeam_channel" in p) and last(p) in ("send", "try_send", "send_timeout")


def is_queue_push(p):
    return p and p.startswith("crossbeam_deque") and last(p) == "push"


def is_scan(p):
    return p and p.startswith("crossbeam_deque") and last(p) in ("pop", "steal", "steal_batch", "steal_batch_and_pop", "steal_batch_with_limit_and_pop")


def is_atomic(p, *ops):
    return p and p.startswith("core::sync::atomic::Atomic") and last(p) in ops


def ordering(v):
    return v.a[1] if v is not None and v.tag == "agg" else None


def payload(e, v, variant, field="0"):
    return e.project(e.project(v, ("v", variant)), ("f", field))


DROPPING = {"filter", "filter_map", "take", "skip", "step_by", "take_while", "skip_while", "map_while", "dedup", "dedup_by", "dedup_by_key",
            "truncate", "pop", "remove", "swap_remove", "retain", "retain_mut", "drain", "split_off", "clear", "unique", "nth", "last", "find",
            "split_first", "split_last", "chunks", "windows", "scan", "partition", "pop_front", "pop_back", "extract_if"}
