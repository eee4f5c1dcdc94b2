"""Wake-up protocol of the work queue (M08)."""
from base import *
from measure import roles
from processing import bare

WRITES = ("store", "swap", "fetch_add", "compare_exchange", "fetch_update", "fetch_sub")


def is_wake(p):
    return p.startswith("atomic_wait") and last(p) in ("wake_all", "wake_one")


class Survey(Automaton):
    """channels used to sleep and wake up, their initial values, what is read from them and compared to constants"""
    unwind = False

    def __init__(self):
        self.futex, self.initial, self.loads, self.eqs, self.args = set(), {}, {}, set(), {}

    def step(self, q, ev, st):
        if ev.kind == "call" and not ev.inl:
            if ev.path.startswith("atomic_wait") and ev.args:
                self.futex.add(strip(ev.args[0]))
            elif ev.path.startswith("core::sync::atomic::Atomic") and last(ev.path) == "new" and ev.args:
                self.initial[ev.res] = strip(ev.args[0])
            elif is_atomic(ev.path, "load", "swap"):
                self.loads.setdefault(ev.res, set()).add(strip(ev.args[0]))
            elif last(ev.path) in ("is_retry", "is_empty", "success") and ev.args:
                l = self.args.setdefault(ev.res, [])
                if ev.args[0] not in l:
                    l.append(ev.args[0])
        f = fact_eq(ev)
        if f is not None and f[1].tag == "k":
            self.eqs.add((f[0], f[1].a[0]))
        return q

    def consts(self, e, futex):
        loads = {t for t, a in self.loads.items() if a & futex}
        return {k for a, k in self.eqs if e.derives(a, lambda x: x in loads)}


def fact_eq(ev):
    """(a, b, known to be equal?) if the event says whether two values are equal; constants come second"""
    if ev.kind != "cond":
        return None
    v, x = ev.val, ev.extra
    pos = None
    while v.tag == "not":
        v, x = v.a[0], ("k", 1 - x[1]) if x[0] == "k" and x[1] in (0, 1) else x
    if v.tag == "op" and v.a[0] in ("Eq", "Ne") and x[0] == "k":
        a, b = v.a[1], v.a[2]
        pos = (x[1] == 1) == (v.a[0] == "Eq")
    elif v.tag != "op" and x[0] == "k":
        a, b, pos = v, K(x[1]), True
    else:
        return None
    a, b = bare(a), bare(b)
    if a.tag == "k":
        a, b = b, a
    return a, b, pos


class Waits(Automaton):
    """q = (obs, cand, same, scanned, final, job, retry-free results)
    obs: signal last acted upon (None: the initial one), cand: signal read since, same: it is known to be the same, scanned: what was found empty since
    obs was read, final: obs is known to be the final signal, job: None | what was sent about the job taken last"""
    init = (None, None, False, frozenset(), False, None, frozenset())
    unwind = False
    max_disj = 64

    def __init__(self, futex, initial, consts):
        self.futex, self.initial, self.finalset = futex, initial, consts
        self.seen, self.finals, self.where = set(), set(), set()

    def kinds(self, v):
        """what a result was obtained from: own queue, queues of others, shared queue"""
        out = set()

        def look(x):
            if x.tag == "call":
                p = self.eng.callpath.get(x, "")
                if is_scan(p):
                    out.add({"Worker": "own", "Stealer": "others", "Injector": "shared"}.get(norm(p).split("::")[-2], "?"))
            return False
        self.eng.derives(v, look)
        return out

    def known(self, q, v, x):
        obs, cand, same = q[:3]
        return v is not None and (v is obs or same and v is cand)

    def note(self, q, kinds):
        obs, cand, same, sc, fin, job, free = q
        if cand is not None and not same:
            obs, cand, same, sc, fin = cand, None, False, frozenset(), False
        return (obs, cand, same, sc | frozenset(kinds), fin, job, free)

    def full(self, q):
        return {"own", "others", "shared"} <= set(q[3])

    def step(self, q, ev, st):
        e = self.eng
        obs, cand, same, sc, fin, job, free = q
        if ev.kind == "call" and not ev.inl:
            p = ev.path
            if is_atomic(p, "load", "swap") and strip(ev.args[0]) in self.futex:
                self.seen.add("load")
                if ordering(ev.args[-1]) not in ("Acquire", "SeqCst", "AcqRel"):
                    e.report("order", ev, "a worker reads the signal without making visible what was done before it was given", "signal read without acquire")
                return (obs, ev.res, False, sc, fin, job, free)
            if p.startswith("atomic_wait") and last(p) == "wait" or p.endswith("futex_wait"):
                self.seen.add("wait")
                v = bare(ev.args[1])
                if strip(ev.args[0]) not in self.futex:
                    return q
                initial = v.tag == "k" and obs is None and v in self.initial
                if not (initial or self.known(q, v, st)):
                    e.report("missed", ev, "a worker sleeps although the signal may have changed since it last acted upon it", "sleep on another signal")
                elif obs is not None and not self.full(q):
                    miss = sorted({"own": "its own queue", "others": "the other workers' queues", "shared": "the shared queue"}[k]
                                  for k in {"own", "others", "shared"} - set(sc))
                    e.report("missed", ev, "a worker sleeps without having found " + ", ".join(miss) + " empty since the last signal", "sleep without looking at " + ", ".join(miss))
                return q
            if is_scan(p):
                self.seen.add("scan")
                q = self.note(q, ())
                if norm(p).split("::")[-2] == "Stealer":
                    it = lossy_source(e, ev.args[0])
                    if it:
                        e.report("missed", ev, f"work is not looked for in the queues of all other workers ({it})", "stealers left out")
                return q
            if is_send(p) and job is not None:
                m = e.peel(st, ev.args[1])
                return (obs, cand, same, sc, fin, e.variant(st, m) or "?", free)
            return q
        f = fact_eq(ev)
        if f is not None:
            a, b, pos = f
            if cand is not None and a is cand or b is cand:
                o = b if a is cand else a
                isobs = o is obs or obs is None and o in self.initial
                if b.tag == "k" and b.a[0] in self.finalset and pos:
                    # the signal just read is the final one
                    return (cand, None, False, frozenset(), True, job, free)
                if isobs:
                    return (obs, cand, True, sc, fin, job, free) if pos else (cand, None, False, frozenset(), False, job, free)
            if obs is not None and a is obs and b.tag == "k" and b.a[0] in self.finalset:
                return (obs, cand, same, sc, True, job, free) if pos else (None if fin else q)
            c = strip(ev.val)
            while c.tag == "not":
                c = strip(c.a[0])
            if c.tag == "call" and last(e.callpath.get(c, "")) in ("is_retry", "is_empty"):
                val = ev.extra[1] == 1
                v = ev.val
                while v.tag == "not":
                    v, val = v.a[0], not val
                name = last(e.callpath.get(c, ""))
                arg = strip(next(iter(self.args_of.get(c, ())), UNIT))
                if name == "is_retry" and not val:
                    return (obs, cand, same, sc, fin, job, frozenset({arg}))
                if name == "is_empty" and val:
                    return self.note(q, self.kinds(arg))
            return q
        if ev.kind == "outcome":
            v = strip(ev.val)
            p = ev.path or e.callpath.get(v, "")
            if ev.extra in ("Some", "Success") and (p.startswith("crossbeam_deque") and last(p) in ("pop", "success") or ev.extra == "Success"):
                self.seen.add("job")
                return (obs, cand, same, frozenset(), fin, "taken", frozenset())
            if ev.extra == "Empty":
                return self.note(q, self.kinds(v))
            if ev.extra == "None" and p.startswith("crossbeam_deque"):
                if last(p) == "pop":
                    return self.note(q, {"own"})
                if last(p) == "success":
                    arg = strip(next(iter(self.args_of.get(v, ())), UNIT))
                    if arg in free or any(self.same(arg, x) for x in free):
                        return self.note(q, self.kinds(arg))
        if ev.kind == "exit" and ev.extra == "return":
            self.seen.add("end")
            if not (fin and self.full(q)) and job not in ("Err", "?"):
                e.report("ends", ev, "a worker may end after a job that did not fail" if job and not self.full(q) else
                         "a worker may end without having looked for units handed back before the final signal" if fin else "a worker may end although more units can be handed back",
                         "end after job" if job and not self.full(q) else "end without last look" if fin else "end without final signal")
        return q

    def same(self, a, b):
        return a is b or root_of(a) is root_of(b) and a.tag == b.tag


def lossy_source(e, v):
    """adapter that drops some of the items that v is one of"""
    hit = []

    def look(x):
        n = x.a[1] if x.tag == "lazy" else last(e.callpath.get(x, "")) if x.tag == "call" else None
        if isinstance(n, tuple):
            n = n[0]
        if isinstance(n, str) and last(n) in DROPPING - {"find", "pop", "last", "nth"}:
            hit.append(last(n))
        return False
    e.derives(v, look)
    return hit[0] if hit else None


class Signals(Automaton):
    """q = (last value: token | None before the first signal, to do: frozenset of signal/all/one, overflow known, closed)"""
    init = (None, frozenset(), False, False, False)
    unwind = True
    max_disj = 64

    def __init__(self, futex, initial, final):
        self.futex, self.initial, self.final = futex, initial, final
        self.seen = set()

    def differs(self, v, cur, over):
        """is the value stored certainly different from the current one, and not a final one"""
        e = self.eng
        if v.tag == "k":
            if v.a[0] in self.final:
                return True
            return v not in self.initial if cur is None else over or cur.tag == "k" and cur is not v
        base = strip(v)
        if base.tag in ("as", "fld"):
            c = strip(root_of(base))
            if c.tag == "call" and last(e.callpath.get(c, "")) == "checked_add":
                return True
        if base.tag == "op" and base.a[0] in ("Add",) and any(x.tag == "k" and x.a[0] > 0 for x in base.a[1:3]):
            return True
        if base.tag == "call" and last(e.callpath.get(base, "")) == "checked_add":
            return True
        if base.tag in ("phi", "old"):
            return True        # judged where its alternatives were stored
        return False

    def step(self, q, ev, st):
        e = self.eng
        cur, todo, over, closed, started = q
        if ev.kind == "spawn":
            return (cur, todo, over, closed, True)
        if ev.kind == "call" and not ev.inl:
            p = ev.path
            if is_queue_push(p):
                self.seen.add("push")
                if closed:
                    e.report("late", ev, "a unit is queued after the workers were told that no more would come", "push after final signal")
                return (cur, todo | {"signal"}, over, closed, started)
            if is_atomic(p, *WRITES) and strip(ev.args[0]) in self.futex:
                v = strip(ev.args[2] if last(p) == "compare_exchange" else ev.args[1])
                self.seen.add("store")
                if ordering(ev.args[-1]) not in ("Release", "SeqCst", "AcqRel"):
                    e.report("order", ev, "workers are signalled without making visible what was done before", "signal without release")
                final = v.tag == "k" and v.a[0] in self.final
                if last(p) == "fetch_add":
                    ok = v.tag == "k" and v.a[0] != 0
                else:
                    ok = self.differs(v, cur, over)
                if not ok:
                    e.report("value", ev, "the new value of the signal may be the same as the old one, so that workers do not notice it", "same signal")
                if final:
                    self.seen.add("final")
                return (v, (todo - {"signal"}) | ({"all"} if final or cur is None else {"one"}), False, closed or final, started)
            if is_wake(p) and strip(ev.args[0]) in self.futex:
                self.seen.add("wake")
                return (cur, todo - ({"all", "one"} if last(p) == "wake_all" else {"one"}), over, closed, started)
            if is_recv(p):
                self.pending(q, ev, "before the next result is awaited")
                if cur is None:
                    e.report("start", ev, "results are awaited before the workers were told to start", "no start signal")
        elif ev.kind == "outcome" and ev.extra == "None" and last(ev.path or e.callpath.get(strip(ev.val), "")) == "checked_add":
            return (cur, todo, True, closed, started)
        elif ev.kind == "scope_end":
            self.seen.add("scope")
            if not closed and started:
                e.report("final", ev, "the workers may be awaited without having been told that no more units come" + (" (after a panic)" if ev.extra == "panic" else ""),
                         "no final signal" + (" after panic" if ev.extra == "panic" else ""))
            if started:
                self.pending((cur, todo - {"signal"} if closed or ev.extra == "panic" else todo, over, closed), ev, "before the workers are awaited")
        elif ev.kind == "maypanic" and (ev.path.startswith("atomic_wait") or ev.path.startswith("core::sync::atomic") or ev.path.startswith("crossbeam_deque")):
            return None     # these do not panic
        return q

    def pending(self, q, ev, when):
        e = self.eng
        for x in sorted(q[1]):
            e.report("told", ev, {"signal": "a unit was queued but the signal to the workers was not changed after that",
                                  "all": "the workers were not all woken up after the signal was changed",
                                  "one": "no worker was woken up after the signal was changed"}[x] + " " + when, "untold " + x)


@check("M08")
def m08(ctx):
    ctx.rule("Each unit that the collecting thread queues is followed by a change of the workers' signal (with release ordering, to another value) and by a wake-up; the first and "
             "final change wake up everyone; the workers are only awaited after the final signal, also when unwinding, and no unit is queued after it.")
    ctx.rule("A worker only sleeps on the value of the signal that it last acted upon, after having found its own queue, the other workers' queues and the shared "
             "queue empty since it read that value, retries aside; it only ends without failure once it read the final value and found all queues empty again.")
    ts, col, wrk = roles(ctx)
    sv = {}
    for t in col + wrk:
        sv[t] = Survey()
        sv[t].e = ctx.explore(t, sv[t])
    futex = set().union(*(a.futex for a in sv.values()))
    ctx.anchor("signal that workers sleep on", futex)
    initial = {v for a in sv.values() for t, v in a.initial.items() if t in futex}
    ctx.anchor("initial value of the signal", initial)
    consts = set().union(*(sv[t].consts(sv[t].e, futex) for t in wrk)) - {v.a[0] for v in initial if v.tag == "k"}
    ctx.anchor("final value of the signal that workers look for", consts)
    for t in wrk:
        a = Waits(futex, initial, consts)
        a.args_of = sv[t].args
        ctx.explore(t, a)
        for x in ("load", "wait", "scan", "job", "end"):
            ctx.anchor(f"worker event '{x}'", x in a.seen)
        ctx.count("worker threads")
    for t in col:
        a = Signals(futex, initial, consts)
        ctx.explore(t, a)
        for x in ("push", "store", "wake", "final", "scope"):
            ctx.anchor(f"collector event '{x}'", x in a.seen)
        ctx.count("collector threads")

