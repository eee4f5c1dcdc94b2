"""Reaction to low memory (M09)."""
from base import *
from measure import roles
from data import lossy
from dialogs import evaluate
from profiles import Calls

MAIN = "cmakeperf::measure::main::"
MINS = {"min_by_key", "min_by"}


def bodies(p, path):
    return [b for b in p.by_path.get(path, []) if b.kind != "closure"]


def payload_of(v):
    """Option token whose payload v is"""
    v = strip(v)
    if v.tag == "fld" and v.a[1] == "0" and v.a[0].tag == "as" and v.a[0].a[1] == "Some":
        return strip(v.a[0].a[0])


class Pressure(Calls):
    """q = dict-like tuple: avail, refreshed, low, enum, pick, active, pend, conds, new, zero, compared"""
    F = ("avail", "refreshed", "low", "enum", "pick", "active", "pend", "conds", "new", "zero", "compared", "stops")
    init = (None, False, None, None, None, frozenset(), 0, frozenset(), None, "never", False, 0)
    unwind = False
    max_disj = 128

    def __init__(self, ctx, body, ops, margin=None, memory=None):
        Calls.__init__(self)
        self.ctx, self.self_, self.ops = ctx, mk("arg", body.id, 1), ops
        self.margin, self.memory = margin, memory
        self.fields, self.memories, self.seen, self.loads, self.keys, self.picks = collections.Counter(), set(), set(), {}, {}, set()
        self.unsure = set()

    # -- values
    def field(self, v):
        """name of the field of self that v is (a part of)"""
        v, names = strip(v), []
        while v is not self.self_:
            if v.tag == "fld":
                names.append(v.a[1])
            elif v.tag not in ("as", "ov", "old", "ref"):
                return None
            n = v.a[0]
            if not isinstance(n, V):
                return None
            v = strip(n)
        names = [n for n in names if n != "0"]
        return names[-1] if names else None

    def leaf(self, env):
        def get(v):
            if v in env:
                return env[v]
            f = self.field(v)
            if f is not None:
                return env.get("M") if f == self.margin else env.get("L") if f == self.memory else env.get("b")
            return self.leafop(v, get)
        return get

    def current(self, st):
        return strip(self.eng.load_loc(st, (("H", self.self_), (("f", self.margin),))))

    # -- events
    def step(self, q, ev, st):
        d = dict(zip(self.F, q))
        r = self.go(d, ev, st)
        return q if r is None else tuple(r[k] for k in self.F)

    def go(self, d, ev, st):
        e = self.eng
        self.note(ev)
        if ev.kind == "call" and not ev.inl:
            n = last(ev.path)
            if ev.path.startswith("sysinfo::"):
                if n.startswith("refresh"):
                    return dict(d, refreshed=True)
                if n == "available_memory":
                    self.seen.add("avail")
                    if not d["refreshed"]:
                        e.report("fresh", ev, "the available memory is read without having been refreshed", "available memory not refreshed")
                    return dict(d, avail=ev.res)
            op = self.ops.get(ev.callee.id if hasattr(ev.callee, "id") else ev.callee) or self.ops.get(ev.path)
            if op == "num_active":
                return dict(d, active=d["active"] | {(ev.res, "b")})
            if op == "enumerate_active":
                return dict(d, enum=ev.res)
            if op == "stop":
                return self.stop(d, ev, st)
            if n in MINS and d["enum"] is not None and e.derives(ev.args[0], lambda x: x is d["enum"]):
                how = lossy(e, ev.args[0])
                c = strip(ev.args[1])
                if how:
                    e.report("victim", ev, f"the worker to be stopped is not chosen among all active workers ({how})", "victim among some")
                if c.tag == "clo":
                    self.keys[c.a[0]] = n
                self.picks.add(ev.res)
                return dict(d, pick=ev.res)
            if is_atomic(ev.path, "load"):
                self.loads[ev.res] = ev.args[0]
                a = strip(ev.args[0])
                if a in self.args and self.args[a] and self.elapsed(self.args[a][0]) and not self.keys.get(ev.fr.body.id):
                    return dict(d, compared=True)
            elif n in ("cmp", "partial_cmp"):
                self.args[strip(ev.res)] = tuple(e.peel(st, x) for x in ev.args)
        elif ev.kind == "ret" and ev.val is not None and ev.fr.body.id in self.keys:
            self.key(ev, self.keys[ev.fr.body.id])
        elif ev.kind == "cond" and ev.extra[0] == "k":
            return self.cond(d, ev, st)
        elif ev.kind == "assign" and ev.extra:
            (base, path) = ev.extra[0]
            if base == ("H", self.self_) and path and path[0][0] == "f":
                f, v = path[0][1], strip(ev.val)
                self.fields[f] += 1
                if d["avail"] is not None and (v is d["avail"] or v.tag == "agg" and v.a[1] == "Some" and strip(v.a[2][0]) is d["avail"]):
                    self.memories.add(f)
                if f == self.margin and len(path) == 1:
                    return self.assign(d, ev, v, st)
        elif ev.kind == "exit" and ev.extra == "return":
            self.exit(d, ev, st)

    def elapsed(self, v):
        v = strip(v)
        return v.tag == "fld" and v.a[1] == "elapsed"

    def key(self, ev, how):
        """the smallest key must be that of the worker that has been at its unit for the shortest time"""
        v = strip(ev.val)
        if v.tag == "agg" and v.a[0] == "tuple" and v.a[2]:
            v = strip(v.a[2][0])

        def time(v):
            a = self.loads.get(v)
            a = strip(a) if a is not None else None
            if a is None or last(self.eng.callpath.get(a, "")) not in ("index", "get", "get_unchecked") or a not in self.args:
                return None
            f = strip(self.args[a][0])
            return (f.a[1] if f.tag == "fld" else None), strip(self.args[a][1])
        if how == "min_by_key":
            t = time(v)
            ok = t is not None and t[0] == "elapsed" and t[1].tag == "cbarg"
        else:
            a = [time(strip(x)) for x in self.args.get(v, ())]
            ok = last(self.eng.callpath.get(v, "")) in ("cmp", "partial_cmp") and len(a) == 2 and None not in a and all(x[0] == "elapsed" and x[1].tag == "cbarg" for x in a) \
                and a[0][1].a[2:] < a[1][1].a[2:]
        self.seen.add("key")
        if not ok:
            self.eng.report("victim", ev, "the worker to be stopped is not chosen by how long it has been at its current unit", "victim not the youngest")

    def stop(self, d, ev, st):
        e = self.eng
        self.seen.add("stop")
        if d["pend"] > 0:
            e.report("one by one", ev, "another worker is stopped although the margin was not adapted to the number of workers left", "margin not adapted")
        elif d["low"] is not True and not (d["pend"] < 0):
            e.report("enough", ev, "a worker may be stopped although the available memory is not below the margin", "stop with enough memory")
        o = payload_of(ev.args[1])
        if o is None or o is not d["pick"]:
            if d["compared"] and d["enum"] is not None and e.derives(ev.args[1], lambda x: x is d["enum"]):
                self.unsure.add("the worker to be stopped is found by comparing times in a loop")
            elif o in self.picks:
                e.report("victim", ev, "a worker is stopped that was chosen before another one was stopped", "victim chosen earlier")
            else:
                e.report("victim", ev, "the worker that is stopped is not the active worker that has been at its unit for the shortest time", "victim not the youngest")
        act = frozenset((t, "a") for t, l in d["active"] if l == "b")
        return dict(d, pick=None, enum=None, active=act, pend=d["pend"] + 1, zero=None, low=None if d["pend"] + 1 == 0 else d["low"], compared=False, stops=min(d["stops"] + 1, 3))

    def cond(self, d, ev, st):
        e, v, k = self.eng, ev.val, ev.extra[1]
        r = {}
        # available memory and margin
        if d["avail"] is not None and self.margin is not None:
            cur = self.current(st)
            got = []
            for a, m in ((5, 9), (9, 5), (8, 9), (9, 8), (7, 7)):
                def get(x, a=a, m=m):
                    return a if x is d["avail"] else m if x is cur else None
                got.append(evaluate(v, get))
            if None not in got and len(set(got)) > 1:
                if got[:4] == [1, 0, 1, 0]:
                    self.seen.add("low")
                    self.threshold(d, ev, st)
                    r["low"] = bool(k)
                elif got[:4] == [0, 1, 0, 1]:
                    self.seen.add("low")
                    self.threshold(d, ev, st)
                    r["low"] = not k
                return dict(d, conds=frozenset(), **r)
        # number of workers left
        got = []
        for n in (0, 1, 5):
            def get(x, n=n):
                return next((n if l == "b" else n + 1 for t, l in d["active"] if t is x), None)
            got.append(evaluate(v, get))
        if None not in got and got == [1, 0, 0]:
            return dict(d, zero=bool(k))
        if None not in got and got == [0, 1, 1]:
            return dict(d, zero=not k)
        if d["low"] is None and d["pend"] == 0 and len(d["conds"]) < 8 and d["avail"] is not None and self.about(v):
            return dict(d, conds=d["conds"] | {(strip(v), k)})

    def about(self, v):
        return self.eng.derives(v, lambda x: x.tag == "fld" and self.field(x) in (self.margin, self.memory))

    def samples(self, d):
        for n, b in ((1, 1), (3, 1), (8, 9)):
            for M in (200, 1000):
                for L, A in ((5000, 5000), (5000, 6000), (5000, 4999), (5000, 4801), (5000, 4800), (5000, 4799), (5000, 4001), (5000, 4000), (5000, 3999), (5000, 17), (300, 0)):
                    env = {"M": M, "L": L, "b": b, d["avail"]: A}
                    env.update({t: n for t, l in d["active"]})
                    yield M, L, A, env

    def threshold(self, d, ev, st):
        """before workers are considered: margin at least the last decrease of the available memory, and no smaller than before"""
        if d["zero"] != "never" or d["pend"]:
            return
        self.seen.add("threshold")
        for M, L, A, env in self.samples(d):
            leaf = self.leaf(env)
            if any(x is not None and bool(x) != bool(k) for x, k in ((evaluate(c, leaf), k) for c, k in d["conds"])):
                continue
            m = M if d["new"] is None else evaluate(d["new"], leaf)
            if m is None:
                self.eng.report("margin", ev, "it is not known what the margin becomes when memory use grows faster than expected", "unknown margin")
                return
            if m < L - A:
                self.eng.report("margin", ev, f"the margin may remain smaller than the growth of memory use that was just observed (margin {M} becomes {m}, growth {L - A})", "margin below growth")
                return
            if m < M:
                self.eng.report("margin", ev, f"the margin shrinks although no worker was stopped ({M} becomes {m}, growth {L - A})", "margin lowered")
                return

    def assign(self, d, ev, v, st):
        e = self.eng
        if d["pend"] == 0 and d["low"] is None and d["zero"] == "never":
            return dict(d, new=v)
        if d["pend"] == 0 and d["low"] is not True:
            e.report("margin", ev, "the margin changes although no worker is stopped", "margin changed")
            return None
        old = strip(ev.extra[1]) if len(ev.extra) > 1 and ev.extra[1] is not None else None
        self.seen.add("adapt")
        if d["stops"] - (d["pend"] > 0) > (d["new"] is None):
            return dict(d, pend=d["pend"] - 1, low=None)  # the same code as for the first two workers; the nesting of earlier margins is not tracked further
        for M in (100_000, 7_000_000_001):
            for n, b in ((1, 1), (2, 1), (5, 1), (8, 9)):
                env = {"b": b}
                if old is not None:
                    env[old] = M
                env.setdefault("M", M)
                env.update({t: n if d["pend"] == 0 or l == "a" else n - 1 for t, l in d["active"]})
                m = evaluate(v, self.leaf(env))
                t = n + b
                if m is None or abs(m - M * (t - 1) // t) > t + 1:
                    e.report("adapt", ev, "the margin does not shrink in proportion to the number of workers left" + ("" if m is None else f" ({M} for {t} threads becomes {m} for {t - 1})"), "margin not proportional")
                    return dict(d, pend=d["pend"] - 1, low=None)
        return dict(d, pend=d["pend"] - 1, low=None)

    def exit(self, d, ev, st):
        e = self.eng
        v = e.variant(st, e.peel(st, ev.val)) if ev.val is not None else None
        if v == "Running":
            self.seen.add("Running")
            if d["low"] is not False:
                e.report("low", ev, "monitoring may end without workers having been stopped until the available memory suffices", "low memory ignored")
            if d["zero"] is not False and d["zero"] != "never":
                e.report("status", ev, "workers are said to be running although the last one may have been stopped", "running without workers")
        elif v == "KilledEveryone":
            self.seen.add("KilledEveryone")
            if d["zero"] is not True:
                e.report("status", ev, "all workers are said to be stopped although some may be running", "stopped with workers")
        else:
            e.report("status", ev, "it is not known what is said about the workers that are left", "unknown status")
        if self.memory is not None and d["avail"] is not None:
            m = strip(e.load_loc(st, (("H", self.self_), (("f", self.memory),))))
            if m is not d["avail"] and not (m.tag == "agg" and m.a[1] == "Some" and strip(m.a[2][0]) is d["avail"]):
                e.report("record", ev, "the available memory is not remembered for the next time", "available memory not recorded")


class Survey(Pressure):
    """finds the field that is compared with the available memory"""

    def __init__(self, ctx, body, ops):
        Pressure.__init__(self, ctx, body, ops)
        self.cmp = set()

    def go(self, d, ev, st):
        if ev.kind == "cond" and d["avail"] is not None:
            v = ev.val
            while v.tag == "not":
                v = v.a[0]
            if v.tag == "op" and len(v.a) == 3 and v.a[0] in ("Lt", "Le", "Gt", "Ge"):
                a, b = strip(v.a[1]), strip(v.a[2])
                for x, y in ((a, b), (b, a)):
                    if x is d["avail"] and self.field(y) is not None:
                        self.cmp.add(self.field(y))
        if ev.kind in ("call", "assign"):
            return Pressure.go(self, d, ev, st)

    def stop(self, d, ev, st):
        return None


class Made(Calls):
    """initial values of the monitor"""
    init = (None, False)

    def __init__(self, margin, memory, types):
        Calls.__init__(self)
        self.margin, self.memory, self.makes, self.values, self.exits = margin, memory, types, [], []

    def step(self, q, ev, st):
        avail, fresh = q
        self.note(ev)
        e = self.eng
        if ev.kind == "call" and not ev.inl and ev.path.startswith("sysinfo::"):
            if last(ev.path).startswith("refresh"):
                return (avail, True)
            if last(ev.path) == "available_memory":
                if not fresh:
                    e.report("fresh", ev, "the available memory is read without having been refreshed", "available memory not refreshed")
                return (ev.res, fresh)
        elif ev.kind == "exit" and ev.extra == "return":
            v = e.peel(st, ev.val)
            m = e.load_loc(st, (("H", v), ())) if v.tag != "agg" else v
            self.exits.append((e.project(v, ("f", self.margin)), strip(e.project(v, ("f", self.memory))), avail, ev))
        return q


class Collector(Automaton):
    """q = (why the collector last woke up, deadlines computed since the last examination, result of an examination)"""
    init = ("start", frozenset(), None)
    unwind = False
    max_disj = 64

    def __init__(self, update):
        self.update, self.seen = update, set()

    def step(self, q, ev, st):
        why, adds, res = q
        e = self.eng
        if ev.kind == "call":
            n = last(ev.path)
            if is_recv(ev.path) and not ev.inl:
                self.seen.add("recv")
                if why == "timeout":
                    e.report("examined", ev, "results are awaited again after the time was up without the available memory having been examined", "no examination")
                if res is not None and res[1] is None:
                    e.report("everyone", ev, "the measurement goes on without looking at whether workers are left", "status ignored")
                elif res is not None and res[1] == "KilledEveryone":
                    e.report("everyone", ev, "the measurement goes on although all workers were stopped", "continues without workers")
                return ("recv", adds, None)
            if not ev.inl and "Instant" in ev.path and n in ("add", "checked_add", "add_assign"):
                if why == "Ok" and any(mentions(a, t) for a in ev.args[:1] for t in adds):
                    e.report("put off", ev, "each result that arrives puts off the next examination of the available memory (and of the request to stop)", "examination put off by results")
                return (why, adds | {ev.res}, res)
            if ev.callee is not None and getattr(ev.callee, "id", ev.callee) in self.update and not ev.inl:
                self.seen.add("update")
                return ("examined", adds, (ev.res, None))
        elif ev.kind == "outcome":
            v = strip(ev.val)
            if res is not None and v is strip(res[0]):
                return (why, adds, (res[0], ev.extra))
            if ev.extra in ("Ok", "Err") and is_recv(e.callpath.get(v, "")):
                return ("Ok" if ev.extra == "Ok" else "err", adds, res)
            if ev.extra in ("Timeout", "Disconnected") and e.derives(v, lambda x: x.tag == "call" and is_recv(e.callpath.get(x, ""))):
                self.seen.add(ev.extra)
                return ("timeout" if ev.extra == "Timeout" else "disc", frozenset() if ev.extra == "Timeout" else adds, res)
        elif ev.kind == "cond" and res is not None and strip(ev.val) is strip(res[0]):
            return q
        elif ev.kind == "scope_end" and ev.extra != "panic":
            v = e.peel(st, ev.val) if ev.val is not None else None
            if res is not None and res[1] != "Running":
                self.seen.add("failed")
                p = payload(e, v, "Err") if v is not None and e.variant(st, v) == "Err" else None
                p = e.variant(st, e.peel(st, p)) if p is not None else None
                if e.variant(st, v) != "Err" if v is not None else True:
                    e.report("everyone", ev, "the measurement may succeed although all workers were stopped", "success without workers")
                elif p not in (None, "OutOfMemory"):
                    e.report("everyone", ev, f"the lack of memory is reported as {p}", "wrong error")
        return q


class Times(Automaton):
    """how long a worker has been at its unit: q = (reset since the job was taken, published since the last wait, a compiler is running)"""
    init = (False, False, False)
    unwind = False

    def __init__(self):
        self.seen = set()

    def step(self, q, ev, st):
        reset, kept, run = q
        e = self.eng
        if ev.kind == "call" and not ev.inl:
            s = short(ev.path)
            if is_scan(ev.path):
                return (False, False, False)
            if is_atomic(ev.path, "store", "fetch_add", "swap") and len(ev.args) > 1:
                v = strip(ev.args[1])
                if last(ev.path) == "fetch_add":
                    return (reset, True, run) if v.tag == "k" and v.a[0] == 1 else q
                if v.tag == "k" and v.a[0] == 0 and self.mine(ev.args[0]):
                    self.seen.add("reset")
                    return (True, kept, run)
                if self.mine(ev.args[0]) and (v.tag == "op" and v.a[0] == "Add" and v.a[2].tag == "k" and v.a[2].a[0] > 0 or v.tag == "phi" or v.tag == "k" and v.a[0] > 0):
                    self.seen.add("kept")
                    return (reset, True, run)
            elif s == "Command::spawn":
                self.seen.add("spawn")
                if not reset:
                    e.report("time", ev, "a worker starts a unit without setting back the time it has been at it", "time not reset")
                return (reset, True, True)
            elif last(ev.path) in ("wait_timeout", "wait_timeout_ms", "try_wait") and "Child" in ev.path and run:
                self.seen.add("wait")
                if not kept:
                    e.report("time", ev, "a worker keeps waiting for its compiler without telling how long it has been at it", "time not published")
                return (reset, False, run)
        return q

    def mine(self, a):
        return strip(a).tag != "static"


class Shifts(Calls):
    """panics on arithmetic over bit positions: q = (conditions, the last event was a condition)"""
    init = (frozenset(), False)
    max_disj = 64

    def step(self, q, ev, st):
        self.note(ev)
        conds, just = q
        if ev.kind == "cond" and ev.extra[0] == "k" and len(conds) < 12:
            return (conds | {(strip(ev.val), ev.extra[1])}, True)
        if ev.kind == "panic" and just:
            for t in range(64):
                def get(x, t=t):
                    n = self.name(x) if x.tag == "call" else None
                    return {"trailing_zeros": t, "leading_zeros": 63 - t, "count_ones": 1, "ilog2": t, "count_zeros": 63}.get(n)
                vals = [(evaluate(c, get), k) for c, k in conds]
                if any(x is not None and bool(x) != bool(k) for x, k in vals):
                    continue
                if any(x is not None for x, k in vals):
                    self.eng.report("enumerate", ev, f"enumerating the active workers panics when the only one left in its word has index {t} modulo 64", "enumeration overflows")
                    break
        return (conds, False)


@check("M09")
def m09(ctx):
    ctx.rule("In MonitorServer::update a worker is stopped only on paths where the freshly refreshed available memory was compared with the current value of the margin and found below; "
             "its index is the payload of min_by_key over all active workers, the key being its entry of `elapsed`, chosen since the last stop; after each stop the margin (evaluated symbolically) is "
             "(t-1)/t of its value, t being the active and assumed threads, and the comparison is made anew; Running is returned only if memory suffices and a worker is left, "
             "KilledEveryone only if none is; before that the margin (evaluated on samples) covers the last decrease of memory and does not shrink; the collector examines memory after each timeout, "
             "does not put off the next one when a result arrives, and fails with OutOfMemory when no worker is left; a worker resets its time before each unit and publishes it at each poll.")
    ts, col, wrk = roles(ctx)
    up = bodies(ctx.p, MAIN + "MonitorServer::update")
    ops, ids = {}, set()
    for n in ("num_active", "enumerate_active", "stop"):
        bs = bodies(ctx.p, MAIN + "StopServer::" + n)
        ctx.anchor("StopServer::" + n, bs)
        for b in bs:
            ops[b.id] = ops[b.path] = n
            ids.add(b.id)
    ctx.anchor("MonitorServer::update", up)
    for b in up:
        s = Survey(ctx, b, ops)
        ctx.run(b, s, opaque=ids)
        if not (ctx.anchor("comparison of the available memory with a margin", s.cmp) and ctx.anchor("field that remembers the available memory", s.memories)):
            continue
        memory = sorted(s.memories)[0]
        s.cmp -= s.memories
        if not ctx.anchor("margin that the available memory is compared with", s.cmp):
            continue
        margin = sorted(s.cmp)[0]
        ctx.sample("fields", f"margin {margin}, memory {memory}")
        if len(s.cmp) > 1:
            ctx.violation("margin", b.path, "the available memory is compared with several values: " + ", ".join(sorted(s.cmp)), key="several margins")
        a = Pressure(ctx, b, ops, margin, memory)
        ctx.run(b, a, opaque=ids)
        for x in ("avail", "low", "stop", "adapt", "threshold", "Running", "KilledEveryone"):
            ctx.anchor(f"monitor event '{x}'", x in a.seen)
        if not a.unsure:
            ctx.anchor("key by which the worker to be stopped is chosen", "key" in a.seen)
        for u in a.unsure:
            ctx.sample("assumed", u)
        ctx.count("monitor events", len(a.seen))
        made(ctx, margin, memory)
    for t in col:
        a = Collector({b.id for b in up})
        f = t.base.fork(a)
        f.no_inline |= {b.id for b in up}
        try:
            f.run_spawned(t.rec)
        except Incomplete as x:
            ctx.undecided(t.body.path, x)
        ctx.absorb(f, t.body.path)
        for x in ("recv", "update", "Timeout", "failed"):
            ctx.anchor(f"collector event '{x}'", x in a.seen)
        ctx.count("collector threads")
    for t in wrk:
        a = Times()
        ctx.explore(t, a)
        for x in ("reset", "spawn", "wait", "kept"):
            ctx.anchor(f"worker event '{x}'", x in a.seen)
        ctx.count("worker threads")
    todo = list(bodies(ctx.p, MAIN + "StopServer::enumerate_active"))
    while todo:
        b = todo.pop()
        kids = ctx.p.children.get(b.id, [])
        todo += kids
        if b.kind == "closure":
            ctx.run(b, Shifts())
            ctx.count("enumeration closures")


def made(ctx, margin, memory):
    for b in bodies(ctx.p, MAIN + "MonitorServer::new"):
        a = Made(margin, memory, ())
        e = ctx.run(b, a)
        ctx.anchor("constructed monitor", a.exits)
        for m, l, avail, ev in a.exits:
            vals = []
            for c, k in ((1, 1), (4, 1), (4, 16)):
                def get(x, c=c, k=k):
                    n = a.name(x) if x.tag == "call" else None
                    return c if n == "len" else k if n == "load" else None
                vals.append(evaluate(m, get))
            if None in vals:
                ctx.sample("assumed", "initial margin is not evaluated")
            elif min(vals) <= 0:
                ctx.violation("initial", b.path, f"the margin may initially be {min(vals)}", key="no initial margin")
            if avail is None or not (l is avail or l.tag == "agg" and l.a[1] == "Some" and strip(l.a[2][0]) is avail):
                ctx.violation("initial", b.path, "the available memory is not recorded when monitoring starts", key="no initial memory")
            ctx.count("initial states")
