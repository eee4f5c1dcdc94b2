"""Full-build profiling (cmakeperf::measure): properties M01-M09."""
from base import *

START = "cmakeperf::measure::Measurement::start"
STEAL = "crossbeam_deque::deque::Steal"
ITEM = {"next", "next_back", "pop", "pop_front", "pop_back", "nth"}


def roles(ctx):
    """threads of a measurement by what they do: caller, collector, workers, pipe readers"""
    ts = ctx.threads(START)
    col = [t for t in ts if t.rec is not None and any(is_recv(x) for x in t.after.externs)]
    wrk = [t for t in ts if t.rec is not None and t.calls("Command::spawn")]
    ctx.anchor("thread that collects results (receives from the workers' channel)", col)
    ctx.anchor("thread that runs compilation jobs (spawns processes)", wrk)
    ctx.count("threads analysed", len(ts))
    for t in ts:
        ctx.sample("threads", t.body.path)
    return ts, col, wrk


def jobs_tokens(ctx, ts):
    """tokens of the job collection built by the caller from the database entries"""
    root = ts[0]
    db = [mk("arg", root.body.id, i) for i in range(1, root.body.argc + 1)
          if "CompilationDatabase" in (root.body.local_ty(i).peel().path or "")]
    return db


class Col(Automaton):
    """shared event vocabulary of collector automata"""
    max_disj = 8

    def completion(self, ev, st):
        """variant of the result given to the completion callback, or None if this is not it"""
        if ev.kind != "callback" or len(ev.args) != 1:
            return None
        v = self.eng.peel(st, ev.args[0])
        return self.eng.variant(st, v) or "?", v

    def progress(self, ev):
        return ev.kind == "callback" and len(ev.args) == 0


def counter_step(val, old, eng=None):
    """+1/-1 if `place = old ± 1`, 0 if unrelated, None if another arithmetic update"""
    if val is not None and old is not None and val.tag == "k" and old.tag == "k" and all(isinstance(x.a[0], int) for x in (val, old)):
        d = val.a[0] - old.a[0]
        return d if abs(d) == 1 else 0
    if eng is not None and val is not None and old is not None and val.tag == old.tag == "phi" and val.a[0] == old.a[0] and val is not old:
        # both were merged at the same point: each of the values merged has to be one off its old value
        def merged(v):
            out, todo = set(), [v]
            while todo:
                for x in eng.deriv.get(todo.pop(), ()):
                    if x.tag == "phi" and x.a == v.a:
                        todo.append(x)
                    elif x is not v:
                        out.add(x)
            return out
        olds, vals = merged(old), merged(val)
        for s in (1, -1):
            up = lambda o: mk("k", o.a[0] + s) if o.tag == "k" and isinstance(o.a[0], int) else None
            if olds and vals and all(any(v is up(o) or o.tag != "k" and counter_step(v, o) == s for v in vals) for o in olds) \
                    and all(any(v is up(o) or o.tag != "k" and counter_step(v, o) == s for o in olds) for v in vals):
                return s
        return 0
    if val is None or old is None or val.tag != "op" or val.a[0] not in ("Add", "Sub") or len(val.a) < 3:
        return 0
    a, b = val.a[1], val.a[2]
    if val.a[0] == "Add" and a is not old:
        a, b = b, a
    if a is not old:
        return 0
    if b.tag == "k" and b.a[0] == 1:
        return 1 if val.a[0] == "Add" else -1
    return None


# =============================================================== M01
class Complete(Col):
    """q = (bal, seen_recv, exhausted, msg, ser, dirty)
    msg: None | (R, stage); ser: None | (S token)"""
    init = (0, False, False, None, None, False)

    def __init__(self, ctx, db):
        self.ctx, self.db = ctx, db
        self.rows = set()
        self.seen = set()

    def dj(self, v):
        return self.eng.derives(v, lambda x: x in self.db)

    def is_len(self, v):
        v = strip(v)
        return v.tag == "call" and last(self.eng.callpath.get(v, "")) in ("len", "count") and self.dj(v)

    def dlen(self, v):
        return self.eng.derives(v, self.is_len)

    def exhausted(self, c, fact, st):
        """does learning `c == fact` say that as many units as there are jobs were counted"""
        if fact[0] != "k":
            return False
        neg = False

        def at_counter(x):
            return any(not l[1] and st.s.get(l[0]) is x for l in self.up)
        while c.tag == "not":
            c, neg = c.a[0], not neg
        val = bool(fact[1]) ^ neg if c.tag == "op" else fact[1]
        if c.tag == "op" and c.a[0] == "Lt":
            a, b = c.a[1], c.a[2]
            if a.tag == "k" and a.a[0] == 0 and self.dlen(b) and not val:
                return True                       # !(0 < remaining)
            if b.tag == "k" and b.a[0] == 1 and self.dlen(a) and val:
                return True                       # remaining < 1
            if self.is_len(b) and not val and (a.tag != "k" or at_counter(a)):
                return True                       # !(done < total)
        if c.tag == "op" and c.a[0] == "Eq":
            a, b = c.a[1], c.a[2]
            if b.tag == "k" and b.a[0] == 0 and self.dlen(a) and val:
                return True
            if (self.is_len(a) or self.is_len(b)) and val and all(x.tag != "k" or at_counter(x) for x in (a, b)):
                return True
        if c.tag in ("call", "phi", "fld", "arg", "conv") and fact[1] == 0 and self.dlen(c):
            return True
        return False

    def step(self, q, ev, st):
        bal, seen, exh, msg, ser, dirty = q
        e = self.eng
        k = ev.kind
        if k == "call" and not ev.inl:
            p = ev.path
            if is_recv(p):
                self.leave(q, ev, "waits for the next result")
                self.seen.add("recv")
                if bal not in (0, 1):
                    e.report("count", ev, f"units recorded and units counted as finished differ by {bal} when waiting for the next result", "balance at receive")
                return (bal, True, False, (ev.res, "?"), None, dirty)
            if p.startswith("csv::") and last(p) in ("serialize", "write_record", "write_byte_record"):
                self.seen.add("row")
                src = ev.args[1] if len(ev.args) > 1 else None
                ok = msg is not None and msg[1] == "profile" and src is not None and e.derives(src, lambda x: x is msg[0])
                if not ok:
                    e.report("row", ev, "a row is written that is not the profile that was just received", "foreign row")
                self.rows.add(ev.where())
                return (bal + 1 if False else bal, seen, False, (msg[0], "written") if msg else None, ev.res, True)
            if p.startswith("csv::") and last(p) in ("flush", "into_inner"):
                self.seen.add("flush")
                return (bal, seen, exh, msg, ("flush", ev.res), dirty)
            if is_queue_push(p) and msg is not None and len(ev.args) > 1 and e.derives(ev.args[1], lambda x: x is msg[0]):
                self.seen.add("requeue")
                return (bal, seen, False, (msg[0], "requeued"), ser, dirty)
        elif k == "outcome":
            v, n = strip(ev.val), ev.extra
            if ser is not None:
                s = ser[1] if isinstance(ser, tuple) else ser
                if v is s:
                    if isinstance(ser, tuple):
                        return (bal, seen, exh, msg, None if n == "Ok" else "ioerr", False if n == "Ok" else dirty)
                    if n == "Ok":
                        return (max(bal - 1, -2), seen, exh, (msg[0], "done") if msg else None, None, dirty)
                    return (bal, seen, exh, msg, "ioerr", dirty)
            if msg is not None:
                r = msg[0]
                if v is r:
                    return (bal, seen, exh, None if n == "Err" else (r, "got"), ser, dirty)
                if v is strip(payload(e, r, "Ok")):
                    return (bal, seen, exh, (r, "profile" if n == "Ok" else "err"), ser, dirty)
                if msg[1] in ("err",) and mentions(v, r) and self.carries_job(ev.ty, n):
                    return (bal, seen, exh, (r, "job"), ser, dirty)
        elif k == "assign":
            loc, old = ev.extra
            s = counter_step(ev.val, old, e)
            if s != 0 and old is not None and self.counts(old, loc):
                self.seen.add("counter")
                self.counted.add(loc)
                if s is None:
                    e.report("count", ev, "the number of remaining units is changed by something else than one", "counter step")
                    return q
                bal2 = bal + 1
                if abs(bal2) > 2:
                    e.report("count", ev, "more units are counted as finished than were recorded", "counter over")
                    return None
                return (bal2, seen, False, msg, ser, dirty)
        elif k == "cond":
            c = ev.val
            if self.dlen(c):
                if self.exhausted(c, ev.extra, st):
                    self.seen.add("exhausted")
                    if not seen and self.first_bad(c):
                        e.report("count", ev, "the expected number of results does not start out as the number of jobs", "counter start")
                    return (bal, seen, True, msg, ser, dirty)
        elif k == "callback":
            r = self.completion(ev, st)
            if r is not None:
                if r[0] != "Err":
                    self.success(q, ev)
                return None if False else q
        return q

    counted = frozenset()

    def counts(self, old, loc):
        if self.dlen(old):
            return True
        return loc in self.up

    up = frozenset()

    def first_bad(self, c):
        """before the first result, the condition must compare the exact number of jobs"""
        lens = []
        st = [c]
        while st:
            x = st.pop()
            if isinstance(x, V):
                if self.is_len(x):
                    lens.append(x)
                elif x.tag in ("op", "not", "conv", "old"):
                    st.extend(y for y in x.a if isinstance(y, V))
                elif x.tag == "k":
                    pass
                elif self.dlen(x):
                    return x.tag not in ("phi",)
        # arithmetic inside the compared operands
        def arith(x):
            return isinstance(x, V) and ((x.tag == "op" and x.a[0] in ("Add", "Sub", "Mul", "Div", "Shr", "Shl", "BitAnd")) or any(arith(y) for y in x.a if isinstance(y, V) and x.tag in ("op", "not", "conv", "old")))
        return arith(c)

    def carries_job(self, adt, variant):
        a = self.eng.p.adts.get(adt)
        for v in (a or {}).get("variants", ()):
            if v["name"] == variant:
                return any("t" in f and any(t.path == ENTRY for t in f["t"].walk()) for f in v["fields"])
        return False

    def leave(self, q, ev, what):
        bal, seen, exh, msg, ser, dirty = q
        e = self.eng
        if ser == "ioerr":
            e.report("io", ev, f"an error while writing the profile is discarded: the collector {what}", "io error " + what)
        elif ser is not None and not isinstance(ser, tuple):
            e.report("io", ev, f"the result of writing a profile row is not checked before the collector {what}", "row unchecked " + what)
        if msg is None or msg[1] in ("done", "requeued"):
            return
        if msg[1] == "written":
            return
        t = {"?": "the outcome of receiving a result is not examined", "got": "a received result is not examined",
             "profile": "a received unit profile is not recorded", "err": "an error reported by a worker is discarded",
             "job": "a job handed back by a stopped worker is not queued again"}[msg[1]]
        if msg[1] == "?" and what.startswith("waits"):
            e.report("lost", ev, f"{t} before the collector {what}", "unexamined")
            return
        e.report("lost", ev, f"{t}: the collector {what}", msg[1] + " " + what)

    def success(self, q, ev):
        bal, seen, exh, msg, ser, dirty = q
        e = self.eng
        self.seen.add("success")
        self.leave(q, ev, "reports success")
        if not exh:
            e.report("early", ev, "success is reported although the number of recorded units was not compared with the number of jobs", "success unguarded")
        if bal != 0:
            e.report("count", ev, f"success is reported with units recorded and units counted differing by {bal}", "balance at success")
        if dirty or isinstance(ser, tuple):
            e.report("io", ev, "success is reported before the profile was flushed successfully", "flush")


class UpCounters(Col):
    """locations counted upwards and compared with the number of jobs"""

    def __init__(self, base):
        self.b = base
        self.cmp, self.locs = set(), {}

    def step(self, q, ev, st):
        if ev.kind == "assign" and counter_step(ev.val, ev.extra[1], self.eng) == 1:
            self.locs.setdefault(ev.extra[0], set()).add(ev.extra[1])
        if ev.kind == "cond":
            self.b.eng = self.eng
            c = ev.val
            while c.tag == "not":
                c = c.a[0]
            if c.tag == "op" and c.a[0] in ("Lt", "Eq") and any(self.b.is_len(x) for x in c.a[1:]):
                self.cmp |= {x for x in c.a[1:] if not self.b.is_len(x)}
        return q


class Queueing(Col):
    """every job reaches the queue before the first result is awaited.
    q = (pending item | None, drained)"""
    init = (None, False)

    def __init__(self, ctx, db):
        self.ctx, self.db = ctx, db
        self.pushed = 0

    def dj(self, v):
        return self.eng.derives(v, lambda x: x in self.db)

    def coll(self, v):
        """is v the collection of jobs itself (and not an item)"""
        v = strip(root_of(v)) if v.tag not in ("call", "lazy", "phi") else v
        return v.tag in ("call", "lazy", "phi", "arg") and self.dj(v) and last(self.eng.callpath.get(v, "")) not in ITEM

    def step(self, q, ev, st):
        pend, drained = q
        e = self.eng
        if ev.kind == "call":
            n, p = last(ev.path), ev.path
            if ev.inl:
                cb = [a for a in ev.args if a.tag == "cbarg" and self.dj(a)]
                if cb:
                    if pend is not None:
                        self.lost(ev)
                    return (cb[0], drained)
                return q
            if is_queue_push(p) and len(ev.args) > 1:
                self.pushed += 1
                if pend is not None and e.derives(ev.args[1], lambda x: x is pend):
                    return (None, drained)
                return q
            a0 = ev.args[0] if ev.args else None
            if a0 is not None and n in ITEM and self.coll(a0) and "mpsc" not in p and not p.startswith("crossbeam"):
                if pend is not None:
                    self.lost(ev)
                return (ev.res, drained)
            if a0 is not None and n in DROPPING and self.coll(a0):
                e.report("dropped", ev, f"`{n}` on the collection of jobs may leave out compilation units", "adapter " + n)
            if a0 is not None and n in ("for_each", "try_for_each", "extend") and any(self.coll(a) for a in ev.args):
                return (pend, True)
            if is_recv(p):
                if pend is not None:
                    self.lost(ev)
                if not drained:
                    e.report("dropped", ev, "results are awaited although not every job was seen to be queued", "not drained")
                return None
        elif ev.kind == "outcome" and pend is not None and strip(ev.val) is strip(pend):
            if ev.extra in ("None",):
                return (None, True)
        elif ev.kind == "ret" and pend is not None and pend.tag == "cbarg" and (ev.fr.parent, ev.fr.pbb) == pend.a[:2]:
            self.lost(ev)
        return q

    def lost(self, ev):
        self.eng.report("dropped", ev, "a job taken from the collection of jobs is not queued on some path", "item not queued")


class Feeding(Automaton):
    """caller side: entries reach the collection of jobs without a dropping adapter"""

    def __init__(self, db):
        self.db = db
        self.seen = False

    def step(self, q, ev, st):
        if ev.kind == "call" and not ev.inl and ev.args:
            n = last(ev.path)
            if any(self.eng.derives(a, lambda x: x in self.db) for a in ev.args[:1]):
                self.seen = True
                if n in DROPPING:
                    self.eng.report("dropped", ev, f"`{n}` on the database entries may leave out compilation units", "adapter " + n)
        return q


@check("M01")
def m01(ctx):
    ctx.rule("On every path of the thread that collects results: each received message is examined, each received unit profile is serialized exactly once "
             "and the result of doing so is checked, each job handed back is queued again, every other error ends the measurement with an error; the completion "
             "callback receives Ok only after the count of recorded units was compared equal to the number of jobs, with counted = recorded, and after a checked flush. "
             "Every job of the database is queued before the first result is awaited, no item-dropping adapter on the way.")
    ts, col, wrk = roles(ctx)
    db = jobs_tokens(ctx, ts)
    ctx.anchor("CompilationDatabase argument of " + START, db)
    if not (col and db):
        return
    f = Feeding(db)
    ctx.explore(ts[0], f)
    for t in col:
        a = Complete(ctx, db)
        u = UpCounters(a)
        ctx.explore(t, u)
        a.up = frozenset(l for l, olds in u.locs.items() if any(o.tag != "k" for o in olds & u.cmp)
                         or any(o.tag == "phi" for o in olds) and any(c.tag == "phi" and (c.a[1], ()) == l for c in u.cmp))
        a.counted = set()
        ctx.explore(t, a)
        for x in ("recv", "row", "flush", "exhausted", "success", "counter", "requeue"):
            ctx.anchor(f"collector event '{x}'", x in a.seen)
        ctx.count("row sites", len(a.rows))
        b = Queueing(ctx, db)
        ctx.explore(t, b)
        ctx.anchor("queueing of jobs", b.pushed)
        ctx.count("push sites", b.pushed and 1)
    ctx.count("obligation kinds", 9)


# =============================================================== M02
class Progress(Col):
    """q = (serialize token | None, rows not yet announced)"""
    init = (None, 0)

    def __init__(self):
        self.seen = set()

    def step(self, q, ev, st):
        s, n = q
        e = self.eng
        if ev.kind == "call" and not ev.inl:
            if ev.path.startswith("csv::") and last(ev.path) in ("serialize", "write_record", "write_byte_record"):
                self.seen.add("row")
                return (ev.res, n)
            if is_recv(ev.path) and n:
                e.report("missing", ev, "the collector waits for the next result without having announced the unit that was just recorded", "no callback before receive")
                return (None, 0)
        elif ev.kind == "outcome" and s is not None and strip(ev.val) is s:
            return (None, n + 1 if ev.extra == "Ok" else n)
        elif ev.kind == "callback":
            if self.progress(ev):
                self.seen.add("callback")
                if n <= 0:
                    e.report("spurious", ev, "the progress callback is invoked for a unit that was not recorded (or twice)", "spurious callback")
                    return (s, 0)
                return (s, n - 1)
            r = self.completion(ev, st)
            if r is not None and r[0] != "Err" and n:
                e.report("missing", ev, "success is reported without having announced the last recorded unit", "no callback before success")
        return q


@check("M02")
def m02(ctx):
    ctx.rule("On every path of the collecting thread the progress callback is invoked exactly once after each successfully written row "
             "and before the next receive or the successful completion callback, and never otherwise.")
    ts, col, wrk = roles(ctx)
    for t in col:
        a = Progress()
        ctx.explore(t, a)
        ctx.anchor("writing of profile rows", "row" in a.seen)
        ctx.anchor("progress callback", "callback" in a.seen)
        ctx.count("collector threads")


# =============================================================== M03
def kill_flags(ctx, ts):
    """atomics stored by dropping a Measurement"""
    p = ctx.p
    im = next((im for im in p.impl_idx.get("core::ops::drop::Drop", ()) if im["self_ty"].path == "cmakeperf::measure::Measurement"), None)
    ctx.anchor("destructor of Measurement", im)
    return im


class Outcome(Col):
    """exactly one completion call on each exit, its error variant matches what happened.
    q = (calls, kill observed, no worker left)"""
    init = (0, False, False, False)
    unwind = True

    def __init__(self, flags):
        self.flags = flags
        self.seen = set()

    def is_flag(self, v):
        return self.eng.derives(v, lambda x: x in self.flags) if v.tag in ("fld", "as", "conv", "old") else strip(v) in self.flags

    def step(self, q, ev, st):
        n, kill, none, caught = q
        e = self.eng
        if ev.kind == "caught":
            return (n, kill, none, True)
        if ev.kind == "make":
            if ev.extra == "Killed" and not kill:
                e.report("killed", ev, "the measurement is declared killed without having observed a request to stop", "spurious Killed")
            if ev.extra == "OutOfMemory":
                self.seen.add("oom")
                if not none:
                    e.report("oom", ev, "out-of-memory is declared although some worker may still be running", "early OutOfMemory")
        if ev.kind == "cond":
            v = strip(ev.val)
            pos = ev.extra[0] == "k" and ev.extra[1] == 1
            if v.tag == "call" and is_atomic(e.callpath.get(v, ""), "load") and self.is_flag(self.arg0(v)):
                self.seen.add("kill")
                if pos:
                    return (n, True, none, caught)
            elif pos and v.tag == "op" and v.a[0] == "Eq" and v.a[2].tag == "k" and v.a[2].a[0] == 0 and self.counted(v.a[1]):
                return (n, kill, True, caught)
            elif pos and v.tag == "op" and v.a[0] == "Lt" and v.a[2].tag == "k" and v.a[2].a[0] == 1 and self.counted(v.a[1]):
                return (n, kill, True, caught)
            elif ev.extra == ("k", 0) and v.tag == "op" and v.a[0] == "Lt" and v.a[1].tag == "k" and v.a[1].a[0] == 0 and self.counted(v.a[2]):
                return (n, kill, True, caught)
            elif ev.extra == ("k", 0) and v.tag in ("call", "phi") and self.counted(v) and last(e.callpath.get(v, "")) != "load":
                return (n, kill, True, caught)
        elif ev.kind == "outcome" and ev.extra == "None" and self.counted(strip(ev.val)):
            return (n, kill, True, caught)
        elif ev.kind == "callback":
            r = self.completion(ev, st)
            if r is not None:
                var, v = r
                if n:
                    e.report("twice", ev, "the completion callback may be invoked twice", "twice")
                self.seen.add("completion")
                err = strip(self.eng.peel(st, payload(e, v, "Err"))) if var != "Ok" else None
                ev_name = e.variant(st, err) if err is not None else None
                if kill and not caught and ev_name != "Killed":
                    e.report("killed", ev, f"the measurement observed a request to stop but reports {ev_name or var}", f"kill reported as {ev_name or var}")
                return (min(n + 1, 2), kill, none, caught)
        elif ev.kind == "exit":
            if n == 0:
                e.report("silent", ev, f"the measurement thread may end ({ev.extra}) without invoking the completion callback", "silent " + ev.extra)
        elif ev.kind == "call" and is_recv(ev.path):
            if kill:
                e.report("killed", ev, "the collector keeps waiting for results after having observed a request to stop", "receive after kill")
            return (n, kill, False, caught)
        elif ev.kind == "maypanic" and ev.path == "<callback>" and len(ev.args) == 1:
            return None  # a panic of the completion callback itself
        return q

    def arg0(self, tok):
        return next((x for x in self.args_of.get(tok, ())), UNIT)

    def counted(self, v):
        """a number (or iteration) of stop flags still raised: computed from words of atomics that the collector also stores to"""
        return self.eng.derives(v, lambda x: x.tag == "call" and is_atomic(self.eng.callpath.get(x, ""), "load")
                                and self.arg0(x).tag != "static" and not self.is_flag(self.arg0(x)))


class Loads(Automaton):
    unwind = False

    def __init__(self):
        self.args = {}

    def step(self, q, ev, st):
        if ev.kind == "call" and is_atomic(ev.path, "load") and ev.args:
            self.args.setdefault(ev.res, [])
            if ev.args[0] not in self.args[ev.res]:
                self.args[ev.res].append(ev.args[0])
        return q


class DropsFlag(Automaton):
    """Measurement's destructor: q = (flag stored, joined)"""
    init = (False, False)

    def __init__(self, self_ty):
        self.self_ty = self_ty
        self.fields = set()
        self.seen = set()

    def step(self, q, ev, st):
        e = self.eng
        stored, joined = q
        if ev.kind == "call" and not ev.inl:
            if is_atomic(ev.path, "store", "swap", "fetch_or", "compare_exchange"):
                v = ev.args[1] if last(ev.path) != "compare_exchange" else ev.args[2]
                if v.tag == "k" and v.a[0] == 1:
                    x = ev.args[0]
                    while x.tag == "fld" and x.a[0].tag == "fld":
                        x = x.a[0]
                    if x.tag == "fld":
                        self.fields.add(x.a[1])
                    o = ordering(ev.args[-1])
                    if o not in ("Release", "SeqCst", "AcqRel"):
                        self.seen.add("relaxed")
                    return (True, joined)
            if ev.path.startswith("std::thread") and last(ev.path) == "join":
                if not stored:
                    e.report("order", ev, "the destructor waits for the measurement thread before asking it to stop", "join before store")
                return (stored, True)
        if ev.kind == "outcome" and ev.extra == "None" and ev.ty == OPT and not joined:
            return (stored, "n/a")
        if ev.kind == "exit" and ev.extra == "return":
            if not stored:
                e.report("order", ev, "the destructor may return without asking the measurement to stop", "no store")
            if not joined:
                e.report("order", ev, "the destructor may return before the measurement has stopped", "no join")
        return q


def measurement_drop(ctx, report):
    im = kill_flags(ctx, None)
    if im is None:
        return None
    body = ctx.p.bodies.get(im["items"][0]["id"])
    a = DropsFlag(im["self_ty"])
    e = Engine(ctx.p, a)
    e.run(body)
    if report:
        ctx.absorb(e, body.path)
    ctx.anchor("stop flag stored by the destructor of Measurement", a.fields)
    return a


def flag_tokens(ctx, ts, fields):
    """values the caller puts into the given fields of the Measurement it returns"""
    out = set()

    class R(Automaton):
        def step(self, q, ev, st):
            if ev.kind == "exit" and ev.extra == "return" and ev.val is not None:
                v = self.eng.peel(st, ev.val)
                for f in fields:
                    x = self.eng.project(v, ("f", f))
                    out.add(strip(self.eng.peel(st, x)))
            return q
    ctx.run(ts[0].body, R()) if False else None
    e = ts[0].base.fork(R())
    e.run(ts[0].body)
    return out


def thread_loads(ctx, t):
    l = Loads()
    ctx.explore(t, l)
    return l.args


@check("M03")
def m03(ctx):
    ctx.rule("On every exit of the measurement thread, panics included, the completion callback was invoked exactly once; it reports Killed exactly when the "
             "stop request was observed, and OutOfMemory only after no worker was left running; no result is awaited once a stop request was observed.")
    ts, col, wrk = roles(ctx)
    d = measurement_drop(ctx, False)
    if d is None or not col:
        return
    flags = flag_tokens(ctx, ts, d.fields)
    ctx.anchor("stop flag shared between the Measurement and its thread", flags)
    for t in col:
        a = Outcome(flags)
        a.makes = ctx.adts("cmakeperf", "MeasureError")
        a.args_of = thread_loads(ctx, t)
        ctx.explore(t, a)
        ctx.anchor("polling of the stop flag", "kill" in a.seen)
        ctx.anchor("completion callback", "completion" in a.seen)
        ctx.anchor("out-of-memory report", "oom" in a.seen)
        ctx.count("collector threads")


# =============================================================== M04
class Worker(Automaton):
    """q = (job | None, sent, ok, stopped, caught, gone); ok: False | True | "stop" (the stop request was observed)"""
    init = (None, False, False, False, None, False)
    unwind = True

    def __init__(self):
        self.seen = set()

    def stop_load(self, v):
        return v.tag == "call" and v in self.words

    def raised(self, v, pos):
        return WorkerStop.raised(self, v, pos)

    def take(self, ev):
        """payload of a job taken from the queue, or None"""
        if ev.kind != "outcome":
            return None
        v = ev.val
        p = ev.path or self.eng.callpath.get(strip(v), "")
        if ev.extra == "Some" and p.startswith("crossbeam_deque") and last(p) in ("pop", "success"):
            return payload(self.eng, v, "Some")
        if ev.extra == "Success" and ev.ty == STEAL:
            return payload(self.eng, v, "Success")
        return None

    def step(self, q, ev, st):
        job, sent, ok, stopped, caught, gone = q
        e = self.eng
        j = self.take(ev)
        if j is not None:
            self.seen.add("take")
            if job is not None and not sent:
                e.report("lost", ev, "a worker takes another job without having reported on the previous one", "take without message")
            if stopped:
                e.report("stopped", ev, "a worker takes another job after it was asked to stop or reported an error", "take after error")
            return (strip(j), False, False, stopped, caught, gone)
        if ev.kind == "cond":
            if ev.extra[0] == "k" and self.raised(ev.val, ev.extra[1] == 1):
                return (job, sent, "stop", stopped, caught, gone)
            v, pos = ev.val, ev.extra == ("k", 1)
            while v.tag == "not":
                v, pos = v.a[0], ev.extra == ("k", 0)
            v = strip(v)
            if pos and v.tag == "call" and short(e.callpath.get(v, "")) == "ExitStatus::success":
                self.seen.add("status")
                return (job, sent, True, stopped, caught, gone)
        elif ev.kind == "maypanic":
            if is_send(ev.path) or last(ev.path) == "resume_unwind":
                return None if is_send(ev.path) else q
        elif ev.kind == "caught":
            return (job, sent, ok, stopped, "caught", gone)
        elif ev.kind == "call" and is_send(ev.path):
            self.seen.add("send")
            m = self.eng.peel(st, ev.args[1])
            var = e.variant(st, m)
            if caught:
                if var != "Err":
                    e.report("panic", ev, "a worker that panicked reports something else than an error", "panic not reported as error")
                return (job, True, ok, True, "reported", gone)
            if job is None or sent:
                e.report("twice", ev, "a worker sends a message that does not correspond to a job it took", "message without job")
            if var != "Err":
                self.seen.add("profile")
                if ok is not True:
                    e.report("status", ev, "a unit profile may be reported although the compiler was not seen to exit successfully", "success without status")
                pay = e.peel(st, payload(e, m, "Ok"))
                if job is not None and var == "Ok" and not e.derives(pay, lambda x: x is job or x is root_of(job)):
                    e.report("identity", ev, "the reported profile is not computed from the job that was taken", "profile of another job")
            if var != "Ok":
                err = e.peel(st, payload(e, m, "Err"))
                if ok == "stop" and (e.variant(st, err) or "") not in self.jobvariants:
                    e.report("handback", ev, "a worker that was asked to stop reports an error instead of handing its job back", "job not handed back")
                if err.tag == "agg" and err.a[2] and e.variant(st, err) is not None:
                    for f in err.a[2]:
                        f = e.peel(st, f)
                        if "job" in self.jobvariants.get(err.a[1], ()):
                            self.seen.add("handback")
                            if strip(f) is not job:
                                e.report("identity", ev, "the job handed back is not the job that was taken", "other job handed back")
            return (job, True, ok, var != "Ok", caught, gone)
        elif ev.kind == "outcome" and ev.path and is_send(ev.path) and ev.extra == "Err":
            return (job, sent, ok, stopped, caught, True)
        elif ev.kind == "exit" and not gone:
            if job is not None and not sent:
                e.report("lost", ev, f"a worker may end ({ev.extra}) without having reported on the job it took", "exit without message " + ev.extra)
            elif ev.extra == "panic" and caught != "reported":
                e.report("panic", ev, "a worker may panic without reporting it to the collector", "unreported panic")
        return q


def job_variants(ctx):
    out = {}
    for a in ctx.adts("cmakeperf", "JobError"):
        for v in ctx.p.adts[a]["variants"]:
            if any("t" in f and any(t.path == ENTRY for t in f["t"].walk()) for f in v["fields"]):
                out[v["name"]] = ("job",)
    ctx.anchor("worker error that hands a job back", out)
    return out


@check("M04")
def m04(ctx):
    ctx.rule("Typestate of a worker thread over every path including panics: each job taken from the queue is followed by exactly one message before the next job or "
             "the end of the thread; a profile is only sent after the exit status was tested successful and is computed from that job; a handed back job is the one that was "
             "taken; a job held when the stop request is observed is handed back; after an error no further job is taken; a panic is caught and reported.")
    ts, col, wrk = roles(ctx)
    jv = job_variants(ctx)
    for t in wrk:
        w = Words()
        ctx.explore(t, w)
        a = Worker()
        a.jobvariants = jv
        a.words = w.words()
        ctx.explore(t, a)
        for x in ("take", "send", "profile", "status", "handback"):
            ctx.anchor(f"worker event '{x}'", x in a.seen)
        ctx.count("worker threads")


# =============================================================== M05
class StopLoops(Automaton):
    """iterations in which an atomic obtained from the iterator is zeroed"""
    unwind = True

    def __init__(self):
        self.iters, self.calls, self.futex = set(), set(), set()

    def step(self, q, ev, st):
        if ev.kind == "call" and not ev.inl:
            if ev.path.startswith("atomic_wait") and ev.args:
                self.futex.add(strip(ev.args[0]))
            if is_atomic(ev.path, "store", "swap", "fetch_and") and ev.args[1].tag == "k" and ev.args[1].a[0] == 0:
                x = strip(root_of(ev.args[0]))
                if x.tag == "call":
                    self.iters.add(x)
                elif x.tag == "cbarg":
                    self.calls.add(x.a[:2])
        return q


class ColStop(Col):
    """q = (polled since last receive, flags zeroed, a worker was started)"""
    init = (False, "no", False)
    unwind = True

    def __init__(self, flags, loops):
        self.flags, self.loops = flags, loops
        self.seen = set()

    def step(self, q, ev, st):
        polled, z, started = q
        e = self.eng
        if ev.kind == "spawn":
            return (polled, z, True)
        if ev.kind == "call" and not ev.inl:
            if is_atomic(ev.path, "load") and strip(ev.args[0]) in self.flags:
                self.seen.add("poll")
                return (True, z, started)
            if is_recv(ev.path):
                self.seen.add("recv")
                if last(ev.path) == "recv":
                    e.report("blocking", ev, "results are awaited without a time limit, so that a request to stop is not noticed", "untimed receive")
                if not polled:
                    e.report("blocking", ev, "results are awaited again without having looked at the stop request", "receive without poll")
                return (False, z, started)
            if ev.res in self.loops.iters:
                return (polled, "no" if z == "part" else z, started) if z != "iter" else (polled, "skipped", started)
            if ev.res.a[:2] in self.loops.calls:
                self.seen.add("zero")
                return (polled, "yes", started)
            if is_atomic(ev.path, "store", "swap", "fetch_and") and strip(root_of(ev.args[0])) in self.loops.iters and ev.args[1].tag == "k" and ev.args[1].a[0] == 0:
                return (polled, "part", started)
            if ev.path.startswith("csv::") and last(ev.path) == "flush":
                return q
        elif ev.kind == "outcome" and strip(ev.val) in self.loops.iters:
            if ev.extra == "Some":
                return (polled, "iter", started)
            self.seen.add("zero")
            return (polled, z if z == "skipped" else "yes", started)
        elif ev.kind == "scope_end":
            self.seen.add("scope")
            v = self.eng.peel(st, ev.val) if ev.val is not None else None
            ok = v is not None and e.variant(st, v) == "Ok"
            if not ok and z != "yes" and started:
                e.report("stop", ev, "the workers may be awaited after the measurement failed without all of them having been asked to stop" +
                         (" (after a panic)" if ev.extra == "panic" else ""), "workers not stopped" + (" after panic" if ev.extra == "panic" else ""))
        return q


class WorkerStop(Automaton):
    """q = (child token | None, waited without poll since, raised, killed)"""
    init = (None, False, False, False)

    def __init__(self, futex):
        self.futex = futex
        self.seen = set()

    def stop_load(self, v):
        return v.tag == "call" and is_atomic(self.eng.callpath.get(v, ""), "load") and v in self.words

    def raised(self, v, pos):
        while v.tag == "not":
            v, pos = v.a[0], not pos
        if v.tag == "op" and v.a[0] == "Eq" and v.a[2].tag == "k" and v.a[2].a[0] == 0 and self.eng.derives(v.a[1], self.stop_load):
            return pos
        if v.tag == "op" and v.a[0] == "BitAnd" and self.eng.derives(v, self.stop_load):
            return not pos
        return None

    def step(self, q, ev, st):
        child, waited, raised, killed = q
        e = self.eng
        if ev.kind == "call" and not ev.inl:
            s = short(ev.path)
            if s == "Command::spawn":
                if raised:
                    e.report("stop", ev, "a worker starts a compiler after having observed that it must stop", "spawn after stop")
                return (ev.res, False, raised, False)
            if is_atomic(ev.path, "load") and ev.res in self.words:
                self.seen.add("poll")
                return (child, False, raised, killed)
            if last(ev.path) == "kill" and child is not None and e.derives(ev.args[0], lambda x: x is child):
                return (child, waited, raised, True)
            if last(ev.path) in ("wait_timeout", "wait_timeout_ms", "try_wait") and child is not None and ev.args and e.derives(ev.args[0], lambda x: x is child):
                self.seen.add("wait")
                if waited and not killed:
                    e.report("stop", ev, "a worker keeps waiting for its compiler without looking at the stop request", "wait without poll")
                if raised and not killed:
                    e.report("stop", ev, "a worker keeps waiting for its compiler after having observed that it must stop", "wait after stop")
                return (child, True, raised, killed)
            if last(ev.path) in ("wait", "wait_with_output", "output", "status") and ev.args and (
                    last(ev.path) in ("output", "status") and "Command" in ev.path or child is not None and e.derives(ev.args[0], lambda x: x is child)):
                if not killed and child is not None:
                    e.report("stop", ev, "a worker waits for its compiler without a time limit, so that it cannot be asked to stop", "untimed wait")
        elif ev.kind == "cond":
            r = self.raised(ev.val, ev.extra == ("k", 1)) if ev.extra[0] == "k" else None
            if r:
                self.seen.add("raised")
                return (child, waited, True, killed)
        elif ev.kind == "outcome" and ev.extra == "Some" and child is not None:
            p = e.callpath.get(strip(root_of(ev.val)), "")
            if last(p) in ("wait_timeout", "try_wait", "wait_timeout_ms"):
                return (None, False, raised, False)
        return q


class Words(Automaton):
    """atomics a worker reads that are neither its wake-up channel nor global settings"""

    def __init__(self):
        self.loads, self.futex = {}, set()

    def step(self, q, ev, st):
        if ev.kind == "call" and not ev.inl and ev.args:
            if ev.path.startswith("atomic_wait"):
                self.futex.add(strip(ev.args[0]))
            elif is_atomic(ev.path, "load"):
                self.loads.setdefault(ev.res, set()).add(strip(ev.args[0]))
        return q

    def words(self):
        return {t for t, a in self.loads.items() if not any(x in self.futex or x.tag == "static" for x in a)}


@check("M05")
def m05(ctx):
    ctx.rule("Dropping a Measurement raises the stop flag before joining its thread; the collector only waits with a time limit and looks at the flag before each wait; "
             "every failing or panicking exit of the collector zeroes all stop words before the workers are awaited; a worker looks at its stop word between two waits for its "
             "compiler, never waits without limit for a compiler it did not kill, and neither waits nor starts a compiler after having seen the stop request.")
    ts, col, wrk = roles(ctx)
    d = measurement_drop(ctx, True)
    if d is None:
        return
    flags = flag_tokens(ctx, ts, d.fields)
    for t in col:
        l = StopLoops()
        ctx.explore(t, l)
        l.iters = {x for x in l.iters if x not in l.futex}
        a = ColStop(flags, l)
        ctx.explore(t, a)
        for x in ("poll", "recv", "zero", "scope"):
            ctx.anchor(f"collector event '{x}'", x in a.seen)
        ctx.count("collector threads")
    for t in wrk:
        w = Words()
        ctx.explore(t, w)
        a = WorkerStop(w.futex)
        a.words = w.words()
        ctx.explore(t, a)
        for x in ("poll", "wait", "raised"):
            ctx.anchor(f"worker event '{x}'", x in a.seen)
        ctx.count("worker threads")
