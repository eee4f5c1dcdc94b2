"""Text user interface: requests to the processing thread (U05) and its caches (U06)."""
from base import *
from data import lossy
from dialogs import TUI

PROC = TUI + "processing::"
HANDLE = PROC + "ProcessingThread"
TRACE = "clang_time_trace::ClangTrace"
ATRACE = "clang_time_trace::tree::ActivityTrace"
DISPLAY = "crofiler::ui::display::activity::display_activity_desc"
METADATA = "crofiler::ui::display::metadata::metadata"
PARSE = "crofiler::ui::force_parse_arg"
RESOLVE = "clang_time_trace::stats::activity::argument::ParsedActivityArgument::resolve"
LOAD = TRACE + "::from_file"
# what each request must be answered with ($n = n-th parameter of the method that makes it)
SPEC = {
    "describe_trace": ("text0", ("metadata", 1)),
    "get_root_activities": ("list", ("root_activities",)),
    "get_all_activities": ("list", ("all_activities",)),
    "get_direct_children": ("list", ("direct_children", 1)),
    "get_all_children": ("list", ("all_children", 1)),
    "describe_activities": ("descs", (1, 2)),
    "describe_activity": ("desc", (1, 2)),
}


EMPTY = (False, None, False)     # a cache: it holds data of an old trace; width of its contents; it holds anything


def bare(v):
    """without representation changes, but still marked as old"""
    while isinstance(v, V) and v.tag in ("conv", "ov"):
        v = v.a[0]
    return v


class Client(Automaton):
    """a method that makes a request: q = (request, channel of the reply, reply)"""
    init = (None, None, None)

    def __init__(self, body):
        self.body, self.reqs, self.chans, self.results = body, set(), set(), set()

    def step(self, q, ev, st):
        req, ch, rep = q
        e = self.eng
        if ev.kind == "call" and not ev.inl:
            if is_send(ev.path) and len(ev.args) > 1:
                v = strip(ev.args[1])
                if v.tag != "agg" or not v.a[0].endswith("::Instruction"):
                    e.report("request", ev, "something other than a request is sent", "other message")
                    return q
                if req is not None:
                    e.report("request", ev, "several requests are made although one reply is awaited", "several requests")
                self.reqs.add(v)
                return (v, ch, rep)
            if is_recv(ev.path):
                if req is None:
                    e.report("order", ev, "a reply is awaited before the request was sent", "early wait")
                if rep is not None:
                    e.report("order", ev, "a second reply is awaited for one request", "second wait")
                r = strip(ev.args[0])
                ch = r.a[1] if r.tag == "fld" else None
                self.chans.add(ch)
                return (req, ch, ev.res)
        if ev.kind == "exit" and ev.extra == "return":
            self.results.add((req, rep, bare(ev.val)))
        return q


class Worker(Automaton):
    """thread that answers: q = (request, its kind, replies, trace, load result, load reported, caches, width locations, descriptions, element not yet listed)

    caches: map -> (holds data of an old trace, widths: None (empty or independent) | "cur" | "bad" | location that holds the width)"""
    max_disj = 64
    init = (None, None, 0, None, None, 0, frozenset(), frozenset(), frozenset(), ())

    def __init__(self, need, chans):
        self.need, self.chans = need, chans
        self.kinds, self.answered, self.calls, self.uses = set(), set(), set(), set()
        self.pending, self.lists, self.args = {}, {}, {}
        self.locs, self.live = set(), set()     # places that held the requested width; those that outlive a request

    # -- state helpers
    @staticmethod
    def get(d, k, default=None):
        for a, b in d:
            if a is k or a == k:
                return b
        return default

    @staticmethod
    def put(d, k, v):
        return frozenset([x for x in d if not (x[0] is k or x[0] == k)] + [(k, v)])

    def field(self, q, i):
        """value of the request's field that holds the requester's i-th parameter"""
        kind = q[1]
        if kind not in self.need or q[0] is None:
            return None
        name = self.need[kind][1].get(i)
        return None if name is None else self.eng.project(self.eng.project(q[0], ("v", kind)), ("f", name))

    def spec(self, q):
        return self.need[q[1]][2] if q[1] in self.need else None

    def of_trace(self, q, v):
        """is this value (part of) the trace that was loaded last"""
        return q[3] is not None and root_of_keep(v) is q[3]

    def same(self, v, w):
        return v is not None and w is not None and strip(v) is strip(w) and (bare(v).tag == "old") == (bare(w).tag == "old")

    def calltok(self, v, *names):
        v = strip(v)
        return v is not None and v.tag == "call" and last(self.eng.callpath.get(v, "")) in names

    # -- caches
    def is_map(self, v):
        v = strip(v)
        return v.tag == "call" and "HashMap" in self.eng.callpath.get(v, "") or v.tag == "call" and "BTreeMap" in self.eng.callpath.get(v, "")

    def kind_of(self, ev):
        """type of the values of a map, from the type arguments of a call on it"""
        return str(ev.extra)

    def usable(self, q, ev, m):
        """the contents of a map are looked at"""
        old, width, _ = self.get(q[6], m, EMPTY)
        if old:
            self.eng.report("stale", ev, "cached data may be that of a trace that was replaced", "old trace")
        w = self.width(q)
        if width is not None and w is not None:
            if width == "cur" or any(l == width for l in q[7]):
                pass
            else:
                self.eng.report("width", ev, "cached descriptions may have been made for another display width", "old width")
        return q

    def width(self, q):
        s = self.spec(q)
        return self.field(q, s[1][1]) if s and s[0] in ("descs", "desc") else None

    def fill(self, q, ev, m, k, v):
        """a value is put into a cache"""
        e = self.eng
        d = self.described(q, v)
        old, width, _ = self.get(q[6], m, EMPTY)
        if d is not None:
            if not self.same(d[0], k):
                e.report("key", ev, "a description is cached for another activity than the one that it describes", "wrong key")
            w = self.width(q)
            if w is not None and not e.derives(k, lambda x: x is strip(w)):
                width = next(iter(sorted(q[7], key=str)), "cur") if width is None or width == "cur" else width
                if width != "cur" and not any(l == width for l in q[7]):
                    width = "bad"
            if d[1].rstrip("+") != "single" and self.spec(q)[0] == "descs":
                e.report("format", ev, "a description in a list is not made for a single line of the requested width", "format")
        elif self.calltok(v, last(PARSE)):
            args = self.args.get(strip(v), ())
            if len(args) < 2 or not self.same(args[1], k):
                e.report("key", ev, "the parsed argument of an activity is cached for another activity", "wrong argument key")
        else:
            e.report("key", ev, "it is not known what is put into a cache", "unknown cache contents")
        self.uses.add((m, ev.fr.body.id, "description" if d is not None else "argument"))
        return q[:6] + (self.put(q[6], m, (old, width, True)),) + q[7:]

    def described(self, q, v):
        """(activity, format) that a text describes"""
        for buf, d in q[8]:
            if self.eng.derives(v, lambda x: x is buf):
                return d
        return None

    def step(self, q, ev, st):
        req, kind, n, trace, load, told, caches, locs, descs, item = q
        e = self.eng
        if ev.kind == "call" and not ev.inl:
            name = last(ev.path)
            self.calls.add(ev.path)
            if ev.res is not None:
                self.args[strip(ev.res)] = tuple(ev.args)
            if "mpsc::" in ev.path and name in ("next", "recv", "recv_timeout", "try_recv") and ev.args:
                self.done(q, ev)
                self.live |= {l for l in self.locs if self.eng.load_loc(st, l).tag != "undef"}
                held = {strip(y) for x in st.s.values() for y in x.leaves} | {strip(x) for x in st.s.values()}
                caches = frozenset(x for x in caches if x[0] in held)
                c2 = frozenset((m, (o, "bad" if w == "cur" or isinstance(w, tuple) and w[0] == "was" else w, f)) for m, (o, w, f) in caches)
                return (payload(e, ev.res, "Some" if name == "next" else "Ok"), None, 0, trace, None, 0, c2, frozenset(), frozenset(), ())
            if ev.path == LOAD:
                f = self.field(q, 1)
                if kind is not None and not self.same(ev.args[0], f) and not e.derives(ev.args[0], lambda x: x is strip(f)):
                    e.report("content", ev, "another file than the requested one is loaded", "other file")
                # the trace is replaced from here on
                return (req, kind, n, None, ev.res, told, frozenset((m, (o or f, w, f)) for m, (o, w, f) in caches), locs, descs, item)
            if name == "next" and ev.args and self.enumerates(q, ev.args[0]):
                if item and item[0] != "ended":
                    e.report("order", ev, "an element may be left out of a reply", "element left out")
                q = q[:9] + ((strip(ev.res),),)
            if is_send(ev.path) and len(ev.args) > 1:
                return self.reply(q, ev)
            if ev.path in (METADATA, PARSE, RESOLVE, DISPLAY) or ev.path.startswith(TRACE + "::") or ev.path.startswith(ATRACE + "::"):
                q = self.consult(q, ev)
            if name in ("push", "push_back") and len(ev.args) > 1 and self.spec(q) and self.spec(q)[0] in ("list", "descs") and self.get(descs, strip(root_of(ev.args[0]))) is None:
                return self.collected(q, ev, ev.args[1], root_of(ev.args[0]))
            if name in ("new", "with_capacity", "default") and ev.res is not None and self.is_map(ev.res) and self.get(caches, strip(ev.res)) is not None:
                # another one takes its place
                return q[:6] + (frozenset(x for x in caches if x[0] is not strip(ev.res)),) + q[7:]
            if ev.args and self.is_map(ev.args[0]):
                m = strip(ev.args[0])
                if name == "clear":
                    return q[:6] + (self.put(caches, m, EMPTY),) + q[7:]
                if name in ("entry", "get", "get_mut", "get_or_insert_with", "contains_key", "index", "get_key_value", "remove", "iter", "values"):
                    if self.get(q[6], m) is None:
                        q = q[:6] + (self.put(q[6], m, EMPTY),) + q[7:]
                    return self.usable(q, ev, m)
                if name == "insert" and len(ev.args) > 2:
                    return self.fill(q, ev, m, ev.args[1], ev.args[2])
            if ev.path.startswith("std::collections::hash::map::") and ev.args:
                ent = strip(root_of(ev.args[0]))
                if self.calltok(ent, "entry"):
                    m, k = self.args[ent][0], self.args[ent][1]
                    if name in ("or_insert_with", "or_insert_with_key"):
                        c = strip(ev.args[1])
                        if c.tag == "clo":
                            self.pending[c.a[0], ev.fr.ctx] = (strip(m), k)
                        else:
                            e.report("key", ev, "it is not known what is put into a cache", "unknown cache contents")
                    elif name in ("or_insert", "insert", "insert_entry"):
                        return self.fill(q, ev, strip(m), k, ev.args[1])
            if ev.args and descs:
                b = strip(root_of(ev.args[0]))
                if self.get(descs, b) is not None and ev.path != DISPLAY and name in ("write_fmt", "write_str", "push_str", "push", "extend", "extend_from_slice", "write", "write_all", "insert", "append"):
                    act, fmt, res = self.get(descs, b)
                    if res != "short" or fmt.endswith("+"):
                        e.report("text", ev, "something is added to the description of an activity", "addition")
                    return q[:8] + (self.put(descs, b, (act, fmt + "+", res)),) + q[9:]
                if self.get(descs, b) is not None and name == "clear":
                    return q[:8] + (frozenset(x for x in descs if x[0] is not b),) + q[9:]
        if ev.kind == "ret" and (ev.fr.body.id, ev.fr.parent) in self.pending:
            m, k = self.pending[ev.fr.body.id, ev.fr.parent]
            return self.fill(q, ev, m, k, ev.val)
        if ev.kind == "outcome":
            v = strip(ev.val)
            if item and v is item[0] and ev.extra == "None":
                return q[:9] + (("ended",),)
            if req is not None and v is strip(req):
                self.kinds.add(ev.extra)
                return (req, ev.extra) + q[2:]
            if load is not None and bare(ev.val) is load:
                return q[:3] + (load if ev.extra == "Ok" else None,) + (mk("res", ev.extra, load),) + q[5:]
            if v.tag == "call" and e.callpath.get(v) == DISPLAY and ev.extra == "Ok":
                return self.result(q, v, "ok")
            if v.tag in ("fld", "as") and e.callpath.get(strip(root_of(v))) == DISPLAY and ev.extra == "NotEnoughCols":
                return self.result(q, strip(root_of(v)), "short")
        if ev.kind == "callback":
            return self.told(q, ev)
        if ev.kind == "cond":
            return self.learn(q, ev, st)
        if ev.kind == "assign":
            return self.assigned(q, ev)
        if ev.kind == "collected":
            return self.collected(q, ev)
        if ev.kind == "exit" and ev.extra == "return":
            self.done(q, ev)
        return q

    def result(self, q, call, what):
        out = q[8]
        for b, (act, fmt, res) in q[8]:
            if isinstance(res, V) and res is call:
                out = self.put(out, b, (act, fmt, what))
        return q[:8] + (out,) + q[9:]

    def done(self, q, ev):
        """the next request is awaited"""
        kind, n = q[1], q[2]
        if q[0] is None:
            return
        if kind is None:
            if n == 0 and ev.kind != "exit":
                self.eng.report("reply", ev, "the thread goes on to the next request without having looked at one", "ignored request")
            return
        if kind in self.need and kind != "LoadTrace" and n != 1:
            self.eng.report("reply", ev, f"request {kind} is not answered" if n == 0 else f"request {kind} is answered more than once", f"replies {kind} {min(n, 2)}")
        if kind == "LoadTrace" and q[5] != 1:
            self.eng.report("load", ev, "the outcome of loading a trace is not reported exactly once", "load reports")
        if kind == "LoadTrace" and q[4] is None:
            self.eng.report("load", ev, "a trace is not loaded although this was requested", "not loaded")

    def told(self, q, ev):
        req, kind, n, trace, load, told = q[:6]
        e = self.eng
        if kind != "LoadTrace":
            return q
        if told:
            e.report("load", ev, "the outcome of loading a trace is reported twice", "load reported twice")
        a = ev.args[0] if ev.args else None
        if load is None:
            e.report("load", ev, "the outcome of loading a trace is reported before it is known", "early report")
            return q[:5] + (1,) + q[6:]
        tok = load.a[1] if load.tag == "res" else load
        a = bare(a)
        ok = a is not None and (a.tag == "agg" and load.tag == "res" and a.a[1] == load.a[0] and (a.a[1] == "Ok" or e.derives(a, lambda x: x is strip(tok)))
                                or a.tag == "call" and e.derives(a, lambda x: x is strip(tok)))
        if not ok:
            e.report("load", ev, "the outcome that is reported for loading a trace is not the actual one", "wrong outcome")
        return q[:5] + (1,) + q[6:]

    # -- widths
    def learn(self, q, ev, st):
        v, k = strip(ev.val), ev.extra[1]
        neg = False
        while v.tag == "not":
            v, neg = strip(v.a[0]), not neg
        w = self.width(q)
        if w is None:
            return q
        eqs = []
        if v.tag == "op" and v.a[0] in ("Eq", "Ne") and len(v.a) == 3:
            yes = bool(k) != neg
            if (v.a[0] == "Eq") == yes:
                eqs = [v.a[1:]]
        elif v is strip(w) and k == 0:      # comparison with the constant 0
            eqs = [(v, K(0))]
        for a, b in eqs:
            for x, y in ((a, b), (b, a)):
                if strip(x) is strip(w) and bare(x).tag != "old":
                    was = [(m, c) for m, c in q[6] if isinstance(c[1], tuple) and c[1][0] == "was" and c[1][2] is bare(y)]
                    for m, (o, wd, f) in was:       # the variable was updated first, and its previous value was the same
                        q = q[:6] + (self.put(q[6], m, (o, wd[1], f)),) + q[7:]
                    new = {loc for loc in self.live if self.holds(st, loc, y)}
                    if new:
                        return q[:7] + (q[7] | new,) + q[8:]
        return q

    def holds(self, st, loc, val):
        x = self.eng.load_loc(st, loc)
        return x is val or bare(x) is bare(val)

    def assigned(self, q, ev):
        loc = (ev.extra[0][0], tuple(ev.extra[0][1]))
        w = self.width(q)
        mine = w is not None and strip(ev.val) is strip(w) and bare(ev.val).tag != "old"
        if mine:
            self.locs.add(loc)
        if loc not in self.live:
            return q
        known = loc in q[7]
        c2 = q[6]
        if not (mine and known):
            for m, (o, wd, f) in q[6]:
                if wd == loc:
                    c2 = self.put(c2, m, (o, ("was", loc, bare(ev.extra[1])) if mine and ev.extra[1] is not None else "bad", f))
                elif wd == "cur" and mine:
                    c2 = self.put(c2, m, (o, loc, f))
        return q[:6] + (c2, q[7] | {loc} if mine else q[7] - {loc}) + q[8:]

    # -- contents
    def consult(self, q, ev):
        """something is asked of the trace"""
        e = self.eng
        for a in ev.args:
            r = root_of_keep(a)
            if strip(r).tag == "call" and e.callpath.get(strip(r)) == LOAD:
                if not self.of_trace(q, a):
                    e.report("trace", ev, "an answer is computed from another trace than the one that was loaded last", "other trace")
        if ev.path == DISPLAY and len(ev.args) > 3:
            return self.display(q, ev)
        return q

    def display(self, q, ev):
        e = self.eng
        buf, ident, arg, cfg = [strip(x) for x in ev.args[:4]]
        buf = strip(root_of(buf))
        act = self.activity(ident)
        if act is None:
            e.report("content", ev, "it is not known which activity is described", "unknown activity")
        if not (self.calltok(arg, "resolve") and self.of_trace(q, self.args[arg][1])):
            e.report("content", ev, "the argument that is displayed is not resolved in the loaded trace", "resolve")
        elif act is not None:
            src = self.args[arg][0]
            k = self.cached(src)
            s = strip(root_of(src))
            if k is None and self.calltok(s, last(PARSE)):
                k = self.args[s][1]
            if k is None or not self.same(k, act):
                e.report("content", ev, "the argument that is displayed is not that of the described activity", "other argument")
        w, s = self.width(q), self.spec(q)
        fmt = "?"
        if cfg.tag == "agg":
            names = dict(zip(cfg.a[3], cfg.a[2]))
            if cfg.a[1] == "SingleLine" and w is not None and self.same(names.get("max_cols"), w):
                fmt = "single"
            if cfg.a[1] == "MultiLine" and w is not None and self.same(names.get("tot_cols"), w) and all(strip(names.get(n)) is K(0) for n in ("header_cols", "trailer_cols")):
                fmt = "multi"
        if self.get(q[8], buf) is not None:
            e.report("text", ev, "a description is appended to another one", "appended")
        return q[:8] + (self.put(q[8], buf, (act, fmt, strip(ev.res))),) + q[9:]

    def activity(self, ident):
        """activity whose identifier text is displayed: id(activity(activity_trace(trace, ACT)))"""
        if not self.calltok(ident, "id"):
            return None
        a = strip(root_of(self.args[ident][0]))
        if not self.calltok(a, "activity"):
            return None
        t = strip(root_of(self.args[a][0]))
        return self.args[t][1] if self.calltok(t, "activity_trace") else None

    def cached(self, v):
        """key under which a value was read from a cache"""
        v = strip(root_of(v))
        for _ in range(4):
            if v.tag != "call":
                return None
            n = last(self.eng.callpath.get(v, ""))
            if n in ("entry", "get", "get_mut", "index", "insert") and len(self.args.get(v, ())) > 1 and self.is_map(self.args[v][0]):
                return self.args[v][1]
            if not self.args.get(v):
                return None
            v = strip(root_of(self.args[v][0]))
        return None

    def source(self, q, v):
        """(what a list enumerates, its argument)"""
        v = strip(root_of(v))
        if not self.calltok(v, "root_activities", "all_activities", "direct_children", "all_children"):
            return None
        n, a = last(self.eng.callpath[v]), self.args[v][0]
        if n in ("root_activities", "all_activities"):
            return (n,)
        t = strip(root_of(a))
        return (n, self.args[t][1]) if self.calltok(t, "activity_trace") else None

    def collected(self, q, ev, val=None, res=None):
        """an element is added to a list"""
        e = self.eng
        v, res = strip(ev.val if val is None else val), strip(ev.res if res is None else res)
        s = self.spec(q)
        if s is None:
            return q
        q = q[:9] + ((),)
        if v.tag == "agg" and v.a[0].endswith("::ActivityInfo"):
            self.info(q, ev, v, res)
        elif s[0] == "descs":
            d = self.described(q, v)
            act = d[0] if d is not None else self.cached(v)
            src = None
            if act is not None:
                r = strip(root_of(act))
                for x in self.iterated(r):
                    src = x
                    self.order(ev, x)
            if act is None or src is None:
                e.report("content", ev, "it is not known which activity an element of the list of descriptions is about", "unknown element")
            elif d is not None and d[1].rstrip("+") != "single":
                e.report("format", ev, "a description in a list is not made for a single line of the requested width", "format")
            else:
                f = self.field(q, s[1][0])
                if not e.derives(src, lambda x: x is strip(f)):
                    e.report("content", ev, "the descriptions are not those of the requested activities", "other activities")
                self.lists.setdefault(res, set()).add(("descs", q[1]))
        return q

    def iterated(self, tok):
        """iterator that an item was taken from"""
        if tok.tag == "call" and last(self.eng.callpath.get(tok, "")) == "next" or str(tok).endswith(".src"):
            a = self.args.get(tok)
            if a:
                yield a[0]

    def order(self, ev, it):
        for n in filter(None, [lossy(self.eng, it)]):
            self.eng.report("order", ev, f"elements of a reply may be left out or reordered by {n}()", f"lossy {n}")

    def enumerates(self, q, it):
        """is this the iterator over what a list is made of"""
        s = self.spec(q)
        if s is None or s[0] not in ("list", "descs"):
            return False
        if s[0] == "descs":
            f = self.field(q, s[1][0])
            return self.eng.derives(it, lambda x: x is strip(f))
        return self.source(q, it) is not None

    def info(self, q, ev, v, res):
        e = self.eng
        names = dict(zip(v.a[3], v.a[2]))
        elem = None
        for n in ("id", "duration", "self_duration"):
            c = strip(names.get(n))
            if not self.calltok(c, n) or not self.args.get(c):
                e.report("content", ev, f"the {n} that is sent for an activity is not its own", f"field {n}")
                continue
            x = strip(self.args[c][0])
            if elem is not None and x is not elem:
                e.report("content", ev, "the data sent for an activity are those of several", "mixed fields")
            elem = x
        k = strip(names.get("has_children"))
        neg = False
        while k.tag == "not":
            k, neg = strip(k.a[0]), not neg
        ok = False
        if k.tag == "isv" and elem is not None:
            t = strip(k.a[0])
            ok = (k.a[1] == "Some") != neg and self.calltok(t, "next") and self.kids(self.args[t][0], elem)
        elif k.tag == "op" and len(k.a) == 3:
            a, b = strip(k.a[1]), strip(k.a[2])
            op = {"Lt": "Gt", "Gt": "Lt"}.get(k.a[0], k.a[0]) if a.tag == "k" else k.a[0]
            x, c = (b, a) if a.tag == "k" else (a, b)
            cnt = self.calltok(x, "count", "len") and self.kids(self.args[x][0], elem)
            ok = cnt and c.tag == "k" and (op, c.a[0], neg) in (("Gt", 0, False), ("Ne", 0, False), ("Ge", 1, False), ("Eq", 0, True), ("Lt", 1, True))
        if not ok:
            e.report("content", ev, "it is not established that an activity is said to have children exactly if it has", "has_children")
        src = None
        if elem is not None:
            for x in self.iterated(strip(root_of(elem))):
                src = self.source(q, x)
                self.order(ev, x)
        if src is None:
            e.report("content", ev, "it is not known which activities are listed", "unknown list")
        else:
            self.lists.setdefault(res, set()).add(("list",) + src)

    def kids(self, it, elem):
        it = strip(root_of(it))
        return self.calltok(it, "direct_children", "all_children") and strip(self.args[it][0]) is elem

    def reply(self, q, ev):
        req, kind, n = q[:3]
        e = self.eng
        if kind not in self.need:
            e.report("reply", ev, f"a reply is sent to {kind}, to which none is awaited", f"unexpected reply {kind}")
            return q
        self.answered.add(kind)
        if n:
            e.report("reply", ev, f"request {kind} is answered more than once", f"replies {kind} 2")
        chan = strip(root_of(ev.args[0]))
        want = self.chans.get(self.need[kind][0])
        if chan is not want:
            e.report("channel", ev, f"the reply to {kind} is not sent to where the requester waits for it", f"channel {kind}")
        what, spec = self.spec(q)
        v = bare(ev.args[1])
        bad = False
        if what == "text0":
            t, w = (v.a[2] if v.tag == "agg" and len(v.a[2]) == 2 else (None, None))
            t = strip(t) if t is not None else None
            bad = not (t is not None and self.calltok(t, "metadata") and self.of_trace(q, self.args[t][0]) and self.same(self.args[t][1], self.field(q, spec[1]))
                       and strip(w) is K(0))
        elif what == "list":
            got = self.lists.get(strip(v), set())
            good = [g for g in got if g[1] == spec[0] and (len(spec) == 1 or len(g) > 2 and self.same(g[2], self.field(q, spec[1])))]
            bad = not good or len(good) != len(got)
            bad = bad or q[9] != ("ended",)
        elif what == "descs":
            bad = q[9] != ("ended",)
            got = self.lists.get(strip(v), set())
            bad = bad or ("descs", kind) not in got
        elif what == "desc":
            t, w = (v.a[2] if v.tag == "agg" and len(v.a[2]) == 2 else (None, None))
            d = self.described(q, t) if t is not None else None
            f = self.field(q, spec[0])
            if d is None or not self.same(d[0], f) or d[1].rstrip("+") != "multi":
                bad = True
            else:
                b = [x for x, y in q[8] if y is d or y == d]
                disp = [r for r, a in self.args.items() if r.tag == "call" and e.callpath.get(r) == DISPLAY and any(strip(root_of(a[0])) is x for x in b)]
                if d[2] == "ok":
                    bad = not any(strip(w) is payload(e, r, "Ok") for r in disp)
                elif d[2] == "short":
                    bad = strip(w) is not K(0)
                else:
                    bad = True
        if bad:
            e.report("content", ev, f"the reply to {kind} is not what was asked for", f"content {kind}")
        return q[:2] + (min(n + 1, 2),) + q[3:]


def root_of_keep(v):
    """token a value was projected from, still marked as old"""
    while isinstance(v, V) and v.tag in ("conv", "fld", "as", "ov", "idx"):
        v = v.a[0] if not (v.tag in ("fld", "as") and v.a[0].tag in ("call", "old") and v.tag == "fld" and False) else v
    return v


class Start(Automaton):
    init = ()

    def __init__(self):
        self.made, self.spawns = None, []

    def step(self, q, ev, st):
        if ev.kind == "exit" and ev.extra == "return":
            self.made = strip(ev.val)
        return q


def worker_of(ctx):
    """(variant -> (channel, {parameter: field}, spec), channel tokens, worker automaton) of the processing thread"""
    p = ctx.p
    need = {}
    start = ctx.public(HANDLE + "::start")
    sender = None
    others = [b for b in p.bodies.values() if b.kind != "closure" and not b.path.startswith(PROC)]
    opaque = {b.id for b in others}
    for name, spec in SPEC.items():
        b = ctx.public(HANDLE + "::" + name)
        if b is None:
            continue
        a = Client(b)
        e = ctx.run(b, a, opaque=opaque)
        ctx.count("requests")
        if len(a.reqs) != 1 or len(a.chans) != 1 or None in a.chans or not a.results:
            ctx.violation("request", b.path, f"{name}() does not make one request and wait for one reply to it", key=f"protocol {name}")
            continue
        r, = a.reqs
        fields = {}
        for fname, v in zip(r.a[3], r.a[2]):
            v = strip(v)
            if v.tag == "arg":
                fields[v.a[1] - 1] = fname
        for _, rep, val in a.results:
            want = payload(e, rep, "Ok") if rep is not None else None
            got = val
            if spec[0] == "text0" and want is not None:
                want = e.project(want, ("f", "0"))
            if want is None or strip(got) is not strip(want):
                ctx.violation("request", b.path, f"{name}() does not return the reply to its request", key=f"result {name}")
        idx = [x for x in spec[1] if isinstance(x, int)]
        for i in idx:
            if i not in fields:
                ctx.violation("request", b.path, f"{name}() does not pass on its parameter {i}", key=f"parameter {name} {i}")
        if r.a[1] in need and need[r.a[1]][2] != spec:
            ctx.violation("request", b.path, f"{name}() makes the same request as another method that asks for something else", key=f"same request {name}")
        need[r.a[1]] = (next(iter(a.chans)), fields, spec)
        ctx.sample("requests", f"{name} -> {r.a[1]} -> {next(iter(a.chans))}")
    b = ctx.public(HANDLE + "::start_load_trace")
    if b is not None:
        a = Client(b)
        e = ctx.run(b, a, opaque=opaque)
        ok = len(a.reqs) == 1 and not a.chans and all(x.a[1] == "LoadTrace" for x in a.reqs) and all(x[0] is not None for x in a.results)
        load = next(iter(a.reqs), None)
        pf = None
        if ok:
            for fname, v in zip(load.a[3], load.a[2]):
                if e.derives(v, lambda x: x.tag == "arg" and x.a[1] == 2):
                    pf = fname
            cb = [n for n, v in zip(load.a[3], load.a[2]) if e.derives(v, lambda x: x.tag == "arg" and x.a[1] == 3)]
            ok = pf is not None and len(cb) == 1 and cb[0] != pf
        if not ok:
            ctx.violation("request", b.path, "start_load_trace() does not pass on the file to be loaded and the callback in one request", key="protocol load")
        need["LoadTrace"] = (None, {1: pf}, None)
    if start is None:
        return None
    s = Start()
    e = Engine(p, s, max_steps=500000)
    e.no_inline |= opaque
    e.run(start)
    ctx.absorb(e, start.path)
    chans = {}
    if s.made is not None and s.made.tag == "agg":
        for fname, v in zip(s.made.a[3], s.made.a[2]):
            v = strip(v)
            if v.tag == "fld" and strip(v.a[0]).tag == "call":
                chans[fname] = (strip(v.a[0]), v.a[1])
    recs = [r for rs in e.spawned.values() for r in e.merge_spawns(rs)]
    if not ctx.anchor("processing thread", len(recs) == 1 and bool(chans)):
        return None
    w = Worker(need, {f: mk("fld", c, "0") if i == "1" else mk("fld", c, "1") for f, (c, i) in chans.items()})
    w.chans = {f: c for f, (c, i) in chans.items()}
    for _ in range(4):      # facts about whole lists and variables are collected first; the last pass judges
        before = (set(w.live), {k: set(v) for k, v in w.lists.items()})
        f = e.fork(w, max_steps=500000)
        f.no_inline |= opaque
        try:
            f.run_spawned(recs[0])
        except Incomplete as x:
            ctx.undecided(start.path, x)
            break
        if (w.live, w.lists) == before:
            break
    ctx.absorb(f, p.bodies[recs[0][0].a[0]].path)
    return need, w


U06_RULES = ("stale", "width", "key", "text")


def run(ctx, rules, others):
    r = worker_of(ctx)
    if r is None:
        return None
    for k in [k for k, v in ctx.viol.items() if v["rule"] in others]:
        del ctx.viol[k]
    return r


@check("U05")
def u05(ctx):
    ctx.rule("Methods of ProcessingThread: one request, then one wait for its reply, which is what they return; parameters are passed on.")
    ctx.rule("Worker: for every kind of request, exactly one reply before the next request, sent on the channel that the requester waits on, and of the specified content (provenance of lists, metadata and descriptions).")
    ctx.rule("Loading: the requested file; callback called once, with the actual outcome; later answers only from the trace that was loaded last.")
    r = run(ctx, None, U06_RULES)
    if r is None:
        return
    need, w = r
    for k in need:
        if k not in w.kinds:
            ctx.violation("reply", PROC + "worker", f"request {k} is not handled", key=f"unhandled {k}")
        ctx.count("request kinds")
        if k != "LoadTrace" and k not in w.answered:
            ctx.violation("reply", PROC + "worker", f"request {k} is never answered", key=f"unanswered {k}")


@check("U06")
def u06(ctx):
    ctx.rule("Every look-up in a cache of the processing thread: on all paths, the cache was emptied since the trace was last replaced, and (descriptions) since the requested width last differed from that of its contents, which is tracked in a variable.")
    ctx.rule("Every insertion: the value is the description or the parsed argument of the activity that is the key, and a description is the text made for it alone.")
    r = run(ctx, None, ("request", "reply", "channel", "content", "load", "trace", "order", "format"))
    if r is None:
        return
    ctx.count("insertions", len(r[1].uses))
    ctx.anchor("cached descriptions", any(u[2] == "description" for u in r[1].uses))
    ctx.anchor("cached arguments", any(u[2] == "argument" for u in r[1].uses))
