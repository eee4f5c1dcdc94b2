"""U07: the non-interactive report shows each entry with its own figures, what it selects, and what it leaves out."""
import struct
from base import *
from data import lossy
from profiles import Calls
from rows import REORDERING

STDIO = "crofiler::ui::stdio::"
RUN = STDIO + "run"
CTT = "clang_time_trace::"
ATRACE = CTT + "tree::ActivityTrace::"
DESC = "crofiler::ui::display::activity::display_activity_desc"
DURATION = "crofiler::ui::display::duration::display_duration"
METADATA = "crofiler::ui::display::metadata::metadata"
PARSE = "crofiler::ui::force_parse_arg"
HEADERS = {"Self-duration breakdown by activity type": "types", "Hottest activities by self-duration": "flat", "Hierarchical profile": "tree"}
METRIC = {"types": "self_duration", "flat": "self_duration", "tree": "duration"}
# sample quantities: sum of root durations, thresholds (percentages) of both profiles, items there are / shown
TOTAL, SELF, HIER, ALL, SHOWN = 64.0, 6.25, 12.5, 7, 4
COUNTS = frozenset({0, 1, 4, 6, ALL})
THRESHOLD = {"types": SELF, "flat": SELF, "tree": HIER}
LIMITS = [(a, w) for a in (0, 1, 2, 3, 200) for w in (0, 1, 2, 80)]
BOTH = frozenset({-1, 0, 1})
SORTS = {"sort_by", "sort_unstable_by", "sort_by_cached_key", "sort_by_key", "sort_unstable_by_key"}
OPS = {"Lt": lambda a, b: int(a < b), "Le": lambda a, b: int(a <= b), "Gt": lambda a, b: int(a > b), "Ge": lambda a, b: int(a >= b), "Eq": lambda a, b: int(a == b),
       "Ne": lambda a, b: int(a != b), "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": lambda a, b: a * b, "Div": lambda a, b: a / b,
       "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b}
METHODS = {"min": min, "max": max, "saturating_sub": lambda a, b: max(a - b, 0), "saturating_add": lambda a, b: a + b, "wrapping_sub": lambda a, b: a - b,
           "add": OPS["Add"], "sub": OPS["Sub"], "mul": OPS["Mul"], "div": OPS["Div"], "lt": OPS["Lt"], "le": OPS["Le"], "gt": OPS["Gt"], "ge": OPS["Ge"],
           "eq": OPS["Eq"], "ne": OPS["Ne"]}


def number(k):
    """constants are stored as integers; those of floats as their bits"""
    if not isinstance(k, int) or isinstance(k, bool):
        return k if isinstance(k, (bool, float)) else None
    return struct.unpack("<d", struct.pack("<Q", k))[0] if k > 1 << 52 and k < 1 << 64 else k


class Report(Calls):
    """q = (section, trace, problem reported?, terminal size known?, sections shown, element, its relation to the threshold, kept?, collections in order,
    line, figures, omission, announced?, limits, leaves of the tree)

    line = (output, activity, "both" | "alone" | "item", "tried" | "failed" | "open" | "done"); figures = (output, duration, share shown?)"""
    init = (None, None, False, None, frozenset(), None, BOTH, False, frozenset(), None, None, COUNTS, False, frozenset(LIMITS), frozenset())
    SEC, TRACE, TOLD, TERM, SHOWNS, CUR, POSS, KEPT, ORDER, LINE, FIG, OMIT, ANN, LIM, LEAVES = range(15)

    def __init__(self, roles=None, sec=None, treefn=None, recursive=frozenset()):
        Calls.__init__(self)
        self.roles, self.treefn = roles or {}, treefn
        self.tys, self.selected, self.comparators, self.metricof, self.sortcalls = {}, set(), {}, {}, {}
        self.recs, self.treecalls, self.trees, self.roots = {}, {}, set(), set()
        self.recursive = recursive
        self.hits = set()
        self.lines = set()
        self.pushed = self.pending = False
        self.summed = set()
        if sec:
            q = list(Report.init)
            q[self.SEC] = sec
            q[self.LIM] = frozenset((c, c) for c in (1, 2, 3, 10))
            self.init = tuple(q)

    def bad(self, rule, ev, msg, key):
        self.eng.report(rule, ev, msg, key)

    # -- values
    def callof(self, v, *names):
        v = strip(v)
        return v if v is not None and v.tag == "call" and last(self.eng.callpath.get(v, "")) in names else None

    def arg(self, v, n=0):
        a = self.args.get(strip(v))
        return a[n] if a and len(a) > n else None

    def from_call(self, v, *names):
        return self.eng.derives(v, lambda x: x.tag == "call" and last(self.eng.callpath.get(x, "")) in names)

    def subject(self, v):
        """identity of the activity that an ActivityTrace or an id is about"""
        v = strip(v)
        for _ in range(8):
            if self.callof(v, "activity_trace"):
                v = strip(self.arg(v, 1))
            elif self.callof(v, "id") and self.eng.callpath.get(v, "").startswith(ATRACE):
                v = strip(self.arg(v))
            elif self.callof(v, "clone", "borrow", "as_ref", "deref"):
                v = strip(self.arg(v))
            else:
                break
        return v

    def same(self, a, b):
        return a is not None and b is not None and (a is b or strip(a) is strip(b))

    def metric(self, v, sec):
        """activity (or item of the breakdown) that a duration is the right metric of"""
        v = strip(v)
        if self.callof(v, "self_duration", "duration"):
            return self.subject(self.arg(v)) if last(self.eng.callpath[v]) == METRIC.get(sec, "duration") else None
        if sec == "types" and v.tag == "fld" and str(v.a[1]) == "1":
            return strip(v.a[0])
        return None

    def value(self, v, leaf):
        v = strip(v)
        x = leaf(v)
        if x is not None:
            return x
        if v.tag == "k":
            return number(v.a[0])
        if v.tag == "not":
            x = self.value(v.a[0], leaf)
            return None if x is None else int(not x)
        a = None
        if v.tag == "op" and v.a[0] in OPS and len(v.a) == 3:
            f, a = OPS[v.a[0]], v.a[1:]
        elif v.tag == "call" and last(self.eng.callpath.get(v, "")) in METHODS and len(self.args.get(v, ())) == 2:
            f, a = METHODS[last(self.eng.callpath[v])], self.args[v]
        if a is None:
            return None
        x = [self.value(y, leaf) for y in a]
        if None in x:
            return None
        try:
            return f(*x)
        except (ZeroDivisionError, TypeError):
            return None

    def share(self, q, metrics=None):
        """leaf values of quantities of time: the norm, thresholds and (of which activity) metrics"""
        sec = q[self.SEC]

        def leaf(v):
            r = self.roles
            if r and v.tag == "arg":
                if v is r.get("norm"):
                    return 1 / TOTAL
                if v is r.get("threshold"):
                    return HIER / 100
            if v.tag == "fld" and v.a[1] == "self_threshold":
                return SELF
            if v.tag == "fld" and v.a[1] == "hierarchical_threshold":
                return HIER
            if self.callof(v, "sum") and self.normal(v) or v.tag == "op" and self.summed and self.chain(v):
                return TOTAL
            if metrics is not None and sec:
                m = self.metric(v, sec)
                if m is not None:
                    return metrics(m)
            return None
        return leaf

    def normal(self, v):
        """a sum of the durations of the root activities"""
        e = self.eng
        return self.callof(v, "sum") is not None and self.from_call(v, "root_activities") and not self.from_call(v, "all_activities", "direct_children", "all_children") and \
            (strip(v) in self.metricof and self.metricof[strip(v)] == {"duration"}) and not lossy(e, self.arg(v))

    def chain(self, v):
        """the running total of a loop over the root activities"""
        v = strip(v)
        if v.tag == "k":
            return v.a[0] == 0
        return v.tag == "op" and v.a[0] == "Add" and len(v.a) == 3 and any(self.chain(a) and self.summand(b) for a, b in ((v.a[1], v.a[2]), (v.a[2], v.a[1])))

    def summand(self, v):
        v = strip(v)
        while v.tag == "old":
            v = strip(v.a[0])
        return v in self.summed

    def widths(self, q, lim):
        def leaf(v):
            if v.tag == "fld" and v.a[1] == "max_cols":
                return lim[0]
            if v.tag == "fld" and self.callof(root_of(v), "terminal_size"):
                return lim[1] if str(v.a[1]) == "0" and v.a[0].tag == "fld" else None
            if v is self.roles.get("cols"):
                return lim[0]
            if self.callof(v, "width", "width_cjk"):
                a = strip(self.arg(v))
                return 10 if q[self.FIG] and self.eng.derives(a, lambda x: x is strip(q[self.FIG][0])) else 1
            return None
        return leaf

    def counts(self, q):
        def leaf(v):
            if self.callof(v, "count", "len"):
                a = self.arg(v)
                if self.eng.derives(a, lambda x: x in self.selected):
                    return SHOWN
                if self.from_call(a, "all_activities", "direct_children") or q[self.SEC] == "types" and self.breakdown(a):
                    return None if lossy(self.eng, a) else ALL
            if q[self.SEC] == "types" and v.tag == "fld" and str(v.a[1]) == "0" and v.a[0].tag == "fld" and v.a[0].a[0].tag == "as" and self.callof(root_of(v), "next") \
                    and "numerate" in self.eng.callpath.get(root_of(v), ""):
                return SHOWN
            return None
        return leaf

    def breakdown(self, v):
        return self.eng.derives(v, lambda x: x.tag == "call" and ("HashMap" in self.eng.callpath.get(x, "") or "BTreeMap" in self.eng.callpath.get(x, ""))
                                and last(self.eng.callpath[x]) in ("new", "default", "with_capacity"))

    def texts(self, v):
        """template and displayed values of formatting arguments"""
        v = strip(v)
        if not self.callof(v, "new", "from_str", "from_str_nonconst", "new_const"):
            return None
        a = self.args.get(v, ())
        t = "".join(x.a[0] for x in map(strip, a) if x.tag == "str")
        vals = []
        todo = [strip(x) for x in a if strip(x).tag != "str"]
        while todo:
            x = todo.pop(0)
            if x.tag in ("array", "tuple", "agg"):
                todo += [strip(y) for y in (x.a if x.tag == "array" else x.a) if isinstance(y, V)] + [strip(z) for y in x.a if isinstance(y, tuple) for z in y if isinstance(z, V)]
            elif self.callof(x, "new_display", "new_debug"):
                vals.append((self.arg(x), self.tys.get(x)))
        return t, vals

    # -- lines
    def finish(self, q, ev):
        line = q[self.LINE]
        if line is not None and line[3] != "done":
            self.bad("line", ev, f"the line of an entry is left incomplete ({line[2]}, {line[3]})", f"incomplete {line[2]} {line[3]}")
        return self.put(q, LINE=None, FIG=None)

    def put(self, q, **kw):
        q = list(q)
        for k, v in kw.items():
            q[getattr(self, k)] = v
        return tuple(q)

    def close(self, q, ev):
        """end of a section"""
        sec = q[self.SEC]
        if sec is None:
            return q
        q = self.leave(q, ev)
        if not q[self.ANN]:
            if sec in ("flat", "tree") and q[self.OMIT] != {ALL} and not (sec == "tree" and not q[self.LEAVES]):
                self.bad("omission", ev, "entries may be left out without saying so", f"unsaid {sec}")
        return q

    def leave(self, q, ev):
        """done with the current element"""
        cur = q[self.CUR]
        if cur is None or q[self.KEPT]:
            return self.put(q, CUR=None, POSS=BOTH, KEPT=False)
        if cur[1] == "raw":
            if q[self.POSS] - {-1}:
                self.bad("selection", ev, "an entry that reaches the threshold may be left out", f"dropped {q[self.SEC]}")
            elif q[self.SEC] == "types" and not q[self.ANN]:
                self.bad("omission", ev, "entries are left out without saying so", "unsaid types")
        elif cur[1] == "norm":
            self.bad("figures", ev, "the time of a root activity is not part of the total that percentages refer to", "total")
        elif cur[1] == "acc":
            self.bad("breakdown", ev, "the time of an activity is not added to the total of its type", "not accumulated")
        else:
            self.bad("selection", ev, "an entry that was selected is not shown", f"not shown {q[self.SEC]}")
        return self.put(q, CUR=None, POSS=BOTH, KEPT=False)

    def keep(self, q, ev):
        cur = q[self.CUR]
        if cur[1] == "raw" and -1 in q[self.POSS]:
            self.bad("selection", ev, "an entry that is below the threshold may be shown", f"kept {q[self.SEC]}")
        return self.put(q, KEPT=True)

    def in_order(self, q, ev, v):
        """entries are shown in decreasing order"""
        sec = q[self.SEC]
        if not any(self.eng.derives(v, lambda x, c=c: x is c) for c in q[self.ORDER]):
            self.bad("order", ev, "entries are not sorted before they are shown", f"unsorted {sec}")
        l = lossy(self.eng, v, ok=("filter", "take_while"))
        if any(self.from_call(v, r) for r in REORDERING):
            self.bad("order", ev, "entries are put into another order before they are shown", f"reordered {sec}")
        if l:
            self.bad("selection", ev, f"entries may be lost by '{l}'", f"lossy {sec}")

    # -- events
    def step(self, q, ev, st):
        e = self.eng
        self.note(ev)
        k, sec = ev.kind, q[self.SEC]
        n = last(ev.path) if ev.path else ""
        if k == "call" and n in ("new_display", "new_debug") and ev.res is not None:
            self.tys[strip(ev.res)] = str(ev.extra[0]) if isinstance(ev.extra, (list, tuple)) and ev.extra else ""
        if k == "call" and n in ("self_duration", "duration") and ev.path.startswith(ATRACE):
            b = strip(ev.args[0])
            if b.tag == "cbarg":
                self.metricof.setdefault(("cb", b.a[0], b.a[1]), set()).add(n)
        if k == "call" and n == "sum" and not ev.inl and ev.res is not None:
            self.sortcalls[strip(ev.res)] = (ev.fr.ctx, ev.bb)
        if k == "ret" and ev.val is not None and sec is None:
            v = strip(ev.val)
            if self.callof(v, "self_duration", "duration"):
                b = root_of(strip(self.arg(v)))
                if b.tag == "cbarg":
                    for t, (c, bb) in self.sortcalls.items():
                        if b.a[0] == c and b.a[1] == bb:
                            self.metricof.setdefault(t, set()).add(last(e.callpath[v]))
        if k == "outcome" or k == "notoutcome":
            return self.outcome(q, ev)
        if k == "cond" and ev.extra[0] == "k":
            return self.cond(q, ev)
        if k == "assign" and sec is None and q[self.CUR] and q[self.CUR][1] == "norm" and ev.val is not None:
            v = strip(ev.val)
            if v.tag == "op" and v.a[0] == "Add" and len(v.a) == 3:
                for a, b in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                    if self.metric(b, sec) is q[self.CUR][0]:
                        self.summed.add(strip(b))
                        if self.chain(a):
                            return self.keep(q, ev)
            return q
        if k == "assign" and sec == "types":
            return self.accumulate(q, ev, ev.val)
        if k == "collected":
            return self.collected(q, ev)
        if k == "ret":
            self.returned(q, ev)
            return q
        if k == "exit" and ev.extra == "return":
            return self.leaving(q, ev)
        if k == "panic":
            if q[self.LIM] is not None and q[self.LEAVES] is not None and ("limit" in q[self.LEAVES]):
                self.bad("limit", ev, f"there are column limits that make the report crash ({sorted(q[self.LIM])[:2]})", "crash")
            return []
        if k == "call" and not ev.inl:
            q = self.put(q, LEAVES=q[self.LEAVES] - {"limit"}) if "limit" in q[self.LEAVES] and "panic" not in ev.path else q
            return self.call(q, ev, n)
        return q

    def outcome(self, q, ev):
        v, x, e = strip(ev.val), ev.extra, self.eng
        p = e.callpath.get(v, "")
        n = last(p)
        if ev.kind == "notoutcome":
            return q
        if n in ("write_fmt", "write_str", "display_duration", "from_utf8") and x == "Err":
            return []
        if n == "from_file":
            return self.put(q, TRACE="ok" if x == "Ok" else "err")
        if n == "terminal_size":
            return self.put(q, TERM=x)
        if v.tag == "fld" and v.a[1] == "input" and x in ("Some", "None") and q[self.TRACE] is None:
            return self.put(q, TRACE=None if x == "Some" else "none")
        if n == "display_activity_desc" and q[self.LINE] and x in ("Ok", "Err"):
            l = q[self.LINE]
            return self.put(q, LINE=l[:3] + ("open" if x == "Ok" and l[2] == "both" else "done" if x == "Ok" else "failed",))
        if n == "next" and x in ("Some", "None") and (q[self.SEC] or not self.roles):
            if not self.args.get(v):
                return q
            if not q[self.SEC]:
                if not self.from_call(self.args[v][0], "root_activities"):
                    return q
                # nothing is shown without a root activity; later iterations are checked, but what follows is explored after a single one
                if x == "None" and (q[self.CUR] is None or "again" in q[self.LEAVES]) or x == "Some" and "again" in q[self.LEAVES]:
                    if q[self.CUR]:
                        self.leave(q, ev)
                    return []
                if q[self.CUR]:
                    self.leave(q, ev)
                    q = self.put(q, LEAVES=q[self.LEAVES] | {"again"}) if x == "Some" else q
            it = self.args[v][0]
            q = self.leave(q, ev)
            if x == "None":
                return self.put(q, LEAVES=q[self.LEAVES] | {"loop"}) if self.roles and e.derives(it, lambda y: y in self.selected) and not lossy(e, it, ok=("filter", "take_while")) else q
            if q[self.ANN] and q[self.SEC] == "types":
                self.bad("omission", ev, "entries are shown after it was said that the others are left out", "after")
            cur = e.project(e.project(ev.val, ("v", "Some")), ("f", "0")) if hasattr(e, "project") else None
            if e.derives(it, lambda y: y in self.selected):
                kind = "sel"
            elif q[self.SEC] == "types" and self.breakdown(it):
                kind = "raw"
                if "numerate" in p:
                    cur = e.project(cur, ("f", "1"))
            elif q[self.SEC] == "types" and self.from_call(it, "all_activities"):
                kind = "acc"
                l = lossy(e, it)
                if l:
                    self.bad("breakdown", ev, f"activities may be lost by '{l}'", "lossy breakdown")
            elif self.from_call(it, "all_activities", "direct_children"):
                kind = "raw"
            elif self.from_call(it, "root_activities"):
                kind = "sel" if q[self.SEC] else "norm"
                l = lossy(e, it)
                if l:
                    self.bad("selection", ev, f"root activities may be lost by '{l}'", "lossy roots")
            else:
                return q
            return self.put(q, CUR=(strip(cur), kind), POSS=BOTH, KEPT=False)
        return q

    def cond(self, q, ev):
        sec, want = q[self.SEC], bool(ev.extra[1])
        if sec and q[self.CUR] and q[self.CUR][1] == "raw":
            cur = q[self.CUR][0]
            t = THRESHOLD[sec] / 100 * TOTAL
            poss, known = set(), False
            for s, m in ((-1, t - 1), (0, t), (1, t + 1)):
                x = self.value(ev.val, self.share(q, lambda a: m if a is cur else None))
                if x is None or bool(x) == want:
                    poss.add(s)
                known |= x is not None
            if known:
                poss = q[self.POSS] & poss
                return self.put(q, POSS=frozenset(poss)) if poss else []
        if sec:
            om = {c for c in COUNTS for x in [self.value(ev.val, self.with_shown(q, c))] if x is None or bool(x) == want}
            if om != COUNTS and not (sec == "types"):
                om &= q[self.OMIT]
                return self.put(q, OMIT=frozenset(om)) if om else []
        xs = {l: self.value(ev.val, self.widths(q, l)) for l in q[self.LIM]}
        if None not in xs.values():
            lim = frozenset(l for l, x in xs.items() if bool(x) == want)
            return self.put(q, LIM=lim, LEAVES=q[self.LEAVES] | {"limit"}) if lim else []
        return q

    def with_shown(self, q, shown):
        base = self.counts(q)

        def leaf(v):
            x = base(v)
            return shown if x == SHOWN else x
        return leaf

    def accumulate(self, q, ev, val):
        cur = q[self.CUR]
        if not cur or cur[1] != "acc" or val is None:
            return q
        v = strip(val)
        if v.tag == "op" and v.a[0] == "Add" and len(v.a) == 3:
            for a, b in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                if self.metric(b, "types") is cur[0]:
                    if not self.eng.derives(a, lambda x: self.callof(x, "name") and self.subject(self.arg(self.arg(x))) is cur[0]):
                        self.bad("breakdown", ev, "the time of an activity is added to the total of another type", "accumulated elsewhere")
                    return self.put(q, KEPT=True)
        return q

    def collected(self, q, ev):
        cur = q[self.CUR]
        if not cur:
            return q
        v = ev.val
        if self.same(v, cur[0]) or self.subject(v) is cur[0] or self.eng.derives(v, lambda x: x is cur[0]):
            if cur[1] == "raw" and ev.res is not None:
                self.selected.add(strip(ev.res))
            return self.keep(q, ev)
        return q

    def returned(self, q, ev):
        """results of comparators"""
        v, rev = strip(ev.val) if ev.val is not None else None, False
        while v is not None and (v.tag in ("fld", "as") or self.callof(v, "reverse", "unwrap_or", "unwrap", "expect", "then", "then_with")):
            if self.callof(v, "reverse"):
                rev = not rev
            v = strip(v.a[0]) if v.tag in ("fld", "as") else strip(self.arg(v))
        if v is None or not q[self.SEC] or not self.callof(v, "partial_cmp", "total_cmp", "cmp"):
            return
        sides = []
        for a in self.args.get(v, ())[:2]:
            hit = []
            self.eng.derives(a, lambda x: hit.append(x) if x.tag == "cbarg" else False)
            m = set()
            for c in set(hit):
                t = self.value(a, self.share(q, lambda s: 4.0 if root_of(s) is c else None))
                t2 = self.value(a, self.share(q, lambda s: 16.0 if root_of(s) is c else None))
                if t is not None and t2 is not None and t < t2:
                    m.add(c)
            sides.append(m.pop() if len(m) == 1 else None)
        if len(sides) == 2 and None not in sides and sides[0].a[:2] == sides[1].a[:2]:
            i, j = sides[0].a[-1], sides[1].a[-1]
            self.comparators.setdefault(sides[0].a[:2], set()).add((i > j) != rev)

    def call(self, q, ev, n):
        e, sec = self.eng, q[self.SEC]
        a = ev.args or []
        if n == "add_assign" and sec == "types" and len(a) > 1:
            return self.accumulate(q, ev, mk("op", "Add", a[0], a[1]))
        if n in ("push", "push_back", "insert") and "termtree" not in ev.path and q[self.CUR] and q[self.CUR][1] in ("raw", "sel") and len(a) > 1 and \
                (strip(a[-1]) is q[self.CUR][0] or self.subject(a[-1]) is self.subject(q[self.CUR][0])):
            self.selected.add(strip(a[0]))
            return self.keep(q, ev)
        if n in SORTS and sec and a:
            cur = strip(a[0])
            self.hits.add((cur, n, ev.fr.ctx, ev.bb, ev.where(), sec))
            return self.put(q, ORDER=q[self.ORDER] | {cur})
        if ev.path == CTT + "ClangTrace::from_file":
            if not any(x.tag == "fld" and x.a[1] == "input" for x in self.within(a[0])):
                self.bad("input", ev, "the trace that is loaded is not the one that was asked for", "wrong input")
            return q
        if n in ("activity_trace", "all_activities", "root_activities", "resolve") and ev.path.startswith(CTT) or ev.path in (PARSE, METADATA):
            t = a[1] if n == "resolve" else a[0]
            r = root_of(strip(t))
            if not (self.callof(r, "from_file") or r is self.roles.get("trace")):
                self.bad("line", ev, "data is not taken from the trace that was loaded", f"other trace {n}")
        if ev.path == METADATA:
            for l in q[self.LIM]:
                w = self.value(a[1], self.widths(q, l))
                if w is None or w < 1:
                    self.bad("limit", ev, f"it is not established that there is room for the metadata with a limit of {l[0]} columns on a terminal of {l[1]}", "metadata room")
                    break
        if ev.path == DURATION:
            m = self.metric(a[1], sec) if sec else None
            if m is None:
                self.bad("figures", ev, "the time that is shown is not that of the entry", f"other time {sec}")
            line = q[self.LINE]
            if line and line[2] == "item" and m is not line[1]:
                self.bad("figures", ev, "the time that is shown is not that of the entry", f"other time {sec}")
            return self.put(q, FIG=(strip(a[0]), strip(a[1]), False))
        if ev.path == DESC:
            return self.description(q, ev, a)
        if self.treefn and ev.path == self.treefn:
            return self.subtree(q, ev, a)
        if n in ("_print", "_eprint", "write_fmt", "format", "write_str", "write_all"):
            return self.output(q, ev, a, n)
        if "termtree" in ev.path:
            return self.tree(q, ev, a, n)
        return q

    def within(self, v):
        out, todo = [], [v]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                todo += x
            elif isinstance(x, V):
                out.append(x)
                todo += x.a
        return out

    def description(self, q, ev, a):
        e, sec = self.eng, q[self.SEC]
        out, idv, argv, cfg = strip(a[0]), strip(a[1]), strip(a[2]), strip(a[3])
        act = self.callof(idv, "id")
        act = self.callof(self.arg(act), "activity") if act else None
        who = self.subject(self.arg(act)) if act else None
        res = self.callof(argv, "resolve")
        parsed = self.callof(self.arg(res), "force_parse_arg") if res else None
        whose = self.subject(self.arg(parsed, 1)) if parsed else None
        if who is None or whose is None or who is not whose:
            self.bad("line", ev, "the name and argument shown are not established to be those of one activity", f"other activity {sec}")
        line = q[self.LINE]
        if line is None or line[3] == "done":
            q = self.finish(q, ev) if line else q
            fig = q[self.FIG]
            if sec == "flat":
                cur = q[self.CUR]
                if cur is None or self.subject(cur[0]) is not who:
                    self.bad("line", ev, "the activity that is described is not the current entry", "not current")
                else:
                    self.in_order(q, ev, cur[0])
            elif who is not self.roles.get("id"):
                self.bad("line", ev, "the activity that is described is not the one of the node", "not the node")
            prefix = 2 if sec == "flat" else 0
            if sec is None:
                self.bad("line", ev, "an activity is described outside of the profiles", "outside")
        else:
            if line[1] is not who or line[0] is not out or line[3] != "failed" or line[2] != "both":
                self.bad("line", ev, "a second activity is described before the line is complete", "second")
            prefix = 2 if sec == "flat" else 0
        w = None
        if cfg.tag == "agg" and cfg.a[1] == "SingleLine" and cfg.a[2]:
            w = cfg.a[2][0]
        kinds = set()
        samples = [(100, 100)] if self.roles else [(100, 1000)] + ([(1000, 100)] if q[self.TERM] == "Ok" else [])
        for l in samples:
            x = None if w is None else self.value(w, self.widths(self.put(q, FIG=q[self.FIG] or ((V0,) * 3)), l))
            kinds.add("both" if x == 100 - prefix - 10 else "alone" if x == 100 - prefix else x)
        kind = kinds.pop() if len(kinds) == 1 else None
        if kind not in ("both", "alone"):
            self.bad("width", ev, "it is not established that the line keeps to the columns that are available", f"width {sec}")
            kind = "both" if line is None else "alone"
        if line is None and kind == "alone":
            self.bad("figures", ev, "the figures of an entry are left out although they may fit", f"no figures {sec}")
        for l in q[self.LIM]:
            x = None if w is None else self.value(w, self.widths(q, l))
            if x is not None and x < 0:
                self.bad("limit", ev, f"there is no room for a line with a limit of {l[0]} columns on a terminal of {l[1]}", "line room")
                break
        self.lines.add((sec, kind))
        return self.put(q, LINE=(out, who, kind, "tried"))

    def output(self, q, ev, a, n):
        e, sec = self.eng, q[self.SEC]
        t = self.texts(a[0] if n in ("_print", "_eprint", "format") else a[1]) if n not in ("write_str", "write_all") else None
        if t is None:
            t = ("", [(x, "") for x in a[1:]] if n in ("write_str", "write_all") else [])
        text, vals = t
        out = strip(a[0]) if n == "write_fmt" else None
        if n == "_eprint":
            if q[self.TRACE] == "err" and any(self.from_call(v, "from_file") for v, _ in vals) or q[self.TRACE] == "none" and text:
                return self.put(q, TOLD=True)
            return q
        if n == "_print" and q[self.TRACE] in ("err", "none"):
            self.bad("input", ev, "a report is given although there is no trace", "report without trace")
        for h, s in HEADERS.items():
            if n == "_print" and h in text:
                q = self.finish(self.close(q, ev), ev)
                return self.put(q, SEC=s, SHOWNS=q[self.SHOWNS] | {s}, OMIT=COUNTS, ANN=False, LINE=None, FIG=None, CUR=None, KEPT=False, POSS=BOTH)
        if any(self.callof(v, "metadata") for v, _ in vals):
            return self.put(q, SHOWNS=q[self.SHOWNS] | {"metadata"})
        # announcement of what is left out
        ints = [v for v, t in vals if self.value(v, self.counts(q)) is not None and not self.is_const(v)] if sec else []
        if ints or sec and any(t == "usize" for _, t in vals):
            ns = [v for v, t in vals if t == "usize"] or ints
            x = self.value(ns[0], self.counts(q))
            ps = [self.value(v, self.share(q)) for v, t in vals if v is not ns[0]]
            if x != ALL - SHOWN:
                self.bad("omission", ev, "the number of entries that are left out is not what is announced", f"wrong count {sec}")
            if THRESHOLD[sec] not in ps:
                self.bad("omission", ev, "the threshold that is announced is not the one that entries were selected by", f"wrong threshold {sec}")
            if sec == "types":
                if q[self.CUR] is None or q[self.KEPT] or q[self.POSS] != {-1}:
                    self.bad("omission", ev, "entries are said to be left out although they may not be", f"said {sec}")
            elif ALL in q[self.OMIT]:
                self.bad("omission", ev, "entries are said to be left out although none may be", f"said {sec}")
            if q[self.ANN]:
                self.bad("omission", ev, "entries that are left out are announced twice", f"twice {sec}")
            if n == "format" and ev.res is not None:
                self.hits.add(("format", strip(ev.res)))
            if sec == "flat" and q[self.LINE]:
                q = self.finish(q, ev)
            return self.put(q, ANN=True)
        # parts of lines
        for v, t in vals:
            cur = q[self.CUR]
            if sec == "types" and cur and cur[1] == "raw" and strip(v).tag == "fld" and str(strip(v).a[1]) == "0" and self.same(strip(v).a[0], cur[0]):
                self.in_order(q, ev, cur[0])
                q = self.keep(self.finish(q, ev), ev)
                q = self.put(q, LINE=(None, cur[0], "item", "open"))
                continue
            if t == "f64" and q[self.FIG]:
                m = self.metric(q[self.FIG][1], sec)
                x = self.value(v, self.share(q, lambda s: 16.0 if s is m else None))
                if x != 16.0 / TOTAL * 100 or m is None:
                    self.bad("figures", ev, "the percentage is not that of the time shown, of the total of the root activities", f"percentage {sec}")
                if n == "write_fmt" and out is not q[self.FIG][0]:
                    self.bad("figures", ev, "the percentage is not shown next to the time", f"elsewhere {sec}")
                q = self.put(q, FIG=q[self.FIG][:2] + (True,))
                if q[self.LINE] and q[self.LINE][2] == "item":
                    q = self.put(q, LINE=q[self.LINE][:3] + ("done",))
                continue
            if q[self.FIG] and q[self.FIG][2] and q[self.LINE] and q[self.LINE][2] != "item" and e.derives(v, lambda x: x is q[self.FIG][0]):
                l = q[self.LINE]
                if l[2] != "both" or l[3] != "open":
                    self.bad("width", ev, "the figures are added although there may be no room for them", f"added {sec}")
                if self.metric(q[self.FIG][1], sec) is not l[1] and self.subject(self.metric(q[self.FIG][1], sec)) is not l[1]:
                    self.bad("figures", ev, "the time that is shown is not that of the activity", f"time of other {sec}")
                if n == "write_fmt" and out is not l[0]:
                    self.bad("figures", ev, "the figures are not added to the line of the activity", f"figures elsewhere {sec}")
                q = self.put(q, LINE=l[:3] + ("done",))
                if q[self.CUR] and sec == "flat":
                    q = self.keep(q, ev)
                continue
            if sec == "tree" and not self.roles and strip(v) in self.treecalls:
                if q[self.CUR] and self.subject(q[self.CUR][0]) is self.treecalls[strip(v)]:
                    q = self.keep(q, ev)
                continue
        l = q[self.LINE]
        if l and l[3] == "failed" and l[2] == "alone" and "…" in text:
            q = self.put(q, LINE=l[:3] + ("done",))
        if l and sec == "flat" and q[self.CUR] and q[self.LINE][3] == "done":
            q = self.keep(q, ev)
        if n == "_print" and "\n" in text and q[self.LINE] is not None:
            if sec == "flat" and q[self.CUR] and q[self.LINE][3] == "done":
                q = self.keep(q, ev)
            q = self.finish(q, ev)
        return q

    @staticmethod
    def is_const(v):
        return strip(v).tag == "k"

    def subtree(self, q, ev, a):
        """call of the function that makes a tree"""
        sec = q[self.SEC]
        r = self.rolesof
        if self.roles:
            who = strip(a[r["id"]])
            ok = strip(a[r["trace"]]) is strip(self.roles["trace"]) and strip(a[r["threshold"]]) is self.roles["threshold"] and strip(a[r["norm"]]) is self.roles["norm"]
            if not ok:
                self.bad("tree", ev, "a child is rendered with another trace, norm or threshold than its parent", "other parameters")
            if self.value(a[r["cols"]], self.widths(q, (100, 100))) != 98:
                self.bad("width", ev, "the columns of a child are not those of its parent without the indentation", "child width")
            if who.tag != "cbarg" and not self.eng.derives(who, lambda x: x in self.selected):
                self.bad("tree", ev, "a child that is rendered is not one of those selected", "other child")
            self.recs[strip(ev.res)] = who
        else:
            l = self.share(self.put(q, SEC="tree"))
            if sec != "tree" or self.value(a[r["norm"]], l) != 1 / TOTAL or self.value(a[r["threshold"]], l) != HIER / 100:
                self.bad("tree", ev, "the tree is not made with the total of the root activities and the threshold that was asked for", "tree parameters")
            cur = q[self.CUR]
            who = self.subject(a[r["id"]])
            if cur is None or self.subject(cur[0]) is not who or not self.from_call(who, "root_activities"):
                self.bad("tree", ev, "the tree that is shown is not that of a root activity", "not a root")
            for li in [(100, 1000)] + ([(1000, 100)] if q[self.TERM] == "Ok" else []):
                if self.value(a[r["cols"]], self.widths(q, li)) != 100:
                    self.bad("width", ev, "the tree is not limited to the columns that are available", "tree width")
            for li in q[self.LIM]:
                x = self.value(a[r["cols"]], self.widths(q, li))
                if x is None or x < 1:
                    self.bad("limit", ev, f"there is no room for the tree with a limit of {li[0]} columns on a terminal of {li[1]}", "tree room")
                    break
            self.treecalls[strip(ev.res)] = who
        return q

    def tree(self, q, ev, a, n):
        e = self.eng
        if n == "new":
            content = a[0]
            l = q[self.LINE]
            if any(isinstance(h, tuple) and h[0] == "format" and e.derives(content, lambda x, h=h: x is h[1]) for h in self.hits):
                self.trees.add(strip(ev.res))
                return q
            if l is None or l[3] != "done" or not e.derives(content, lambda x: x is l[0]):
                self.bad("line", ev, "a node is made without the complete line of its activity", "node text")
            self.roots.add(strip(ev.res))
            return self.finish(self.put(q, LINE=l and l[:3] + ("done",)), ev)
        if n in ("with_leaves", "extend", "push"):
            x = a[1]
            self.hits.add(("leaves", strip(x)))
            lv = set()
            if e.derives(x, lambda y: y in self.trees):
                lv.add("term")
            if n == "push":
                r = strip(x)
                if r in self.recs or q[self.CUR] and r is q[self.CUR][0] and self.recs:
                    if q[self.CUR] and self.subject(q[self.CUR][0]) is (self.subject(self.recs[r]) if r in self.recs else r):
                        q = self.keep(q, ev)
                        self.in_order(q, ev, q[self.CUR][0])
                    lv.add("kids")
                    self.pushed = True
            elif e.derives(x, lambda y: y in self.selected):
                lv.add("kids")
                l = lossy(e, x)
                c = [c for c in self.selected if e.derives(x, lambda y: y is c)]
                if l and l != "filter":
                    self.bad("tree", ev, f"children may be lost by '{l}'", "lossy children")
                self.in_order(q, ev, x)
            if not e.derives(a[0], lambda y: y in self.roots):
                self.bad("tree", ev, "children are attached to another node", "other parent")
            return self.put(q, LEAVES=q[self.LEAVES] | lv)
        return q

    def leaving(self, q, ev):
        e = self.eng
        if self.roles:
            if not e.derives(ev.val, lambda y: y in self.roots):
                self.bad("tree", ev, "the tree that is returned is not that of the activity", "other tree")
            lv = q[self.LEAVES]
            if "kids" not in lv and "loop" in lv:
                # a loop over no child; there must be one that attaches them
                self.pending = True
                lv = lv | {"kids"}
                q = self.put(q, LEAVES=lv)
            if "kids" not in lv:
                if any(l[0] > 2 for l in q[self.LIM]) and q[self.OMIT] != frozenset():
                    self.bad("tree", ev, "children are left out although there is room for them", "no children")
                return q
            if ("term" in lv) != q[self.ANN]:
                self.bad("omission", ev, "what is said about children that are left out is not part of the tree", "terminator")
            return self.close(q, ev)
        if q[self.TRACE] in ("err", "none"):
            if not q[self.TOLD]:
                self.bad("input", ev, "the report ends without telling why there is none", f"silent {q[self.TRACE]}")
            return q
        miss = {"metadata", "types", "flat", "tree"} - q[self.SHOWNS]
        if miss:
            self.bad("sections", ev, f"the report ends without {', '.join(sorted(miss))}", "missing " + " ".join(sorted(miss)))
        return self.finish(self.close(q, ev), ev)

    def comparators_ok(self, ctx):
        """every sort puts larger times first"""
        done = set()
        for h in self.hits:
            if len(h) == 6:
                cur, n, c, bb, where, sec = h
                r = self.comparators.get((c, bb))
                done.add(sec)
                if r != {True}:
                    ctx.violation("order", where, f"entries of {sec} are not established to be sorted by decreasing {METRIC[sec]}", key=f"sort {sec}")
        return done


V0 = mk("k", "none")


@check("U07")
def u07(ctx):
    p = ctx.p
    run = ctx.public(RUN)
    if not run:
        return
    outer = [b.id for b in p.bodies.values() if b.crate.name in ("clang_time_trace", "cpparser", "asylum") or b.path in (DESC, DURATION, METADATA, PARSE)]
    # the function that makes a tree calls itself
    cg, callers = call_graph(p)
    rec = []
    for b in p.bodies.values():
        if b.path.startswith(STDIO) and b.kind != "closure" and "termtree::Tree" in str(b.local_ty(0)):
            seen, todo = set(), [b.id]
            while todo:
                x = todo.pop()
                for y in cg.get(x, ()):
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            if b.id in seen:
                rec.append(b)
    if not ctx.anchor("the function that makes the hierarchical profile", rec):
        return
    tree = rec[0]
    ctx.rule("each line is about one activity: name, argument (parsed), time and percentage (of the total of the root activities) are its own")
    ctx.rule("exactly the entries whose share reaches the threshold are shown, in decreasing order; the number of the others is announced exactly if there are any")
    ctx.rule("children of a node are the selected ones among its direct children; every root is shown; the column limit is kept, and none crashes the report")
    main = Report(treefn=tree.path)
    # roles of the parameters of the tree function
    names = {}
    for i in range(1, tree.argc + 1):
        t = str(tree.local_ty(i))
        names[i] = t
    main.rolesof = roles_of(ctx, p, run, tree, outer)
    if not main.rolesof:
        return
    e = ctx.run(run, main, opaque=outer + [tree.id])
    s = main.comparators_ok(ctx)
    ctx.anchor("a sort of the breakdown", "types" in s)
    ctx.anchor("a sort of the flat profile", "flat" in s)
    ctx.anchor("lines of the flat profile", any(l[0] == "flat" for l in main.lines))
    ctx.anchor("a tree that is shown", main.treecalls)
    roles = {k: mk("arg", tree.id, i + 1) for k, i in main.rolesof.items()}
    sub = Report(roles=roles, sec="tree", treefn=tree.path)
    sub.rolesof = main.rolesof
    ctx.run(tree, sub, opaque=outer)
    s = sub.comparators_ok(ctx)
    ctx.anchor("a sort of the children", "tree" in s)
    ctx.anchor("children that are rendered", sub.recs)
    if sub.pending and not sub.pushed:
        ctx.violation("tree", tree.path, "children are left out although there is room for them", key="no children")
    ctx.anchor("lines of the hierarchical profile", sub.lines)
    for x in sub.recs:
        ctx.sample("recursive call", show(x))
    ctx.count("line kinds", len(main.lines) + len(sub.lines))
    ctx.count("selections", len(main.selected) + len(sub.selected))
    ctx.count("sorts", sum(len(h) == 6 for h in main.hits | sub.hits))
    parts(ctx, p)


class Roles(Report):
    def __init__(self, treefn):
        Report.__init__(self, treefn=treefn)
        self.found = {}

    def bad(self, *a):
        pass

    def subtree(self, q, ev, a):
        l = self.share(self.put(q, SEC="tree"))
        for i, v in enumerate(a):
            x = self.value(v, l)
            if x == 1 / TOTAL:
                self.found["norm"] = i
            elif x == HIER / 100 or x == SELF / 100:
                self.found["threshold"] = i
            elif self.value(v, self.widths(q, (100, 1000))) == 100:
                self.found["cols"] = i
            elif self.callof(root_of(strip(v)), "from_file"):
                self.found["trace"] = i
            elif not self.floats[i] and self.from_call(self.subject(v), "root_activities", "all_activities"):
                self.found["id"] = i
        # the two that are numbers: one is the threshold, the other must be the norm
        rest = [i for i in range(len(a)) if i not in self.found.values() and self.floats[i]]
        if "threshold" in self.found and "norm" not in self.found and len(rest) == 1:
            self.found["norm"] = rest[0]
        return q


def roles_of(ctx, p, run, tree, outer):
    r = Roles(tree.path)
    r.floats = [str(tree.local_ty(i)) == "f64" for i in range(1, tree.argc + 1)]
    e = Engine(p, r, max_steps=500000)
    e.no_inline |= set(outer + [tree.id])
    try:
        e.run(run)
    except Incomplete as x:
        ctx.undecided(run.path, x)
        return None
    ctx.anchor("parameters of the function that makes the hierarchical profile", set(r.found) == {"norm", "threshold", "cols", "trace", "id"})
    return r.found if set(r.found) == {"norm", "threshold", "cols", "trace", "id"} else None


class Parsed(Calls):
    """force_parse_arg: q = (argument parsed?, text present?)"""
    init = (None, None)

    def __init__(self, trace, ident):
        Calls.__init__(self)
        self.trace, self.ident, self.exits = trace, ident, 0

    def raw(self, v):
        """the raw argument of the activity that was asked for"""
        e = self.eng
        for want in ("raw_argument", "activity", "activity_trace"):
            v = strip(v)
            while v.tag == "call" and last(e.callpath.get(v, "")) == "clone":
                v = strip(self.args[v][0])
            if v.tag != "call" or last(e.callpath.get(v, "")) != want:
                return False
            a = self.args[v]
            v = a[0]
        return strip(a[0]) is self.trace and strip(a[1]) is self.ident

    def made(self, v, name):
        v = strip(v)
        return v.tag == "call" and last(self.eng.callpath.get(v, "")) == name and self.raw(self.args[v][0])

    def step(self, q, ev, st):
        self.note(ev)
        e = self.eng
        if ev.kind == "panic":
            return []
        if ev.kind == "outcome" and self.made(ev.val, "parse"):
            return (ev.extra, q[1])
        if ev.kind == "outcome" and self.made(ev.val, "detail"):
            if q[1] not in (None, ev.extra):
                return []
            return (q[0], ev.extra)
        if ev.kind == "exit" and ev.extra == "return":
            self.exits += 1
            v = strip(ev.val)
            if v.tag == "phi":
                e.report("argument", ev, "it is not established what the argument of an activity is shown as", "unknown")
            elif v.tag == "agg" and v.a[1] == "String":
                x = strip(v.a[2][0])
                if q[0] != "Err" or not (x.tag == "fld" and self.made(root_of(x), "detail")):
                    e.report("argument", ev, "an argument is shown as text although it can be interpreted, or as another text", "text")
            elif v.tag == "agg" and v.a[1] == "Nothing":
                if q != ("Err", "None"):
                    e.report("argument", ev, "an argument that is present is dropped", "dropped")
            elif not (v.tag == "fld" and v.a[0].tag == "as" and v.a[0].a[1] == "Ok" and self.made(root_of(v), "parse")):
                e.report("argument", ev, "the argument of an activity is not the interpretation of its own", "other")
        return q


GETTERS = {"pid", "thread_name", "beginning_of_time"}


class Meta(Calls):
    """metadata: q = (what is known, not yet shown; process shown?; abbreviated?; did something about the start date just fail?)"""
    init = (frozenset(), False, False, False)

    def __init__(self, trace):
        Calls.__init__(self)
        self.trace, self.seen = trace, set()

    def mine(self, v, *names):
        v = strip(v)
        return v is not None and v.tag == "call" and last(self.eng.callpath.get(v, "")) in names and bool(self.args.get(v)) and strip(self.args[v][0]) is self.trace

    def about(self, v):
        return {n for n in GETTERS | {"process_name"} if self.eng.derives(v, lambda x: self.mine(x, n))}

    def step(self, q, ev, st):
        self.note(ev)
        e = self.eng
        todo, proc, short, failed = q
        if ev.kind == "panic":
            if failed:
                e.report("metadata", ev, "there are traces whose metadata makes the display crash", "crash")
            return []
        if ev.kind == "outcome" and self.mine(ev.val, *GETTERS):
            n = last(e.callpath[strip(ev.val)])
            self.seen.add(n)
            return (todo | {n}, proc, short, failed) if ev.extra == "Some" else q
        if ev.kind == "outcome" and ev.extra in ("Err", "None") and self.bot(ev.val):
            return (todo, proc, short, True)
        if ev.kind == "call" and not ev.inl:
            n = last(ev.path)
            if n in ("push_str", "push", "write_fmt", "insert_str", "extend", "write_str") and len(ev.args) > 1:
                x = ev.args[1]
                t = self.about(x)
                if strip(x).tag == "k" and strip(x).a[0] == 0x2026:
                    short = True
                return (todo - t, proc or "process_name" in t, short, failed and "panic" in ev.path)
            if n in ("clone_into", "clear"):
                return (todo - self.about(ev.args[-1]), proc, short, failed) if n == "clone_into" else q
            if n in ("expect", "unwrap") and self.bot(ev.args[0]):
                e.report("metadata", ev, "there are traces whose metadata makes the display crash", "crash")
        if ev.kind == "exit" and ev.extra == "return":
            if not proc:
                e.report("metadata", ev, "the name of the process is not shown", "process")
            if todo and not short:
                e.report("metadata", ev, f"{', '.join(sorted(todo))} of the trace not shown", "missing " + " ".join(sorted(todo)))
        return q

    def bot(self, v):
        return self.eng.derives(v, lambda x: self.mine(x, "beginning_of_time"))


def parts(ctx, p):
    outer = [b.id for b in p.bodies.values() if b.crate.name in ("clang_time_trace", "cpparser", "asylum")]
    for path, cls in ((PARSE, Parsed), (METADATA, Meta)):
        b = ctx.public(path)
        if not b:
            continue
        ps = {i: str(b.local_ty(i)) for i in range(1, b.argc + 1)}
        tr = [i for i, t in ps.items() if "ClangTrace" in t]
        ids = [i for i, t in ps.items() if i not in tr]
        if not ctx.anchor(f"parameters of {path}", len(tr) == 1 and len(ids) == 1):
            continue
        t = mk("arg", b.id, tr[0])
        a = Parsed(t, mk("arg", b.id, ids[0])) if cls is Parsed else Meta(t)
        ctx.run(b, a, opaque=outer)
        if cls is Parsed:
            ctx.anchor("results of " + path, a.exits)
        else:
            ctx.anchor("metadata that is displayed", a.seen == GETTERS)
