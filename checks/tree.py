"""The activity tree: nesting by time and views (T03)."""
from base import *
from trace import TT, TRACE, deref, getter
from events import fpath

TREE = TT + "::tree"


def split_path(v):
    """(root value, field names) of a projection, seen through references and Some(..)"""
    v = deref(v)
    out = []
    while v.tag in ("fld", "as", "conv", "ov", "old"):
        if v.tag == "fld":
            out.append(v.a[1])
        v = deref(v.a[0])
    return v, list(reversed(out))


def ends(v, *names):
    r, p = split_path(v)
    return p[-len(names):] == list(names)


def unold(v, n=0):
    """v without the marks of the engine for results of calls that were repeated since"""
    if not isinstance(v, V) or n > 12:
        return v
    v = strip(v)
    while v.tag == "old":
        v = strip(v.a[0])
    if v.tag in ("idx", "op", "fld", "as"):
        return mk(v.tag, *[unold(x, n + 1) if isinstance(x, V) else x for x in v.a])
    return v


LASTP, RESTP = ("c", 1, True), ("s", 0, 1, True)


LAST = {"split_last_mut", "split_last", "last_mut", "last"}
AT = {"get", "get_mut", "index", "index_mut"}


class Cand(Automaton):
    """common part: fetches of candidate nodes from the end of the node list"""
    max_disj = 64

    def setup(self, me):
        self.me = me
        self.lens = collections.defaultdict(set)
        self.seen = set()

    def is_vec(self, v, field):
        r, p = split_path(v)
        return p[-1:] == [field] and r is self.me

    def of_vec(self, v, field):
        return self.eng.derives(v, lambda x: x.tag == "fld" and x.a[1] == field and split_path(x)[0] is self.me)

    def fetch(self, ev):
        """(candidate source value, index or None) if the call looks at a candidate"""
        if ev.kind == "cond" and ev.extra == ("k", 0) and ev.val.tag == "op" and ev.val.a[0] == "Lt" and ev.val.a[2] is K(1):
            # [rest @ .., candidate] = slice
            v = ev.val.a[1]
            if v.tag == "op" and v.a[0] == "PtrMetadata" and self.of_vec(v.a[1], "activities"):
                return v.a[1], None, mk("idx", strip(deref(v.a[1])), LASTP)
            return None
        if ev.kind != "call" or ev.inl or not ev.args:
            return None
        n = last(ev.path)
        if n in LAST and self.of_vec(ev.args[0], "activities"):
            return ev.args[0], None, ev.res
        if n in AT and self.of_vec(ev.args[0], "activities") and len(ev.args) > 1 and strip(ev.args[1]).tag != "agg":
            return ev.args[0], strip(ev.args[1]), ev.res
        return None

    def exhausted(self, ev, c):
        """there is no further candidate on this branch"""
        if ev.kind != "cond" or ev.extra[0] != "k":
            return False
        v, k = strip(ev.val), ev.extra[1]
        while v.tag == "not":
            v, k = v.a[0], 1 - k
        if v.tag != "op" or v.a[0] not in ("Lt", "Eq"):
            return False
        if v.a[0] == "Lt" and v.a[2] is K(1) and k == 1 or v.a[0] == "Eq" and v.a[2] is K(0) and k == 1:
            x = v.a[1]
        elif v.a[0] == "Lt" and v.a[1] is K(0) and k == 0:
            x = v.a[2]
        else:
            return False
        x = strip(x)
        if x.tag == "op" and x.a[0] == "PtrMetadata" and self.of_vec(x.a[1], "activities"):
            self.check_fetch(ev, x.a[1], None, c, True)
            return True
        if c is None:
            return self.len_of(x, "activities")
        return ends(x, "first_related_idx") and self.root_is(x, c)

    def len_of(self, v, field):
        v = strip(v)
        return v.tag == "call" and last(self.eng.callpath.get(v, "")) == "len" and any(self.is_vec(a, field) for a in self.eng.deriv[v])

    def narrowed(self, v):
        """[values that the slice given to a fetch was cut at], None if it is not known"""
        out, e = [], self.eng
        v = strip(deref(v))
        for _ in range(12):
            if v.tag == "call":
                n = last(e.callpath.get(v, ""))
                d = [strip(deref(x)) for x in e.deriv.get(v, ())]
                if n in ("index", "index_mut"):
                    rng = [x for x in d if x.tag == "agg"]
                    rest = [x for x in d if x.tag != "agg"]
                    if rng and all(r.a[0].endswith("::RangeTo") for r in rng):
                        out.append([strip(deref(r.a[2][0])) for r in rng])
                    elif not rng or not all(r.a[0].endswith("::RangeFull") for r in rng):
                        return None
                    # the same call may cut what follows several candidates
                    if len(rest) > 1 and all(x.tag == "idx" and x.a[1:] == (RESTP,) for x in rest):
                        return out
                    if len(rest) != 1:
                        return None
                    v = rest[0]
                    continue
                if n in ("deref", "deref_mut", "as_slice", "as_mut_slice", "as_ref", "as_mut", "borrow", "borrow_mut") and len(d) == 1:
                    v = d[0]
                    continue
                return out if n in LAST else None
            if v.tag == "idx":
                return out if v.a[1:] == (RESTP,) else None
            if v.tag in ("fld", "as", "old", "conv"):
                r, p = split_path(v)
                if r is self.me:
                    return out
                if p and not (p[-1] == "1" and r.tag == "call"):
                    return None
                v = r
                continue
            return out if v is self.me else None
        return None

    def index_ok(self, v, c):
        """v is the position of candidate c"""
        e = self.eng
        v = strip(deref(v))
        d = c[1]
        if d is not None:
            return unold(v) is unold(d)
        if v.tag == "call" and last(e.callpath.get(v, "")) == "len":
            d = e.deriv[v]
            return any(self.rest(a, c) for a in d) and all(self.rest(a, c) or c[0].tag == "idx" and split_path(a)[0].tag == "idx" and split_path(a)[0].a[1:] == (RESTP,) for a in d)
        return v.tag == "op" and v.a[0] == "PtrMetadata" and self.rest(v.a[1], c)

    def rest(self, v, c):
        """v is what precedes candidate c"""
        r, p = split_path(v)
        if c[0].tag == "idx":
            return r is mk("idx", c[0].a[0], RESTP) and not p
        return r is c[0] and p[-1:] == ["1"]

    def check_fetch(self, ev, src, idx, c, child):
        """the next candidate is the one before all relatives of the last child"""
        e = self.eng
        if idx is not None:
            base = idx.a[1] if idx.tag == "op" and idx.a[0] == "Sub" and idx.a[2] is K(1) else None
            if base is None:
                e.report("candidates", ev, "the position of the next candidate is not known", "position")
            elif c is None:
                if not self.len_of(base, "activities"):
                    e.report("candidates", ev, "the search for relatives does not start at the last activity", "start")
            elif not (ends(base, "first_related_idx") and self.root_is(base, c)):
                e.report("candidates", ev, "the search for relatives does not continue right before the relatives of the last one", "next")
            return
        cuts = self.narrowed(src)
        if cuts is None:
            e.report("candidates", ev, "the candidates looked at are not known", "unknown candidates")
        elif c is None:
            if cuts:
                e.report("candidates", ev, "the search for relatives does not start at the last activity", "start")
        elif len(cuts) != 1 or not all(ends(x, "first_related_idx") for x in cuts[0]) or not any(self.root_is(x, c) for x in cuts[0]):
            e.report("candidates", ev, "the search for relatives does not continue right before the relatives of the last one", "next")

    def root_is(self, v, c):
        # the engine renames the results of a call when the call is repeated
        return unold(split_path(v)[0]) is unold(c[0])


class Insert(Cand):
    """q = (candidate, facts, done, last child, end, recorded, order, end time stored)"""
    init = (None, frozenset(), frozenset(), None, "", 0, "", False)

    def __init__(self, b):
        self.setup(mk("arg", b.id, 1))
        self.act = mk("arg", b.id, 2)
        self.nodes, self.sums, self.difs = set(), True, True

    def is_start(self, v):
        return fpath(v, self.act) == ("start",)

    def is_end(self, v):
        v = strip(v)
        return v.tag == "op" and v.a[0] == "Add" and {fpath(v.a[1], self.act), fpath(v.a[2], self.act)} == {("start",), ("duration",)}

    def c_start(self, v, c):
        return ends(v, "stat", "start") and self.root_is(v, c)

    def c_dur(self, v, c):
        return ends(v, "stat", "duration") and self.root_is(v, c)

    def c_end(self, v, c):
        v = strip(v)
        return v.tag == "op" and v.a[0] == "Add" and (self.c_start(v.a[1], c) and self.c_dur(v.a[2], c) or self.c_start(v.a[2], c) and self.c_dur(v.a[1], c))

    def step(self, q, ev, st):
        c, facts, did, kids, end, rec, order, stored = q
        e = self.eng
        f = self.fetch(ev)
        if f:
            self.seen.add("fetch")
            child = self.iteration(q, ev)
            self.check_fetch(ev, f[0], f[1], c if c is not None else None, child)
            # the previous candidate's values are from now on those of an earlier iteration
            nc = (f[2], f[1])
            return (nc, frozenset(), frozenset(), child or kids, "", rec, order, stored)
        if self.exhausted(ev, c):
            child = self.iteration(q, ev)
            return (None, frozenset(), frozenset(), child or kids, "exh", rec, order, stored)
        if ev.kind == "call" and not ev.inl:
            n = last(ev.path)
            if n == "len" and ev.args:
                for fl in ("activities", "children"):
                    if self.is_vec(ev.args[0], fl):
                        self.lens[ev.res].add((fl, "pre" if c is None else "post"))
            elif n == "push" and len(ev.args) > 1 and self.is_vec(ev.args[0], "children"):
                self.seen.add("push")
                if c is None or not self.index_ok(ev.args[1], c):
                    e.report("children", ev, "what is recorded as a child is not the candidate that was examined", "child index")
                if "kid" in did:
                    e.report("children", ev, "a child is recorded twice", "child twice")
                did |= {"kid"}
            elif n == "push" and len(ev.args) > 1 and self.is_vec(ev.args[0], "activities"):
                child = self.iteration(q, ev, True)
                rec += 1
                self.node(strip(ev.args[1]), child or kids, ev, st)
                rec = min(rec, 2)
                c, facts, did = None, frozenset(), frozenset()
            elif n in DROPPING | {"swap", "reverse", "sort", "insert", "extend", "append"} and ev.args and (self.is_vec(ev.args[0], "children") or self.is_vec(ev.args[0], "activities")):
                e.report("children", ev, f"recorded activities or children are modified by {n}()", "modified")
        elif ev.kind == "outcome" and c is not None and strip(deref(ev.val)) is c[0]:
            if ev.extra == "None":
                child = self.iteration((None,) + q[1:], ev)
                c, facts, did, end = None, frozenset(), frozenset(), "exh"
        elif ev.kind == "cond" and ev.extra[0] == "k":
            v, k = strip(ev.val), ev.extra[1]
            while v.tag == "not":
                v, k = v.a[0], 1 - k
            if v.tag == "op" and v.a[0] == "Lt":
                a, b = v.a[1], v.a[2]
                if c is not None and self.c_start(a, c) and self.is_start(b):
                    facts |= {("before", k)}
                elif c is not None and self.is_start(a) and self.c_end(b, c):
                    facts |= {("overlap", k)}
                elif c is not None and self.is_start(a) and self.c_start(b, c) and k:
                    facts |= {("before", 0)}
                elif self.is_end(a) and fpath(b, self.me) == ("last_end",):
                    order = "bad" if k else "ok"
        elif ev.kind == "assign":
            self.assign(ev, c, did)
            t = ev.extra[0] if ev.extra else None
            if t and isinstance(t[0], tuple) and t[0][:1] == ("H",):
                fl = [s[1] for s in t[1] if s[0] == "f"]
                if fl[-1:] == ["last_end"]:
                    stored = self.is_end(ev.val)
                    if not stored:
                        e.report("order", ev, "the end of the last activity is not remembered as it is", "last_end")
                elif fl[-1:] == ["parent_idx"]:
                    self.seen.add("parent")
                    tgt = strip(deref(t[0][1]))
                    for x in t[1][:-1]:
                        tgt = self.eng.project(tgt, x)
                    if c is None or split_path(tgt)[0] is not c[0]:
                        e.report("children", ev, "another activity than the one examined gets a parent", "parent of other")
                    elif not self.parent_ok(ev.val):
                        e.report("children", ev, "the parent of a child is not the activity being inserted", "parent value")
                    else:
                        did |= {"parent"}
            v = strip(ev.val)
            if c is not None and v.tag == "op" and v.a[0] == "Add" and any(self.c_dur(v.a[i], c) and not self.c_start(v.a[3 - i], c) for i in (1, 2)):
                did |= {"sum"}
            elif c is not None and v.tag == "op" and v.a[0] == "Sub" and self.c_dur(v.a[2], c) and self.of_duration(v.a[1]):
                did |= {"dif"}
            elif c is not None and v.tag == "op" and v.a[0] == "deep" and not did & {"sum", "dif"} and any(x.tag == "call" and x is root_of(c[0]) for x in v.a[1:] if isinstance(x, V)):
                did |= {"sum", "dif"}
        elif ev.kind == "exit" and ev.extra == "return":
            var = e.variant(st, ev.val)
            if var == "Ok":
                self.seen.add("ok")
                if rec != 1:
                    e.report("children", ev, "an activity is not recorded exactly once" if not rec else "an activity is recorded twice", "recorded")
                if order != "ok":
                    e.report("order", ev, "an activity is inserted although it may end before the previous one", "order")
                if not stored:
                    e.report("order", ev, "the end of the inserted activity is not remembered", "last_end missing")
            elif var == "Err":
                self.seen.add("err")
                if not (order == "bad" or ("before", 1) in facts and ("overlap", 1) in facts):
                    e.report("order", ev, "an activity is rejected although it is in order and nests properly", "spurious")
            else:
                e.report("order", ev, "the outcome of an insertion is not decided", "unknown")
        return (c, facts, did, kids, end, rec, order, stored)

    def of_duration(self, v):
        """v is the duration of the activity, or what is left of it"""
        v = strip(v)
        while v.tag == "op" and v.a[0] == "Sub":
            v = strip(v.a[1])
        if v.tag == "phi":
            return self.eng.derives(v, lambda x: fpath(x, self.act) == ("duration",))
        # (values that are nested too deeply are only known by what they derive from)
        return fpath(v, self.act) == ("duration",) or v.tag == "op" and v.a[0] == "deep" and any(strip(x) is self.act for x in v.a[1:] if isinstance(x, V))

    def assign(self, ev, c, did):
        pass

    def parent_ok(self, v):
        e = self.eng
        v = strip(v)
        if v.tag == "agg" and v.a[1] == "Some":
            v = strip(v.a[2][0])
        while v.tag in ("fld", "as"):
            v = strip(v.a[0])
        if v.tag == "call" and last(e.callpath.get(v, "")) in ("new", "new_unchecked", "try_from", "unwrap", "expect", "ok", "from"):
            d = [strip(x) for x in e.deriv[v]]
            return any(self.len_of(x, "activities") or self.parent_ok(x) for x in d if x.tag in ("call", "fld", "as", "conv"))
        return self.len_of(v, "activities")

    def iteration(self, q, ev, ended=False):
        """end of the examination of a candidate; the candidate if it was a child"""
        c, facts, did, kids, end, rec, order, stored = q
        e = self.eng
        if c is None:
            if did:
                e.report("children", ev, "something is recorded as a child without having been examined", "no candidate")
            return None
        if ("before", 0) in facts:
            miss = {"parent", "kid"} - did
            if miss:
                e.report("children", ev, f"a child is not {'given its parent' if 'parent' in miss else 'listed as a child'}", "child " + ",".join(sorted(miss)))
            if "sum" not in did:
                self.sums = False
            if "dif" not in did:
                self.difs = False
            if ended:
                e.report("children", ev, "the search for children ends although the last candidate is one", "early end")
            return c
        if did & {"parent", "kid"}:
            e.report("children", ev, "an activity that starts before another one is recorded as its child", "not a child")
        if ("before", 1) in facts and ("overlap", 0) in facts:
            if not ended:
                e.report("candidates", ev, "the search for children goes on beyond the start of the activity", "beyond")
        elif ("overlap", 1) in facts:
            e.report("order", ev, "partially overlapping activities are accepted", "overlap")
        else:
            e.report("children", ev, "it is not known whether a candidate is a child", "undecided")
        return None

    def node(self, v, kids, ev, st):
        e = self.eng
        if v.tag != "agg" or not v.a[0].endswith("::ActivityNode"):
            e.report("children", ev, "what is recorded is not known", "node")
            return
        r = dict(zip(v.a[3], v.a[2]))
        if strip(deref(r["stat"])) is not self.act:
            e.report("children", ev, "another activity than the given one is recorded", "stat")
        if r["parent_idx"].tag != "agg" or r["parent_idx"].a[1] != "None":
            e.report("children", ev, "an activity gets a parent before that one is known", "parent")
        f = r["first_related_idx"]
        if kids:
            if not ends(f, "first_related_idx") or not self.root_is(f, kids):
                e.report("children", ev, "the first relative of an activity is not that of its first child", "first related")
        elif not self.len_of(f, "activities"):
            e.report("children", ev, "the first relative of an activity without children is not itself", "first related none")
        ci = strip(r["children_indices"])
        ok = ci.tag == "agg" and len(ci.a[2]) == 2
        if ok:
            a, b = strip(ci.a[2][0]), strip(ci.a[2][1])
            ok = self.lens.get(a) == {("children", "pre")} and (("children", "post") in self.lens.get(b, ()) or not kids)
        if not ok:
            e.report("children", ev, "the list of children of an activity is not the one that was recorded", "children range")
        sd = strip(r["self_duration"])
        if self.of_duration(sd) and (not kids or self.difs):
            # what is left after the durations of children were taken off
            if kids and fpath(sd, self.act):
                e.report("time", ev, "the self-duration is not the duration minus that of the children", "self duration")
            return
        ok = sd.tag == "op" and sd.a[0] == "Sub" and fpath(sd.a[1], self.act) == ("duration",)
        deep = sd.tag == "op" and sd.a[0] == "deep"
        if not ok and not deep or ok and kids and sd.a[2].tag == "k":
            e.report("time", ev, "the self-duration is not the duration minus that of the children", "self duration")
        first = strip(sd.a[2]) if ok else None
        while first is not None and first.tag == "op" and first.a[0] == "Add" and len(first.a) == 3:
            x = [strip(y) for y in first.a[1:]]
            first = x[1] if ends(x[0], "stat", "duration") else x[0]
        if first is not None and first.tag == "k" and first.a[0] not in (0, 0.0):
            e.report("time", ev, "the self-duration of an activity is off by a constant", "self duration start")
        if ok and kids and not self.sums and not e.derives(sd.a[2], lambda x: x.tag == "call" and last(e.callpath.get(x, "")) in ("sum", "fold")):
            e.report("time", ev, "the duration of a child does not count", "child duration")


class Build(Cand):
    """q = (candidate, listed, any, position recorded before its activity was looked at)"""
    init = (None, False, False, None)

    def __init__(self, b):
        self.setup(mk("arg", b.id, 1))
        self.out = set()

    def step(self, q, ev, st):
        c, listed, anyc, pend = q
        e = self.eng
        f = self.fetch(ev)
        if f:
            self.seen.add("fetch")
            self.done(q, ev)
            self.check_fetch(ev, f[0], f[1], c, True)
            if pend is not None and unold(f[1]) is not unold(pend):
                e.report("roots", ev, "what is recorded as a root is not the candidate that was examined", "root index")
            return ((f[2], f[1]), pend is not None, True, None)
        if self.exhausted(ev, c):
            self.done(q, ev)
            return (None, False, anyc, pend)
        if ev.kind == "call" and not ev.inl:
            n = last(ev.path)
            if n == "len" and ev.args and self.is_vec(ev.args[0], "children"):
                self.lens[ev.res].add("pre" if not anyc else "post")
            elif n == "push" and len(ev.args) > 1 and self.is_vec(ev.args[0], "children"):
                self.seen.add("push")
                if pend is not None:
                    e.report("roots", ev, "a root is recorded twice", "root twice")
                if (c is None or listed) and self.before_fetch(ev.args[1], c):
                    return (c, listed, anyc, strip(ev.args[1]))
                if c is None or not self.index_ok(ev.args[1], c):
                    e.report("roots", ev, "what is recorded as a root is not the candidate that was examined", "root index")
                if listed:
                    e.report("roots", ev, "a root is recorded twice", "root twice")
                listed = True
            elif n in DROPPING | {"swap", "reverse", "sort", "insert", "extend", "append", "push"} and ev.args and (self.is_vec(ev.args[0], "children") or self.is_vec(ev.args[0], "activities")):
                e.report("roots", ev, f"recorded activities or children are modified by {n}()", "modified")
        elif ev.kind == "outcome" and c is not None and strip(deref(ev.val)) is c[0] and ev.extra == "None":
            c, listed = None, False
        elif ev.kind == "exit" and ev.extra == "return":
            self.done(q, ev)
            if pend is not None:
                e.report("roots", ev, "a root is recorded without having been examined", "not examined")
            if c is not None:
                e.report("roots", ev, "the search for roots ends although there may be more", "early end")
            self.out.add(ev.val)
        return (c, listed, anyc, pend)

    def before_fetch(self, v, c):
        """position of the candidate that comes after c, if c is not None"""
        v = strip(v)
        if v.tag != "op" or v.a[0] != "Sub" or v.a[2] is not K(1):
            return False
        b = v.a[1]
        return self.len_of(b, "activities") if c is None else ends(b, "first_related_idx") and self.root_is(b, c)

    def done(self, q, ev):
        if q[0] is not None and not q[1]:
            self.eng.report("roots", ev, "a root is not listed", "root missing")


class View(Automaton):
    """exits of a view method, and the activities that lazily evaluated parts of them give"""
    init = ("", None)

    def __init__(self):
        self.out, self.lazy, self.idx = set(), [], set()

    def step(self, q, ev, st):
        if ev.kind == "cond" and ev.extra == ("k", 1) and ev.val.tag == "op" and ev.val.a[0] == "Lt":
            b = ev.val.a[2]
            if b.tag == "op" and b.a[0] == "PtrMetadata":
                return (q[0], (ev.val.a[1], b.a[1]))
        elif ev.kind == "outcome" and ends(ev.val, "parent_idx"):
            return (ev.extra, q[1])
        elif ev.kind == "exit" and ev.extra == "return":
            self.out.add((q, ev.val))
            if ev.val.tag == "lazy":
                self.lazy.append((ev.val, st.copy(), ev.fr))
        return q


PASS = {"iter", "into_iter", "copied", "cloned", "as_slice", "as_ref", "deref", "iter_mut", "by_ref", "map", "to_owned", "clone"}


def source(e, v):
    """(container, low, high, enumerated) of an iterator, or None"""
    enum = False
    v = strip(deref(v))
    lo = hi = None
    for _ in range(10):
        if v.tag == "call":
            n = last(e.callpath.get(v, ""))
            d = [strip(deref(x)) for x in e.deriv.get(v, ())]
            if n == "enumerate" and len(d) == 1:
                if enum:
                    return None
                enum, v = True, d[0]
                continue
            if n in ("index", "get_unchecked") and len(d) == 2:
                rng = [x for x in d if x.tag == "agg" and "Range" in x.a[0]] or [x for x in d if ends(x, "children_indices")]
                if len(rng) != 1 or lo is not None:
                    return None
                r = rng[0]
                v = next(x for x in d if x is not r)
                if r.tag != "agg":
                    lo, hi = ("range", r), ("range", r)
                else:
                    fs = dict(zip(r.a[3], r.a[2]))
                    lo, hi = fs.get("start", "lo"), fs.get("end", "hi")
                continue
            if n in PASS and len(d) >= 1:
                v = d[0]
                continue
            return None
        if v.tag == "agg" and v.a[0].endswith("::Range") and lo is None:
            return ("indices", v.a[2][0], v.a[2][1], enum)
        break
    return (v, lo if lo is not None else "lo", hi if hi is not None else "hi", enum)


def views(ctx, path, me_fields, want):
    """check the activity views that a method gives; want(kind) decides index sources"""
    b = ctx.public(path)
    if b is None:
        return
    a = View()
    e = ctx.run(b, a)
    me = mk("arg", b.id, 1)
    rel = lambda v: fpath(v, me)
    ctx.count("view methods")
    ctx.anchor("result of " + path, a.out)

    def bad(msg, key):
        ctx.violation("view", path, f"{last(path)}() {msg}", key=f"{path} {key}")

    def one(agg, q, f, src, item):
        """an ActivityTrace aggregate; returns its index value"""
        agg = strip(agg)
        if agg.tag != "agg" or not agg.a[0].endswith("::ActivityTrace"):
            bad("gives something that is not known", "unknown")
            return None
        r = dict(zip(agg.a[3], agg.a[2]))
        tree, act, idx = r["tree"], strip(deref(r["activity"])), strip(deref(r["activity_idx"]))
        if not same(rel, tree, me_fields):
            bad("gives an activity of another tree", "tree")
        # activity must be tree.activities[idx]
        if item is not None and src is not None and src[3] and src[0] != "indices" and act.tag == "fld" and act.a[1] == "1" and strip(split_path(act)[0]) is item:
            lo = src[1]
            if not same(rel, src[0], me_fields + ("activities",)):
                bad("gives an activity that is not the one it identifies", "element")
            i = strip(deref(idx))
            if lo == "lo":
                ok = i.tag == "fld" and i.a[1] == "0" and split_path(i)[0] is item
            else:
                ok = i.tag == "op" and i.a[0] == "Add" and any(x.tag == "fld" and x.a[1] == "0" and split_path(x)[0] is item and same_v(y, lo, rel) for x, y in ((strip(i.a[1]), strip(i.a[2])), (strip(i.a[2]), strip(i.a[1]))))
            if not ok:
                bad("gives an activity that is not the one it identifies", "index")
            return ("each", src)
        last_i = q[1]
        cont = None
        x = act
        if x.tag == "call" and last(f.callpath.get(x, "")) in ("index", "get_unchecked", "get", "unwrap", "expect"):
            d = [strip(deref(y)) for y in f.deriv[x]]
            ok = any(y is idx for y in d) and any(same(rel, y, me_fields + ("activities",)) for y in d)
        else:
            ok = last_i is not None and norm_i(last_i[0]) is norm_i(idx) and same(rel, last_i[1], me_fields + ("activities",)) and "idx" in tags(r["activity"])
        if not ok:
            bad("gives an activity that is not the one it identifies", "element")
        return idx

    for q, v in a.out:
        if v.tag == "lazy":
            continue
        x = strip(v)
        if x.tag == "agg" and x.a[1] == "None" and x.a[0] == OPT:
            want(("none", q[0]), bad, rel, me)
            continue
        if x.tag == "agg" and x.a[1] == "Some":
            x = x.a[2][0]
        i = one(x, q, e, None, None)
        if i is not None:
            want(("one", q[0], i), bad, rel, me)
    for v, st, fr in a.lazy:
        src = source(e, v.a[2][0])
        clo = [x for x in v.a[2][1:] if x.tag == "clo"]
        if src is None or last(v.a[1]) not in ("map", "Iterator::map") and not v.a[1].endswith("Iterator::map") or len(clo) != 1:
            if not v.a[1].endswith("::"):
                bad("enumerates activities that are not known", "source")
                continue
        if src is None or len(clo) != 1:
            bad("enumerates activities that are not known", "source")
            continue
        fa = View()
        f = ctx.fork(e, (clo[0], fr, (0,), st), fa)
        item = mk("arg", clo[0].a[0], 2)
        ctx.anchor("elements of " + path, fa.out)
        for q, r in fa.out:
            i = one(r, q, f, src, item)
            if i is not None:
                want(("each", src, i, item), bad, rel, me)


def tags(v):
    out = set()
    while isinstance(v, V):
        out.add(v.tag)
        if v.tag == "ref":
            if any(s[0] == "x" for s in v.a[1]):
                out.add("idx")
            break
        v = v.a[0] if v.a and isinstance(v.a[0], V) else None
    return out


def norm_i(v):
    v = strip(deref(v))
    while v.tag in ("conv", "old"):
        v = strip(deref(v.a[0]))
    return v


def same(rel, v, fields):
    return rel(v) == tuple(fields)


def same_v(a, b, rel):
    return norm_i(a) is norm_i(b) or rel(a) is not None and rel(a) == rel(b)


@check("T03")
def t03(ctx):
    ctx.rule("ActivityTreeBuilder::insert: candidates are taken from the end of the node list, then right before the relatives of the last child; a candidate becomes a child (one parent assignment, one entry in the child list, its duration subtracted) "
             "exactly when it is known not to start before the activity, the search ends only at a candidate known to lie entirely before it, overlaps and wrong orders end in errors, and the node is recorded once with the right ranges. "
             "build(): every candidate found the same way is a root. Views: the activity of a view is the one of its index; each view enumerates exactly the recorded range.")
    p = ctx.p
    ins = [b for b in p.bodies.values() if b.path == TREE + "::ActivityTreeBuilder::insert"] or \
        [b for b in p.bodies.values() if b.crate.name == TT and b.kind == "fn" and b.local_ty(0).path == RES and len(b.local_ty(0).args) > 1 and repr(b.local_ty(0).args[1]).endswith("ActivityTreeError")]
    if ctx.anchor("insertion of activities", ins):
        b = ins[0]
        a = Insert(b)
        ctx.run(b, a)
        for w, what in (("fetch", "search for children"), ("push", "child list"), ("parent", "parent assignment"), ("ok", "success"), ("err", "failure")):
            ctx.anchor(f"{what} in {b.path}", w in a.seen)
    bld = [b for b in p.bodies.values() if b.crate.name == TT and b.kind == "fn" and b.local_ty(0).path == TREE + "::ActivityTree" and not b.path.startswith("<")]
    if ctx.anchor("construction of the tree", bld):
        b = bld[0]
        a = Build(b)
        e = ctx.run(b, a)
        ctx.anchor("search for roots in " + b.path, {"fetch", "push"} <= a.seen)
        for v in a.out:
            ctx.count("trees built")
            ok = v.tag == "agg" and v.a[0].endswith("::ActivityTree")
            if ok:
                r = dict(zip(v.a[3], v.a[2]))
                for f in ("activities", "children"):
                    x = strip(r[f])
                    if not (x.tag == "call" and last(e.callpath.get(x, "")) in ("into_boxed_slice", "into", "from", "into_iter") and any(a.is_vec(y, f) for y in e.deriv[x]) or x.tag in ("conv", "fld") and a.is_vec(x, f)):
                        ctx.violation("roots", b.path, f"the {f} of the tree are not those that were recorded", key="tree " + f)
                x = strip(r["first_root_idx"])
                if a.lens.get(x) != {"pre"}:
                    ctx.violation("roots", b.path, "the list of roots does not start with the first root", key="first root")
            else:
                ctx.violation("roots", b.path, "the tree that is built is not known", key="tree")
    # ---- views
    T = ("activities",)

    def full(x, bad, rel, me):
        if x[0] != "each" or not (x[2] == ("each", x[1]) and x[1][1:3] == ("lo", "hi") or x[1][0] == "indices"):
            bad("does not give every activity", "all")
        elif x[1][0] == "indices" and not (norm_i(x[2]) is x[3] and x[1][1] is K(0) and "activities" in show(x[1][2])):
            bad("does not give every activity", "all")

    def roots(x, bad, rel, me):
        s = x[1]
        if x[0] != "each" or s[0] == "indices" or rel(s[0]) != T + ("children",) or s[3] or not isinstance(s[1], V) or rel(s[1]) != T + ("first_root_idx",) or s[2] != "hi" or norm_i(x[2]) is not x[3]:
            bad("does not give the roots", "roots")

    def by_id(x, bad, rel, me):
        if x[0] != "one" or norm_i(x[2]) is not mk("arg", me.a[0], 2):
            bad("does not give the activity with the given identifier", "id")

    views(ctx, TRACE + "::all_activities", T, full)
    views(ctx, TRACE + "::root_activities", T, roots)
    views(ctx, TRACE + "::activity_trace", T, by_id)
    AT_ = TREE + "::ActivityTrace"
    N = ("tree",)

    def direct(x, bad, rel, me):
        s = x[1]
        ok = x[0] == "each" and s[0] != "indices" and rel(s[0]) == N + ("children",) and not s[3] and norm_i(x[2]) is x[3]
        if ok:
            if isinstance(s[1], tuple):
                ok = rel(s[1][1]) == ("activity", "children_indices")
            else:
                ok = isinstance(s[1], V) and isinstance(s[2], V) and rel(s[1]) == ("activity", "children_indices", "start") and rel(s[2]) == ("activity", "children_indices", "end")
        if not ok:
            bad("does not give the direct children", "direct")

    def allc(x, bad, rel, me):
        s = x[1]
        ok = x[0] == "each" and isinstance(s[1], V) and isinstance(s[2], V) and rel(s[1]) == ("activity", "first_related_idx") and rel(s[2]) == ("activity_idx",)
        ok = ok and (x[2] == ("each", s) or s[0] == "indices" and norm_i(x[2]) is x[3])
        if not ok:
            bad("does not give all direct and indirect children", "all children")

    def par(x, bad, rel, me):
        if x[0] == "none":
            if x[1] != "None":
                bad("gives no parent although there is one", "no parent")
        elif x[0] != "one" or x[1] != "Some":
            bad("does not give the parent", "parent")
        elif fpath(norm_i(x[2]), me) != ("activity", "parent_idx"):
            bad("does not give the parent", "parent")

    views(ctx, AT_ + "::direct_children", N, direct)
    views(ctx, AT_ + "::all_children", N, allc)
    views(ctx, AT_ + "::parent", N, par)
    getter(ctx, AT_ + "::id", "activity_idx")
    getter(ctx, AT_ + "::activity", "activity", "stat")
    getter(ctx, AT_ + "::start", "start")
    getter(ctx, AT_ + "::duration", "duration")
    getter(ctx, AT_ + "::self_duration", "self_duration")
    for path in (AT_ + "::end", TT + "::stats::activity::ActivityStat::end"):
        b = ctx.public(path)
        if b is not None:
            a = View()
            ctx.run(b, a)
            for q, v in a.out:
                v = strip(v)
                if not (v.tag == "op" and v.a[0] == "Add" and any(ends(x, "start") and ends(y, "duration") for x, y in (v.a[1:3], (v.a[2], v.a[1])))):
                    ctx.violation("accessor", path, "an activity does not end after its duration", key="end " + path)
            ctx.count("accessors")
