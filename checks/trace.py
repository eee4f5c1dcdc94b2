"""Clang time traces: strict loading (T01), strict event parsing (T02), the activity tree (T03)."""
from base import *
from data import lossy, Results

TT = "clang_time_trace"
TRACE = TT + "::ClangTrace"


def croot(v):
    """token of the current loop iteration that a value was projected from (values of previous iterations are wrapped in 'old')"""
    while isinstance(v, V) and v.tag in ("conv", "fld", "as", "ov", "idx"):
        v = v.a[0]
    return v


def deref(v):
    """place that a returned reference points to, as a projection"""
    while v.tag == "ref" and v.a[0][0] == "H":
        x = v.a[0][1]
        for step in v.a[1]:
            x = mk("fld", x, step[1]) if step[0] == "f" else mk("as", x, step[1]) if step[0] == "v" else mk("idx", x)
        v = x
    return v


def tfns(p, pred):
    """functions of the trace crate whose return type satisfies pred"""
    return [b for b in p.bodies.values() if b.crate.name == TT and b.kind == "fn" and not b.derived and pred(b.local_ty(0))]


def result_of(t):
    return t.args[0] if t.path == RES and t.args else None


class Opaque:
    """functions of the trace crate that each have their own obligations, by what they return"""

    def __init__(self, ctx):
        p = ctx.p
        ok = lambda b: repr(result_of(b.local_ty(0)) or "")
        trait = lambda b: b.path.startswith("<")
        self.kind = {}
        stat = TT + "::stats::activity::ActivityStat"
        for b in tfns(p, lambda t: t.path == RES):
            o, er = ok(b), b.local_ty(0).args[1] if len(b.local_ty(0).args) > 1 else None
            if b.local_ty(0).args[0].path == stat:
                self.kind[b.path] = "activity"
            elif "GlobalStat)" in o or o.endswith("::GlobalStat"):
                self.kind[b.path] = "global"
            elif er is not None and "NameParseError" in repr(er):
                self.kind[b.path] = "name"
            elif er is not None and repr(er).endswith("::ActivityTreeError"):
                self.kind[b.path] = "insert"
        for b in tfns(p, lambda t: t.path == TT + "::tree::ActivityTree"):
            if not trait(b):
                self.kind[b.path] = "build"
        self.ids = {b.id for b in p.bodies.values() if b.path in self.kind}
        for k in ("activity", "global", "name", "insert", "build"):
            ctx.anchor(f"{k} function of the trace parser", k in self.kind.values())


class Strict(Automaton):
    """q = (json token, fields checked, beginningOfTime, item, recorded, pid state, any pid, process names, thread names, failure, exhausted, slot free)"""
    init = (None, frozenset(), "", None, "", "", False, 0, 0, "", False, False)
    max_disj = 16
    NAMES = ("tdo", "checked", "bot", "item", "rec", "pid", "anypid", "pn", "tn", "fail", "exh", "free")

    def __init__(self, opaque, fields):
        self.o, self.fields = opaque, fields
        self.seen, self.stores, self.oks = set(), collections.defaultdict(set), set()

    def kind(self, v):
        return self.o.kind.get(self.eng.callpath.get(v)) if v.tag == "call" else None

    def is_item(self, v, item):
        return item is not None and croot(v) is item

    def step(self, q, ev, st):
        d = dict(zip(self.NAMES, q))
        r = self.go(d, ev, st)
        return tuple(d[n] for n in self.NAMES)

    def go(self, d, ev, st):
        e = self.eng
        item = d["item"]
        if ev.kind == "call" and not ev.inl:
            n = last(ev.path)
            if ev.path.startswith("serde_json::de::from_") and any("TraceDataObject" in repr(t) for t in (ev.extra or ())):
                d["tdo"] = ev.res
                self.seen.add("json")
                return
            if n == "next" and "serde" not in ev.path and d["tdo"] is not None and e.derives(ev.args[0], lambda x: x.tag == "fld" and x.a[1] == "traceEvents"):
                self.boundary(d, ev)
                l = lossy(e, ev.args[0])
                if l:
                    e.report("events", ev, f"events may be left out by {l}()", "dropped events")
                d.update(item=None, rec="", pid="", exh=False, free=False)
                return
            if n == "insert" and "hash" in ev.path.lower() and item is not None:
                if any(e.derives(a, lambda x: self.kind(x) == "global") for a in ev.args[1:]):
                    self.stores["global"].add(strip(root_of(strip(ev.args[0]))))
                    a = [strip(croot(x)) for x in ev.args[1:]]
                    if len(a) == 2 and (a[0] is not a[1] or ev.args[1].tag == "fld" and ev.args[1].a[1] == ev.args[2].a[1]):
                        e.report("events", ev, "a global statistic is not stored under its own name", "global name")
                    if d["free"] or len(ev.args) == 2:
                        self.again(d, ev)
                        d["rec"] = "done"
                        self.seen.add("global")
            if self.o.kind.get(ev.path) == "insert":
                self.stores["insert"].add(1)
        elif ev.kind == "outcome":
            v = strip(ev.val)
            c = croot(ev.val)
            path = e.callpath.get(v, "") if v.tag == "call" else ""
            if v.tag == "call" and last(path) == "next":
                if ev.extra == "Some":
                    d.update(item=v, rec="", pid="", exh=False)
                else:
                    d.update(item=None, exh=True)
                return
            if v is d["tdo"]:
                if ev.extra == "Err":
                    d["fail"] = "the JSON data"
                return
            k = self.kind(v)
            if k:
                if ev.extra == "Err":
                    d["fail"] = {"activity": "an activity", "global": "a global statistic", "name": "a name", "insert": "an activity tree insertion"}[k]
                elif item is not None:
                    src = any(e.derives(a, lambda x: x is item) for a in e.deriv.get(v, ()))
                    if k == "name" and src:
                        w = "pn" if "process" in self.variant_of(st, item) else "tn" if "thread" in self.variant_of(st, item) else None
                        if w is None:
                            e.report("events", ev, "a name is taken from an event that is not known to hold it", "name kind")
                        else:
                            d[w] += 1
                            self.stores[w].add(v)
                            if d[w] > 1:
                                d[w] = 2
                        d["rec"] = "done"
                        self.seen.add(k)
                    elif k == "insert":
                        a = [x for x in e.deriv.get(v, ()) if e.derives(x, lambda y: self.kind(y) == "activity")]
                        if a and src_item(e, a, item):
                            self.again(d, ev)
                            d["rec"] = "done"
                            self.seen.add(k)
                return
            if v.tag == "call" and last(path) == "insert" and "hash" in path.lower():
                if ev.extra == "Some":
                    d["fail"] = "a duplicate global statistic"
                elif item is not None and not d["free"]:
                    self.again(d, ev)
                    d["rec"] = "done"
                    self.seen.add("global")
                return
            if v.tag == "call" and last(path) in ("get", "get_mut"):
                self.bot(d, v, ev.extra)
                if item is not None and "hash" in path.lower() and any(e.derives(a, lambda x: self.kind(x) == "global") for a in e.deriv.get(v, ())):
                    if ev.extra == "None":
                        d["free"] = True
                    else:
                        d["fail"] = "a duplicate global statistic"
            if v.tag == "call" and last(path) == "entry" and ev.extra == "Occupied":
                d["fail"] = "a duplicate global statistic"
            if v.tag == "call" and last(path) == "as_f64":
                d["bot"] = "known" if ev.extra == "Some" else "bad"
                return
            if d["tdo"] is not None and self.tdo_field(v, d) and ev.extra == "None":
                d["checked"] |= {v.a[1]}
            if item is not None and self.is_item(ev.val, item) and v.tag == "fld" and v.a[1] == "pid" and ev.extra == "None":
                d["pid"] = "absent"
        elif ev.kind == "cond":
            v = ev.val
            pol = ev.extra[1] if ev.extra[0] == "k" else None
            if v.tag == "op" and v.a[0] == "Eq":
                a, b = v.a[1], v.a[2]
                for x in (a, b):
                    x = strip(x)
                    if x.tag == "agg" and x.a[0].endswith("::TraceDataObject") and pol == 1:
                        o = strip(b if strip(a) is x else a)
                        if o.tag == "call" and last(e.callpath.get(o, "")) == "default":
                            self.seen.add("metadata")
                            for n, y in zip(x.a[3], x.a[2]):
                                if self.tdo_field(strip(y), d) and strip(y).a[1] == n:
                                    d["checked"] |= {n}
                    elif self.tdo_field(x, d) and pol == 1:
                        d["checked"] |= {x.a[1]}
                if item is not None:
                    m = [x for x in (a, b) if self.is_item(x, item) and x.tag == "fld" and x.a[1] == "pid" or self.is_item(x, item) and "pid" in show(x)]
                    if m and pol == 1:
                        d["pid"] = "checked"
                        self.seen.add("pid")
                    elif m and pol == 0:
                        d["fail"] = "an inconsistent pid"
            elif v.tag == "call" and last(e.callpath.get(v, "")) == "contains_key" and item is not None and pol is not None:
                if any(e.derives(a, lambda x: self.kind(x) == "global") for a in e.deriv.get(v, ())):
                    if pol == 0:
                        d["free"] = True
                    else:
                        d["fail"] = "a duplicate global statistic"
            elif v.tag == "call" and last(e.callpath.get(v, "")) in ("is_none", "is_empty") and pol == 1:
                for y in e.deriv.get(v, ()):
                    if self.tdo_field(strip(y), d):
                        d["checked"] |= {strip(y).a[1]}
        elif ev.kind == "assign":
            if item is not None and not d["anypid"] and ev.val.tag == "agg" and ev.val.a[1] == "Some" and len(ev.val.a[2]) == 1:
                x = ev.val.a[2][0]
                if self.is_item(x, item) and "pid" in show(x)[-20:]:
                    if not d["pid"]:
                        d["pid"] = "first"
        elif ev.kind == "exit" and ev.extra == "return":
            var = e.variant(st, ev.val)
            if var == "Ok":
                self.boundary(d, ev)
                self.seen.add("ok")
                if d["tdo"] is None:
                    e.report("events", ev, "a trace is accepted without parsing JSON data", "no json")
                elif not d["exh"]:
                    e.report("events", ev, "a trace is accepted before all of its events were looked at", "not all")
                miss = self.fields - d["checked"]
                if miss:
                    e.report("metadata", ev, f"a trace is accepted although unexpected values of {', '.join(sorted(miss))} were not ruled out", "metadata")
                if d["bot"] == "bad":
                    e.report("metadata", ev, "a trace is accepted although its beginningOfTime is not a number", "beginningOfTime")
                elif not d["bot"]:
                    e.report("metadata", ev, "a trace is accepted without looking at its beginningOfTime", "beginningOfTime ignored")
                if d["pn"] == 0:
                    e.report("names", ev, "a trace without a process name is accepted", "no process name")
                for w, what in (("pn", "process"), ("tn", "thread")):
                    if d[w] > 1:
                        e.report("names", ev, f"a trace with several {what} names is accepted", f"several {what} names")
                self.oks.add((payload(e, ev.val, "Ok"), d["bot"], d["tn"]))
            elif var == "Err":
                if not d["fail"] and not (item is not None and not d["rec"]) and d["bot"] != "bad" and d["pn"] != 0 and d["pn"] < 2 and d["tn"] < 2:
                    if not self.fields - d["checked"]:
                        e.report("spurious", ev, "a trace is rejected although nothing was wrong with it", "spurious")
            else:
                e.report("events", ev, "the outcome of loading a trace is not decided", "unknown")

    def bot(self, d, v, var):
        e = self.eng
        if any(e.derives(x, lambda y: y.tag == "str" and y.a[0] == "beginningOfTime") for x in e.deriv.get(v, ())):
            self.seen.add("bot")
            d["bot"] = "absent" if var == "None" else "bad"

    def tdo_field(self, x, d):
        return d["tdo"] is not None and x.tag == "fld" and x.a[1] in self.fields and root_of(x) is d["tdo"]

    def variant_of(self, st, item):
        """names of the variants that parts of the item are known to be"""
        return " ".join(x[1] for v, x in st.f.items() if x[0] == "v" and croot(v) is item and isinstance(x[1], str))

    def again(self, d, ev):
        if d["rec"]:
            self.eng.report("events", ev, "an event is recorded twice", "twice")

    def boundary(self, d, ev):
        """the current event is done with"""
        e = self.eng
        if d["fail"]:
            e.report("events", ev, f"a failure concerning {d['fail']} is not reported", "ignored " + d["fail"])
        if d["item"] is not None:
            if not d["rec"]:
                e.report("events", ev, "an event is neither recorded nor reported as an error", "unrecorded event")
            if not d["pid"]:
                e.report("pid", ev, "the process identifier of an event is not compared to that of the previous ones", "pid")
            elif d["pid"] == "first" and d["anypid"]:
                e.report("pid", ev, "the process identifier of an event is not compared to that of the previous ones", "pid")
            if d["pid"] in ("first", "checked"):
                d["anypid"] = True


def src_item(e, vals, item):
    return any(e.derives(a, lambda x: x is item) for a in vals)


@check("T01")
def t01(ctx):
    ctx.rule("On every path of ClangTrace::from_str: before the next event is fetched or Ok is returned, the event was recorded exactly once (activity inserted, global statistic inserted into an empty slot, "
             "name parsed), its pid was compared equal to the previous ones, and nothing failed; Ok only after the trace-wide metadata was compared equal to the default, beginningOfTime was absent or a number, "
             "and exactly one process name and at most one thread name were seen. The fields of the result and the accessors derive from these.")
    p = ctx.p
    b = ctx.public(f"<{TRACE} as core::str::traits::FromStr>::from_str")
    adt = ctx.adts(TT, "TraceDataObject")
    o = Opaque(ctx)
    if b is None or not adt:
        return
    fields = {f["name"] for f in p.adts[adt[0]]["variants"][0]["fields"]} - {"traceEvents", "extra"}
    ctx.count("metadata fields", len(fields))
    a = Strict(o, frozenset(fields))
    e = ctx.run(b, a, opaque=o.ids)
    for w, what in (("json", "JSON parsing"), ("metadata", "check of the trace-wide metadata"), ("bot", "beginningOfTime"), ("pid", "pid comparison"),
                    ("insert", "recording of activities"), ("global", "recording of global statistics"), ("name", "recording of names"), ("ok", "success")):
        ctx.anchor(f"{what} in ClangTrace::from_str", w in a.seen)
    byk = lambda k: lambda x: a.kind(x) == k
    for v, bot, tn in a.oks:
        if v.tag != "agg":
            ctx.violation("result", b.path, "the loaded trace is not known", key="unknown result")
            continue
        r = dict(zip(v.a[3], v.a[2]))
        want = dict(activities=byk("build"), global_stats=lambda x: x in a.stores["global"] or x.tag == "call" and last(e.callpath.get(x, "")) in ("new", "default"),
                    process_name=lambda x: x in a.stores["pn"], thread_name=lambda x: tn == 0 or x in a.stores["tn"],
                    beginning_of_time=lambda x: bot != "known" or x.tag == "call" and last(e.callpath.get(x, "")) == "as_f64",
                    pid=lambda x: x.tag == "fld" and x.a[1] == "pid" or x.tag == "agg" and x.a[1] == "None")
        for f, pred in want.items():
            ctx.count("result fields")
            if f not in r or not e.derives(r[f], pred):
                ctx.violation("result", b.path, f"the {f} of a loaded trace are not those of its events", key="field " + f)
            elif f in ("process_name", "thread_name", "beginning_of_time") and f in r:
                others = {"process_name": "tn", "thread_name": "pn"}.get(f)
                if others and e.derives(r[f], lambda x: x in a.stores[others]):
                    ctx.violation("result", b.path, f"the {f} of a loaded trace may be another name", key="mixed " + f)
                if f == "beginning_of_time" and bot == "absent" and r[f].tag == "agg" and r[f].a[1] != "None":
                    ctx.violation("result", b.path, "a beginning of time is made up", key="made up")
    for m, f in (("process_name",) * 2, ("pid",) * 2, ("thread_name",) * 2, ("beginning_of_time",) * 2, ("global_stats",) * 2):
        getter(ctx, f"{TRACE}::{m}", f)
    # from_file
    b = ctx.public(f"{TRACE}::from_file")
    if b is not None:
        fs = [x.id for x in p.bodies.values() if x.path == f"<{TRACE} as core::str::traits::FromStr>::from_str"]
        a = FromFile()
        ctx.run(b, a, opaque=fs)
        ctx.anchor("reading in ClangTrace::from_file", "read" in a.seen)
        ctx.anchor("parsing in ClangTrace::from_file", "parse" in a.seen)
        ctx.count("file loaders")


def getter(ctx, path, *fields):
    """an accessor that gives back a field of its argument"""
    b = ctx.public(path)
    if b is None:
        return
    a = Results()
    e = ctx.run(b, a)
    ctx.anchor("result of " + path, a.out)
    for q, v in a.out:
        x = strip(deref(v))
        me = mk("arg", b.id, 1)
        if x.tag == "agg" and x.a[1] == "None" and q == "None":
            continue
        if x.tag == "agg" and x.a[1] == "Some":
            x = strip(x.a[2][0])
        c = []
        while x.tag in ("fld", "as", "conv", "old", "ov"):
            if x.tag == "fld":
                c.append(x.a[1])
            x = x.a[0]
        if x is not me and not (x.tag == "call" and any(e.derives(y, lambda z: z is me) for y in e.deriv.get(x, ())) and e.derives(x, lambda z: z.tag == "fld" and z.a[1] in fields)) or \
           x is me and not any(f in c for f in fields):
            ctx.violation("accessor", path, f"{last(path)}() does not give back {fields[0]}", key="accessor " + path)
    ctx.count("accessors")


class FromFile(Automaton):
    init = ("", None)

    def __init__(self):
        self.seen = set()

    def step(self, q, ev, st):
        fail, buf = q
        e = self.eng
        if ev.kind == "call" and not ev.inl:
            n = last(ev.path)
            if n in ("read_to_string", "read_to_end", "read") and "std::" in ev.path:
                self.seen.add("read")
                if e.derives(mk("tuple", *ev.args), lambda x: x.tag == "arg") is False:
                    e.report("file", ev, "something else than the given file is read", "other file")
                return (fail, ev.args[1] if len(ev.args) > 1 else ev.res)
            if n in ("take", "read_exact", "read_line", "truncate", "lines"):
                e.report("file", ev, f"the file may be read in part only ({n})", "part")
            if n in ("from_str", "parse"):
                self.seen.add("parse")
                if buf is None or not e.derives(ev.args[0], lambda x: x is strip(root_of(strip(buf)))):
                    e.report("file", ev, "what is parsed is not what was read", "other data")
        elif ev.kind == "outcome" and ev.extra == "Err" and strip(ev.val).tag == "call":
            return (last(e.callpath.get(strip(ev.val), "")) or "a call", buf)
        elif ev.kind == "exit" and ev.extra == "return":
            var = e.variant(st, ev.val)
            if var == "Ok" and (fail or "parse" not in self.seen):
                e.report("file", ev, f"loading succeeds although {fail} failed", "swallowed")
            elif var is None and not (strip(root_of(ev.val)).tag == "call" and last(e.callpath.get(strip(root_of(ev.val)), "")) in ("from_str", "parse")):
                e.report("file", ev, "the outcome of loading a file is not decided", "unknown")
        return q
