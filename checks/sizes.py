"""Displays cope with terminals of any size (U11)."""
from base import *
from profiles import Calls

INF = 1 << 62
DISPLAYS = "crofiler::ui::display::"
# functions that must be given at least one column, by the position of the number of columns among their parameters
SINKS = ("crofiler::ui::display::metadata::metadata", "crofiler::ui::display::path::truncate_path_iter")
CHANGED = {"AddWithOverflow": "Add", "SubWithOverflow": "Sub", "MulWithOverflow": "Mul"}


def own(b):
    return b.crate.name == "crofiler" and "src/ui/" in str(b.file) and "::tests" not in b.path


class Sizes(Calls):
    """collects what a function does with the size of the terminal"""
    unwind = False
    init = ()

    def __init__(self, w, b):
        Calls.__init__(self)
        self.w, self.b = w, b
        self.makes = {a for a, _, _ in w.fields}
        self.found = []      # (kind, ...)

    # -- bounds
    def fact(self, st, a, low):
        """bound of a value by what was compared before"""
        out = None
        for k, f in st.f.items():
            if low and f == ("k", 0) and k.tag == "op" and k.a[0] == "Eq" and a in (strip(k.a[1]), strip(k.a[2])) and K(0) in k.a[1:]:
                out = max(out or 0, 1)
            if f[0] != "k" or k.tag != "op" or k.a[0] != "Lt":
                continue
            x, y = strip(k.a[1]), strip(k.a[2])
            if low and x is a and y.tag == "k" and not f[1]:
                out = max(out or 0, y.a[0])
            elif low and y is a and x.tag == "k" and f[1]:
                out = max(out or 0, x.a[0] + 1)
            elif not low and x is a and y.tag == "k" and f[1]:
                out = min(INF if out is None else out, y.a[0] - 1)
            elif not low and y is a and x.tag == "k" and not f[1]:
                out = min(INF if out is None else out, x.a[0])
        if low and st.f.get(a, ("", ()))[0] == "nk" and 0 in st.f[a][1]:
            out = max(out or 0, 1)
        return out

    def low(self, v, st, seen=()):
        v = strip(v)
        if v in seen or len(seen) > 30:
            return INF if v.tag == "phi" else 0
        seen = seen + (v,)
        g = self.fact(st, v, True) or 0
        if v.tag == "k":
            return v.a[0] if isinstance(v.a[0], int) else 0
        if v.tag == "arg":
            return max(g, self.w.lows.get(v.a, 0))
        if v.tag == "op" and len(v.a) == 3:
            x, y = v.a[1], v.a[2]
            if v.a[0] == "Add":
                return max(g, self.low(x, st, seen) + self.low(y, st, seen))
            if v.a[0] == "Mul":
                return max(g, self.low(x, st, seen) * self.low(y, st, seen))
            if v.a[0] == "Sub":
                h = self.high(y, st, seen)
                return max(g, 0, self.low(x, st, seen) - h)
            if v.a[0] == "Div" and strip(y).tag == "k" and strip(y).a[0]:
                return max(g, self.low(x, st, seen) // strip(y).a[0])
        if v.tag == "call":
            n, a = self.name(v), self.args.get(v, ())
            if n == "max" and len(a) == 2:
                return max(g, self.low(a[0], st, seen), self.low(a[1], st, seen))
            if n == "min" and len(a) == 2:
                return max(g, min(self.low(a[0], st, seen), self.low(a[1], st, seen)))
            if n == "clamp" and len(a) == 3:
                return max(g, self.low(a[1], st, seen))
            if n == "saturating_sub" and len(a) == 2:
                return max(g, 0, self.low(a[0], st, seen) - self.high(a[1], st, seen))
            if n in ("saturating_add", "wrapping_add") and len(a) == 2:
                return max(g, self.low(a[0], st, seen), self.low(a[1], st, seen))
            if n == "get" and "NonZero" in self.eng.callpath.get(v, ""):
                return max(g, 1)
            if n in ("from", "into", "clone", "deref", "as_usize", "unwrap_or", "unwrap_or_default", "expect", "unwrap") and len(a) == 1:
                return max(g, self.low(a[0], st, seen))
        if v.tag == "phi":
            ls = [self.low(x, st, seen) for x in self.eng.deriv.get(v, ()) if x is not v]
            return max(g, min(ls)) if ls else g
        return g

    def high(self, v, st, seen=()):
        v = strip(v)
        if v in seen or len(seen) > 30:
            return 0 if v.tag == "phi" else INF
        seen = seen + (v,)
        g = self.fact(st, v, False)
        g = INF if g is None else g
        if v.tag == "k" and isinstance(v.a[0], int):
            return v.a[0]
        if v.tag == "op" and len(v.a) == 3:
            x, y = self.high(v.a[1], st, seen), self.high(v.a[2], st, seen)
            if v.a[0] == "Add":
                return min(g, x + y, INF)
            if v.a[0] == "Mul":
                return min(g, INF if INF in (x, y) else x * y)
            if v.a[0] in ("Sub", "Div"):
                return min(g, x)
        if v.tag == "call":
            n, a = self.name(v), self.args.get(v, ())
            if n == "min" and len(a) == 2:
                return min(g, self.high(a[0], st, seen), self.high(a[1], st, seen))
            if n == "max" and len(a) == 2:
                return min(g, max(self.high(a[0], st, seen), self.high(a[1], st, seen)))
            if n == "clamp" and len(a) == 3:
                return min(g, self.high(a[2], st, seen))
            if n == "saturating_sub" and len(a) == 2:
                return min(g, self.high(a[0], st, seen))
        if v.tag == "phi":
            hs = [self.high(x, st, seen) for x in self.eng.deriv.get(v, ()) if x is not v]
            return min(g, max(hs)) if hs else g
        return g

    def sized(self, v):
        """does a value depend on the size of the terminal"""
        return self.eng.derives(v, lambda x: x.tag == "call" and last(self.eng.callpath.get(x, "")) == "terminal_size" or x.tag == "arg" and x.a in self.w.lows)

    def ordered(self, a, b, st):
        """a >= b was found out"""
        a, b = strip(a), strip(b)
        for k, f in st.f.items():
            if f[0] == "k" and k.tag == "op" and k.a[0] == "Lt":
                x, y = strip(k.a[1]), strip(k.a[2])
                if x is a and y is b and not f[1] or x is b and y is a and f[1]:
                    return True
        return self.low(a, st) >= self.high(b, st)

    def step(self, q, ev, st):
        self.note(ev)
        if ev.kind == "assign" and ev.val is not None:
            v = ev.val
            if v.tag == "agg" and len(v.a[2]) == 2 and isinstance(v.a[2][0], V):
                v = v.a[2][0]
            if v.tag == "op" and v.a[0] == "Sub" and len(v.a) == 3 and (self.sized(v.a[1]) or self.sized(v.a[2])):
                self.found.append(("sub", self.ordered(v.a[1], v.a[2], st), ev))
        if ev.kind == "call" and ev.path:
            f = ev.callee
            for i, a in enumerate(ev.args):
                key = (f.id, i + 1) if f is not None else None
                if last(ev.path) in ("wrapping_sub", "unchecked_sub") and i == 0 and self.sized(a):
                    self.found.append(("sub", self.ordered(a, ev.args[1], st), ev))
                if f is None or not own(f):
                    continue
                if self.sized(a):
                    self.found.append(("pass", key, self.low(a, st), ev))
                if key in self.w.params:
                    self.found.append(("need", self.low(a, st), self.origin(a), ev))
        if ev.kind == "make" and ev.val is not None and ev.val.tag == "agg":
            for n, x in zip(ev.val.a[3] or (), ev.val.a[2]):
                if isinstance(x, V) and (ev.val.a[0], ev.val.a[1], n) in self.w.fields:
                    self.found.append(("need", self.low(x, st), self.origin(x), ev))
        return q

    def origin(self, v):
        """where to ask further for at least one column: a parameter or the field of a message"""
        v = strip(v)
        if v.tag == "arg":
            return ("param", v.a)
        if v.tag == "fld" and isinstance(v.a[0], V) and v.a[0].tag == "as":
            return ("field", v.a[0].a[1], v.a[1])
        if v.tag == "fld" and strip(v.a[0]).tag == "arg":
            return ("capture", v)


class World:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        self.lows = {}       # (function, parameter) that depends on the size of the terminal -> lower bound
        self.params = set()  # (function, parameter) that has to be at least one
        self.fields = set()  # (type, variant, field) that has to be at least one

    def relevant(self):
        fs = {i for i, _ in self.lows} | {i for i, _ in self.params}
        out = []
        for b in self.p.bodies.values():
            if not own(b):
                continue
            hit = b.id in {i for i, _ in self.lows}
            for bb, t in b.calls():
                c = t.get("callee")
                if isinstance(c, dict) and (last(c["path"]) == "terminal_size" or c.get("id") in fs or self.p.by_path.get(c["path"]) and any(x.id in fs for x in self.p.by_path[c["path"]])):
                    hit = True
            if not hit and self.fields:
                js = b.text = getattr(b, "text", None) or repr(b.j.get("blocks"))
                hit = any(a in js and f"'{v}'" in js for a, v, _ in self.fields)
            if hit:
                out.append(b)
        return out


@check("U11")
def u11(ctx):
    p = ctx.p
    ctx.rule("every subtraction of values that depend on the size of the terminal has a minuend that is provably not smaller than the subtrahend (interval bounds, comparisons on the path); "
             "every number of columns that reaches metadata() or truncate_path_iter() from the user interfaces, through parameters and messages, is provably at least one")
    w = World(ctx)
    for s in SINKS:
        b = ctx.public(s)
        if b is not None:
            cols = [i for i in range(1, b.argc + 1) if b.local_ty(i).peel().s in ("u16", "usize")]
            if ctx.anchor(f"number of columns of {s}", len(cols) == 1):
                w.params.add((b.id, cols[0]))
    runs = {}
    for rnd in range(12):
        before = (dict(w.lows), set(w.params), set(w.fields))
        runs = {}
        bodies = w.relevant()
        # (what computes a number is looked at where it is called)
        closed = {b.id for b in p.bodies.values() if b.local_ty(0).peel().s not in ("u16", "usize") and b.crate.name in ("crofiler", "clang_time_trace", "cpparser", "cmakeperf", "asylum") and b.kind != "closure"}
        for b in bodies:
            if b.path.startswith(DISPLAYS):
                continue    # checks its columns itself
            a = Sizes(w, b)
            runs[b.id] = (b, a, Engine(p, a, max_steps=300000))
            e = runs[b.id][2]
            e.no_inline |= closed - {b.id}
            try:
                e.run(b)
            except Incomplete as x:
                ctx.undecided(b.path, x)
        lows = {}
        for b, a, e in runs.values():
            for f in a.found:
                if f[0] == "pass":
                    lows[f[1]] = min(lows.get(f[1], INF), f[2])
                if f[0] == "need" and f[1] < 1 and f[2] is not None:
                    if f[2][0] == "param":
                        w.params.add(f[2][1])
                    elif f[2][0] == "field":
                        for path, adt in p.adts.items():
                            if path.startswith("crofiler::") and any(v["name"] == f[2][1] and any(x["name"] == f[2][2] for x in v["fields"]) for v in adt["variants"]):
                                w.fields.add((path, f[2][1], f[2][2]))
        w.lows = lows
        if before == (w.lows, w.params, w.fields):
            break
    n = {"sub": 0, "need": 0, "pass": 0}
    reads = 0
    for b, a, e in runs.values():
        ctx.absorb(e, b.path)
        reads += any(last(x) == "terminal_size" for x in e.callpath.values())
        for f in a.found:
            n[f[0]] += 1
            ev = f[-1]
            if f[0] == "sub" and not f[1]:
                ctx.violation("underflow", ev.where(), "on a small terminal, this subtraction underflows", key=f"underflow {b.path}")
            if f[0] == "need" and f[1] < 1 and (f[2] is None or f[2][0] == "capture"):
                ctx.violation("columns", ev.where(), "a display function that needs at least one column may be given none", key=f"columns {b.path} {ev.path}")
    # what nobody passes, or passes from elsewhere, has to be known
    for i, k in w.params:
        b = p.bodies[i]
        if b.kind == "closure" or not any(f[0] == "need" for bb, a, e in runs.values() for f in a.found):
            ctx.violation("columns", f"{b.file}:{b.line} in {b.path}", "it is not known how many columns this function is given", key=f"columns unknown {b.path}")
    ctx.count("functions that depend on the size of the terminal", len(runs))
    ctx.count("subtractions", n["sub"])
    ctx.count("columns handed to display functions", n["need"])
    ctx.count("sizes passed on", n["pass"])
    for b, a, e in runs.values():
        ctx.sample("functions", b.path)
    ctx.anchor("reads of the size of the terminal", reads)
    ctx.anchor("columns handed to display functions", n["need"])
