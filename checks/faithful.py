"""Views of parsed entities give access to the parsed components (P03)."""
from base import *
from profiles import Calls
from interning import conjunction
from data import lossy
from views import ITEMS
from mir import Ty


def sub(v, var, name):
    return mk("fld", mk("as", v, var), name)


PARSER = "cpparser::EntityParser"
ITEM_NEW = "cpparser::interning::slice::SliceItemView::new"
LOOKUPS = {"get", "resolve", "try_resolve", "index", "path", "get_unchecked"}
SAME = {"clone", "as_ref", "deref", "borrow", "to_owned", "copied", "cloned", "into", "from", "as_deref", "as_str"}


class Model:
    """view types of the entity parser, how they are built and accessed"""

    def __init__(self, ctx):
        self.p = p = ctx.p
        self.bodies = [b for b in p.bodies.values() if b.crate.name == "cpparser" and b.kind == "fn"]
        adts = {k: a for k, a in p.adts.items() if k.startswith("cpparser::") and k != PARSER}

        def holds(a, what):
            return any("t" in f and self.mentions(f["t"], what) for v in a["variants"] for f in v["fields"])
        self.contexts = {f["name"] for a in adts.values() for v in a["variants"] for f in v["fields"] if "t" in f and f["t"].peel().path == PARSER}
        self.handles = {k for k, a in adts.items() if any("t" in f and f["t"].peel().path == PARSER for v in a["variants"] for f in v["fields"])}
        self.views = set(self.handles)
        while True:
            more = {k for k, a in adts.items() if k not in self.views and holds(a, self.views)}
            if not more:
                break
            self.views |= more
        self.news = {b.id: b for b in self.bodies if self.result(b) in self.views and self.context(b) and b.local_ty(1).peel().path != PARSER
                     and not any(self.mentions(b.local_ty(i), self.views) for i in range(1, b.argc + 1))}
        self.given = [b for b in self.bodies if b.argc == 2 and b.local_ty(1).peel().path == PARSER and self.mentions(b.local_ty(0), self.views) and b.id not in self.news]
        self.accessors = [b for b in self.bodies if b.argc == 1 and b.local_ty(1).peel().path in self.handles and (not b.trait_item or last(b.path) in ("as_ref", "deref", "borrow"))
                          and last(b.path) not in ("recursion_depth", "iter", "len", "is_empty")]

    def mentions(self, t, what):
        t = t.peel()
        return t.path in what or any(isinstance(a, Ty) and self.mentions(a, what) for a in t.args or ())

    @staticmethod
    def result(b):
        return b.local_ty(0).peel().path

    @staticmethod
    def context(b):
        for i in range(1, b.argc + 1):
            if b.local_ty(i).peel().path == PARSER:
                return i
        return 0

    def fields(self, path):
        a = self.p.adts.get(path)
        return a["variants"][0]["fields"] if a and len(a["variants"]) == 1 else []

    def contents(self, path):
        """type of what a view shows"""
        for f in self.fields(path):
            if f["name"] == "inner":
                t = f["t"].peel()
                while t.path and last(t.path) in ("ARef", "Rc", "Box") and t.args:
                    t = [a for a in t.args if isinstance(a, Ty)][-1].peel()
                return t.path

    def components(self, path, d=0):
        """paths of fields to all components, through plain structures"""
        for f in self.fields(path):
            yield (f["name"],)
            t = f["t"].peel() if "t" in f else None
            if t is not None and (t.path or "").startswith("cpparser::") and d < 4:
                for r in self.components(t.path, d + 1):
                    yield (f["name"],) + r

    def component(self, path, name, d=0):
        """path of fields to the component of this name, through plain structures"""
        fs = self.fields(path)
        for f in fs:
            if f["name"] == name:
                return (name,)
        for f in fs:
            t = f["t"].peel() if "t" in f else None
            if t is not None and (t.path or "").startswith("cpparser::") and d < 4:
                r = self.component(t.path, name, d + 1)
                if r:
                    return (f["name"],) + r
        return None


class Faithful(Calls):
    """q = (views built so far: (result, constructor, arguments)..., what was built)"""
    init = ((), None)
    unwind = False

    makes_of = None

    def __init__(self, m, b, entities):
        Calls.__init__(self)
        self.m, self.b, self.entities = m, b, entities
        self.makes = tuple(m.views)
        self.exits, self.lookups, self.delegated = 0, [], False

    def same(self, v, src, d=0):
        v = strip(v)
        if v is strip(src):
            return True
        if v.tag == "ref" and d < 6:
            return False
        if v.tag == "call" and self.name(v) in SAME and self.args.get(v) and d < 6:
            return self.same(self.args[v][0], src, d + 1)
        return False

    def parser(self, v):
        return self.entities(self, strip(v))

    def built(self, q, v):
        for r, f, a in q[0]:
            if strip(r) is v:
                return f, a

    def ok(self, v, src, q, st, d=0):
        """does a value show this component?"""
        v = strip(v)
        if d > 12:
            return False
        if self.same(v, src):
            return True
        c = self.built(q, v)
        if c:
            f, a = c
            i = self.m.context(f) if f is not None else 2
            return self.same(a[0], src) and self.parser(a[i - 1]) and all(self.related(x) for k, x in enumerate(a) if k not in (0, i - 1))
        if v.tag != "agg":
            return False
        ty, var, vals, names = v.a[0], v.a[1], v.a[2], v.a[3]
        if last(ty) == "InternedPath":
            return any(self.same(x, src) for x in vals) and all(self.same(x, src) or self.related(x) for x in vals)
        if ty == "core::option::Option":
            have = self.eng.variant(st, src)
            return have == var and (var == "None" or self.ok(vals[0], sub(src, "Some", "0"), q, st, d + 1))
        if ty in self.m.views:
            a = self.m.p.adts[ty]
            if len(a["variants"]) == 1:
                fs = dict(zip(names, vals))
                ent = [x for x in vals if self.parser(x)]
                rest = [x for x in vals if not self.parser(x) and not (strip(x).tag == "agg" and last(strip(x).a[0]) == "PhantomData")]
                if ty in self.m.handles and not ent:
                    return False
                if not rest:
                    return False
                if "key" in fs:
                    return self.same(fs["key"], src) and all(self.related(x) or self.same(x, src) for x in rest)
                return len(rest) == 1 and self.ok(rest[0], src, q, st, d + 1)
            return self.shape(v, src, var, q, st, d)
        a = self.m.p.adts.get(ty)
        if a is None and v.a[0] in ("tuple", "()", ""):
            return bool(vals) and all(self.same(x, mk("fld", src, str(i))) for i, x in enumerate(vals))
        if a is not None and len(a["variants"]) == 1:
            return bool(vals) and all(self.ok(x, mk("fld", src, n), q, st, d + 1) for n, x in zip(names, vals))
        return self.shape(v, src, var, q, st, d)

    def shape(self, v, src, var, q, st, d):
        if self.eng.variant(st, src) != var:
            return False
        return all(self.ok(x, sub(src, var, n), q, st, d + 1) for n, x in zip(v.a[3], v.a[2]))

    def related(self, v):
        """looked up in the interners of the same parser"""
        return self.eng.derives(v, lambda x: self.parser(x))

    def step(self, q, ev, st):
        self.note(ev)
        if ev.kind == "make":
            return q[0], (ev.path, ev.extra) if ev.path == self.makes_of else q[1]
        if ev.kind == "call" and not ev.inl and ev.res is not None:
            f = self.m.news.get(ev.callee.id) if ev.callee is not None else None
            if f is not None or ev.path == ITEM_NEW:
                return q[0] + ((strip(ev.res), f, tuple(strip(a) for a in ev.args)),), q[1]
            if last(ev.path) in LOOKUPS and len(ev.args) == 2 and self.related(ev.args[0]):
                self.lookups.append((ev, q, strip(ev.args[1])))
        if ev.kind == "exit" and ev.extra == "return":
            self.exits += 1
            self.done(q, ev, st)
        return q


class New(Faithful):
    """constructor of a view"""

    def __init__(self, m, b):
        i = m.context(b)
        ent = mk("arg", b.id, i)
        Faithful.__init__(self, m, b, lambda a, v: v is ent)
        self.makes_of = m.result(b)
        self.key = any(f["name"] == "key" for f in m.fields(self.makes_of))
        self.rest = [mk("arg", b.id, k) for k in range(2, b.argc + 1) if k != i]

    def parser(self, v):
        return Faithful.parser(self, v) or strip(v) in self.rest and False

    def related(self, v):
        return self.eng.derives(v, lambda x: self.parser(x) or x in self.rest)

    def done(self, q, ev, st):
        src = mk("arg", self.b.id, 1)
        self.delegated |= bool(self.built(q, strip(ev.val)))
        if not self.ok(ev.val, src, q, st):
            v = strip(ev.val)
            self.eng.report("constructor", ev, f"{self.b.path} does not give a view of what it is given: {show(v)[:120]}", f"{self.b.path} {v.a[1] if v.tag == 'agg' else ''}")


class Access(Faithful):
    """accessor of a view"""

    def __init__(self, m, b):
        me = mk("arg", b.id, 1)
        Faithful.__init__(self, m, b, lambda a, v: v.tag == "fld" and v.a[1] in a.m.contexts and strip(v.a[0]) is me)
        self.me, self.shown = me, []

    def sources(self):
        """the component that has to be returned: [(name, value)]"""
        m = self.m
        ty = m.contents(self.b.local_ty(1).peel().path)
        inner = mk("fld", self.me, "inner")
        n = last(self.b.path)
        if n in ("as_ref", "deref", "borrow"):
            return [("", inner)]
        for x in (n, n[3:] if n.startswith("is_") else None):
            p = x and m.component(ty, x)
            if p:
                return [(".".join(p), at(inner, p))]
        return [(".".join(p), at(inner, p)) for p in m.components(ty)]

    def done(self, q, ev, st):
        hit = [n for n, s in self.sources() if self.ok(self.value(ev.val, st), s, q, st)]
        self.shown.append(set(hit))
        if not hit:
            s = self.sources()
            what = f"the {s[0][0] or 'text'}" if len(s) == 1 else "a component"
            self.eng.report("accessor", ev, f"{self.b.path} does not return {what} of what was parsed: {show(strip(ev.val))[:120]}", self.b.path)

    def value(self, v, st):
        return self.eng.peel(st, v)


class Given(Faithful):
    """accessor of the entity parser"""

    def __init__(self, m, b):
        ent = mk("arg", b.id, 1)
        Faithful.__init__(self, m, b, lambda a, v: v is ent)

    def done(self, q, ev, st):
        if not self.ok(ev.val, mk("arg", self.b.id, 2), q, st):
            self.eng.report("parser", ev, f"{self.b.path} does not give a view of what it is asked for: {show(strip(ev.val))[:120]}", self.b.path)


class Item(Faithful):
    """how a sequence makes the views of its items"""

    def __init__(self, m, b, me):
        Faithful.__init__(self, m, b, lambda a, v: v.tag == "fld" and v.a[1] in a.m.contexts and strip(v.a[0]) is me)

    def done(self, q, ev, st):
        if not self.ok(ev.val, mk("arg", self.b.id, self.b.argc), q, st):
            self.eng.report("sequence", ev, f"the items of a sequence are not shown as they were parsed: {show(strip(ev.val))[:120]}", self.b.path)


class Seq(Calls):
    """iteration over a sequence and its length"""
    init = 0

    def __init__(self, b):
        Calls.__init__(self)
        self.b, self.me, self.exits, self.closures = b, mk("arg", b.id, 1), 0, set()

    def whole(self, v, d=0):
        v = strip(v)
        if v.tag == "fld" and v.a[1] == "inner" and strip(v.a[0]) is self.me or v is self.me:
            return True
        if d > 12:
            return False
        if v.tag == "lazy":
            self.closures |= {x for x in map(strip, v.a[2][1:]) if x.tag == "clo"}
            return last(v.a[1]) in ITEMS and self.whole(v.a[2][0], d + 1)
        if v.tag == "call":
            return self.name(v) in ITEMS and bool(self.args.get(v)) and self.whole(self.args[v][0], d + 1)
        return False

    def step(self, q, ev, st):
        self.note(ev)
        if ev.kind == "exit" and ev.extra == "return":
            self.exits += 1
            v, n = strip(ev.val), last(self.b.path)
            if n == "iter":
                good = self.whole(v)
            else:
                good = v.tag == "call" and self.name(v) in ({"len", "count"} if n == "len" else {"is_empty"}) and self.whole(self.args[v][0])
                if n == "is_empty" and v.tag == "op" and len(v.a) == 3 and v.a[0] in ("Eq", "Lt", "Le"):
                    a, c = strip(v.a[1]), strip(v.a[2])
                    good = a.tag == "call" and self.name(a) in ("len", "count") and self.whole(self.args[a][0]) and c is K(1 if v.a[0] == "Lt" else 0)
            if not good:
                self.eng.report("sequence", ev, f"{self.b.path} is not about all items of the sequence, in order", self.b.path)
        return q


def at(v, path):
    for n in path:
        v = mk("fld", v, n)
    return v


def same_field(name):
    def f(a, v):
        if v.tag == "op" and v.a[0] == "Eq" and len(v.a) == 3:
            xs = v.a[1:]
        elif v.tag == "call" and a.name(v) in ("eq", "ptr_eq", "addr_eq") and len(a.args.get(v, ())) == 2:
            xs = a.args[v]
        else:
            return False
        xs = [bare(a, x) for x in xs]
        return all(x.tag == "fld" and x.a[1] == name for x in xs) and {strip(x.a[0]).a[1] if strip(x.a[0]).tag == "arg" else None for x in xs} == {1, 2}
    return f


def bare(a, v):
    v = strip(v)
    while v.tag == "call" and a.name(v) in ("as_ref", "deref", "borrow", "clone") and a.args.get(v):
        v = strip(a.args[v][0])
    return v


@check("P03")
def p03(ctx):
    ctx.rule("constructor: a view is made of the key or value that it is given, looked up in the given parser; the view of a variant is the variant of the same name, with the same components")
    ctx.rule("accessor: an accessor of a view returns the component of the same name of what was parsed (or a view of it), whatever the variant; two accessors return two components")
    ctx.rule("parser: the accessors of the parser give a view of the key that they are given")
    ctx.rule("sequence: views of sequences have the length of the sequence and iterate over views of all items in order")
    ctx.rule("equality: two views are equal exactly if they show the same key of the same parser")
    m = Model(ctx)
    ctx.anchor("views of the entity parser", len(m.handles) >= 10)
    opaque = set(m.news) | {b.id for b in ctx.p.bodies.values() if b.crate.name in ("asylum", "lasso") and b.kind == "fn" and last(b.path) in LOOKUPS}
    for b in m.news.values():
        a = New(m, b)
        ctx.run(b, a, opaque=opaque - {b.id})
        ctx.anchor(f"result of {b.path}", a.exits)
        ctx.count("constructors")
        ctx.sample("constructors", b.path)
        src = mk("arg", b.id, 1)
        if a.key:
            if not a.lookups and not a.rest and not a.delegated:
                ctx.violation("constructor", where(b), f"{b.path} does not look up what it is given", key=b.path + " lookup")
            for ev, q, k in a.lookups:
                if not a.same(k, src):
                    ctx.violation("constructor", ev.where(), f"{b.path} looks up another key than the one that it is given", key=b.path + " key")
    owners = {}
    for b in m.accessors:
        a = Access(m, b)
        ctx.run(b, a, opaque=opaque)
        ctx.anchor(f"result of {b.path}", a.exits)
        ctx.count("accessors")
        ctx.sample("accessors", f"{b.path} -> {'/'.join(sorted(set().union(*a.shown)) if a.shown else ())}")
        if not b.trait_item and a.shown and all(a.shown):
            common = set.intersection(*a.shown)
            if not common:
                ctx.violation("accessor", where(b), f"{b.path} returns different components depending on the case", key=b.path)
            for n in common if len(common) == 1 else ():
                o = owners.setdefault((m.contents(b.local_ty(1).peel().path), b.local_ty(1).peel().path, n), b)
                if o is not b:
                    ctx.violation("accessor", where(b), f"{o.path} and {b.path} return the same component", key=b.path + " twice")
    ctx.anchor("accessors of views", len(m.accessors) >= 15)
    for b in m.given:
        a = Given(m, b)
        ctx.run(b, a, opaque=opaque)
        ctx.anchor(f"result of {b.path}", a.exits)
        ctx.count("accessors of the parser")
        ctx.sample("accessors of the parser", b.path)
    ctx.anchor("accessors of the parser", len(m.given) >= 8)
    n = 0
    for b in m.bodies:
        if b.argc == 1 and not b.trait_item and (b.local_ty(1).peel().path or "").endswith("::SliceView") and last(b.path) in ("iter", "len", "is_empty"):
            a = Seq(b)
            ctx.run(b, a)
            ctx.anchor(f"result of {b.path}", a.exits)
            n += last(b.path) == "iter"
            if last(b.path) == "iter":
                for f in ctx.anchor("closure that makes the view of an item", a.closures) or ():
                    c = ctx.p.bodies[f.a[0]]
                    i = Item(m, c, a.me)
                    ctx.run(c, i, captures=f.a[2], opaque=opaque)
                    ctx.anchor(f"result of {c.path}", i.exits)
                    ctx.count("item closures")
    ctx.anchor("iteration over the items of a sequence", n)
    for b in m.bodies:
        if b.trait_item == "core::cmp::PartialEq::eq" and not b.derived and b.local_ty(1).peel().path in m.handles:
            fs = [f for f in m.fields(b.local_ty(1).peel().path) if last((f["t"].peel().path or "") if "t" in f else "") != "PhantomData"]
            names = [f["name"] for f in fs]
            if "key" in names:
                names = [x for x in names if x != "inner"]
            conjunction(ctx, b, "equality", {x: same_field(x) for x in names}, "two views are considered equal without showing the same key of the same parser (or the reverse)")
            ctx.count("comparisons of views")


def where(b):
    return f"{b.file}:{b.line} in {b.path}"
