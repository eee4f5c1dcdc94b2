"""Display and views of parsed C++ entities (P01, P02, P03)."""
from base import *
from profiles import Calls
from dialogs import evaluate
from screens import fields
from mir import Ty

CD = "cpparser::display::"
IMPL = CD + "CustomDisplay::display_impl"
DEPTH = CD + "CustomDisplay::recursion_depth"
FMT = "core::fmt::Display::fmt"
TRANSPARENT = {"as_ref", "deref", "clone", "to_owned", "borrow", "as_str", "into", "from", "as_deref", "copied", "cloned", "to_string", "unwrap"}
WRAPPERS = {"ARef", "Box", "Rc", "Arc"}
KEEP = {"recursion_depth", "max", "min"}
ELLIPSIS = "…"


def decode(s):
    """pieces of the template of a format string: texts, and (index, plain?) for arguments"""
    b = [ord(c) for c in s]
    if any(x > 255 for x in b):
        return None
    out, i, n = [], 0, 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            return out
        if x < 0x80 or x == 0x80:
            if x == 0x80:
                x = b[i] + 256 * b[i + 1]
                i += 2
            out.append(utf8("".join(map(chr, b[i:i + x]))))
            i += x
        elif x >= 0xC0:
            plain = not x & 7
            i += 4 * (x & 1) + 2 * (x >> 1 & 1) + 2 * (x >> 2 & 1)
            if x & 8:
                n = b[i] + 256 * b[i + 1]
                i += 2
            out.append((n, plain))
            n += 1
        else:
            return None
    return None


def utf8(s):
    try:
        return s.encode("latin1").decode("utf8")
    except (UnicodeEncodeError, UnicodeDecodeError):
        return s


def path_of(v, root):
    """path of fields from the given argument, or None"""
    out = []
    v = strip(v)
    while v is not root:
        if v.tag == "fld":
            out.append(v.a[1])
        elif v.tag == "as":
            out.append("as " + v.a[1])
        else:
            return None
        v = strip(v.a[0])
    return tuple(reversed(out))


class Views:
    """the types of the parsed entities and how they are displayed"""

    def __init__(self, ctx):
        self.ctx, p = ctx, ctx.p
        self.p = p
        self.bodies = [b for b in p.bodies.values() if b.crate.name == "cpparser" and b.kind == "fn"]
        self.impls = [b for b in self.bodies if b.trait_item == IMPL]
        self.depths = {self.selfty(b): b for b in self.bodies if b.trait_item == DEPTH}
        self.fmts = [b for b in self.bodies if b.trait_item == FMT]
        self.inherent = [b for b in self.bodies if not b.trait_item and self.param(b, "DisplayState") > 1 and self.param(b, "Formatter")]
        for b in self.inherent:
            d = [x for x in self.bodies if not x.trait_item and x.argc == 1 and last(x.path) == "recursion_depth" and self.selfty(x) == self.selfty(b)]
            if d:
                self.depths[self.selfty(b)] = d[0]
        self.custom = {self.selfty(b) for b in self.impls + self.inherent}
        self.opaque = {b.id for b in self.impls + self.fmts + self.inherent} | {b.id for b in self.depths.values()}
        self.opaque |= {b.id for b in self.bodies if b.path in (CD + "DisplayState::can_recurse", CD + "DisplayState::recurse")}
        self.context = {f["name"] for a in p.adts.values() for v in a["variants"] for f in v["fields"] if "t" in f and last(f["t"].peel().path or "") == "EntityParser"}
        self.slices = {x for x in self.custom if x and last(x) == "SliceView"}
        self.opaque |= {b.id for b in self.bodies if self.selfty(b) in self.slices and b.argc == 1 and last(b.path) in ("is_empty", "len", "iter")}

    @staticmethod
    def selfty(b):
        return b.local_ty(1).peel().path if b.argc else None

    @staticmethod
    def param(b, name):
        for i in range(1, b.argc + 1):
            if last(b.local_ty(i).peel().path or "") == name:
                return i
        return 0

    def ty(self, t):
        """type behind references and owning pointers"""
        t = t.peel()
        while t.path and last(t.path) in WRAPPERS and t.args:
            t = [a for a in t.args if isinstance(a, Ty)][-1].peel()
        return t

    def parts(self, t):
        """[(path element(s), type)] of a struct or tuple, None for anything else"""
        t = self.ty(t)
        if t.k == "tuple":
            return [((str(i),), a) for i, a in enumerate(t.args)] or None
        a = self.p.adts.get(t.path)
        if t.path in self.slices or a is None or not (t.path or "").startswith("cpparser::") or len(a["variants"]) != 1:
            return None
        fs = [f for f in a["variants"][0]["fields"] if "t" in f]
        fs = [f for f in fs if last(self.ty(f["t"]).path or "") not in ("EntityParser", "PhantomData")]
        if any(f["name"] == "inner" for f in fs):
            fs = [f for f in fs if f["name"] != "key"]
        return [((f["name"],), subst(f["t"], dict(zip(a.get("generics") or (), t.args)))) for f in fs]

    def variants(self, t):
        """name -> [(path, type)] of an enumeration, None for anything else"""
        t = self.ty(t)
        if t.path == "core::option::Option":
            return {"None": [], "Some": [(("as Some", "0"), t.args[0])]}
        a = self.p.adts.get(t.path)
        if a is None or not (t.path or "").startswith("cpparser::") or len(a["variants"]) == 1:
            return None
        return {v["name"]: [(("as " + v["name"], f["name"]), f["t"]) for f in v["fields"]] for v in a["variants"]}


class Walk(Calls):
    """enumerates the paths of a function over a view: q = (facts, output, live recursion guards)"""
    init = ((), (), 0, ())

    def __init__(self, views, body):
        Calls.__init__(self)
        self.views, self.body = views, body
        self.self_ = mk("arg", body.id, 1)
        self.f, self.state = views.param(body, "Formatter"), views.param(body, "DisplayState")
        self.paths, self.guards, self.fmtargs = set(), {}, {}

    def arg(self, v, i):
        return i and strip(v) is mk("arg", self.body.id, i)

    def where(self, v):
        return path_of(v, self.self_)

    def sources(self, v, d=0):
        """components that make up a value, as a set of paths"""
        v = strip(v)
        p = self.where(v)
        if p is not None:
            return set() if self.views.context & set(p) else {p}
        if d > 12:
            return set()
        if v.tag == "agg":
            return set().union(*(self.sources(x, d + 1) for x in v.a[2]), set())
        if v.tag in ("fld", "as", "idx"):
            return self.sources(v.a[0], d + 1)
        if v.tag == "phi":
            return self.sources(v.a[0], d + 1)
        if v.tag == "call" and (self.name(v) in TRANSPARENT or self.name(v) in ("map", "new", "get", "iter", "resolve")):
            return set().union(*(self.sources(x, d + 1) for x in self.args.get(v, ())[:1]), set())
        return set()

    def fact(self, v, val):
        """(component, outcome) of a test, or None"""
        v, n = negs(v)
        if isinstance(val, (bool, int)):
            val = bool(val) != n
        p = self.where(v)
        if p is not None:
            return p, val
        if v.tag == "call":
            if self.name(v) == "can_recurse":
                return "recurse", val
            if self.name(v) == "is_empty":
                s = self.sources(self.args[v][0])
                if len(s) == 1:
                    return next(iter(s)) + ("is_empty",), val
        if v.tag == "op" and len(v.a) == 3:
            for a, b in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                a, b = strip(a), strip(b)
                if self.where(b) is not None:
                    continue
                p = self.where(a)
                if p is not None and v.a[0] == "Eq":
                    return p + ("==", self.constant(b)), val
                if a.tag == "call" and self.name(a) in ("count", "len") and b.tag == "k":
                    s = self.sources(self.args[a][0])
                    empty = (v.a[0], a is strip(v.a[1]), b.a[0])
                    if len(s) == 1:
                        if empty in (("Eq", True, 0), ("Eq", False, 0), ("Lt", True, 1)):
                            return next(iter(s)) + ("is_empty",), val
                        if empty == ("Lt", False, 0):
                            return next(iter(s)) + ("is_empty",), not val
                for i in range(2, self.body.argc + 1):
                    if self.arg(a, i) and v.a[0] == "Eq":
                        return ("arg", i, self.constant(b)), val
        for i in range(2, self.body.argc + 1):
            if self.arg(v, i):
                return ("arg", i), val
        return None

    def constant(self, v):
        v = strip(v)
        if v.tag == "call":
            return self.eng.callpath.get(v, "?")
        return show(v)

    def step(self, q, ev, st):
        facts, out, live, mem = q
        self.note(ev)
        self.args.update(mem)
        r = self.advance(facts, out, live, ev)
        if r is None:
            return []
        if ev.kind == "call" and not ev.inl and ev.res is not None and ev.args:
            t = strip(ev.res)
            if t.tag == "call":
                n = self.name(t)
                if n in ("write_fmt", "write_str"):
                    mem = tuple(x for x in mem if self.name(x[0]) in KEEP)
                elif n in KEEP or "core::fmt::" in self.eng.callpath.get(t, ""):
                    mem = tuple(x for x in mem if x[0] is not t) + ((t, tuple(ev.args)),)
        return r + (mem,)

    def advance(self, facts, out, live, ev):
        e = self.eng
        q = facts, out, live
        if ev.kind in ("cond", "outcome", "notoutcome"):
            v = strip(ev.val)
            if ev.kind == "cond" and ev.extra[0] != "k":
                val = ev.extra
            else:
                val = ev.extra[1] if ev.kind == "cond" else ev.extra
            if v.tag == "call" and self.name(v) == "recurse" and ev.kind == "outcome":
                k = self.level(live)
                if dict(facts).get(k) not in (None, val == "Ok"):
                    return None
                return self.add(facts, k, val == "Ok"), out, live + (val == "Ok")
            if v.tag == "call" and ev.kind == "outcome":
                if val == "Err" and v in self.writes():
                    return self.add(facts, "failed", True), out, live
                return q
            if ev.kind == "notoutcome":
                p = self.where(v)
                return (self.add(facts, p + ("not", str(val)), True), out, live) if p is not None else q
            x = self.fact(v, val)
            if x is not None and x[0] == "recurse":
                x = self.level(live), x[1]
                if dict(facts).get(x[0], x[1]) != x[1]:
                    return None
            if x is not None:
                return self.add(facts, *x), out, live
            return q
        if ev.kind == "drop" and last(ev.path or "") == "RecursionGuard":
            return facts, out, max(live - 1, 0)
        if ev.kind == "call" and not ev.inl:
            n = last(ev.path)
            if n in ("display_impl", "display") and len(ev.args) >= 3:
                if not self.arg(ev.args[1], self.f):
                    e.report("formatter", ev, "a part of the entity is not written where the rest is", "formatter " + self.body.path)
                if not self.arg(ev.args[2], self.state):
                    e.report("state", ev, "a part of the entity is displayed without regard to the recursion limit", "state " + self.body.path)
                self.written().add(strip(ev.res))
                return facts, self.put(out, ("child", self.key(ev.args[0]), live, self.sig(ev.args[0])) + tuple(show(x) for x in ev.args[3:])), live
            if n == "write_fmt" and self.arg(ev.args[0], self.f):
                self.written().add(strip(ev.res))
                for x in self.pieces(ev):
                    out = self.put(out, x)
                return facts, out, live
            if n in ("write_str", "write_char", "pad") and self.arg(ev.args[0], self.f):
                self.written().add(strip(ev.res))
                return facts, self.put(out, self.piece(ev.args[1], "Display", ev)), live
            if n == "fmt" and len(ev.args) == 2 and self.arg(ev.args[1], self.f):
                self.written().add(strip(ev.res))
                return facts, self.put(out, self.piece(ev.args[0], "Display", ev)), live
        if ev.kind == "exit" and ev.extra == "return":
            d = dict(facts)
            v = strip(ev.val)
            if "failed" not in d and not (v.tag == "agg" and v.a[1] == "Err"):
                self.paths.add((facts, out, self.value(ev.val) if last(self.body.path) == "recursion_depth" else None))
                self.last = ev
        return q

    def value(self, v):
        """value of a recursion depth: largest of (components or None, added constant)"""
        v = strip(v)
        if v.tag == "k" and isinstance(v.a[0], int):
            return frozenset({(None, int(v.a[0]))})
        if v.tag == "op" and v.a[0] == "Add":
            for a, b in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                if strip(b).tag == "k":
                    return frozenset((x, n + strip(b).a[0]) for x, n in self.value(a))
        if v.tag == "fld" and v.a[1] == "0" and strip(v.a[0]).tag == "op":
            return self.value(v.a[0])
        if v.tag == "call":
            n, a = self.name(v), self.args.get(v, ())
            if n == "recursion_depth" and a:
                return frozenset({(self.key(a[0]), 0)})
            if n == "max" and len(a) == 2:
                return self.value(a[0]) | self.value(a[1])
        return frozenset({(show(v), 0)})

    @staticmethod
    def level(live):
        """whether recursion is allowed, at a given number of levels"""
        return "recurse" if not live else f"recurse{live}"

    def written(self):
        return self.__dict__.setdefault("_w", set())

    writes = written

    def key(self, v):
        """components that a displayed part consists of"""
        v = strip(v)
        if self.fixed(v):
            return frozenset()
        return frozenset(self.sources(v)) or frozenset({("?",)})

    def fixed(self, v):
        """built from nothing but variants"""
        v = strip(v)
        return v.tag == "agg" and all(map(self.fixed, v.a[2]))

    def sig(self, v, d=0):
        """variants a displayed part was built with"""
        v = strip(v)
        if v.tag != "agg" or d > 8:
            return ""
        return f"{last(v.a[0])}::{v.a[1]}(" + ",".join(self.sig(x, d + 1) for x in v.a[2]) + ")"

    @staticmethod
    def add(facts, k, v):
        if (k, v) in facts:
            return facts
        return tuple(sorted(facts + ((k, v),), key=str))

    @staticmethod
    def put(out, x):
        if x is None or x == ("t", ""):
            return out
        if out and out[-1][0] == "t" and x[0] == "t":
            return out[:-1] + (("t", out[-1][1] + x[1]),)
        return out + (x,)

    def piece(self, v, how, ev):
        v = strip(v)
        if v.tag == "str":
            return ("t", utf8(v.a[0]))
        if v.tag == "k" and isinstance(v.a[0], str) and len(v.a[0]) == 1:
            return ("t", v.a[0])
        if v.tag in ("k", "static"):
            return ("t", show(v))
        return ("v", self.key(v), how)

    def pieces(self, ev):
        """output of write!"""
        v = strip(ev.args[1])
        a = self.args.get(v, ())
        n = self.name(v)
        if n in ("from_str", "from_str_nonconst", "new_const") and a and strip(a[0]).tag == "str":
            return [("t", utf8(strip(a[0]).a[0]))]
        t = decode(strip(a[0]).a[0]) if len(a) == 2 and strip(a[0]).tag == "str" else None
        xs = strip(a[1]) if len(a) == 2 else None
        if t is None or xs is None or xs.tag != "agg":
            return [("?",)]
        out = []
        for x in t:
            if isinstance(x, str):
                out.append(("t", x))
                continue
            w = strip(xs.a[2][x[0]]) if x[0] < len(xs.a[2]) else None
            if w is None or w.tag != "call" or not self.args.get(w):
                out.append(("?",))
                continue
            how = self.name(w).replace("new_", "")
            out.append(self.piece(self.args[w][0], how if x[1] else "formatted", ev))
        return out


def negs(v):
    v, n = strip(v), False
    while v.tag == "not" or v.tag == "op" and v.a[0] == "Not":
        v, n = strip(v.a[-1]), not n
    return v, n


# ------------------------------------------------------------------ what the paths say
def own(k):
    """a fact about the entity itself (rather than about the recursion limit or the way it is used)"""
    return isinstance(k, tuple) and (not k or k[0] != "arg")


def compatible(a, b, pred):
    return all(b.get(k, v) == v for k, v in a.items() if pred(k)) and excluded(a, b) and excluded(b, a)


def excluded(a, b):
    """no variant that b knows is among those that a ruled out"""
    for k in a:
        if isinstance(k, tuple) and len(k) >= 2 and k[-2] == "not" and isinstance(k[-1], str) and repr(b.get(k[:-2])) in k[-1]:
            return False
    return True


def texts(out):
    return "".join(x[1] for x in out if x[0] == "t")


def shown(out):
    """components on display"""
    s = set()
    for x in out:
        if x[0] in ("v", "child"):
            s |= x[1]
    return s


class Coverage:
    """components of a type that a path neither shows nor determines"""

    def __init__(self, views, facts, out):
        self.views, self.facts, self.shown = views, facts, shown(out)
        self.missing = []

    def decided(self, path):
        f = self.facts
        return isinstance(f.get(path), bool) or f.get(path + ("is_empty",)) is True or \
            any(v is True and len(k) == len(path) + 2 and k[:-2] == path and k[-2] == "==" for k, v in f.items() if isinstance(k, tuple))

    def cover(self, t, path, d=0):
        if any(path[:i] in self.shown for i in range(len(path) + 1)) or self.decided(path):
            return True
        known = self.facts.get(path)
        vs = self.views.variants(t)
        if vs is not None and d < 8:
            if not isinstance(known, str):
                out = [k for k in self.facts if isinstance(k, tuple) and len(k) == len(path) + 2 and k[:len(path)] == path and k[-2] == "not"]
                left = [n for n in vs if not any(repr(n) in k[-1] for k in out)]
                if len(left) != 1:
                    self.missing.append(path)
                    return False
                known = left[0]
            return all([self.cover(x, path + el, d + 1) for el, x in vs.get(known, ())])
        ps = self.views.parts(t)
        if ps is not None and d < 8:
            return all([self.cover(x, path + el, d + 1) for el, x in ps])
        if t.k == "tuple" and not t.args:
            return True
        self.missing.append(path)
        return False


def reachable(views):
    """types that parsed entities are displayed as"""
    seen, todo = set(), [b.local_ty(1) for b in views.impls + views.inherent]
    while todo:
        t = views.ty(todo.pop())
        if str(t) in seen:
            continue
        seen.add(str(t))
        for el, x in views.parts(t) or ():
            todo.append(x)
        for xs in (views.variants(t) or {}).values():
            todo += [x for el, x in xs]
        if t.path in views.slices:
            todo += [x for x in t.args if isinstance(x, Ty)]
    return {re.sub(r"<.*", "", x).lstrip("&") for x in seen}


def type_at(views, t, path):
    """type of a component"""
    i = 0
    while i < len(path):
        ps = views.parts(t)
        vs = views.variants(t)
        for el, x in [p for xs in (vs or {}).values() for p in xs] + (ps or []):
            if path[i:i + len(el)] == el:
                t, i = x, i + len(el)
                break
        else:
            return None
    return views.ty(t)


def where(ctx, b):
    return f"{b.file}:{b.line}" if hasattr(b, "file") else short(b.path)


def walks(ctx, views, bodies):
    """run over display functions: [(body, paths)]"""
    out = []
    for b in bodies:
        w = Walk(views, b)
        e = ctx.run(b, w, opaque=views.opaque - {b.id})
        ctx.absorb_reports(e)
        ctx.anchor(f"paths of {b.path}", w.paths)
        ctx.count("display paths", len(w.paths))
        out.append((b, w))
    return out


def name(path):
    return ".".join(x for x in path if not x.startswith("as ")) or "the entity"


@check("P01")
def p01(ctx):
    ctx.rule("every path through a display function shows each component of the entity, or has established its value by a test; nothing is left out except behind an ellipsis")
    ctx.rule("two values that a display function tells apart by a test do not get the same text")
    ctx.rule("parts are displayed with the formatter and recursion limit of the whole; Display means display without a limit")
    ctx.rule("sequences are displayed in full and in order between header and trailer, with separators between items, or as an ellipsis where items are left out")
    v = Views(ctx)
    for what, x in (("implementations of CustomDisplay", v.impls), ("implementations of Display", v.fmts), ("sequence views", v.slices)):
        ctx.anchor(what, x)
    types = reachable(v)
    plain = [b for b in v.fmts if v.selfty(b) in types and v.selfty(b) not in v.custom]
    ctx.count("types without recursion", len(plain))
    for b, w in walks(ctx, v, [b for b in v.impls + v.inherent if v.selfty(b) not in v.slices] + plain):
        t = v.ty(b.local_ty(1))
        for facts, out, _ in sorted(w.paths, key=str):
            d = dict(facts)
            c = Coverage(v, d, out)
            if not c.cover(t, ()) and not hidden(d, out):
                for m in c.missing:
                    ctx.violation("missing", where(ctx, b), f"{short(b.path)} does not show {name(m)} {described(d)}", key=f"missing {b.path} {'.'.join(m)}")
            if b not in plain:
                for x in out:
                    for y in x[1] if x[0] == "v" else ():
                        ty = type_at(v, t, y)
                        if ty is not None and ty.path in v.custom:
                            ctx.violation("limit", where(ctx, b), f"{short(b.path)} displays {name(y)} without regard to the recursion limit", key=f"limit {b.path} {'.'.join(y)}")
        for facts, out, _ in w.paths:
            if dict(facts).get("recurse") is not False and ELLIPSIS in texts(out):
                ctx.violation("ellipsis", where(ctx, b), f"{short(b.path)} shows an ellipsis although it may recurse", key=f"ellipsis {b.path}")
            if not out and last(v.selfty(b)) != "Option" and b not in plain:
                ctx.violation("nothing", where(ctx, b), f"{short(b.path)} displays nothing {described(dict(facts))}", key=f"nothing {b.path} {sorted(facts, key=str)}")
        full = [(dict(f), bare(o)) for f, o, _ in w.paths if not hidden(dict(f), o)]
        for i, (f, o) in enumerate(full):
            for g, q in full[:i]:
                if o == q and compatible(f, g, lambda k: not own(k)) and not compatible(f, g, own):
                    ks = sorted((k for k in f if own(k) and g.get(k, f[k]) != f[k]), key=str)
                    ks = [k for k in ks if not any(k[:i] in shown(o) for i in range(len(k) + 1))]
                    if ks:
                        ctx.violation("ambiguous", where(ctx, b), f"{short(b.path)} gives the same text for different values of {name(ks[0])}", key=f"ambiguous {b.path} {ks[0]}")
    unlimited(ctx, v)
    for b in v.impls:
        if v.selfty(b) in v.slices:
            s = SliceWalk(v, b)
            e = ctx.run(b, s, opaque={x.id for x in v.bodies if x.path in (CD + "DisplayState::can_recurse", CD + "DisplayState::recurse")})
            ctx.absorb_reports(e)
            ctx.anchor(f"ways through {b.path}", s.done)


def described(d):
    return "when " + ", ".join(f"{name(k)} is {x}" if own(k) else f"{k} is {x}" for k, x in sorted(d.items(), key=str)[:3]) if d else ""


def bare(out):
    """output without blanks at its ends"""
    out = list(out)
    if out and out[0][0] == "t":
        out[0] = ("t", out[0][1].lstrip())
    if out and out[-1][0] == "t":
        out[-1] = ("t", out[-1][1].rstrip())
    return tuple(x for x in out if x != ("t", ""))


def hidden(d, out):
    """something may be left out here: the recursion limit was reached and an ellipsis says so"""
    if d.get("recurse") is not False:
        return False
    if ELLIPSIS in texts(out):
        return True
    return any(x[0] == "child" and any(d.get(y + ("is_empty",)) is False for y in x[1]) for x in out)


class Unlimited(Calls):
    """Display of an entity displays it without a recursion limit"""
    init = 0

    def __init__(self, views, body):
        Calls.__init__(self)
        self.views, self.body, self.bad, self.good = views, body, 0, 0

    def limitless(self, v, d=0):
        v = strip(v)
        if d > 6:
            return False
        if v.tag == "k":
            return v.a[0] == 2 ** 64 - 1
        if v.tag == "fld" and strip(v.a[0]) is mk("arg", self.body.id, 1):
            return last(self.views.selfty(self.body)) == "CustomDisplayView"
        if v.tag == "agg" and len(v.a[2]) == 1:
            return self.limitless(v.a[2][0], d + 1)
        if v.tag == "call" and self.name(v) == "new":
            return self.limitless(self.args[v][0], d + 1)
        if v.tag == "call" and self.name(v) == "default":
            return "limit"
        return False

    def step(self, q, ev, st):
        self.note(ev)
        if ev.kind == "call" and not ev.inl and last(ev.path) in ("display_impl", "display") and len(ev.args) >= 3:
            me, f = mk("arg", self.body.id, 1), mk("arg", self.body.id, 2)
            inner = last(self.views.selfty(self.body)) == "CustomDisplayView"
            x = strip(ev.args[0])
            if x is me and not inner or inner and x.tag == "fld" and strip(x.a[0]) is me:
                if strip(ev.args[1]) is f and self.limitless(ev.args[2]):
                    return min(q + 1, 2)
            return 3
        if ev.kind == "call" and not ev.inl and ev.args and strip(ev.args[0]) is mk("arg", self.body.id, 2):
            return 3
        if ev.kind == "exit" and ev.extra == "return":
            self.good += 1
            if q != 1:
                self.eng.report("unlimited", ev, "displaying an entity does not display all of it", "unlimited " + self.body.path)
        return q


def unlimited(ctx, v):
    n = 0
    for b in v.fmts:
        if v.selfty(b) in v.custom or last(v.selfty(b) or "") == "CustomDisplayView":
            u = Unlimited(v, b)
            e = ctx.run(b, u, opaque=v.opaque - {b.id})
            ctx.absorb_reports(e)
            n += u.good
    ctx.anchor("Display of entities", n)
    ds = [b for b in v.bodies if b.trait_item == "core::default::Default::default" and last(b.local_ty(0).path or "") == "DisplayStateInner"]
    ctx.anchor("default recursion limit", ds)
    for b in ds:
        class A(Automaton):
            init = 0

            def step(self, q, ev, st):
                if ev.kind == "exit" and ev.extra == "return":
                    x = strip(ev.val)
                    if x.tag != "agg" or [strip(y).a for y in x.a[2]] != [(2 ** 64 - 1,)]:
                        self.eng.report("unlimited", ev, "by default, the display of entities is limited", "default limit")
                return q
        ctx.absorb_reports(ctx.run(b, A()))


ITEMS = {"iter", "into_iter", "map", "peekable", "by_ref", "enumerate", "cloned", "copied", "fuse", "as_ref", "deref", "as_slice", "borrow", "with_position", "inspect"}


class SliceWalk(Calls):
    """display of a sequence: q = (stage, what was written last, item waiting, are there more?, is it empty?, may it recurse?, live guards, failed?)"""
    init = ("start", None, False, None, None, None, 0, False)

    def __init__(self, views, body):
        Calls.__init__(self)
        self.views, self.body = views, body
        self.self_ = mk("arg", body.id, 1)
        self.f, self.state = mk("arg", body.id, views.param(body, "Formatter")), mk("arg", body.id, views.param(body, "DisplayState"))
        self.done, self.written, self.item = set(), set(), None

    def whole(self, v, d=0):
        """iterator over all items in order (or their sequence)"""
        v = strip(v)
        if v.tag == "fld" and v.a[1] == "inner" and strip(v.a[0]) is self.self_ or v is self.self_:
            return True
        if d > 12:
            return False
        if v.tag == "lazy":
            return last(v.a[1]) in ITEMS and self.whole(v.a[2][0], d + 1)
        if v.tag == "call":
            return self.name(v) in ITEMS and bool(self.args.get(v)) and self.whole(self.args[v][0], d + 1)
        return False

    def step(self, q, ev, st):
        self.note(ev)
        stage, prev, wait, more, empty, rec, live, failed = q
        e = self.eng
        if ev.kind == "outcome" or ev.kind == "cond" and ev.extra[0] == "k":
            v, n = negs(ev.val)
            if ev.kind == "outcome" and v.tag == "call":
                m = self.name(v)
                if v in self.written and ev.extra == "Err":
                    return stage, prev, wait, more, empty, rec, live, True
                if m == "recurse":
                    ok = ev.extra == "Ok"
                    if rec not in (None, ok):
                        return []
                    return stage, prev, wait, more, empty, ok, live + ok, failed
                if m == "next" and self.whole(self.args[v][0]):
                    some = ev.extra == "Some"
                    if more not in (None, some) or not some and empty is None and prev is None and False:
                        return []
                    if empty is True and some:
                        return []
                    if empty is False and not some and prev is None and not wait:
                        return []
                    if some and wait:
                        e.report("items", ev, "items of a sequence are not displayed", "items")
                    return stage, prev, some, None if some else False, (False if some else True if prev is None and not wait else empty), rec, live, failed
                if m in ("peek", "first", "last", "get") and self.whole(self.args[v][0]):
                    some = ev.extra == "Some"
                    if m == "peek":
                        if more not in (None, some):
                            return []
                        if prev is None and not wait:
                            if empty not in (None, not some):
                                return []
                            empty = not some
                        return stage, prev, wait, some, empty, rec, live, failed
                    if empty not in (None, not some):
                        return []
                    return stage, prev, wait, more, not some, rec, live, failed
                return q
            if ev.kind == "cond":
                val = bool(ev.extra[1]) != n
                if v.tag == "call" and self.name(v) == "can_recurse":
                    if rec not in (None, val):
                        return []
                    return stage, prev, wait, more, empty, val, live, failed
                em = self.emptiness(v, val)
                if em is not None:
                    if empty not in (None, em):
                        return []
                    return stage, prev, wait, more, em, rec, live, failed
                if v.tag == "op" and self.index(v) is not None:
                    # position of the current item
                    ok = [i for i in (0, 1, 2) if evaluate(v, lambda x: i if self.isindex(x) else None) == int(val)]
                    first = prev is None
                    if not any((i == 0) == first for i in ok):
                        return []
            return q
        if ev.kind == "drop" and last(ev.path or "") == "RecursionGuard":
            return stage, prev, wait, more, empty, rec, max(live - 1, 0), failed
        if ev.kind == "call" and not ev.inl:
            n = last(ev.path)
            if n == "display_impl" and len(ev.args) == 3:
                self.written.add(strip(ev.res))
                x = strip(ev.args[0])
                if strip(ev.args[1]) is not self.f or strip(ev.args[2]) is not self.state:
                    e.report("state", ev, "items of a sequence are displayed without regard to formatter and recursion limit", "slice state")
                if not self.isitem(x) or not wait:
                    e.report("items", ev, "something other than the next item of a sequence is displayed", "item")
                if stage != "header" or prev == "item" or rec is not True or live < 1:
                    e.report("items", ev, "items of a sequence are displayed without separators, or without the recursion that they are part of", "item place")
                return stage, "item", False, more, empty, rec, live, failed
            t = None
            if n == "write_fmt" and strip(ev.args[0]) is self.f:
                t = self.text(ev.args[1])
            elif n in ("write_str", "write_char", "pad") and strip(ev.args[0]) is self.f:
                t = self.text1(ev.args[1])
            elif n == "fmt" and len(ev.args) == 2 and strip(ev.args[1]) is self.f:
                t = self.text1(ev.args[0])
            if t is not None:
                self.written.add(strip(ev.res))
                return self.write(ev, t, q)
        if ev.kind == "exit" and ev.extra == "return":
            x = strip(ev.val)
            if not failed and not (x.tag == "agg" and x.a[1] == "Err"):
                self.done.add((rec, empty))
                if stage != "trailer":
                    e.report("items", ev, "the end of a sequence is not displayed", "trailer")
                if rec is True and (wait or not (more is False or empty is True)):
                    e.report("items", ev, "the display of a sequence stops before its last item", "all items")
                if rec is None and empty is not True:
                    e.report("items", ev, "the display of a sequence does not depend on the recursion limit", "recursion")
        return q

    def emptiness(self, v, val):
        if v.tag == "call" and self.name(v) == "is_empty" and self.args.get(v) and self.whole(self.args[v][0]):
            return val
        if v.tag == "op" and len(v.a) == 3:
            def leaf(x):
                return None if not (x.tag == "call" and self.name(x) in ("len", "count") and self.args.get(x) and self.whole(self.args[x][0])) else n
            ok = []
            for n in (0, 1, 2, 3):
                r = evaluate(v, leaf)
                if r is None:
                    return None
                if bool(r) == val:
                    ok.append(n)
            if ok == [0]:
                return True
            if 0 not in ok:
                return False
        return None

    def index(self, v):
        return True if any(self.isindex(x) for x in v.a[1:]) else None

    def isindex(self, v):
        v = strip(v)
        return v.tag == "fld" and (v.a[1] == "0" and strip(v.a[0]).tag == "fld" and self.isitem(strip(v.a[0]))) or \
            v.tag == "call" and v.a[2:] == ("idx",)

    def isitem(self, v):
        """the item that was obtained last"""
        v = strip(v)
        if v.tag == "fld" and v.a[1] == "1":
            v = strip(v.a[0])
        if v.tag == "fld" and v.a[1] == "0":
            w = strip(v.a[0])
            if w.tag == "as" and w.a[1] == "Some":
                c = strip(w.a[0])
                return c.tag == "call" and self.name(c) == "next" and self.whole(self.args[c][0])
        if v.tag == "call" and self.name(v) == "new" and self.args.get(v):
            return self.isitem(self.args[v][0])
        if v.tag == "call" and self.name(v) in ("clone", "cloned") and self.args.get(v):
            return self.isitem(self.args[v][0])
        return False

    def text(self, v):
        v = strip(v)
        a = self.args.get(v, ())
        n = self.name(v)
        if n in ("from_str", "from_str_nonconst", "new_const") and a:
            return self.text1(a[0])
        t = decode(strip(a[0]).a[0]) if len(a) == 2 and strip(a[0]).tag == "str" else None
        if t is None:
            return ["?"]
        out = []
        for x in t:
            if isinstance(x, str):
                out.append(x)
            else:
                w = strip(strip(a[1]).a[2][x[0]])
                out += self.text1(self.args[w][0]) if w.tag == "call" and self.args.get(w) else ["?"]
        return out

    def text1(self, v):
        v = strip(v)
        if v.tag == "str":
            return [utf8(v.a[0])]
        for k in ("HEADER", "SEPARATOR", "TRAILER"):
            if v.tag == "static" and k in show(v) + str(v.a[0]):
                return [k]
        return [show(v)]

    def write(self, ev, ts, q):
        e = self.eng
        stage, prev, wait, more, empty, rec, live, failed = q
        for t in ts:
            if t == "HEADER":
                if stage != "start":
                    e.report("items", ev, "the header of a sequence is displayed in the wrong place", "header")
                stage = "header"
            elif t == "SEPARATOR":
                if stage != "header" or prev != "item":
                    e.report("items", ev, "a separator is displayed that is not preceded by an item", "separator")
                prev = "sep"
            elif t == "TRAILER":
                if stage != "header" or prev == "sep":
                    e.report("items", ev, "the trailer of a sequence is displayed in the wrong place", "trailer place")
                if rec is False and empty is not True and prev != ELLIPSIS:
                    e.report("items", ev, "items of a sequence are left out without an ellipsis", "ellipsis")
                stage = "trailer"
            elif t == ELLIPSIS:
                if stage != "header" or rec is not False or empty is not False:
                    e.report("items", ev, "an ellipsis is displayed although nothing is left out", "no ellipsis")
                prev = ELLIPSIS
            elif t:
                e.report("items", ev, f"an unexpected text {t!r} is displayed as part of a sequence", "text")
        return stage, prev, wait, more, empty, rec, live, failed


# ------------------------------------------------------------------ recursion depth
@check("P02")
def p02(ctx):
    ctx.rule("the recursion depth of an entity is the largest depth of its displayed parts, plus the levels that their display takes")
    ctx.rule("a recursion limit of n allows n nested levels, and every level is given back when it was displayed")
    ctx.rule("a bounded display tries every depth in order, and gives the last display that fitted the width")
    v = Views(ctx)
    ctx.anchor("implementations of CustomDisplay", v.impls)
    for b in v.impls + v.inherent:
        t = v.selfty(b)
        if t in v.slices:
            continue
        d = v.depths.get(t)
        if not ctx.anchor(f"recursion depth of {short(t or '')}", d):
            continue
        (_, w), (_, r) = walks(ctx, v, [b, d])
        depth_of(ctx, b, d, w, r)
    for t in v.slices:
        slice_depth(ctx, v, v.depths.get(t))
    limits(ctx, v)
    bounded(ctx, v)


def depth_of(ctx, b, d, w, r):
    paths = [(dict(f), o) for f, o, _ in w.paths]
    for facts, _, terms in r.paths:
        facts = dict(facts)
        if not isinstance(terms, frozenset):
            continue
        here = [(f, o) for f, o in paths if compatible(f, facts, own)]
        full = [(f, o) for f, o in here if f.get("recurse") is not False]
        cut = [(f, o) for f, o in here if f.get("recurse") is False and ELLIPSIS in texts(o)]
        ctx.count("recursion depths")
        if not full:
            ctx.violation("depth", where(ctx, d), f"{short(d.path)} {described(facts)} belongs to nothing that is displayed", key=f"depth path {d.path}")
            continue
        least = max([n for k, n in terms if k is None] + [0])
        for f, o in full:
            for x in o:
                if x[0] == "child" and x[1] and not any(k is not None and not isinstance(k, str) and related(k, x[1]) and n >= x[2] for k, n in terms):
                    ctx.violation("depth", where(ctx, d), f"{short(d.path)} is too small: {short(b.path)} displays {', '.join(sorted(map(name, x[1])))}, whose depth is left out {described(facts)}",
                                  key=f"small {d.path} {sorted(map(name, x[1]))}")
            for f2, o2 in cut:
                if compatible(f, f2, own):
                    kept = any(x[0] == "child" and any(f2.get(y + ("is_empty",)) is False for y in x[1]) for x in o)
                    if least < 1 and not kept:
                        ctx.violation("depth", where(ctx, d), f"{short(d.path)} is too small: what {short(b.path)} hides needs a level {described(facts)}", key=f"hidden {d.path}")
        for k, n in terms:
            if isinstance(k, str):
                ctx.violation("depth", where(ctx, d), f"{short(d.path)} depends on {k}, which is not the depth of a part", key=f"term {d.path} {k}")
            elif k is None:
                if n > 1 or n == 1 and not cut:
                    ctx.violation("depth", where(ctx, d), f"{short(d.path)} is too large: nothing is hidden at a depth of {n - 1} {described(facts)}", key=f"large {d.path}")
            elif k and not all(facts.get(y) == "None" for y in k):
                live = [x[2] for f, o in full for x in o if x[0] == "child" and related(k, x[1])]
                if not live or max(live) != n:
                    ctx.violation("depth", where(ctx, d), f"{short(d.path)} counts {', '.join(sorted(map(name, k)))} (+{n}) otherwise than {short(b.path)} displays it {described(facts)}",
                                  key=f"exact {d.path} {sorted(map(name, k))}")


def related(a, b):
    """the same component, or a part of it"""
    return any(x[:len(y)] == y or y[:len(x)] == x for x in a for y in b)


class SliceDepth(Calls):
    """recursion depth of a sequence: q = (is it empty?, number of additions seen)"""
    init = None

    def __init__(self, walk, body):
        Calls.__init__(self)
        self.walk, self.body, self.items, self.exits, self.rets = walk, body, set(), [], []
        self.init = ()
        walk.args = self.args

    def step(self, q, ev, st):
        self.walk.eng = self.eng
        self.note(ev)
        if ev.kind == "ret" and strip(ev.val).tag in ("op", "call"):
            self.rets.append(strip(ev.val))
        if ev.kind == "exit" and ev.extra == "return":
            self.exits.append(strip(ev.val))
        return q


def slice_depth(ctx, views, body):
    if not ctx.anchor("recursion depth of sequences", body):
        return
    w = SliceWalk(views, body)
    a = SliceDepth(w, body)
    e = ctx.run(body, a)
    bad = set()
    seen = {"zero": False, "items": False}

    def item(v):
        """depth of an item plus one"""
        v = strip(v)
        if v.tag == "fld" and v.a[1] == "0" and strip(v.a[0]).tag == "op":
            v = strip(v.a[0])
        if v.tag == "op" and v.a[0] == "Add":
            for x, y in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                x, y = strip(x), strip(y)
                if y.tag == "k" and y.a[0] == 1 and x.tag == "call" and a.name(x) == "recursion_depth":
                    return True
        return False

    met = set()

    def term(v, d=0):
        v = strip(v)
        if v in met:
            return
        met.add(v)
        if v.tag == "fn" and last(v.a[0]) == "max":
            return
        if v.tag == "k":
            if v.a[0] == 0:
                seen["zero"] = True
            else:
                bad.add("constant " + show(v))
            return
        if item(v):
            seen["items"] = True
            return
        if d > 8:
            bad.add(show(v))
            return
        if v.tag == "fld" and strip(v.a[0]).tag == "as":
            v = strip(strip(v.a[0]).a[0])
        if v.tag == "call" and a.name(v) in ("max", "fold", "unwrap_or", "unwrap_or_default"):
            for x in a.args[v]:
                x = strip(x)
                if x.tag == "lazy" or w.whole(x):
                    y = x
                    while y.tag == "lazy" and last(y.a[1]) == "map" or y.tag == "call" and a.name(y) == "map":
                        y = strip(y.a[2][0] if y.tag == "lazy" else a.args[y][0])
                    if not w.whole(y):
                        bad.add("some of the items")
                    elif any(item(r) for r in a.rets):
                        seen["items"] = True
                elif x.tag != "clo":
                    term(x, d + 1)
                elif a.name(v) == "fold":
                    for r in a.rets:
                        if not item(r):
                            term(r, d + 1)
            return
        if v.tag == "cbarg":
            return
        if v.tag in ("phi", "old"):
            for x in e.deriv.get(v, ()) if hasattr(e, "deriv") else ():
                term(x, d + 1)
            return
        bad.add(show(v))
    for v in a.exits:
        term(v)
    for b in bad:
        ctx.violation("depth", where(ctx, body), f"the recursion depth of a sequence depends on {b}, which is not the depth of an item plus one", key="slice " + b)
    if not bad and not all(seen.values()):
        ctx.violation("depth", where(ctx, body), "the recursion depth of a sequence is not zero without items and the depth of an item plus one otherwise", key="slice terms")
    ctx.anchor("results of the recursion depth of sequences", a.exits)
    ctx.count("recursion depths")


class Levels(Calls):
    """arithmetic of the recursion limit: q = (possible limits, stored change)"""
    LIMITS = (0, 1, 2, 3, 7)
    init = (LIMITS, None)

    def __init__(self, what):
        Calls.__init__(self)
        self.what, self.exits = what, 0

    @staticmethod
    def limit(v):
        v = strip(v)
        return v.tag == "fld" and v.a[1] == "max_recursion"

    def at(self, v, m):
        return evaluate(v, lambda x: m if self.limit(x) else None)

    def step(self, q, ev, st):
        self.note(ev)
        ms, change = q
        e = self.eng
        if ev.kind == "cond" and ev.extra[0] == "k":
            rs = {m: self.at(ev.val, m) for m in ms}
            if None in rs.values():
                return q
            return (tuple(m for m in ms if int(bool(rs[m])) == ev.extra[1]), change) if ev.extra[1] in (0, 1) else q
        if ev.kind == "assign" and fields(ev)[-1:] == ["max_recursion"]:
            d = {self.at(ev.val, m) - m if self.at(ev.val, m) is not None else None for m in ms if not (m == 0 and self.at(ev.val, m) == -1)}
            d = d.pop() if len(d) == 1 else "?"
            return ms, d if change is None else "?"
        if ev.kind == "exit" and ev.extra == "return" and ms:
            self.exits += 1
            v = strip(ev.val)
            if self.what == "can":
                if any(self.at(v, m) != int(m > 0) for m in ms):
                    e.report("levels", ev, "a recursion limit of n does not allow n levels", "can_recurse")
            elif self.what == "recurse":
                if v.tag == "agg" and v.a[1] == "Err":
                    if ms != (0,) or change is not None:
                        e.report("levels", ev, "recursion is refused although the limit was not reached", "recurse Err")
                elif 0 in ms or change != -1:
                    e.report("levels", ev, "recursion is granted beyond the limit, or does not count", "recurse Ok")
                elif not (v.tag == "agg" and mentions(v, mk("arg", self.body.id, 1))):
                    e.report("levels", ev, "a level of recursion that was granted is not given back", "recurse guard")
            elif self.what == "drop" and change != 1:
                e.report("levels", ev, "a level of recursion that was displayed is not given back", "guard drop")
            elif self.what == "new":
                x = v
                while x.tag in ("agg", "call"):
                    a = x.a[2] if x.tag == "agg" else self.args.get(x, ()) if self.name(x) == "new" else ()
                    if len(a) != 1:
                        break
                    x = strip(a[0])
                if x is not mk("arg", self.body.id, 1):
                    e.report("levels", ev, "the recursion limit is not the given one", "new")
        return q


def limits(ctx, views):
    found = {}
    for b in views.bodies:
        t = last(views.selfty(b) or "")
        if t == "DisplayState" and not b.trait_item and b.argc == 1:
            r = b.local_ty(0)
            if last(r.path or "") == "Result":
                found["recurse"] = b
            elif "bool" in str(r):
                found["can"] = b
        if t == "RecursionGuard" and b.trait_item and last(b.trait_item) == "drop":
            found["drop"] = b
        if last(b.local_ty(0).path or "") == "DisplayState" and not b.trait_item and b.argc == 1:
            found["new"] = b
    for what in ("recurse", "can", "drop", "new"):
        b = found.get(what)
        if ctx.anchor(f"recursion limit: {what}", b):
            a = Levels(what)
            a.body = b
            e = ctx.run(b, a)
            ctx.absorb_reports(e)
            ctx.anchor(f"results of {b.path}", a.exits)


class Bounded(Calls):
    """which buffer holds what: q = ((buffer, content) pairs, failed?), content one of '', 'dots', 'new' (not measured yet), 'best', 'stale'"""
    init = ()

    def __init__(self, body):
        Calls.__init__(self)
        self.body, self.exits, self.displays = body, 0, 0
        self.self_, self.cols = mk("arg", body.id, 1), mk("arg", body.id, 2)

    def content(self, q, v):
        c = self.contents(q).get(v)
        if c is None and v.tag == "conv" and v.a[1] == "to_string" and self.view(v.a[0]):
            self.displays += 1
            return "new"
        return c

    @staticmethod
    def contents(q):
        d = {}
        for k, c in q:
            if d.get(k) != "best":
                d[k] = c
        return d

    def put(self, q, v, c):
        d = self.contents(q)
        if c == "best":
            d = {k: "stale" if x == "best" else x for k, x in d.items()}
        d[v] = c
        return tuple(sorted(d.items(), key=lambda x: (show(x[0]), x[1])))

    def buffer(self, v):
        """identity of a string buffer (through references)"""
        while v.tag == "conv" and v.a[1] in ("as_str", "deref", "as_ref", "borrow", "into", "as_mut", "deref_mut", "from"):
            v = v.a[0]
        if v.tag == "old":
            v = v.a[0]
        return v

    def initial(self, v):
        v = strip(v)
        return v.tag == "str" and utf8(v.a[0]) == ELLIPSIS

    def depth(self, v):
        """current element of a range from zero to the recursion depth, inclusive"""
        v = strip(v)
        if v.tag == "fld" and strip(v.a[0]).tag == "as":
            c = strip(strip(v.a[0]).a[0])
            if c.tag == "call" and self.name(c) == "next":
                r = strip(self.args[c][0])
                while r.tag == "call" and self.name(r) == "into_iter":
                    r = strip(self.args[r][0])
                if r.tag == "call" and self.name(r) == "new" and "RangeInclusive" in self.eng.callpath.get(r, ""):
                    a = [strip(x) for x in self.args[r]]
                elif r.tag == "agg" and last(r.a[0]) in ("Range", "RangeInclusive"):
                    a = [strip(x) for x in r.a[2]]
                    if last(r.a[0]) == "Range":
                        if not (a[1].tag == "op" and a[1].a[0] == "Add" and strip(a[1].a[2]).tag == "k" and strip(a[1].a[2]).a[0] == 1):
                            return False
                        a[1] = strip(a[1].a[1])
                else:
                    return False
                return a[0].tag == "k" and a[0].a[0] == 0 and self.deepest(a[1])
        return False

    def deepest(self, v):
        v = strip(v)
        return v.tag == "call" and self.name(v) == "recursion_depth" and strip(self.args[v][0]) is self.self_

    def state(self, v, d=0):
        """display state limited to the current depth"""
        v = strip(v)
        if self.depth(v):
            return True
        if v.tag == "agg" and len(v.a[2]) == 1 and d < 5:
            return self.state(v.a[2][0], d + 1)
        if v.tag == "call" and self.name(v) == "new" and d < 5:
            return self.state(self.args[v][0], d + 1)
        return False

    def view(self, v):
        """display of the entity at the current depth"""
        v = strip(v)
        if v.tag == "agg" and last(v.a[0]) == "CustomDisplayView":
            return strip(v.a[2][0]) is self.self_ and self.state(v.a[2][1])
        if v.tag == "call" and self.name(v) == "display":
            a = self.args[v]
            return strip(a[0]) is self.self_ and self.state(a[1])
        return False

    def shows(self, v):
        """arguments of a write! of just the entity"""
        v = strip(v)
        a = self.args.get(v, ())
        if len(a) != 2 or strip(a[0]).tag != "str" or decode(strip(a[0]).a[0]) != [(0, True)]:
            return False
        w = strip(a[1])
        w = strip(w.a[2][0]) if w.tag == "agg" and len(w.a[2]) == 1 else None
        return w is not None and self.name(w) == "new_display" and self.view(self.args[w][0])

    def step(self, q, ev, st):
        self.note(ev)
        e = self.eng
        if ev.kind == "call" and not ev.inl and ev.args:
            n = last(ev.path)
            b = self.buffer(ev.args[0])
            if n == "write_fmt" and self.shows(ev.args[1]):
                if self.content(q, b) not in (None, ""):
                    e.report("bounded", ev, "displays of different depths are mixed", "mixed")
                self.displays += 1
                return self.put(q, b, "new")
            if n in ("write_fmt", "write_str", "push_str", "push", "insert", "insert_str", "truncate", "pop", "retain", "replace_range") and "Formatter" not in ev.path:
                return self.put(q, b, "other")
            if n == "clear":
                return self.put(q, b, "")
            if n in ("to_string", "format") and ev.res is not None and (self.view(ev.args[0]) or self.shows(ev.args[0])):
                self.displays += 1
                return self.put(q, ev.res, "new")
        if ev.kind == "cond" and ev.extra[0] == "k":
            v, neg = negs(ev.val)
            ws = [x for x in leaves(v) if x.tag == "call" and self.name(x) == "width"]
            if len(ws) == 1:
                b = self.buffer(self.args[ws[0]][0])
                fits = set()
                for w in (0, 3, 4, 5, 6, 1000):
                    r = evaluate(v, lambda x: w if x is ws[0] else 5 if strip(x) is self.cols else None)
                    if r is None:
                        return q
                    if bool(r) == (bool(ev.extra[1]) != neg):
                        fits.add(w <= 5)
                c = self.content(q, b)
                if c == "new" and len(fits) == 1:
                    return self.put(q, b, "best" if fits == {True} else "wide")
                if c == "new" and fits:
                    e.report("bounded", ev, "the width of a display is not compared to the given one", "width")
        if ev.kind == "exit" and ev.extra == "return":
            self.exits += 1
            c = self.content(q, self.buffer(ev.val))
            best = "best" in self.contents(q).values()
            if c != "best" and not (not best and (self.initial(ev.val) or self.initial(self.buffer(ev.val)))):
                e.report("bounded", ev, "a bounded display is not the deepest one that fitted", "result")
        return q


def leaves(v, d=0):
    v = strip(v)
    if v.tag in ("op", "not"):
        return set().union(*(leaves(x, d + 1) for x in v.a if hasattr(x, "tag")))
    return {v}


def bounded(ctx, views):
    bs = [b for b in views.bodies if b.path == CD + "CustomDisplay::bounded_display"]
    if ctx.anchor("bounded display", bs):
        a = Bounded(bs[0])
        e = ctx.run(bs[0], a, opaque={b.id for b in views.bodies if b.path == CD + "CustomDisplay::display"})
        ctx.absorb_reports(e)
        ctx.anchor("results of the bounded display", a.exits)
        ctx.anchor("displays at increasing depths", a.displays)
