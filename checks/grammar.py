"""Parsing C++ entities keeps what was recognized (P04)."""
from base import *
from profiles import Calls
from mir import Ty

NOMS = ("nom::", "nom_supreme::")
# combinator -> positions (among the generic arguments) of the outputs it throws away
DROPS = {"nom::sequence::preceded": (1,), "nom::sequence::terminated": (2,), "nom::sequence::delimited": (1, 3), "nom::sequence::separated_pair": (2,),
         "nom::combinator::value": (2,), "nom::multi::many0_count": (1,), "nom::multi::many1_count": (1,), "nom::multi::parse_separated_terminated": (2, 3),
         "nom_supreme::multi::parse_separated_terminated": (2, 3), "nom::multi::separated_list0": (2,), "nom::multi::separated_list1": (2,),
         "nom_supreme::parser_ext::ParserExt::terminated": (5,), "nom_supreme::parser_ext::ParserExt::preceded_by": (5,), "nom_supreme::parser_ext::ParserExt::value": (2,),
         "nom_supreme::parser_ext::ParserExt::opt_preceded_by": (5,), "nom_supreme::parser_ext::ParserExt::delimited_by": (5,)}
# combinators that hand the output of a parser to a function: position of the function
MAPS = {"nom::internal::Parser::map": 4, "nom::combinator::map": 5, "nom::combinator::map_opt": 5, "nom::combinator::map_res": 6, "nom_supreme::parser_ext::ParserExt::map_res": 4,
        "nom_supreme::parser_ext::ParserExt::map_opt": 4}
FOLDS = ("fold_many0", "fold_many1", "fold_many_m_n", "parse_separated_terminated")
# what demanglers print without a meaning of its own
MEANINGLESS = {("cpparser/src/subparsers/names/unqualified.rs", "ConstVolatile"): "qualifiers of the name of a template",
               ("cpparser/src/subparsers/names/scopes.rs", "ConstVolatile"): "qualifiers of a function scope",
               ("cpparser/src/subparsers/names/scopes.rs", "Reference"): "qualifiers of a function scope"}
TEXT = {"str", "char", "()"}
SHRINK = {"filter", "or", "or_else", "and", "and_then", "xor", "take", "zip", "unwrap_or", "unwrap_or_default", "min", "max", "clamp", "saturating_sub", "wrapping_sub", "checked_sub",
          "replace", "pop", "truncate", "clear", "remove", "swap_remove", "dedup", "retain", "bitand", "bitxor", "sub", "rem", "div", "not", "swap", "rev", "reverse", "sort", "skip",
          "abs", "unsigned_abs", "wrapping_add", "saturating_add", "shr", "shl", "trunc", "to_ascii_uppercase", "to_ascii_lowercase"}


def canon(v):
    """the same place of the same thing, whatever was renamed meanwhile"""
    v = strip(v)
    if v.tag in ("fld", "as", "idx", "isv", "discr", "not") and isinstance(v.a[0], V):
        b = canon(v.a[0])
        if b is not v.a[0]:
            return mk(v.tag, b, *v.a[1:])
    return v


def flat(x):
    for y in x:
        if isinstance(y, V):
            yield y
        elif isinstance(y, tuple):
            yield from flat(y)


def holds(t, d=0):
    """names of what a type can hold beyond mere text"""
    t = t.peel()
    if t.k == "tuple":
        for a in t.args:
            yield from holds(a, d + 1)
    elif t.k == "adt" and last(t.path) in ("Option", "Result", "Box", "Vec"):
        for a in t.args[:1]:
            if isinstance(a, Ty):
                yield from holds(a, d + 1)
    elif t.k == "adt":
        yield last(t.path)
    elif t.k == "prim" and (t.path or t.s) not in TEXT | {"usize"}:
        yield t.path or t.s


def tykind(p, t, d=0):
    """'text' (no information kept elsewhere), 'flag' (consulting it is enough), or 'part' (has to be stored)"""
    u = t.peel()
    if u.k == "tuple" and not u.args:
        return "text"
    if u.k in ("prim", "str") or u.s in TEXT:
        return "text" if (u.path or u.s) in TEXT else "flag"
    if u.k == "adt" and last(u.path) in ("Option", "Result"):
        k = tykind(p, u.args[0], d + 1)
        return "flag" if k in ("text", "flag") else "part"
    if u.k == "adt" and u.path in p.adts and u.path.startswith("cpparser::") and d < 4:
        ks = {tykind(p, f["t"], d + 1) for v in p.adts[u.path]["variants"] for f in v["fields"] if "t" in f}
        return "flag" if ks <= {"flag", "text"} else "part"
    return "part"


class Keeps(Calls):
    """a function given to a combinator: on every path that accepts, each part it is given is stored, each flag is stored or consulted.
    q = (facts, parts handed to a sequence under construction)"""
    init = (frozenset(), frozenset(), frozenset())
    carrying = None
    fold = False
    unwind = False

    def __init__(self, ctx, b, what, verify=(), fold=False):
        Calls.__init__(self)
        self.ctx, self.p, self.b, self.what, self.verify, self.fold = ctx, ctx.p, b, what, verify, fold
        first = 2 if b.kind == "closure" else 1
        self.leaves = []
        self.results = []
        self.called = set()
        self.exits = self.accepted = 0
        self.orders = set()
        for i in range(first, b.argc + 1):
            self.split(mk("arg", b.id, i), b.local_ty(i))
        self.acc = None
        if fold:
            self.acc = mk("arg", b.id, first)
            self.leaves = [x for x in self.leaves if root_of(x[0]) is not self.acc]

    def split(self, v, t):
        u = t.peel()
        if u.k == "tuple":
            for i, a in enumerate(u.args):
                self.split(mk("fld", v, str(i)), a)
        elif self.fold and u.k == "adt" and u.path.startswith("cpparser::") and self.p.adts.get(u.path, {}).get("kind") == "struct" and tykind(self.p, t) == "flag" \
                and all("t" in f for f in self.p.adts[u.path]["variants"][0]["fields"]):
            for f in self.p.adts[u.path]["variants"][0]["fields"]:
                self.split(mk("fld", v, f["name"]), f["t"])
        else:
            k = tykind(self.p, t)
            if k != "text":
                self.leaves.append((v, t, k))

    # -- what became of a value
    def base(self, v):
        v = canon(v)
        while v.tag in ("fld", "as", "idx", "isv", "discr", "not"):
            v = v.a[0]
            yield v

    def within(self, v, leaf):
        """v is the leaf, or what it contains"""
        v = canon(v)
        return v is leaf or any(x is leaf for x in self.base(v))

    def covers(self, v, leaf):
        """v is what the leaf is a part of"""
        v = canon(v)
        return any(v is x for x in self.base(leaf))

    def kept(self, v, leaf, seen=None, d=0):
        """how a value is kept: True, or a reason why not"""
        seen = set() if seen is None else seen
        while isinstance(v, V) and v.tag in ("conv", "old", "ov"):
            if v.tag == "ov":
                if self.within(v.a[0], leaf):
                    return "an assignment"
                if any(self.kept(x, leaf, seen, d + 1) is True for x in flat(v.a[1:])):
                    return True
            v = v.a[0]
        if self.within(v, leaf) or self.covers(v, leaf):
            return True
        if v in seen or d > 24:
            return False
        seen.add(v)
        if v.tag in ("fld", "as", "idx", "discr", "isv", "arg") and canon(root_of(v)) is canon(root_of(leaf)):
            return False    # another part of the same
        kids = list(flat(v.a))
        if v.tag == "agg":
            kids = [x for x in v.a[2] if isinstance(x, V)]
        elif v.tag == "clo":
            kids = []
        elif v.tag in ("call", "lazy"):
            n = last(self.eng.callpath.get(v, "")) if v.tag == "call" else last(v.a[1] or "")
            kids = [x for x in self.eng.deriv.get(v, ()) if isinstance(x, V)]
            if self.carrying is not None and v in self.called and n not in SHRINK:
                return (v, leaf) in self.carrying
            if n in SHRINK:
                return "`" + n + "`" if any(self.kept(x, leaf, seen, d + 1) is True for x in kids) else False
        elif v.tag == "phi":
            alts = [self.kept(x, leaf, seen, d + 1) for x in self.eng.deriv.get(v, ()) if isinstance(x, V) and x not in seen]
            return True if alts and all(r is True for r in alts) else False
        why = False
        for x in kids:
            r = self.kept(x, leaf, seen, d + 1)
            if r is True:
                return True
            why = why or r
        return why

    def order(self, v, ev, d=0):
        """parts of the same type are stored in the order in which they were parsed"""
        v = strip(v)
        if d > 8:
            return
        if v.tag == "agg":
            at = []
            for x in v.a[2]:
                if not isinstance(x, V):
                    continue
                for i, (leaf, t, k) in enumerate(self.leaves):
                    if self.within(x, leaf) and not (k == "part" and canon(x).tag in ("isv", "discr", "not")):
                        if k == "part" and any(i == i2 for _, i2 in at):
                            self.eng.report("place", ev, f"{self.what}: a component is stored in two places of `{last(v.a[0])}`", "copied " + self.b.path + " " + last(v.a[0]))
                        at.append((t.peel().key(), i))
                self.order(x, ev, d + 1)
            for j in range(len(at) - 1):
                for l in range(j + 1, len(at)):
                    if at[j][0] == at[l][0] and at[j][1] > at[l][1]:
                        self.eng.report("place", ev, f"{self.what}: components of the same kind trade places in `{last(v.a[0])}`", "order " + self.b.path + " " + last(v.a[0]))
        elif v.tag == "call":
            for x in self.eng.deriv.get(v, ()):
                if isinstance(x, V):
                    self.order(x, ev, d + 1)

    def rejects(self, v, st):
        """the parser fails with this result"""
        v = strip(v)
        if v.tag == "agg" and v.a[0] == "core::option::Option" and v.a[1] == "None" and self.what.startswith("map_opt"):
            return True
        if v.tag == "agg" and v.a[0] == "core::result::Result" and v.a[1] == "Err":
            return True
        if self.eng.variant(st, v) == "Err":
            return True
        if v.tag == "agg" and self.verify:
            return any(self.refused(c, v) for c in self.verify)
        return False

    def refused(self, body, v):
        """does a `verify` function say no to this value, on all its paths"""
        out = []

        class R(Automaton):
            unwind = False

            def step(self, q, ev, st):
                if ev.kind == "exit" and ev.extra == "return":
                    out.append(strip(ev.val))
                return q
        self.ctx.run(body, R(), args={2: v})
        return bool(out) and all(x.tag == "k" and not x.a[0] or x.tag == "not" and x.a[0].tag == "k" and x.a[0].a[0] for x in out)

    def step(self, q, ev, st):
        self.note(ev)
        facts, pushed, carried = q
        self.carrying = carried
        k = ev.kind
        if k == "call" and not ev.inl and ev.res is not None and ev.res.tag == "call":
            self.called.add(ev.res)
            new = {(r, l) for r, l in carried if r is not ev.res}
            for leaf in [x[0] for x in self.leaves] + ([self.acc] if self.acc is not None else []):
                if any(self.kept(a, leaf) is True for a in list(ev.args) + list(ev.raw or ())):
                    new.add((ev.res, leaf))
            carried = frozenset(new)
            q = (facts, pushed, carried)
        if k in ("outcome", "notoutcome", "cond"):
            new = set(facts)
            for leaf, t, kind in self.leaves:
                some = mk("fld", mk("as", leaf, "Some"), "0")
                if self.eng.derives(ev.val, lambda x: x is leaf) or self.within(ev.val, leaf):
                    new.add((leaf, ev.extra if k == "outcome" and strip(ev.val) is leaf else None))
                if self.eng.derives(ev.val, lambda x: canon(x) is some):
                    new.add((some, None))
            return frozenset(new), pushed, carried
        if k == "call" and not ev.inl and last(ev.path) in ("push", "extend", "push_back", "insert", "extend_from_slice") and len(ev.args) > 1:
            if self.acc is None or self.eng.derives(ev.args[0], lambda x: x is self.acc) or self.within(ev.args[0], self.acc):
                new = set(pushed)
                for leaf, t, kind in self.leaves:
                    r = self.kept(ev.args[1], leaf)
                    if r is True:
                        if leaf in pushed:
                            self.eng.report("kept", ev, f"{self.what}: an item is recorded twice", "twice " + self.b.path)
                        new.add(leaf)
                self.order(ev.args[1], ev)
                return facts, frozenset(new), carried
        if k == "exit" and ev.extra == "return":
            self.exits += 1
            v = ev.val
            if self.rejects(v, st):
                return q
            self.accepted += 1
            self.order(v, ev)
            for leaf, t, kind in self.leaves:
                self.leaf(leaf, t, kind, q, v, ev, st)
            if len(self.results) < 400:
                self.results.append(({l: self.known(st, l) for l, t, k in self.leaves}, self.plain(v), frozenset(pushed), ev, {l for l, t, k in self.leaves if self.kept(v, l) is True}))
            if self.acc is not None:
                r = self.kept(v, self.acc)
                if r is not True and r != "an assignment":
                    self.eng.report("kept", ev, f"{self.what}: the items parsed so far are not kept", "accumulator " + self.b.path)
        return q

    def known(self, st, leaf):
        f = st.f.get(leaf)
        return f[1] if f is not None and f[0] in ("v", "k") else None

    def plain(self, v, d=0):
        """the value, with the results of calls told apart by what they were given"""
        while v.tag in ("conv", "old"):
            v = v.a[0]
        if d < 6 and v.tag == "ov":
            return ("ov", self.plain(v.a[0], d + 1)) + tuple((n, self.plain(x, d + 1)) for n, x in v.a[1])
        if d < 6 and v.tag == "agg":
            return ("agg", v.a[0], v.a[1]) + tuple(self.plain(x, d + 1) if isinstance(x, V) else x for x in v.a[2])
        if d < 6 and v.tag == "call":
            return ("call", self.eng.callpath.get(v)) + tuple(sorted((repr(self.plain(x, d + 1)) for x in self.eng.deriv.get(v, ()))))
        return v

    def alike(self, a, b, leaf):
        """may both be the same, whatever the leaf is"""
        if a == b:
            return True
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.alike(x, y, leaf) for x, y in zip(a, b))
        for x, y in ((a, b), (b, a)):
            x = x.a[0] if isinstance(x, V) and x.tag == "k" else x
            if x in (0, 1) and isinstance(y, V) and y.tag in ("isv", "not") and not self.eng.derives(y, lambda z: canon(z) is leaf):
                return True
        return False

    def indifferent(self):
        """flags that are looked at, but lead to the same result"""
        for leaf, t, kind in self.leaves:
            if kind != "flag":
                continue
            for i, (f1, v1, p1, e1, s1) in enumerate(self.results):
                for f2, v2, p2, e2, s2 in self.results[:i]:
                    if leaf in s1 or leaf in s2 or f1[leaf] is None or f2[leaf] is None or f1[leaf] == f2[leaf] or p1 != p2 or not self.alike(v1, v2, leaf):
                        continue
                    if any(l is not leaf and f1[l] is not None and f2[l] is not None and f1[l] != f2[l] for l, _, _ in self.leaves):
                        continue
                    yield leaf, t, e1

    def leaf(self, leaf, t, kind, q, v, ev, st):
        facts, pushed, _ = q
        known = {x for l, x in facts if l is leaf}
        var = self.eng.variant(st, leaf)
        if leaf in pushed:
            return
        r = self.kept(v, leaf)
        if r is True:
            return
        if isinstance(r, str):
            self.eng.report("kept", ev, f"{self.what}: {r} may change or lose a component that was parsed ({t})", "changed " + self.b.path + " " + str(t))
            return
        if kind == "flag" and known:
            u = t.peel()
            if not (var == "Some" and u.k == "adt" and last(u.path) == "Option" and isinstance(u.args[0], Ty) and tykind(self.p, u.args[0]) != "text"):
                return
            some = mk("fld", mk("as", leaf, "Some"), "0")
            if any(l is some for l, x in facts):
                return
        if kind == "part" and known:
            if var == "None":
                return
            a = self.p.adts.get(t.peel().path)
            vs = [x for x in (a or {}).get("variants", ()) if x["name"] == var]
            if vs and t.peel().path.startswith("cpparser::") and all(tykind(self.p, f["t"]) == "text" for f in vs[0]["fields"] if "t" in f):
                return
        if self.flagged(leaf):
            return
        self.eng.report("kept", ev, f"{self.what}: a component that was parsed ({t}) is not part of the result", "lost " + self.b.path + " " + str(t))

    def flagged(self, leaf):
        """consulted by the `verify` that precedes"""
        if self.fold:
            return False
        path = []
        v = leaf
        while v.tag == "fld":
            path.append(v.a[1])
            v = v.a[0]
        for c in self.verify:
            want = mk("arg", c.id, 2)
            hit = []

            class R(Automaton):
                unwind = False

                def step(s, q, ev, st):
                    if ev.kind in ("exit", "cond", "outcome") and isinstance(ev.val, V):
                        def is_it(x):
                            p, y = [], strip(x)
                            while y.tag == "fld":
                                p.append(y.a[1])
                                y = strip(y.a[0])
                            return y is want and p == path
                        if s.eng.derives(ev.val, is_it):
                            hit.append(1)
                    return q
            self.ctx.run(c, R())
            if hit:
                return True
        return False


class Follows(Keeps):
    """a parser that calls other parsers itself: whatever was recognized before the end of the text it consumed is part of its result.
    q = ((call, calls before it, stored parts)...)"""
    init = ()

    def __init__(self, ctx, b):
        Calls.__init__(self)
        self.ctx, self.p, self.b, self.what, self.verify = ctx, ctx.p, b, short(b.path), ()
        self.parts = {}
        self.exits = self.follow = 0
        self.acc = None
        self.leaves = []

    def output(self, ev):
        """type of the output of a parser that was called"""
        t = ev.fr.body.blocks[ev.bb]["t"]
        if isinstance(t, dict) and t.get("dest") and len(t["dest"]) == 1:
            return iresult(ev.fr.body.local_ty(t["dest"][0]))

    @staticmethod
    def rest(r):
        return mk("fld", mk("fld", mk("as", r, "Ok"), "0"), "0")

    @staticmethod
    def live(q):
        return tuple((strip(o), frozenset((strip(x), frozenset(canon(l) for l in ks)) for x, ks in pre), frozenset(canon(l) for l in kept)) for o, pre, kept in q)

    def step(self, q, ev, st):
        self.note(ev)
        k = ev.kind
        if k in ("call", "callback") and not ev.inl and ev.res is not None:
            t = self.output(ev)
            if t is not None:
                self.eng.callpath.setdefault(ev.res, "<callback>")
                r = strip(ev.res)
                src = [strip(a) for a in ev.args]
                before = frozenset()
                for o, pre, kept in self.live(q):
                    if any(self.eng.derives(x, lambda y: canon(y) is self.rest(o)) for x in src):
                        before |= {(o, kept)} | pre
                self.leaves = []
                self.split(mk("fld", mk("fld", mk("as", r, "Ok"), "0"), "1"), t)
                self.parts[r] = list(self.leaves)
                for o, kept in before:
                    if o is r:
                        self.missing(o, kept, None, ev, st, "goes on to the next item")
                return tuple(x for x in self.live(q) if x[0] is not r)[-6:] + ((r, frozenset(x for x in before if x[0] is not r), frozenset()),)
            if k == "call" and last(ev.path) in ("push", "push_back", "extend", "insert") and len(ev.args) > 1:
                return tuple((o, pre, kept | {l for l, t, kd in self.parts[o] if self.kept(ev.args[1], l) is True}) for o, pre, kept in self.live(q))
        if k == "outcome" and ev.extra == "Err":
            v = strip(ev.val)
            return tuple(x for x in self.live(q) if x[0] is not v)
        if k == "exit" and ev.extra == "return":
            self.exits += 1
            v = strip(ev.val)
            if v.tag != "agg" or v.a[1] != "Ok" or not v.a[2]:
                return q
            t = strip(v.a[2][0])
            if t.tag != "agg" or len(t.a[2]) != 2:
                return q
            rest, out = t.a[2]
            for o, pre, kept in self.live(q):
                if self.eng.derives(rest, lambda y: canon(y) is self.rest(o)):
                    self.follow += 1
                    self.missing(o, kept, out, ev, st, "returns")
                    for o2, kept2 in pre:
                        self.missing(o2, kept2, out, ev, st, "returns")
        return q

    def missing(self, r, kept, out, ev, st, what):
        for leaf, t, kind in self.parts.get(r, ()):
            if leaf in kept:
                continue
            if out is not None and self.kept(out, leaf) is True:
                continue
            var = self.eng.variant(st, leaf)
            if var == "None":
                continue
            if var is not None and kind == "part":
                a = self.p.adts.get(t.peel().path)
                vs = [x for x in (a or {}).get("variants", ()) if x["name"] == var]
                if vs and t.peel().path.startswith("cpparser::") and not [f for f in vs[0]["fields"] if "t" in f and tykind(self.p, f["t"]) != "text"]:
                    continue
            n = last(self.eng.callpath.get(r, "?"))
            self.eng.report("kept", ev, f"{self.what}: what `{n}` recognized is not part of the result when the parser {what}", "unfollowed " + self.b.path + " " + n)


def iresult(t):
    """output of a parser's result type"""
    t = t.peel()
    if t.k == "adt" and t.path == "core::result::Result" and t.args and isinstance(t.args[0], Ty) and t.args[0].k == "tuple" and len(t.args[0].args) == 2 and t.args[0].args[0].peel().s == "str":
        return t.args[0].args[1]


class Entry(Calls):
    """an entity is what the whole input was parsed into"""
    unwind = False

    def __init__(self, b):
        Calls.__init__(self)
        self.b, self.exits = b, 0

    def whole(self, x):
        n = self.eng.callpath.get(x, "") if x.tag == "call" else x.a[1] if x.tag == "lazy" else ""
        return last(n or "") in ("final_parser", "all_consuming") or x.tag == "fn" and "eof" in str(x.a[0])

    def step(self, q, ev, st):
        self.note(ev)
        if ev.kind == "callback" and ev.res is not None:
            self.eng.deriv[strip(ev.res)] |= {ev.val} | set(ev.args)
        if ev.kind == "exit" and ev.extra == "return":
            self.exits += 1
            v = strip(ev.val)
            if v.tag == "agg" and v.a[1] == "Err":
                return q
            arg = mk("arg", self.b.id, 2)
            if not self.eng.derives(v, self.whole):
                self.eng.report("whole", ev, "an entity is accepted although only the start of the input may have been parsed", "end of input")
            if not self.eng.derives(v, lambda x: x is arg):
                self.eng.report("whole", ev, "what is parsed is not the input", "input")
            cut = []
            self.eng.derives(v, lambda x: cut.append(x) if x.tag == "call" and self.args.get(x) and any(self.eng.derives(y, lambda z: z is arg) for y in self.args[x])
                             and last(self.eng.callpath.get(x, "")) in CUTS else False)
            if cut:
                self.eng.report("whole", ev, f"a part of the input is left out by `{last(self.eng.callpath[cut[0]])}`", "input cut")
        return q


CUTS = {"trim", "trim_start", "trim_end", "split_at", "split_once", "rsplit_once", "strip_suffix", "strip_prefix", "trim_end_matches", "trim_start_matches", "trim_matches", "index", "get", "get_unchecked",
        "lines", "split", "next", "split_whitespace"}


def local(ctx, t):
    """body of a function type, if it is one of the crate's own"""
    return ctx.p.bodies.get(t.id) if t.k in ("closure", "fndef") and t.id else None


def own(b):
    return b.crate.name == "cpparser" and "::tests" not in b.path


def call_types(b, t):
    return [b.crate.ty(x) for x in t["callee"].get("args", ())]


@check("P04")
def p04(ctx):
    p = ctx.p
    ctx.rule("no combinator throws away the output of a parser that holds more than fixed text; every function that turns the outputs of parsers into an entity stores each component, in order, "
             "and stores or consults each flag, on all paths that accept the input; every item of a list is added once, in order; the caller of a parser stores its output whenever it "
             "continues after the text it consumed; an entity is accepted only at the end of the input")
    n = 0
    checked = set()
    opaque = {b.id for b in p.bodies.values() if own(b) and b.kind == "fn" and (b.path.startswith(("cpparser::interning::", "<cpparser::interning::")) or iresult(b.local_ty(0)) is not None)}
    opaque |= {b.id for b in p.bodies.values() if b.crate.name == "asylum"}
    for b in p.bodies.values():
        if not own(b):
            continue
        sites = [(bb, t) for bb, t in b.calls() if isinstance(t.get("callee"), dict) and t["callee"]["path"].startswith(NOMS)]
        verify = []
        for bb, t in sites:
            if last(t["callee"]["path"]) == "verify":
                verify += [f for f in (local(ctx, x) for x in call_types(b, t)) if f is not None and f.kind == "closure" and f.argc == 2 and f.local_ty(0).peel().s == "bool"]
        for bb, t in sites:
            path, ty = t["callee"]["path"], call_types(b, t)
            n += 1
            for i in DROPS.get(path, ()):
                if i >= len(ty) or not isinstance(ty[i], Ty):
                    continue
                ctx.count("outputs thrown away")
                for h in holds(ty[i]):
                    if (t["sp"][0], h) in MEANINGLESS:
                        ctx.sample("meaningless", f"{t['sp'][0]}: {h}: {MEANINGLESS[t['sp'][0], h]}")
                        continue
                    ctx.violation("dropped", f"{t['sp'][0]}:{t['sp'][1]} in {b.path}", f"`{last(path)}` throws away a component that was parsed ({ty[i]})", key=f"dropped {b.path} {last(path)} {h}")
            f = fold = None
            if path in MAPS and MAPS[path] < len(ty):
                f = local(ctx, ty[MAPS[path]])
            elif last(path) in FOLDS:
                fold = [x for x in (local(ctx, y) for y in ty if isinstance(y, Ty)) if x is not None and x.argc == (3 if x.kind == "closure" else 2) and x.local_ty(0).k != "bool"]
                f = fold[-1] if fold else None
                ctx.anchor(f"step function of {last(path)} in {b.path}", f)
            if f is None or f.id in checked or not own(f):
                continue
            checked.add(f.id)
            a = Keeps(ctx, f, last(path) + " in " + short(b.path), verify=[c for c in verify if c.local_ty(2).peel().key() == f.local_ty(2 if f.kind == "closure" else 1).peel().key()] if not fold else verify,
                      fold=bool(fold))
            if not a.leaves:
                continue
            ctx.run(f, a, opaque=opaque - {f.id})
            for leaf, t2, ev in a.indifferent():
                ctx.violation("kept", ev.where(), f"{a.what}: a component that was parsed ({t2}) is looked at, but makes no difference to the result", key=f"indifferent {f.path} {t2}")
            ctx.count("functions given to combinators")
            ctx.count("components followed", len(a.leaves))
            ctx.count("accepting paths", a.accepted)
            if not a.accepted:
                ctx.violation("kept", f"{f.file}:{f.line}", "no result of the function was found", key="no result " + f.path)
            ctx.sample("functions", f"{short(f.path)}: {', '.join(str(t)[:40] for _, t, _ in a.leaves)}")
    for b in p.bodies.values():
        if not own(b) or iresult(b.local_ty(0)) is None:
            continue
        a = Follows(ctx, b)
        ctx.run(b, a, opaque=opaque - {b.id})
        ctx.count("parser functions")
        ctx.count("results built by hand", a.follow)
        if a.follow:
            ctx.sample("parsers that call parsers themselves", short(b.path))
    b = ctx.public("cpparser::EntityParser::parse_entity")
    if b is not None:
        a = Entry(b)
        ctx.run(b, a, opaque=opaque - {b.id})
        ctx.anchor("result of parse_entity", a.exits)
    ctx.count("combinators", n)
    ctx.anchor("parser combinators", n > 200)
