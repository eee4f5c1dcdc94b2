"""Activity arguments: parsing and resolution (T05)."""
from base import *
from trace import TT, TRACE, deref, getter
from events import fpath, some

ARG = TT + "::stats::activity::argument"
EP = "cpparser::EntityParser"
NEED = ("arg_type",)
DET = ("detail",)


class Arg(Automaton):
    """q = (facts, demangling buffer: ""/clean/symbol it holds); collects what is known at every exit"""
    init = (frozenset(), "")
    max_disj = 128

    def __init__(self, me, trace):
        self.me, self.trace = me, trace
        self.out = set()

    def is_detail(self, v):
        """v is the detail string as it is (or the option that holds it)"""
        e, seen = self.eng, set()
        v = strip(deref(v))
        for _ in range(24):
            while v.tag in ("conv", "old") or v.tag == "as" and v.a[1] == "Some" or v.tag == "fld" and v.a[1] == "0":
                v = strip(deref(v.a[0]))
            if v.tag == "agg" and v.a[1] == "Some":
                v = strip(deref(v.a[2][0]))
                continue
            fp = fpath(v, self.me)
            if fp is not None:
                return fp == DET
            if v.tag != "call" or v in seen:
                return False
            seen.add(v)
            n, d = last(e.callpath.get(v, "")), list(e.deriv.get(v, ()))
            if n in ("take", "new", "borrow", "borrow_mut", "get", "into_inner", "replace", "clone", "deref", "as_ref", "as_deref", "expect", "unwrap", "cloned", "unwrap_or_default", "borrowed") and d:
                d = [x for x in d if x.tag not in ("str",)]
                if n == "replace":
                    d = [x for x in d if not (x.tag == "agg" and x.a[1] == "None")]
                if len(d) >= 1 and (len(d) == 1 or len({root_of(strip(x)) for x in d}) == 1):
                    v = strip(deref(d[0]))
                    continue
            return False
        return False

    def parens(self, v):
        """v is the detail string without its first and last character"""
        e = self.eng
        v = strip(deref(v))
        while v.tag in ("conv", "old") or v.tag == "as" and v.a[1] == "Some" or v.tag == "fld" and v.a[0].tag == "as":
            v = strip(deref(v.a[0]))
        if v.tag != "call":
            return False
        n, d = last(e.callpath.get(v, "")), [strip(deref(x)) for x in e.deriv.get(v, ())]
        if n in ("from", "into", "to_owned", "to_string", "unwrap", "expect") and len(d) == 1:
            return self.parens(d[0])
        if n in ("strip_prefix", "strip_suffix") and self.strips(v, n, d):
            o = next(x for x in d if x.tag not in ("k", "str"))
            while o.tag in ("fld", "as"):
                o = strip(deref(o.a[0]))
            return o.tag == "call" and {n, last(e.callpath.get(o, ""))} == {"strip_prefix", "strip_suffix"}
        if n in ("index", "get") and len(d) == 2:
            r = [x for x in d if x.tag == "agg" and x.a[0].endswith("::Range")]
            o = [x for x in d if x not in r]
            if len(r) == 1 and len(o) == 1 and self.is_detail(o[0]) and r[0].a[2][0] is K(1):
                x = strip(r[0].a[2][1])
                return x.tag == "op" and x.a[0] == "Sub" and x.a[2] is K(1) and self.len_of(x.a[1])
        return False

    def strips(self, v, n, d):
        """v = detail.strip_prefix('(') or .strip_suffix(')'), possibly one after the other"""
        c = [x.a[0] for x in d if x.tag in ("k", "str")]
        o = [x for x in d if x.tag not in ("k", "str")]
        if len(o) != 1 or c not in ([[40], ["("]] if n == "strip_prefix" else [[41], [")"]]):
            return False
        o = strip(deref(o[0]))
        if self.is_detail(o):
            return True
        while o.tag in ("fld", "as"):
            o = strip(deref(o.a[0]))
        m = last(self.eng.callpath.get(o, "")) if o.tag == "call" else ""
        return {n, m} == {"strip_prefix", "strip_suffix"} and self.strips(o, m, list(self.eng.deriv.get(o, ())))

    def len_of(self, v):
        v = strip(v)
        return v.tag == "call" and last(self.eng.callpath.get(v, "")) == "len" and all(self.is_detail(x) for x in self.eng.deriv[v]) or \
            v.tag == "op" and v.a[0] == "PtrMetadata" and self.is_detail(v.a[1])

    def text(self, v):
        """what a string is: detail, inner (detail without parentheses), buf (demangling buffer)"""
        if self.is_detail(v):
            return "detail"
        if self.parens(v):
            return "inner"
        if self.is_buf(v):
            return "buf"
        return None

    def is_buf(self, v):
        v = strip(deref(v))
        while v.tag in ("conv", "old") or v.tag == "call" and last(self.eng.callpath.get(v, "")) in ("clone", "as_str", "deref", "into", "from", "into_boxed_str", "as_ref"):
            if v.tag == "call":
                d = list(self.eng.deriv[v])
                if len(d) != 1:
                    return False
                v = strip(deref(d[0]))
            else:
                v = strip(deref(v.a[0]))
        return fpath(v, self.trace) == ("demangling_buf",) if self.trace is not None else False

    def step(self, q, ev, st):
        f, buf = set(q[0]), q[1]
        e = self.eng
        if ev.kind == "call" and not ev.inl:
            n = last(ev.path)
            if ev.args and self.is_buf(ev.args[0]) and n in ("clear", "truncate"):
                buf = "clean" if n == "clear" or ev.args[1] is K(0) else ""
            elif n == "structured_demangle" or n in ("demangle", "demangle_with_options"):
                sym = [a for a in ev.args if self.is_buf(a)]
                s = self.symbol(f, ev.args[0])
                if s is None:
                    e.report("symbol", ev, "what is demangled is not the symbol of the activity", "demangled other")
                elif sym:
                    if buf != "clean":
                        e.report("symbol", ev, "a symbol is demangled after what a previous one left in the buffer", "buffer")
                    buf = s
            elif ev.path in (EP + "::parse_entity", EP + "::try_intern_path"):
                if not any(fpath(a, self.trace) == ("entities",) for a in ev.args[:1]):
                    e.report("parser", ev, "an argument is not parsed with the parser of its trace", "parser")
                self.source(f, ev.res, ev.args[1])
            elif ev.path.startswith("cpp_demangle") and n in ("new", "new_with_options") and ev.args:
                self.source(f, ev.res, ev.args[0])
        elif ev.kind in ("outcome", "notoutcome"):
            v = strip(deref(ev.val))
            if fpath(v, self.me) == NEED:
                f = {x for x in f if x[0] != "type"} if ev.kind == "outcome" else f
                f.add(("type" if ev.kind == "outcome" else "nottype", ev.extra))
            elif self.is_detail(v) and ev.kind == "outcome" and ev.extra in ("Some", "None"):
                f.add(("detail", ev.extra))
            elif v.tag == "call" and ev.kind == "outcome":
                n, path = last(e.callpath.get(v, "")), e.callpath.get(v, "")
                if path in (EP + "::parse_entity", EP + "::try_intern_path"):
                    t = self.src(f, v)
                    f.add((n, ev.extra, t, buf if t == "buf" else ""))
                elif n in ("structured_demangle", "demangle", "demangle_with_options"):
                    f.add(("demangle", ev.extra))
                elif path.startswith("cpp_demangle"):
                    f.add(("symbol", ev.extra))
                elif n in ("strip_prefix", "strip_suffix"):
                    d = list(e.deriv.get(v, ()))
                    if self.strips(v, n, d):
                        f.add(("starts_with" if n == "strip_prefix" else "ends_with", 1 if ev.extra == "Some" else 0))
        elif ev.kind == "cond" and ev.extra[0] == "k":
            v, k = strip(ev.val), ev.extra[1]
            while v.tag == "not":
                v, k = v.a[0], 1 - k
            if v.tag == "call":
                n, d = last(e.callpath.get(v, "")), list(e.deriv.get(v, ()))
                if n in ("starts_with", "ends_with"):
                    t = [self.text(x) for x in d if x.tag not in ("k", "str")]
                    c = [x.a[0] for x in d if x.tag in ("k", "str")]
                    if t == ["detail"] and c in ([40], [41], ["("], [")"]) and (n == "starts_with") == (c[0] in (40, "(")):
                        f.add((n, k))
                elif n in ("is_some", "is_none") and d and self.is_detail(d[0]):
                    f.add(("detail", "Some" if k == (n == "is_some") else "None"))
            elif v.tag == "op" and v.a[0] == "Eq":
                a, b = some(strip(deref(v.a[1]))), some(strip(deref(v.a[2])))
                for x, y in ((a, b), (b, a)):
                    if y.tag == "str" and self.text(x):
                        f.add(("eq" if k else "ne", self.text(x), y.a[0]))
        elif ev.kind == "exit" and ev.extra == "return":
            self.out.add((frozenset(f), buf, e.variant(st, ev.val), ev.val))
        return (frozenset(f), buf)

    def source(self, f, res, v):
        f -= {x for x in f if x[0] == "src" and x[1] is res}
        f.add(("src", res, self.text(v)))

    def src(self, f, tok):
        """the text that a call was given on this path"""
        return next((x[2] for x in f if x[0] == "src" and x[1] is tok), None)

    def symbol(self, f, v):
        """the text that a mangled symbol was read from"""
        v = strip(deref(v))
        while v.tag in ("fld", "as", "conv", "old"):
            v = strip(deref(v.a[0]))
        return self.src(f, v)


def keyed(e, v, path):
    """v is the successful result of the given function; returns its call token"""
    v = strip(deref(v))
    while v.tag in ("fld", "as", "conv", "old"):
        v = strip(deref(v.a[0]))
    return v if v.tag == "call" and e.callpath.get(v) == path else None


REQUIRE = {"String": "String", "FilePath": "FilePathOrModule", "Module": "FilePathOrModule", "CppEntity": "CppEntity"}


@check("T05")
def t05(ctx):
    ctx.rule("On every path of RawActivityArgument::parse: the kind of the result is the one that the kind of the argument and its text call for (compared text, known presence), its payload is the text itself or the key that the trace's own parser returned for that text; "
             "symbols are demangled into an emptied buffer and kept as parsed, demangled or raw text exactly when parsing or demangling failed; every failure is reported and nothing else is. resolve() maps every kind to the same kind and its payload.")
    p = ctx.p
    b = ctx.public(ARG + "::RawActivityArgument::parse")
    opaque = {x.id for x in p.bodies.values() if x.path in (EP + "::parse_entity", EP + "::try_intern_path", EP + "::path", EP + "::entity")}
    ctx.anchor("parser of entities and paths", len(opaque) >= 4)
    if b is not None:
        a = Arg(mk("arg", b.id, 1), mk("arg", b.id, 2))
        e = ctx.run(b, a, opaque=opaque)
        kinds = set()
        types = {v["name"] for v in p.adts[ARG + "::ActivityArgumentType"]["variants"]}
        for f, buf, var, val in a.out:
            ctx.count("outcomes")
            parse_exit(ctx, b, a, e, f, buf, var, val, types, kinds)
        for k in ("Nothing", "String", "FilePath", "Module", "CppEntity", "UnnamedLoop", "Parsed", "Demangled", "MaybeMangled", "Err"):
            ctx.anchor(f"result {k} of {b.path}", k in kinds)
    # ---- resolution
    for path, pairs in ((ARG + "::ParsedActivityArgument::resolve", {"FilePath": EP + "::path", "CppEntity": EP + "::entity", "Symbol": None}), (ARG + "::ParsedSymbol::resolve", {"Parsed": EP + "::entity"})):
        b = ctx.public(path)
        if b is None:
            continue
        a = Res(mk("arg", b.id, 1), mk("arg", b.id, 2))
        e = ctx.run(b, a, opaque=opaque)
        ctx.anchor("results of " + path, a.out)
        resolve_exits(ctx, path, a, e, pairs)
    getter(ctx, ARG + "::RawActivityArgument::arg_type", "arg_type")
    getter(ctx, ARG + "::RawActivityArgument::detail", "detail")


def parse_exit(ctx, b, a, e, f, buf, var, val, types, kinds):
    def bad(msg, key):
        ctx.violation("parse", b.path, "parse() " + msg, key=key)

    t = [x[1] for x in f if x[0] == "type"]
    no = set().union(*[x[1] for x in f if x[0] == "nottype"]) if any(x[0] == "nottype" for x in f) else set()
    t = set(t) if t else types - no
    det = {x[1] for x in f if x[0] == "detail"}
    has = lambda *x: tuple(x) in f
    if var == "Err":
        kinds.add("Err")
        ok = any(x[0] == "try_intern_path" and x[1:3] == ("Err", "detail") for x in f) and t == {"FilePathOrModule"} or \
            any(x[0] == "parse_entity" and x[1:3] == ("Err", "detail") for x in f) and t == {"CppEntity"} or \
            has("ne", "detail", "<unnamed loop>") and t <= {"UnnamedLoop", "UnnamedLoopOpt"}
        if not ok:
            bad("fails although the argument is valid", "spurious error")
        return
    if var != "Ok":
        return bad("has an undecided outcome", "undecided")
    v = payload(e, val, "Ok")
    v = strip(v)
    if v.tag != "agg" or not v.a[0].endswith("::ParsedActivityArgument"):
        return bad("gives something that is not known", "unknown")
    k = v.a[1]
    kinds.add(k)
    x = v.a[2][0] if v.a[2] else None
    if k == "Nothing":
        if not (t == {"Nothing"} or t <= {"SymbolOpt", "UnnamedLoopOpt"} and det == {"None"}):
            bad("gives no argument although there should be one", "nothing")
    elif k == "UnnamedLoop":
        if not (t <= {"UnnamedLoop", "UnnamedLoopOpt"} and has("eq", "detail", "<unnamed loop>")):
            bad("gives an unnamed loop for another argument", "loop")
    elif k == "Symbol":
        if not t <= {"Symbol", "SymbolOpt"}:
            bad("gives a symbol for another kind of argument", "symbol kind")
        return symbol_exit(ctx, b, a, e, f, buf, strip(x), kinds, bad)
    elif t != {REQUIRE.get(k)}:
        bad(f"gives {k} for another kind of argument", "kind " + k)
    if k == "String" and not a.is_detail(x):
        bad("gives another string than the one of the activity", "string")
    elif k == "Module" and not has("eq", "detail", "[module]"):
        bad("gives a module for something else", "module")
    elif k == "FilePath":
        c = keyed(e, x, EP + "::try_intern_path")
        if c is None or a.src(f, c) != "detail":
            bad("gives another path than the one of the activity", "path")
        elif not has("ne", "detail", "[module]"):
            bad("takes a module for a path", "module path")
        elif not has("try_intern_path", "Ok", "detail", "") and any(y[0] == "try_intern_path" for y in f):
            bad("gives a path although it is invalid", "invalid path")
    elif k == "CppEntity":
        c = keyed(e, x, EP + "::parse_entity")
        if c is None or a.src(f, c) != "detail":
            bad("gives another entity than the one of the activity", "entity")


def symbol_exit(ctx, b, a, e, f, buf, s, kinds, bad):
    if s.tag != "agg" or not s.a[0].endswith("::ParsedSymbol"):
        return bad("gives a symbol that is not known", "symbol")
    has = lambda *x: tuple(x) in f
    kinds.add(s.a[1])
    both = has("starts_with", 1) and has("ends_with", 1)
    none = has("starts_with", 0) or has("ends_with", 0)
    sym = "inner" if both else "detail" if none else None
    if sym is None:
        return bad("does not look for parentheses around a symbol", "parentheses")
    x = s.a[2][0]
    failed = has("demangle", "Err") or has("symbol", "Err")
    demangled = has("demangle", "Ok") and not failed
    if not demangled and not failed:
        return bad("does not try to demangle a symbol", "no demangling")
    asis = any(y[0] == "eq" and y[1] == sym and y[2] in ("main", "__clang_call_terminate") for y in f)
    text = "buf" if demangled else sym
    if demangled and buf != sym:
        return bad("demangles another symbol than the one of the activity", "other symbol")
    if s.a[1] == "MaybeMangled":
        if not failed or a.text(x) != sym:
            bad("does not give the demangled form of a symbol although there is one", "mangled")
        elif asis:
            bad("does not parse a symbol that is known not to be mangled", "unmangled")
    elif s.a[1] == "Demangled":
        if a.text(x) != text or not any(y[0] == "parse_entity" and y[1] == "Err" and y[2] == text for y in f):
            bad("gives up on a symbol that can be parsed", "demangled")
    elif s.a[1] == "Parsed":
        c = keyed(e, x, EP + "::parse_entity")
        if c is None or a.src(f, c) != text:
            bad("gives another entity than that of the symbol", "parsed")
        elif not demangled and not asis:
            bad("parses a symbol that could not be demangled", "raw parsed")


class Res(Automaton):
    """variant of the argument that is known at every exit"""
    init = ""

    def __init__(self, me, trace):
        self.me, self.trace, self.out = me, trace, set()

    def step(self, q, ev, st):
        if ev.kind == "outcome" and strip(deref(ev.val)) is self.me:
            return ev.extra
        if ev.kind == "exit" and ev.extra == "return":
            self.out.add((q, strip(ev.val)))
        return q


def resolve_exits(ctx, path, a, e, pairs):
    seen = set()
    for k, v in a.out:
        ctx.count("resolutions")
        if v.tag != "agg" or v.a[1] != k:
            ctx.violation("resolve", path, f"resolve() gives {show(v)[:60]} for {k or 'an argument'}", key=f"{path} kind {k}")
            continue
        seen.add(k)
        if not v.a[2]:
            continue
        x = strip(deref(v.a[2][0]))
        ok = False
        if k in pairs and pairs[k]:
            ok = x.tag == "call" and e.callpath.get(x) == pairs[k] and any(pay(y, a.me) for y in e.deriv[x]) and any(fpath(y, a.trace) == ("entities",) for y in e.deriv[x])
        elif k in pairs:
            ok = x.tag == "agg" and x.a[0].endswith("::Symbol")
        else:
            ok = pay(x, a.me)
        if not ok:
            ctx.violation("resolve", path, f"resolve() does not give what {k} holds", key=f"{path} payload {k}")
    ctx.anchor("kinds resolved by " + path, {v["name"] for v in ctx.p.adts[path.rsplit("::", 1)[0]]["variants"]} <= seen)


def pay(v, me):
    v = strip(deref(v))
    n = 0
    while v.tag in ("fld", "as", "conv") and n < 6:
        n += 1
        v = strip(deref(v.a[0]))
    return v is me
