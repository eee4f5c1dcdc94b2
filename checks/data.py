"""Project data of cmakeperf: freshness (D01), loading (D02), the profile file format (D03)."""
from base import *

DBC = "cmakeperf::commands::CompilationDatabase"
LOSSY = DROPPING | {"flatten", "flat_map", "is_ok", "ok", "unwrap_or_default", "unwrap_or"}


def lossy(e, v, ok=()):
    """name of an adapter that may lose items or errors among what v was computed from"""
    hit = []

    def look(x):
        n = None
        if x.tag == "lazy":
            n = x.a[1]
        elif x.tag == "call":
            n = e.callpath.get(x)
        if n and n.rsplit("::", 1)[-1] in LOSSY and n.rsplit("::", 1)[-1] not in ok and ("iter" in n or "itertools" in n or "vec::" in n or "slice" in n):
            hit.append(n.rsplit("::", 1)[-1])
        return False
    e.derives(v, look)
    return hit[0] if hit else None


class Fresh(Automaton):
    """q = (db compared, item, exhausted, older, notfound, failed, age failed)"""
    init = (False, None, False, False, False, "", False)

    def __init__(self, out):
        self.out, self.seen = out, set()

    def time_of(self, v):
        """which file's modification time a value is"""
        e = self.eng
        v = strip(v)
        if v.tag != "fld":
            return None
        c = strip(root_of(v))
        if c.tag != "call" or e.callpath.get(c) != "std::fs::Metadata::modified":
            return None
        for m in e.deriv.get(c, ()):
            m = strip(root_of(strip(m)))
            if m.tag == "call" and e.callpath.get(m) in ("std::path::Path::metadata", "std::fs::metadata"):
                return self.which(e.deriv.get(m, ()))
        return None

    def which(self, vals):
        e = self.eng
        for p in vals:
            db = e.derives(p, lambda x: x.tag == "str" and x.a[0] == "compile_commands.json")
            if e.derives(p, lambda x: x.tag == "call" and last(e.callpath.get(x, "")) == "next" or x.tag == "cbarg"):
                ok = e.derives(p, lambda x: x.tag == "fld" and x.a[1] == "file")
                return ("both" if db else "input") if ok else "something else"
            if db:
                return "db"
            if e.derives(p, lambda x: x is self.out):
                return "out"
        return None

    def failing(self, v):
        """file whose query produced this error / result token"""
        e = self.eng
        c = strip(root_of(v))
        if c.tag != "call":
            return None
        n = e.callpath.get(c)
        if n in ("std::path::Path::metadata", "std::fs::metadata"):
            return self.which(e.deriv.get(c, ()))
        if n == "std::fs::Metadata::modified":
            return self.time_of(e.project(e.project(c, ("v", "Ok")), ("f", "0")))
        return None

    def step(self, q, ev, st):
        db, item, exh, older, nf, failed, agef = q
        e = self.eng
        if ev.kind == "call" and not ev.inl and last(ev.path) == "next":
            self.seen.add("next")
            if item is not None:
                e.report("skip", ev, "a source file's modification time is not compared before going on to the next", "skipped source")
            n = lossy(e, ev.args[0])
            if n:
                e.report("skip", ev, f"source files may be left out by {n}()", "dropped sources")
            return (db, None, exh, older, nf, failed, agef)
        if ev.kind == "outcome":
            v = strip(ev.val)
            n = last(e.callpath.get(v, "")) if v.tag == "call" else ""
            if n == "next":
                if ev.extra == "Some":
                    return (db, v, False, older, nf, failed, agef)
                return (db or e.derives(v, lambda x: x.tag == "str" and x.a[0] == "compile_commands.json"), None, True, older, nf, failed, agef)
            if ev.extra == "Err":
                if n in ("elapsed", "duration_since"):
                    return (db, item, exh, older, nf, failed, True)
                f = self.failing(v)
                if f:
                    return (db, item, exh, older, nf, f, agef)
            if ev.extra == "NotFound" and n == "kind":
                if any(self.failing(x) == "out" for x in e.deriv.get(v, ())):
                    self.seen.add("notfound")
                    return (db, item, exh, older, True, failed, agef)
        if ev.kind == "cond" and ev.val.tag == "op" and ev.val.a[0] == "Lt" and ev.extra[0] == "k":
            a, b = self.time_of(ev.val.a[1]), self.time_of(ev.val.a[2])
            if a and b:
                self.seen |= {(x, y) for x in (("db", "input") if a == "both" else (a,)) for y in (("db", "input") if b == "both" else (b,))}
                if (a, ev.extra[1]) == ("out", 1):
                    return (db, item, exh, True, nf, failed, agef)
                if (a, ev.extra[1]) == ("out", 0) or (b, ev.extra[1]) == ("out", 1):
                    o = b if a == "out" else a
                    return (db or o in ("db", "both"), None if o in ("input", "both") else item, exh, older, nf, failed, agef)
        if ev.kind == "exit" and ev.extra == "return":
            v = ev.val
            var = e.variant(st, v)
            if var == "Ok":
                r = payload(e, v, "Ok")
                n = e.variant(st, r)
                if failed and not (failed == "out" and nf):
                    e.report("verdict", ev, f"a failure to query the {failed} file's modification time is not reported", f"error swallowed {failed}")
                elif n == "Nonexistent" and not nf:
                    e.report("verdict", ev, "the product is declared nonexistent although its file was not found to be missing", "nonexistent")
                elif n in ("Outdated", "MaybeOutdated") and nf:
                    e.report("verdict", ev, "a missing product is not declared nonexistent", "missing")
                elif n == "Outdated" and not older:
                    e.report("verdict", ev, "the product is declared outdated although no file was found to be more recent", "outdated")
                elif n == "MaybeOutdated":
                    if older:
                        e.report("verdict", ev, "the product is not declared outdated although a more recent file was found", "not outdated")
                    if not db:
                        e.report("verdict", ev, "the product may be declared up to date without comparing it to the compilation database", "no db")
                    if not exh or item is not None:
                        e.report("verdict", ev, "the product may be declared up to date without comparing it to all of its sources", "not all")
                    age = payload(e, r, "MaybeOutdated")
                    an = e.variant(st, age)
                    if an == "None" and not agef:
                        e.report("verdict", ev, "the age of the product is not reported although it is known", "no age")
                    if an == "Some" and not e.derives(age, lambda x: x.tag == "call" and last(e.callpath.get(x, "")) in ("elapsed", "duration_since") and any(self.time_of(y) == "out" for y in e.deriv.get(x, ()))):
                        e.report("verdict", ev, "the reported age is not the time since the product was modified", "wrong age")
                elif n is None:
                    e.report("verdict", ev, "a verdict that was not decided here is returned", "unknown verdict")
            elif not failed:
                e.report("verdict", ev, "an error is returned although every query succeeded", "spurious error")
            elif failed == "out" and nf:
                e.report("verdict", ev, "a missing product is reported as an error", "missing is error")
        return q


@check("D01")
def d01(ctx):
    ctx.rule("On every path of the freshness queries: Nonexistent only after NotFound for the product, Outdated only after its mtime compared strictly less than another mtime, "
             "MaybeOutdated only after compare-not-older against the compilation database and every source, and every other failed query ends in Err.")
    for path, out in ((DBC + "::profile_freshness", 2), ("cmakeperf::commands::DatabaseEntry::derived_freshness", 2)):
        b = ctx.public(path)
        if b is None:
            continue
        a = Fresh(mk("arg", b.id, out))
        ctx.run(b, a)
        ctx.anchor(f"comparison with the compilation database in {path}", ("out", "db") in a.seen or ("db", "out") in a.seen)
        ctx.anchor(f"comparison with sources in {path}", ("out", "input") in a.seen or ("input", "out") in a.seen)
        ctx.anchor(f"missing product in {path}", "notfound" in a.seen)
        ctx.count("freshness queries")
    b = ctx.public("cmakeperf::commands::ProductFreshness::exists")
    if b is not None:
        got = results(ctx, b)
        for var, val in got:
            if (val is FALSE) != (var == "Nonexistent") or val not in (TRUE, FALSE):
                ctx.violation("exists", b.path, f"exists() is {show(val)} for {var}", key=f"exists {var}")
        ctx.count("exists() cases", len(got))


class Results(Automaton):
    """known variant of the (peeled) first argument -> returned value"""
    init = ""

    def __init__(self):
        self.out = set()

    def step(self, q, ev, st):
        if ev.kind == "outcome" and strip(root_of(ev.val)).tag == "arg":
            return ev.extra
        if ev.kind == "exit" and ev.extra == "return":
            self.out.add((q, ev.val))
        return q


def results(ctx, b):
    a = Results()
    ctx.run(b, a)
    return a.out


# =============================================================== D02
READ = {"std::fs::read_to_string", "std::fs::read", "std::fs::File::open", "csv::reader::Reader::from_path", "csv::reader::ReaderBuilder::from_path"}
PARSE = ("serde_json::",)


class Load(Automaton):
    """q = (notfound, failed, item, recorded); stored: where records went"""
    init = (False, False, None, False)

    def __init__(self, ctx, source, key):
        self.ctx, self.source, self.key, self.seen, self.stores, self.oks = ctx, source, key, set(), set(), []

    def is_item(self, v):
        e = self.eng
        return v.tag == "call" and last(e.callpath.get(v, "")) == "next"

    def of_file(self, v):
        """the value was read from the input file"""
        e = self.eng
        return e.derives(v, lambda x: x.tag == "call" and e.callpath.get(x) in READ and any(e.derives(y, self.source) for y in e.deriv.get(x, ())))

    def record(self, q, ev, key, val, into):
        e = self.eng
        nf, failed, item, rec = q
        if item is None or not e.derives(val, lambda x: x is item):
            return q
        if not self.of_file(item):
            e.report("source", ev, "a record was not read from the file", "source")
        self.stores.add(into)
        if rec:
            e.report("lost", ev, "a record is stored twice", "twice")
        self.seen.add("record")
        if self.key:
            if key is None or strip(key).tag != "fld" or strip(key).a[1] != self.key or not e.derives(key, lambda x: x is item):
                e.report("key", ev, f"an entry is not stored under its own {self.key}", "key")
        return (nf, failed, item, True)

    def step(self, q, ev, st):
        nf, failed, item, rec = q
        e = self.eng
        if ev.kind == "call" and not ev.inl:
            n = last(ev.path)
            if n == "next":
                self.lost(q, ev)
                d = lossy(e, ev.args[0])
                if d:
                    e.report("lost", ev, f"records may be left out by {d}()", "dropped records")
                return (nf, failed, None, False)
            if item is not None and n in ("push", "push_back", "insert") and len(ev.args) > 1:
                return self.record(q, ev, ev.args[1] if n == "insert" else None, ev.args[-1], strip(root_of(strip(ev.args[0]))))
        if ev.kind == "collected":
            v = ev.val
            if self.key:
                if v.tag == "agg" and len(v.a[2]) == 2:
                    return self.record(q, ev, v.a[2][0], v.a[2][1], ev.res)
                return self.record(q, ev, None, v, ev.res)
            return self.record(q, ev, None, v, ev.res)
        if ev.kind == "outcome":
            v = strip(ev.val)
            if self.is_item(v):
                return (nf, failed, v if ev.extra == "Some" else None, False)
            if ev.extra == "Err" and (v.tag == "call" or item is not None and e.derives(v, lambda x: x is item)):
                self.seen.add("err")
                return (nf, True, item, rec)
            if ev.extra == "NotFound" and v.tag == "call" and last(e.callpath.get(v, "")) == "kind":
                self.seen.add("notfound")
                return (True, failed, item, rec)
        if ev.kind == "exit" and ev.extra == "return":
            var = e.variant(st, ev.val)
            if var == "Ok":
                self.lost(q, ev)
                if failed:
                    e.report("error", ev, "loading succeeds although reading or parsing failed", "swallowed")
                self.seen.add("ok")
                self.oks.append((ev.val, ev.sp))
            elif var == "Err":
                x = payload(e, ev.val, "Err")
                miss = e.variant(st, x) == "FileNotFound"
                if miss != nf:
                    e.report("notfound", ev, "a missing file is not reported as such" if nf else "an error other than a missing file is reported as a missing file", f"notfound {nf}")
                if not failed:
                    e.report("error", ev, "an error is reported although nothing failed", "spurious")
            else:
                e.report("error", ev, "the outcome of loading is not decided", "unknown outcome")
        return q

    def lost(self, q, ev):
        nf, failed, item, rec = q
        if item is not None and not rec and not failed:
            self.eng.report("lost", ev, "a record that was read is not part of the result", "lost record")
        if item is not None and failed and not (ev.kind == "exit"):
            self.eng.report("error", ev, "a record that could not be parsed is skipped", "skipped record")


@check("D02")
def d02(ctx):
    ctx.rule("On every path of load(): Ok only if nothing failed and every item read from the file was stored once (database entries under their own file path); "
             "FileNotFound if and only if the error kind was NotFound; every other failure ends in Err.")
    for path, src, key in ((DBC + "::load", lambda b: lambda x: x.tag == "str" and x.a[0] == "compile_commands.json", "file"),
                           ("cmakeperf::output::load", lambda b: lambda x: x.tag == "arg", None)):
        b = ctx.public(path)
        if b is None:
            continue
        a = Load(ctx, src(b), key)
        e = ctx.run(b, a)
        for v in {v for v, _ in a.oks}:
            if not a.of_file(v) and not e.derives(v, lambda x: x in a.stores):
                ctx.violation("source", path, "what is returned is not what was read from the file", key="source")
        for w, what in (("record", "storing records"), ("err", "failures"), ("notfound", "missing file"), ("ok", "success")):
            ctx.anchor(f"{what} in {path}", w in a.seen)
        ctx.count("load functions")
    b = ctx.public(DBC + "::entry")
    if b is not None:
        e = ctx.run(b, Results())
        me, key = mk("arg", b.id, 1), mk("arg", b.id, 2)
        for q, v in e.auto.out:
            c = strip(root_of(v))
            n = last(e.callpath.get(c, "")) if c.tag == "call" else ""
            if n != "get" or not any(strip(x) is key for x in e.deriv.get(c, ())) or not any(e.derives(x, lambda y: y is me) for x in e.deriv.get(c, ())):
                ctx.violation("entry", b.path, "entry() does not look up its argument among the database's keys", key="entry")
        ctx.count("lookups")
    b = ctx.public(DBC + "::entries")
    if b is not None:
        e = ctx.run(b, Results())
        for q, v in e.auto.out:
            n = lossy(e, v) or (None if e.derives(v, lambda y: y.tag == "call" and last(e.callpath.get(y, "")) in ("values", "iter")) else "?")
            if n:
                ctx.violation("entries", b.path, "entries() may not list every entry of the database", key="entries")
        ctx.count("lookups")


# =============================================================== D03
CONFIG = {"has_headers", "delimiter", "quote", "quote_style", "quoting", "escape", "double_quote", "terminator", "comment", "flexible", "trim", "ascii"}
UP = "cmakeperf::output::UnitProfile"


class Fields(Automaton):
    """ordered serialized fields; q = tuple of (name, field) so far"""
    init = ()

    def __init__(self):
        self.out = set()

    def step(self, q, ev, st):
        e = self.eng
        if ev.kind == "call" and not ev.inl and last(ev.path) in ("serialize_field", "serialize_entry", "skip_field"):
            n = ev.args[1]
            v = strip(ev.args[2]) if len(ev.args) > 2 else UNIT
            f = v.a[1] if v.tag == "fld" and strip(v.a[0]).tag == "arg" else "?"
            return q + ((n.a[0] if n.tag == "str" else "?", f if last(ev.path) != "skip_field" else "skipped"),)
        if ev.kind == "exit" and ev.extra == "return" and e.variant(st, ev.val) != "Err":
            self.out.add(q)
        return q


class Names(Automaton):
    """string compared equal -> returned field variant"""
    init = ""

    def __init__(self):
        self.out = {}

    def step(self, q, ev, st):
        e = self.eng
        if ev.kind == "cond" and ev.extra == ("k", 1):
            for x in ([ev.val.a[1], ev.val.a[2]] if ev.val.tag == "op" and ev.val.a[0] == "Eq" else []):
                if x.tag == "str":
                    return x.a[0]
        if ev.kind == "exit" and ev.extra == "return" and e.variant(st, ev.val) == "Ok":
            v = payload(e, ev.val, "Ok")
            self.out[q] = e.variant(st, v)
        return q


@check("D03")
def d03(ctx):
    ctx.rule("The derived serializer of UnitProfile writes every field, unconditionally, unconverted and in order, under names which the derived deserializer assigns to the same fields and types; "
             "CSV reader and writer both use the default configuration; constructor and accessors pass each field on.")
    p = ctx.p
    adt = ctx.anchor(UP, p.adts.get(UP))
    if not adt:
        return
    fields = [f["name"] for f in adt["variants"][0]["fields"]]
    tys = {f["name"]: f["t"] for f in adt["variants"][0]["fields"]}

    def one(suffix, **kw):
        bs = [b for k, v in p.by_path.items() for b in v if k.startswith(("<" + UP, "<<" + UP)) and k.endswith(suffix) and b.kind == "fn"]
        bs = [b for b in {b.id: b for b in bs}.values()]
        return ctx.anchor(f"{suffix} of UnitProfile", bs and bs[0])
    ser, vs, vm = one("Serialize>::serialize"), one("__FieldVisitor as serde::de::Visitor>::visit_str"), one("__Visitor as serde::de::Visitor>::visit_map")
    if ser and vs and vm:
        a = Fields()
        ctx.run(ser, a)
        ctx.anchor("serialized fields", a.out)
        n = Names()
        ctx.run(vs, n)
        back = {}
        for name, var in n.out.items():
            if name and var and var.startswith("__field") and var[7:].isdigit():
                i = int(var[7:])
                back[name] = fields[i] if i < len(fields) else "?"
        ctx.anchor("deserialized field names", back)
        ctx.sample("columns", str(back))
        for seq in a.out:
            ctx.count("columns", len(seq))
            if [f for _, f in seq] != fields:
                ctx.violation("columns", ser.path, f"a row may be written with fields {[f for _, f in seq]} instead of {fields}", key="fields written")
            for nm, f in seq:
                if f in tys and back.get(nm) != f:
                    ctx.violation("columns", ser.path, f"the column '{nm}' that field {f} is written to is read back as {back.get(nm)}", key=f"column {f}")
        want = {t.key() for t in tys.values()}
        for _, t in vm.calls():
            c = t.get("callee") or {}
            if last(c.get("path", "")) == "next_value":
                x = [vm.crate.ty(y) for y in c["args"] if not isinstance(y, str)]
                if x and x[-1].key() not in want and "IgnoredAny" not in repr(x[-1]):
                    ctx.violation("columns", vm.path, f"a column is read as {x[-1]!r}, which is not the type of a field", key=f"type {x[-1]!r}")
                ctx.count("column readers")
    for b in p.fns():
        if b.crate.name not in ("cmakeperf", "crofiler"):
            continue
        for i, t in direct_calls(b, lambda x: x.startswith("csv::") and last(x) in CONFIG):
            ctx.violation("config", f"{t['sp'][0]}:{t['sp'][1]} in {b.path}", "the profile is read or written with a CSV configuration other than the default", key="csv " + last(t["callee"]["path"]))
        for i, t in direct_calls(b, lambda x: x.startswith("csv::") and last(x) in ("from_path", "from_writer", "from_reader")):
            ctx.count("CSV readers and writers")
    new = ctx.public(UP + "::new")
    if new is not None:
        e = ctx.run(new, Results())
        for q, v in e.auto.out:
            if v.tag != "agg":
                ctx.violation("constructor", new.path, "the constructed profile is not known", key="unknown")
                continue
            args = [mk("arg", new.id, i + 1) for i in range(3)]
            vals = dict(zip(v.a[3], v.a[2]))
            for i, (f, g) in enumerate(zip(fields, args)):
                x = vals.get(f)
                ok = x is not None and (strip(x) is g if i < 2 else e.derives(x, lambda y: y is g) or x.tag == "agg" and x.a[1] == "None" and q == "None")
                if not ok:
                    ctx.violation("constructor", new.path, f"field {f} is not what the constructor was given", key="field " + f)
        ctx.count("constructor")
    for m, f in (("rel_path", "rel_path"), ("max_rss_bytes", "max_rss")):
        b = ctx.public(f"{UP}::{m}")
        if b is not None:
            e = ctx.run(b, Results())
            for q, v in e.auto.out:
                x = strip(v)
                if not (x.tag == "fld" and x.a[1] == f):
                    ctx.violation("accessor", b.path, f"{m}() does not return the stored {f}", key=m)
            ctx.count("accessors")
    b = ctx.public(f"{UP}::wall_time")
    if b is not None:
        a = WallTime()
        ctx.run(b, a)
        ctx.count("accessors")


class WallTime(Automaton):
    """q: known presence of the field"""
    init = ""

    def step(self, q, ev, st):
        e = self.eng
        is_t = lambda x: x.tag == "fld" and x.a[1] == "wall_time_secs"
        if ev.kind == "outcome" and is_t(strip(ev.val)):
            return ev.extra
        if ev.kind == "exit" and ev.extra == "return":
            var = e.variant(st, ev.val)
            if var is None or (var == "None") != (q == "None"):
                e.report("accessor", ev, "wall_time() is absent for a stored time, or present without one", "presence")
            elif var == "Some" and not e.derives(ev.val, is_t):
                e.report("accessor", ev, "wall_time() does not return the stored time", "value")
        return q
