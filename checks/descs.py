"""U12: descriptions of activities show the name and the whole argument, cut only to the columns that they have."""
import itertools
from base import *
from report import Report, DESC
from views import decode

DISPLAY = "crofiler::ui::display::"
STRING, PATH = DISPLAY + "display_string", DISPLAY + "path::display_path"
WRITES = {"write_fmt", "write_str", "write_all", "write_char", "write", "extend_from_slice", "push_str", "push"}
H0, T0 = 20, 30        # columns already taken by the header and trailer
TEXTS = {"UnnamedLoop", "Module"}
STRINGS = {"String", "Demangled", "MaybeMangled"}
ENTITIES = {"CppEntity", "Parsed"}


class Writer(Report):
    """what a function writes to its output, and which sample sizes take each path

    q = (samples left, layout, variants known by value, pieces written, has a write failed?, write whose success is not known)"""
    SAM, LAY, VAR, OUT, BAD, PEND = range(6)

    def __init__(self, samples):
        Report.__init__(self)
        self.init = (frozenset(samples), None, frozenset(), (), False, None)
        self.made, self.exits, self.writes = {}, 0, {}

    def put(self, q, **kw):
        q = list(q)
        for k, v in kw.items():
            q[getattr(self, k)] = v
        return tuple(q)

    # -- values
    def leaf(self, s):
        raise NotImplementedError

    def num(self, v, s):
        return self.value(v, lambda x: self.leaf(x, s))

    def width_of(self, v):
        """what a call measures the width of"""
        v = strip(v)
        if v.tag == "as" or v.tag == "fld":
            return self.width_of(v.a[0])
        if v.tag == "agg" and v.a[1] == "Some" and v.a[2]:
            return self.width_of(v.a[2][0])
        c = self.callof(v, "width", "width_cjk")
        return strip(self.arg(c)) if c is not None else None

    def narrow(self, q, ev):
        want = int(bool(ev.extra[1])) if isinstance(ev.extra, tuple) and ev.extra[0] == "k" else None
        if want is None:
            return q
        keep = []
        for s in q[self.SAM]:
            x = self.num(ev.val, s)
            if x is None or int(bool(x)) == want:
                keep.append(s)
        return self.put(q, SAM=frozenset(keep)) if keep else None

    def is_output(self, v):
        return root_of(strip(v)) is self.output or self.eng.derives(v, lambda x: x is self.output)

    def plain(self, v):
        """the text that a value displays"""
        v = strip(v)
        for _ in range(6):
            if self.callof(v, "as_ref", "deref", "borrow", "as_str", "into", "clone", "to_string", "to_owned", "as_bytes", "from"):
                v = strip(self.arg(v))
            else:
                break
        return v

    def pieces(self, ev):
        v = strip(ev.args[1]) if len(ev.args) > 1 else None
        if v is None:
            return None
        if v.tag == "str":
            return [v.a[0]]
        if v.tag == "k" and isinstance(v.a[0], int):
            return [chr(v.a[0])]
        if last(ev.path) != "write_fmt":
            v = self.plain(v)
            return [v.a[0] if v.tag == "str" else v]
        t = self.texts(v)
        if t is None:
            return None
        if not self.callof(v, "new"):
            return [t[0]] if not t[1] else None
        dec = decode(t[0])
        if dec is None:
            return None
        out = []
        for x in dec:
            if isinstance(x, str):
                out.append(x)
            elif x[0] < len(t[1]) and x[1]:
                a, ty = strip(t[1][x[0]][0]), t[1][x[0]][1]
                if a.tag == "k" and isinstance(a.a[0], int) and any("char" in y.s if hasattr(y, "s") else "char" in str(y) for y in ty or ()):
                    out.append(chr(a.a[0]))
                    continue
                out.append(a.a[0] if a.tag == "str" else self.plain(a))
            else:
                return None
        return out

    def write(self, q, ev):
        p = self.pieces(ev)
        if p is None:
            self.bad("written", ev, "what is written here is not known", "unknown write")
            return q
        out = list(q[self.OUT])
        for x in p:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            elif x != "":
                out.append(x)
        if len(out) > 12:
            out = out[:12]
        return self.put(q, OUT=tuple(out))

    def step(self, q, ev, st):
        if ev.kind == "call" and not ev.inl:
            self.note(ev)
            if ev.res is not None:
                self.tys[strip(ev.res)] = ev.extra
            if last(ev.path) == "bounded_display":
                self.columns(q, ev, ev.args[1] if len(ev.args) > 1 else None, "max_cols")
                return q
            if last(ev.path) in WRITES and ev.args and self.is_output(ev.args[0]):
                self.writes[strip(ev.res)] = ev
                return self.write(self.waiting(q, ev), ev)
            if ev.path in self.displays and ev.args:
                if ev.path == STRING and ev.res is not None:
                    self.writes[strip(ev.res)] = ev
                    q = self.waiting(q, ev)
                return self.shown(q, ev)
            return q
        if ev.kind == "cond":
            return self.narrow(q, ev)
        if ev.kind == "outcome":
            if ev.extra == "Err" and strip(ev.val) in self.writes:
                return self.put(q, BAD=True)
            if q[self.PEND] is not None and (strip(ev.val) is q[self.PEND] or strip(ev.val).tag == "phi"):
                q = self.put(q, PEND=None)
            return self.variant(q, ev, {ev.extra}, False)
        if ev.kind == "notoutcome":
            return self.variant(q, ev, set(ev.extra), True)
        if ev.kind == "exit" and ev.extra == "return":
            return self.end(q, ev)
        return q

    displays = ()

    def waiting(self, q, ev):
        if q[self.PEND] is not None:
            self.bad("errors", ev, "goes on without knowing if the previous part could be written", "error ignored")
        return self.put(q, PEND=strip(ev.res))

    def unknown(self, q, v):
        return q[self.PEND] is not None and not (isinstance(v, V) and (strip(v) is q[self.PEND] or strip(v).tag in ("phi", "call")))

    def columns(self, q, ev, v, name):
        pass

    def variant(self, q, ev, names, neg):
        v = strip(ev.val)
        if v is self.config:
            if neg:
                names = {"SingleLine", "MultiLine"} - names
            if len(names) != 1:
                return q
            n = next(iter(names))
            return self.put(q, LAY=n) if q[self.LAY] in (None, n) else None
        return q

    def shown(self, q, ev):
        return q

    def ok(self, ev):
        """payload of Ok, or None when the exit is a failure"""
        v = strip(ev.val)
        if v.tag == "agg" and v.a[1] == "Ok":
            return v.a[2][0] if v.a[2] else True
        if v.tag == "agg" and v.a[1] == "Err":
            return None
        return v


class Desc(Writer):
    """samples: (width of the name, columns, argument?)"""
    displays = (STRING, PATH)

    def __init__(self, b):
        Writer.__init__(self, itertools.product((1, 4, 11), (0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 15, 40, 200), (0, 1)))
        tys = {i: b.local_ty(i).peel().s for i in range(1, b.argc + 1)}
        self.pos = {}
        for i, t in tys.items():
            for n in ("ActivityId", "ActivityArgument", "DisplayConfig"):
                if t.split("<")[0].endswith(n):
                    self.pos[n] = i
        rest = [i for i in tys if i not in self.pos.values()]
        self.pos["output"] = rest[0] if len(rest) == 1 else None
        self.b = b
        self.complete = set()
        self.layouts = set()
        self.texts_of = {}
        self.allvars = set()
        self.fell = 0

    def bind(self):
        self.output, self.id, self.subj, self.config = (mk("arg", self.b.id, self.pos[n]) for n in ("output", "ActivityId", "ActivityArgument", "DisplayConfig"))

    def leaf(self, v, s):
        w, m, h = s
        v = strip(v)
        if v.tag == "isv" and strip(v.a[0]) is self.subj:
            return 1 - h if v.a[1] == "Nothing" else None
        if v.tag == "fld" and root_of(v) is self.config:
            return {"max_cols": m, "header_cols": H0, "trailer_cols": T0}.get(str(v.a[1]))
        x = self.width_of(v)
        if x is not None:
            if self.is_name(x):
                return w
            if x.tag == "k":
                return 1 if x.a[0] in (40, 41, 0x2026) else None
            if x.tag == "str":
                return len(x.a[0])
        return None

    def is_name(self, v):
        v = self.plain(v)
        return self.callof(v, "name") is not None and self.eng.derives(self.arg(v), lambda x: x is self.id)

    # -- variants of the argument
    def variant(self, q, ev, names, neg):
        v = strip(ev.val)
        if v is self.subj:
            if neg:
                if names == {"Nothing"}:
                    return self.having(q, 1)
                return q if "Nothing" not in names else self.having(q, 1)
            q = self.having(q, 0 if names == {"Nothing"} else 1)
            known = dict(q[self.VAR])
            n = next(iter(names))
            if q is None or known.get("arg", n) != n:
                return None
            return self.put(q, VAR=q[self.VAR] | {("arg", n)})
        if not neg and v.tag == "fld" and root_of(v) is self.subj and names <= STRINGS | ENTITIES:
            return self.put(q, VAR=frozenset(x for x in q[self.VAR] if x[0] != "symbol") | {("symbol", next(iter(names)))})
        return Writer.variant(self, q, ev, names, neg)

    def having(self, q, h):
        keep = frozenset(s for s in q[self.SAM] if s[2] == h)
        return self.put(q, SAM=keep)

    # -- what is shown of the argument
    def field(self, v, name):
        """field of a configuration, as it was left"""
        v0 = v
        for _ in range(4):
            if v.tag == "ov":
                d = dict(x for x in v.a[1] if isinstance(x, tuple) and len(x) == 2)
                if name in d:
                    return d[name]
                v = v.a[0]
            elif v.tag in ("conv", "old"):
                v = v.a[0]
            else:
                break
        if v.tag == "agg" and name in v.a[3]:
            return v.a[2][v.a[3].index(name)]
        if v is self.config:
            return mk("fld", mk("as", v, "SingleLine" if name == "max_cols" else "MultiLine"), name)
        return None

    def budget(self, q, ev, cfg):
        lay = q[self.LAY]
        if cfg is None:
            return
        a = strip(cfg)
        if a.tag == "agg" and a.a[1] in ("SingleLine", "MultiLine"):
            if lay is not None and a.a[1] != lay:
                self.bad("layout", ev, f"the argument is displayed as {a.a[1]} where {lay} was asked for", "layout exchanged")
                return
            lay = a.a[1]
        if lay is None:
            self.bad("layout", ev, "the argument is displayed without considering the layout", "layout unknown")
            return
        for name in ("max_cols",) if lay == "SingleLine" else ("header_cols", "trailer_cols"):
            self.columns(q, ev, self.field(cfg, name), name)

    def columns(self, q, ev, v, name):
        for w, m, h in q[self.SAM]:
            if not h:
                continue
            want = {"max_cols": m - w - 2, "header_cols": H0 + w + 1, "trailer_cols": T0 + 1}[name]
            x = None if v is None else self.num(v, (w, m, h))
            if x is None or x != want:
                self.bad("columns", ev, f"the columns that remain for the argument are not computed right ({name}: {'unknown' if x is None else x} rather than {want}, with a name of {w} columns"
                         + (f" out of {m})" if name == "max_cols" else ")"), f"columns {name}")
                return

    def shown(self, q, ev):
        if ev.path == PATH:
            self.budget(q, ev, ev.args[1] if len(ev.args) > 1 else None)
            return q
        out = [i for i, a in enumerate(ev.args) if self.is_output(a)]
        rest = [strip(a) for i, a in enumerate(ev.args) if i not in out]
        if not out or len(ev.args) != 3:
            self.bad("written", ev, "text of the argument is displayed elsewhere", "elsewhere")
            return q
        cfg = ev.args[2]
        self.budget(q, ev, cfg)
        return self.put(q, OUT=q[self.OUT] + (mk("op", "text", self.plain(ev.args[1])),))

    def part(self, v, variants):
        """variants of the argument that v is the contents of"""
        v = strip(v)
        names = []
        for _ in range(8):
            if v is self.subj:
                return names[0] if names else None
            if v.tag == "as":
                names.append(str(v.a[1]))
                v = strip(v.a[0])
            elif v.tag in ("fld", "ref"):
                v = strip(v.a[0])
            else:
                return None
        return None

    def argument(self, q, ev, x):
        """is the displayed argument that of the activity? (None, or what is wrong with it)"""
        lay, var = q[self.LAY], dict(q[self.VAR])
        kind = var.get("arg")
        if isinstance(x, str):
            if kind in TEXTS and lay == "MultiLine":
                self.texts_of.setdefault(kind, set()).add(x)
                return None
            return "a fixed text is shown rather than the argument"
        if x.tag == "op" and x.a[0] == "text":
            x = strip(x.a[1])
            if x.tag == "str":
                if kind not in TEXTS:
                    return "a fixed text is shown rather than the argument"
                self.texts_of.setdefault(kind, set()).add(x.a[0])
                return None
            n = self.part(x, STRINGS)
            if n not in STRINGS:
                return "the text that is shown is not that of the argument"
            self.allvars.add(n)
            return None
        c = strip(x)
        if c.tag == "call":
            path, a = self.eng.callpath.get(c, ""), self.args.get(c, ())
            if path == PATH:
                if len(a) != 2 or self.part(a[0], ()) != "FilePath":
                    return "the path that is shown is not that of the argument"
                self.allvars.add("FilePath")
                return None
            if last(path) == "to_boxed_path" or last(path) == "display" and a and "Path" in path:
                return "paths are not cut to the columns"
            if last(path) in ("bounded_display", "display") and a:
                n = self.part(a[0], ENTITIES)
                if n not in ENTITIES:
                    return "the entity that is shown is not that of the argument"
                self.allvars.add(n)
                if last(path) == "bounded_display":
                    if lay != "SingleLine":
                        return "an entity is cut although there are several lines for it"
                    return None
                if lay != "MultiLine":
                    return "an entity is not cut to the columns"
                d = strip(a[1]) if len(a) > 1 else None
                if d is None or self.callof(d, "default") is None:
                    return "parts of an entity are left out although there are several lines for it"
                return None
        n = self.part(c, STRINGS)
        if n in STRINGS and lay == "MultiLine":
            self.allvars.add(n)
            return None
        return "what is shown is not the argument"

    def end(self, q, ev):
        self.exits += 1
        v, lay, sam = self.ok(ev), q[self.LAY], q[self.SAM]
        if not sam:
            return q
        if v is None:
            e = strip(ev.val)
            inner = strip(e.a[2][0]) if e.a[2] else None
            if inner is not None and inner.tag == "agg" and inner.a[1] not in (None, "IoError", "Some", "Err"):
                self.fell += 1
                if lay != "SingleLine":
                    self.bad("given up", ev, "gives up on a description that may use several lines", "given up multi")
                if any(m >= w + 3 * h for w, m, h in sam):
                    self.bad("given up", ev, "gives up on a description although the name of the activity fits", "given up")
                if q[self.OUT]:
                    self.bad("given up", ev, "gives up on a description after having written part of it", "given up late")
            return q
        if q[self.BAD] or self.unknown(q, v):
            self.bad("errors", ev, "reports success after failing to write", "error lost")
            return q
        if lay is None:
            self.bad("layout", ev, "the description does not depend on the layout", "no layout")
        if lay == "SingleLine" and any(m < w + 3 * h for w, m, h in sam):
            self.bad("overflow", ev, "a description is written although the name does not fit", "overflow")
        wrap = self.num(v, next(iter(sam))) if isinstance(v, V) else None
        if lay and wrap != int(lay == "MultiLine"):
            self.bad("wrapping", ev, f"asks for {'no ' if wrap == 0 else ''}wrapping of a description in {'one line' if lay == 'SingleLine' else 'several lines'}", f"wrap {lay}")
        out = list(q[self.OUT])
        has = {h for _, _, h in sam}
        if not out or isinstance(out[0], str) or not self.is_name(out[0]):
            self.bad("name", ev, "a description that does not start with the name of the activity", "name")
            return q
        out = out[1:]
        if not out:
            if 1 in has:
                self.bad("argument", ev, "the argument of an activity may be left out", "left out")
            else:
                self.complete.add((lay, "Nothing"))
            return q
        if 0 in has:
            self.bad("argument", ev, "more than the name is shown for an activity without argument", "extra")
            return q
        kind = dict(q[self.VAR]).get("arg")
        if len(out) == 1 and isinstance(out[0], str) and out[0][:1] == "(" and out[0][-1:] == ")":
            out = ["(", out[0][1:-1], ")"]
        if len(out) != 3 or out[0] != "(" or out[2] != ")":
            self.bad("argument", ev, f"the argument is not shown once, between parentheses ({kind})", f"parentheses {kind}")
            return q
        m = self.argument(q, ev, out[1])
        if m:
            self.bad("argument", ev, f"{m} ({kind})", f"argument {kind}")
        self.complete.add((lay, kind))
        return q


class Text(Writer):
    """samples: (width of the text, columns)"""

    def __init__(self, b):
        Writer.__init__(self, itertools.product((0, 1, 2, 3, 7, 8, 9, 80), (1, 2, 3, 7, 8, 9, 80)))
        tys = {i: b.local_ty(i).peel().s for i in range(1, b.argc + 1)}
        self.pos = {"config": next((i for i, t in tys.items() if t.endswith("DisplayConfig")), None), "text": next((i for i, t in tys.items() if t == "str"), None)}
        rest = [i for i in tys if i not in self.pos.values()]
        self.pos["output"] = rest[0] if len(rest) == 1 else None
        self.b = b
        self.kinds = set()

    def bind(self):
        self.output, self.text, self.config = (mk("arg", self.b.id, self.pos[n]) for n in ("output", "text", "config"))

    def leaf(self, v, s):
        v = strip(v)
        if v.tag == "fld" and root_of(v) is self.config:
            return s[1] if str(v.a[1]) == "max_cols" else None
        if self.width_of(v) is not None and self.plain(self.width_of(v)) is self.text:
            return s[0]
        return None

    def end(self, q, ev):
        self.exits += 1
        v = self.ok(ev)
        if v is None:
            return q
        out = q[self.OUT]
        if q[self.BAD] or self.unknown(q, v):
            if isinstance(v, V) and strip(v) in self.writes:
                return q
            self.bad("errors", ev, "reports success after failing to write", "error lost")
            return q
        whole = len(out) == 1 and not isinstance(out[0], str) and self.plain(out[0]) is self.text
        if q[self.LAY] == "MultiLine":
            if not whole:
                self.bad("whole", ev, "a text is not shown as it is, although it may use several lines", "text multi")
            self.kinds.add("multi")
        elif whole:
            if any(w > m for w, m in q[self.SAM]):
                self.bad("cut", ev, "a text is not cut although it does not fit", "text overflow")
            self.kinds.add("whole")
        else:
            if any(w <= m for w, m in q[self.SAM]):
                self.bad("whole", ev, "a text that fits is not shown as it is", "text cut")
            if len(out) != 3 or out[1] != "…" or any(isinstance(x, str) or not self.eng.derives(x, lambda y: y is self.text) for x in (out[0], out[2])):
                self.bad("cut", ev, "a text that is cut does not show its start, an ellipsis and its end", "text ellipsis")
            self.kinds.add("cut")
        return q


class Shown(Writer):
    """functions that describe activities for a view: what they return when the description fits or not

    q as above, where BAD = the description did not fit"""
    displays = (DESC,)

    def __init__(self, b):
        Writer.__init__(self, [0])
        self.b = b
        self.output = self.config = mk("k", "nothing")
        self.buffers, self.descs, self.fits, self.gaveup = set(), set(), 0, 0

    def leaf(self, v, s):
        return None

    def is_output(self, v):
        return bool(self.buffers) and self.eng.derives(v, lambda x: x in self.buffers)

    def waiting(self, q, ev):
        return q

    def shown(self, q, ev):
        self.buffers.add(root_of(strip(ev.args[0])))
        self.descs.add(strip(ev.res))
        return self.put(q, OUT=(), BAD=False, VAR=frozenset())

    def variant(self, q, ev, names, neg):
        v = strip(ev.val)
        if v in self.descs and not neg and names <= {"Ok", "Err"}:
            return self.put(q, VAR=frozenset(names), BAD="Err" in names)
        return q

    def end(self, q, ev):
        v = strip(ev.val)
        parts = [strip(x) for x in v.a[2]] if v.tag == "agg" else []
        flags = [x for x in parts if x.tag == "k" or x.tag == "fld" and root_of(x) in self.descs]
        if not q[self.VAR]:
            return q
        if not q[self.BAD]:
            self.fits += 1
            if not any(x.tag == "fld" for x in flags):
                self.bad("wrapping", ev, "what the description says about wrapping is not passed on", "wrap lost")
            if not self.is_output(ev.val):
                self.bad("shown", ev, "the description is not what is returned", "lost")
            return q
        self.gaveup += 1
        text = [x for x in q[self.OUT]] + [x.a[0] for x in parts if x.tag == "str"]
        if text != ["…"]:
            self.bad("shown", ev, "an activity whose name does not fit is not shown as an ellipsis", "ellipsis")
        if any(x.tag == "k" and x.a[0] for x in flags):
            self.bad("wrapping", ev, "an ellipsis is to be wrapped", "wrap ellipsis")
        return q


@check("U12")
def u12(ctx):
    p = ctx.p
    ctx.rule("every way of displaying an activity writes its name, and its argument between parentheses when it has one, each kind of argument as what it is, in the columns that remain; "
             "it gives up only if the name and an ellipsis do not fit (conditions on the path, evaluated over sample widths); texts are shown whole when they fit")
    outer = {b.id for b in p.bodies.values() if b.crate.name in ("clang_time_trace", "cpparser", "asylum")}
    s = ctx.public(STRING)
    d = ctx.public(DESC)
    if d is not None:
        a = Desc(d)
        if ctx.anchor("parameters of display_activity_desc", len(a.pos) == 4 and None not in a.pos.values()):
            a.bind()
            names = {b.id for b in p.bodies.values() if b.path in (STRING, PATH)}
            e = ctx.run(d, a, opaque=outer | names)
            kinds = {"Nothing", "UnnamedLoop", "Module", "String", "FilePath", "CppEntity", "Symbol"}
            ctx.count("ways to leave display_activity_desc", a.exits)
            for lay in ("SingleLine", "MultiLine"):
                for k in sorted(kinds):
                    if (lay, k) in a.complete:
                        ctx.count("kinds of arguments displayed")
            missing = sorted(f"{l} {k}" for l in ("SingleLine", "MultiLine") for k in kinds if (l, k) not in a.complete)
            if missing and not any(k for k in a.complete):
                ctx.anchor("descriptions of activities", 0)
            elif missing:
                ctx.violation("argument", f"{d.file}:{d.line} in {d.path}", f"no way to display the activities with: {', '.join(missing)}", key=f"missing {missing}")
            if not a.fell:
                ctx.violation("given up", f"{d.file}:{d.line} in {d.path}", "never tells that a description does not fit", key="never given up")
            t = [x for k in TEXTS for x in a.texts_of.get(k, ())]
            if a.complete and (len(set(a.texts_of.get("Module", ())) & set(a.texts_of.get("UnnamedLoop", ()))) or not all(t)):
                ctx.violation("argument", f"{d.file}:{d.line} in {d.path}", "modules and unnamed loops cannot be told apart", key="same text")
    if s is not None:
        a = Text(s)
        if ctx.anchor("parameters of display_string", None not in a.pos.values()):
            a.bind()
            e = ctx.run(s, a, opaque=outer)
            ctx.count("ways to leave display_string", a.exits)
            ctx.anchor("texts shown whole, cut, and over several lines", a.kinds >= {"multi", "whole", "cut"} if a.exits else 0)
    # descriptions for the views
    cg, callers = call_graph(p)
    reach, todo = set(), [d.id] if d is not None else []
    while todo:
        for c in callers.get(todo.pop(), ()):
            if c not in reach:
                reach.add(c)
                todo.append(c)
    mine = {d.id} if d is not None else set()
    fits = gaveup = 0
    for b in sorted((p.bodies[i] for i in reach), key=lambda b: b.path):
        tys = [b.local_ty(i).peel().s for i in range(1, b.argc + 1)]
        ret = b.local_ty(0).peel().s
        if b.kind == "closure" or "::tests" in b.path or not any(t.endswith("DisplayConfig") for t in tys) or not (ret.startswith("(") and "bool" in ret):
            continue
        a = Shown(b)
        ctx.run(b, a, opaque=outer | mine | {x.id for x in p.bodies.values() if x.path == "crofiler::ui::force_parse_arg"})
        ctx.sample("functions that describe activities for views", b.path)
        fits += a.fits
        gaveup += a.gaveup
    ctx.anchor("descriptions returned to views", fits)
    ctx.anchor("descriptions for views that do not fit", gaveup)
