"""Path-sensitive typestate analysis over interprocedurally inlined MIR.

An Engine explores every path of a root function through the drop-elaborated
MIR of the workspace (workspace callees, closures and Drop impls are inlined;
everything else is an opaque event).  A property is an automaton that consumes
the events; states are kept apart per automaton state and, up to a bound, per
abstract store, then joined.  Nothing is executed and no solver is involved.
"""
import re
import collections
from mir import Ty, subst

# ------------------------------------------------------------------ values
LEAF = {"call", "arg", "phi", "old", "undef", "cbarg", "static", "panic"}


class V:
    __slots__ = ("tag", "a", "leaves", "depth")

    def __repr__(self):
        return show(self)


_tab = {}


def mk(tag, *a):
    key = (tag,) + a
    v = _tab.get(key)
    if v is not None:
        return v
    v = V()
    v.tag, v.a = tag, a
    d, lv = 0, set()
    if tag in LEAF:
        lv.add(v)
        for x in a:
            if isinstance(x, V):
                d = max(d, x.depth)
    else:
        st = list(a)
        while st:
            x = st.pop()
            if isinstance(x, V):
                d = max(d, x.depth)
                lv |= x.leaves
            elif isinstance(x, tuple):
                st.extend(x)
    v.depth = d + 1
    v.leaves = frozenset(lv)
    _tab[key] = v
    return v


def K(x):
    return mk("k", x)


def AGG(path, variant, fields, names=None):
    return mk("agg", path, variant, tuple(fields), tuple(names) if names is not None else tuple(str(i) for i in range(len(fields))))


OPT, RES = "core::option::Option", "core::result::Result"
UNIT = AGG("tuple", None, ())
NONE = AGG(OPT, "None", ())
TRUE, FALSE = K(1), K(0)


def Some(x):
    return AGG(OPT, "Some", (x,))


def Ok(x):
    return AGG(RES, "Ok", (x,))


def Err(x):
    return AGG(RES, "Err", (x,))


def Not(v):
    if v.tag == "k":
        return K(0 if v.a[0] else 1)
    if v.tag == "not":
        return v.a[0]
    return mk("not", v)


def show(v, d=0):
    if not isinstance(v, V):
        return str(v)
    if d > 5:
        return "…"
    t, a = v.tag, v.a
    if t == "k":
        return repr(a[0])
    if t == "agg":
        n = (a[0].split("::")[-1] + ("::" + a[1] if a[1] else "")) if a[0] != "tuple" else ""
        return n + ("(" + ", ".join(show(x, d + 1) for x in a[2]) + ")" if a[2] or not n else "")
    if t == "fld":
        return show(a[0], d + 1) + "." + a[1]
    if t == "as":
        return f"{show(a[0], d + 1)} as {a[1]}"
    if t == "call":
        return f"call#{a[0]}.{a[1]}" + (f".{a[2]}" if len(a) > 2 else "")
    if t == "clo":
        return "closure[" + a[0][-6:] + "]"
    return t + "(" + ", ".join(show(x, d + 1) if isinstance(x, V) else str(x)[:40] for x in a) + ")"


TRANSPARENT = {"as", "conv", "old", "fldt"}


def strip(v):
    """forget renamings and error/representation conversions"""
    while isinstance(v, V):
        if v.tag in ("conv", "old"):
            v = v.a[0]
        elif v.tag == "ov":
            v = v.a[0]
        else:
            return v
    return v


def root_of(v):
    """token a value was projected from"""
    while isinstance(v, V) and v.tag in ("conv", "old", "fld", "as", "ov", "idx", "isv", "discr", "not"):
        v = v.a[0]
    return v


def mentions(v, t):
    """does value v structurally contain value t"""
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, V):
            if x is t:
                return True
            if x not in seen:
                seen.add(x)
                st.extend(x.a)
    return False


def rewrite(v, old, new, memo):
    if isinstance(v, tuple):
        n = tuple(rewrite(x, old, new, memo) for x in v)
        return n if any(a is not b for a, b in zip(n, v)) else v
    if not isinstance(v, V):
        return v
    if v is old:
        return new
    if old not in v.leaves:
        return v
    r = memo.get(v)
    if r is None:
        r = memo[v] = mk(v.tag, *(rewrite(x, old, new, memo) for x in v.a)) if v.tag not in LEAF else v
    return r


def rename_q(q, old, new, memo):
    if isinstance(q, V):
        return rewrite(q, old, new, memo)
    if isinstance(q, tuple):
        return tuple(rename_q(x, old, new, memo) for x in q)
    if isinstance(q, frozenset):
        return frozenset(rename_q(x, old, new, memo) for x in q)
    return q


def q_leaves(q, acc):
    if isinstance(q, V):
        acc |= q.leaves
    elif isinstance(q, (tuple, frozenset)):
        for x in q:
            q_leaves(x, acc)


class St:
    __slots__ = ("s", "f")

    def __init__(self, s, f):
        self.s, self.f = s, f

    def copy(self):
        return St(dict(self.s), dict(self.f))


class Frame:
    __slots__ = ("ctx", "body", "env", "parent", "pbb", "pstage", "kind", "depth", "ids")


class Ev:
    __slots__ = ("kind", "path", "name", "args", "raw", "res", "fr", "bb", "sp", "ty", "val", "extra", "inl", "callee", "index")

    def __init__(self, kind, **kw):
        self.kind = kind
        for s in self.__slots__[1:]:
            setattr(self, s, kw.get(s))

    @property
    def body(self):
        return self.fr.body

    def where(self):
        f, l = self.sp if self.sp else (self.fr.body.file, self.fr.body.line)
        return f"{f}:{l} in {self.fr.body.path}"


# library functions that do not panic (constant memory orderings and plain loads, stores, comparisons and system calls)
NOPANIC = re.compile(r"core::sync::atomic::(Atomic::|fence)|<core::(slice|array|option)::[\w:]* as [\w:]*(Iterator|IntoIterator)>::|atomic_wait::wake|<alloc::rcs?::arc::Arc as |"
                     r"core::(mem|ptr|hint|intrinsics)::|std::process::(Child::(kill|wait|try_wait|id)|ExitStatus::)|std::sync::poison::(rwlock|mutex)::|core::cmp::Partial|core::num::|"
                     r"core::fmt::(Arguments|rt)|log::(max_level|__private_api::loc)|core::time::Duration::(from_|as_|saturating)|[uif](8|16|32|64|128|size)::|"
                     r"core::iter::traits::iterator::Iterator::(map|enumerate|zip|filter|chain|flat_map|rev|copied|cloned|peekable|by_ref)$|core::iter::sources|"
                     r"\[T\]::(iter|len|is_empty)|std::path::Path::display|std::time::Instant::(now|saturating)|<core::result::Result as|<core::option::Option as")


class Incomplete(Exception):
    pass


class Automaton:
    """A property: override step(); q must be hashable."""
    init = "init"
    unwind = False
    drop_types = ()  # extra type paths whose implicit drops are wanted
    makes = ()       # enums/structs whose construction is an event
    max_disj = 8
    max_groups = 24

    def step(self, q, ev, st):
        return q


IDENT = {
    # trait method -> identity on first argument
    "core::clone::Clone::clone", "core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut",
    "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut", "core::borrow::Borrow::borrow",
    "core::borrow::BorrowMut::borrow_mut", "alloc::borrow::ToOwned::to_owned",
    "core::iter::traits::collect::IntoIterator::into_iter",
    "alloc::boxed::Box::new", "alloc::rcs::arc::Arc::new", "alloc::rcs::rc::Rc::new", "alloc::sync::Arc::new",
    "core::hint::must_use", "core::hint::black_box", "core::pin::Pin::new", "alloc::boxed::Box::pin",
    "core::iter::traits::iterator::Iterator::by_ref", "core::future::ready", "core::convert::identity",
    "core::mem::manually_drop::ManuallyDrop::new",
}
CONV = {"core::convert::Into::into", "core::convert::From::from", "core::convert::TryInto::try_into", "alloc::string::ToString::to_string",
        "std::path::PathBuf::into_boxed_path", "std::path::Path::into_path_buf", "alloc::string::String::into_boxed_str", "alloc::str::into_string", "alloc::vec::Vec::into_boxed_slice"}
APPLY = re.compile(r"cursive_core::.*::(with_user_data|call_on_name)$")
FN_TRAITS = {"core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn"}
SPAWN = {"std::thread::functions::spawn", "std::thread::spawn", "std::thread::scoped::Scope::spawn", "std::thread::Builder::spawn",
         "std::thread::builder::Builder::spawn", "std::thread::builder::Builder::spawn_scoped", "std::thread::scoped::Builder::spawn_scoped",
         "std::thread::Builder::spawn_scoped"}
ITER = "core::iter::traits::iterator::Iterator::"
CONSUME = {"next", "collect", "for_each", "try_for_each", "any", "all", "find", "find_map", "position", "fold", "try_fold"}
FLOW = "core::ops::control_flow::ControlFlow"
VARIANTS = {"core::option::Option": ["Some", "None"], "core::result::Result": ["Ok", "Err"], FLOW: ["Continue", "Break"]}
CMP = {"Lt": "Lt", "Le": "Le", "Gt": "Gt", "Ge": "Ge", "Eq": "Eq", "Ne": "Ne"}


def compare(op, a, b):
    if a.tag == "k" and b.tag == "k" and isinstance(a.a[0], int) and isinstance(b.a[0], int):
        x, y = a.a[0], b.a[0]
        return K(int({"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y, "Eq": x == y, "Ne": x != y}[op]))
    if op == "Gt":
        return compare("Lt", b, a)
    if op == "Le":
        return Not(compare("Lt", b, a))
    if op == "Ge":
        return Not(compare("Lt", a, b))
    if op == "Ne":
        return Not(compare("Eq", a, b))
    if op == "Eq":
        if a.tag == "k" and b.tag != "k":
            a, b = b, a
        if b.tag == "k" and b.a[0] in (0, 1) and a.tag in ("not", "isv") or (a.tag == "op" and a.a[0] in ("Lt", "Eq") and b.tag == "k"):
            return a if b.a[0] else Not(a)
        if a is b and a.tag in ("k", "str"):
            return TRUE
        if a.tag == "str" and b.tag == "str":
            return FALSE
    return mk("op", op, a, b)


class Engine:
    def __init__(self, prog, auto, max_steps=400000, trace=True):
        self.p = prog
        self.auto = auto
        auto.eng = self
        self.frames = []
        self.fidx = {}
        self.envs = [{}]
        self.nodes = {}
        self.work = collections.deque()
        self.viol = {}
        self.spawned = {}
        self.deriv = collections.defaultdict(set)   # call token -> argument values
        self.callpath = {}                          # call token -> callee path
        self.steps = 0
        self.max_steps = max_steps
        self.inlined = set()
        self.externs = collections.Counter()
        self.nevents = 0
        self.no_inline = set()
        self._droppy = {}
        self.cur_trace = None
        self.drop_impls = {im["self_ty"].path: im for im in prog.impl_idx.get("core::ops::drop::Drop", ())}

    # ---------------------------------------------------------- reporting
    def report(self, rule, ev, msg, key=None):
        k = (rule, key or (ev.fr.body.path + ": " + msg))
        if k not in self.viol:
            self.viol[k] = dict(rule=rule, where=ev.where(), stack=self.stack(ev.fr), msg=msg, path=self.path_lines())

    def stack(self, fr):
        out = []
        while fr is not None:
            out.append(fr.body.path)
            fr = self.frames[fr.parent] if fr.parent is not None else None
        return out

    def path_lines(self):
        out, t = [], self.cur_trace
        while t is not None and len(out) < 60:
            node, t = t
            fr = self.frames[node[0]]
            b = fr.body.blocks[node[1]]
            sp = self.term_line(b["t"])
            if sp:
                s = f"{sp[0]}:{sp[1]}"
                if not out or out[-1] != s:
                    out.append(s)
        return out[::-1]

    @staticmethod
    def term_line(t):
        if isinstance(t, dict):
            return t["sp"]
        if t[0] in ("drop", "assert"):
            return t[-1]
        if t[0] == "switch":
            return t[4]
        return None

    # ---------------------------------------------------------- frames
    def frame(self, parent, pbb, pstage, body, env, kind="call"):
        key = (parent, pbb, pstage, body.id, kind)
        i = self.fidx.get(key)
        if i is None:
            fr = Frame()
            fr.ctx = i = len(self.frames)
            fr.body, fr.env, fr.parent, fr.pbb, fr.pstage, fr.kind = body, env, parent, pbb, pstage, kind
            pf = self.frames[parent] if parent is not None else None
            fr.depth = pf.depth + 1 if pf else 0
            fr.ids = (pf.ids if pf else frozenset()) | {body.id}
            self.frames.append(fr)
            self.fidx[key] = i
            self.inlined.add(body.id)
        return self.frames[i]

    def envidx(self, env):
        for i, e in enumerate(self.envs):
            if e == env:
                return i
        self.envs.append(env)
        return len(self.envs) - 1

    # ---------------------------------------------------------- places
    def project(self, v, e):
        if e[0] == "x":
            if v.tag == "agg" and v.a[0] == "array" and len(v.a[2]) == 1:
                return v.a[2][0]
            if len(e) > 1 and v.tag == "agg" and v.a[0] == "array" and e[1][0] == "c" and not e[1][2] and e[1][1] < len(v.a[2]):
                return v.a[2][e[1][1]]
            return mk("idx", v, *e[1:])
        if e[0] == "v":
            if v.tag == "agg":
                return v
            if v.tag == "ov":
                return mk("ov", self.project(v.a[0], e), v.a[1])
            return mk("as", v, e[1])
        n = e[1]
        if v.tag == "agg":
            names = v.a[3]
            if n in names:
                return v.a[2][names.index(n)]
            if n in ("pointer",) or n == "0":
                return v
        elif v.tag == "clo":
            i = int(n) if n.isdigit() else -1
            if 0 <= i < len(v.a[2]):
                return v.a[2][i]
        elif v.tag == "ov":
            for k, x in v.a[1]:
                if k == n:
                    return x
            return self.project(v.a[0], e)
        elif v.tag == "lazy":
            pass
        if n == "pointer":
            return v.a[0] if v.tag == "fld" and v.a[1] == "0" else v
        if v.depth > 14:
            return mk("fld", mk("deep", root_of(v)), n)
        return mk("fld", v, n)

    def update(self, v, proj, val):
        if not proj:
            return val
        e, rest = proj[0], proj[1:]
        if e[0] == "v":
            if v.tag in ("agg", "clo") or not rest or rest[0][0] != "f":
                return self.update(v, rest, val)
            w = self.update(self.project(v, e), rest, val)
            return mk("ov", v.a[0] if v.tag == "ov" else v, w.a[1]) if w.tag == "ov" else w
        if e[0] == "x":
            return v
        n = e[1]
        sub = self.update(self.project(v, e), rest, val) if rest else val
        if v.tag == "agg" and n in v.a[3]:
            i = v.a[3].index(n)
            return AGG(v.a[0], v.a[1], v.a[2][:i] + (sub,) + v.a[2][i + 1:], v.a[3])
        if v.tag == "clo" and n.isdigit() and int(n) < len(v.a[2]):
            i = int(n)
            return mk("clo", v.a[0], v.a[1], v.a[2][:i] + (sub,) + v.a[2][i + 1:])
        base, items = (v.a[0], dict(v.a[1])) if v.tag == "ov" else (v, {})
        items[n] = sub
        return mk("ov", base, tuple(sorted(items.items(), key=lambda kv: kv[0])))

    def load_loc(self, st, loc):
        root, proj = loc
        if root[0] == "H":
            v = st.s.get(root, root[1])
        else:
            v = st.s.get(root)
            if v is None:
                v = mk("undef", *root)
        for e in proj:
            v = self.project(v, e) if e != ("*",) else self.deref(st, v)[1]
        return v

    def deref(self, st, v):
        """(loc, value) behind a reference value"""
        if v.tag == "ref":
            loc = (v.a[0], v.a[1])
            return loc, self.load_loc(st, loc)
        h = ("H", v)
        return (h, ()), st.s.get(h, v)

    def resolve(self, st, fr, place):
        root, proj = (fr.ctx, place[0]), ()
        v = st.s.get(root)
        if v is None:
            v = mk("undef", fr.ctx, place[0])
        isbox = None
        for i, e in enumerate(place[1:]):
            if e == "*":
                (root, proj), v = self.deref(st, v)
                continue
            if e == "?":
                continue
            if e[0] == "f":
                if i == 0 and isbox is None:
                    isbox = fr.body.local_ty(place[0]).path == "alloc::boxed::Box"
                    if isbox:
                        continue
                if isbox and e[2] in ("pointer", "0") and i <= 2:
                    continue
                s = ("f", e[2])
            elif e[0] == "v":
                s = ("v", e[2])
            else:
                # constant positions are kept, others are not
                k = st.s.get((fr.ctx, e[1])) if e[0] == "i" else None
                s = ("x", ("c", e[1], e[2])) if e[0] == "ci" else ("x", ("s",) + tuple(e[1:4])) if e[0] == "ss" else ("x", ("k", k.a[0])) if k is not None and k.tag == "k" and isinstance(k.a[0], int) else ("x",)
            v = self.project(v, s)
            proj = proj + (s,)
        return (root, proj), v

    def write(self, st, fr, place, val):
        if len(place) == 1:
            st.s[(fr.ctx, place[0])] = val
            return
        loc, _ = self.resolve(st, fr, place)
        self.store_loc(st, loc, val)

    def store_loc(self, st, loc, val):
        root, proj = loc
        if root[0] == "H":
            base = st.s.get(root, root[1])
            if not proj and val is root[1]:
                st.s.pop(root, None)
                return
        else:
            base = st.s.get(root)
            if base is None:
                base = mk("undef", *root)
        st.s[root] = self.update(base, proj, val)

    def mkref(self, loc):
        root, proj = loc
        if root[0] == "H" and not proj:
            return root[1]
        return mk("ref", root, proj)

    def peel(self, st, v):
        n = 0
        while v.tag == "ref" and n < 20:
            v = self.deref(st, v)[1]
            n += 1
        h = ("H", v)
        return st.s.get(h, v) if v.tag != "agg" else v

    # ---------------------------------------------------------- operands
    def const(self, st, fr, c):
        if "fn" in c:
            pass
        t = fr.body.crate.ty(c["ty"]) if "ty" in c else None
        if "v" in c:
            return K(int(c["v"]))
        if "str" in c:
            return mk("str", c["str"])
        if "ch" in c:
            return K(c["ch"])
        if "promoted" in c:
            return self.promoted(c["promoted"])
        if "static" in c:
            return mk("static", c["static"])
        if t is not None and t.k == "fndef":
            return mk("fn", t.path, t.id, tuple(subst(a, fr.env) if isinstance(a, Ty) else a for a in t.args))
        if t is not None and t.k == "closure":
            return mk("clo", t.id, self.envidx(fr.env), ())
        if "zst" in c and t is not None:
            if t.k == "tuple":
                return UNIT
            if t.k == "adt":
                vs = self.p.variants(t.path)
                return AGG(t.path, vs[0] if vs and len(vs) == 1 else None, ())
        if "def" in c:
            return mk("static", c["def"])
        if "bytes" in c:
            return mk("str", bytes(c["bytes"]).decode("latin1"))
        if t is not None and t.k == "adt":
            vs = self.p.adts.get(t.path)
            if vs and c.get("dbg"):
                for v in vs["variants"]:
                    if c["dbg"].split("::")[-1].strip() == v["name"] and not v["fields"]:
                        return AGG(t.path, v["name"], ())
        return mk("k", c.get("dbg") or c.get("fl") or "const")

    def promoted(self, pid):
        m = self._droppy.get(("P", pid))
        if m is not None:
            return m
        b = self.p.bodies.get(pid)
        v = mk("static", pid)
        if b is not None:
            try:
                fr = self.frame(None, ("promoted", pid), 0, b, {}, "promoted")
                st = St({}, {})
                for s in b.blocks[0]["s"]:
                    if s[0] == "=":
                        self.write(st, fr, s[1], self.rvalue(st, fr, s[2], None))
                if isinstance(b.blocks[0]["t"], list) and b.blocks[0]["t"][0] == "ret":
                    v = self.flat(st, st.s.get((fr.ctx, 0), v))
            except RecursionError:
                pass
        self._droppy[("P", pid)] = v
        return v

    def flat(self, st, v, d=0):
        """value with every reference replaced by what it points to"""
        if d > 6:
            return v
        if v.tag == "ref":
            return self.flat(st, self.peel(st, v), d + 1)
        if v.tag == "agg":
            return AGG(v.a[0], v.a[1], [self.flat(st, x, d + 1) for x in v.a[2]], v.a[3])
        return v

    def operand(self, st, fr, o, consume=True):
        if o[0] == "c":
            return self.const(st, fr, o[1])
        _, v = self.resolve(st, fr, o[1])
        if o[0] == "mv" and consume and len(o[1]) == 1:
            st.s.pop((fr.ctx, o[1][0]), None)
        return v

    def rvalue(self, st, fr, r, line):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref", "fakeref", "rawptr"):
            loc, _ = self.resolve(st, fr, r[-1])
            return self.mkref(loc)
        if k == "cast":
            return self.operand(st, fr, r[2])
        if k == "bin":
            op = r[1]
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            if op in CMP:
                return compare(op, a, b)
            if op.endswith("WithOverflow"):
                x = self.arith(op[:-12], a, b)
                return AGG("tuple", None, (x, mk("op", "ovf", x)))
            return self.arith(op, a, b)
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                return Not(a)
            return mk("op", r[1], a)
        if k == "discr":
            _, v = self.resolve(st, fr, r[1])
            t = fr.body.crate.ty(r[2])
            t = subst(t, fr.env)
            return self.discr(st, v, t.path if t.k == "adt" else None)
        if k == "agg":
            fs = [self.operand(st, fr, o) for o in r[2]]
            kind = r[1]
            if kind[0] == "adt":
                return AGG(kind[1], kind[3], fs, kind[4])
            if kind[0] == "closure":
                return mk("clo", kind[1], self.envidx(fr.env), tuple(fs))
            return AGG(kind[0], None, fs)
        if k == "repeat":
            return AGG("array", None, (self.operand(st, fr, r[1]),))
        return mk("k", str(r)[:60])

    def arith(self, op, a, b):
        if a.tag == "k" and b.tag == "k" and isinstance(a.a[0], int) and isinstance(b.a[0], int):
            x, y = a.a[0], b.a[0]
            f = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "BitAnd": lambda: x & y,
                 "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Shl": lambda: x << y if y < 128 else 0, "Shr": lambda: x >> y}.get(op)
            if f:
                return K(f())
        if op in ("BitAnd", "BitOr"):
            if a.tag == "k":
                a, b = b, a
            if b.tag == "k" and b.a[0] in (0, 1) and (a.tag in ("not", "isv") or (a.tag == "op" and a.a[0] in ("Lt", "Eq"))):
                if op == "BitAnd":
                    return a if b.a[0] else FALSE
                return TRUE if b.a[0] else a
        v = mk("op", op, a, b)
        return v if v.depth < 12 else mk("op", "deep", *sorted(v.leaves, key=repr)[:2])

    def discr(self, st, v, adt):
        var = self.variant(st, v)
        if var is not None:
            d = self.discr_val(adt, var)
            if d is not None:
                return K(d)
        return mk("discr", v, adt)

    def discr_val(self, adt, var):
        a = self.p.adts.get(adt)
        if a:
            for x in a["variants"]:
                if x["name"] == var:
                    return x["discr"]
        return None

    def variant(self, st, v):
        if v.tag == "agg":
            return v.a[1]
        f = st.f.get(v)
        if f is not None and f[0] == "v":
            return f[1]
        if v.tag in ("conv", "ov") :
            return self.variant(st, v.a[0]) if v.tag == "ov" else None
        return None

    # ---------------------------------------------------------- learning
    def learn(self, st, q, v, val, fr, bb, sp, adt=None):
        """assume scalar/bool `v` equals int `val`; returns [(st,q)]"""
        if v.tag == "k":
            return [(st, q)] if v.a[0] == val else []
        if v.tag == "not":
            return self.learn(st, q, v.a[0], 0 if val else 1, fr, bb, sp)
        if v.tag == "discr":
            a = self.p.adts.get(v.a[1])
            if a:
                for x in a["variants"]:
                    if x["discr"] == val:
                        return self.learn_variant(st, q, v.a[0], x["name"], True, v.a[1], fr, bb, sp)
            return self._fact(st, q, v, ("k", val), fr, bb, sp)
        if v.tag == "isv":
            return self.learn_variant(st, q, v.a[0], v.a[1], bool(val), v.a[2], fr, bb, sp)
        f = st.f.get(v)
        if f is not None:
            if f[0] == "k":
                return [(st, q)] if f[1] == val else []
            if f[0] == "nk" and val in f[1]:
                return []
        if v.tag == "op" and v.a[0] == "Eq" and val == 1 and v.a[2].tag == "k" and isinstance(v.a[2].a[0], int):
            x = v.a[1]
            if x.tag not in ("op",):
                out = []
                for s2, q2 in self.learn(st, q, x, v.a[2].a[0], fr, bb, sp):
                    out += self._fact(s2, q2, v, ("k", 1), fr, bb, sp)
                return out
        if v.tag == "op" and v.a[0] == "Eq" and val == 0 and v.a[2].tag == "k":
            fx = st.f.get(v.a[1])
            if fx is not None and fx[0] == "k" and fx[1] == v.a[2].a[0]:
                return []
        return self._fact(st, q, v, ("k", val), fr, bb, sp)

    def learn_not(self, st, q, v, vals, fr, bb, sp, boolean=False):
        """assume `v` differs from every int in vals"""
        if v.tag == "k":
            return [] if v.a[0] in vals else [(st, q)]
        if v.tag in ("not", "isv") or (v.tag == "op" and v.a[0] in ("Lt", "Eq", "ovf")) or boolean:
            rest = [x for x in (0, 1) if x not in vals]
            return self.learn(st, q, v, rest[0], fr, bb, sp) if len(rest) == 1 else ([(st, q)] if rest else [])
        if v.tag == "discr":
            a = self.p.adts.get(v.a[1])
            if a:
                names = [x["name"] for x in a["variants"] if x["discr"] in vals]
                out = [(st, q)]
                for n in names:
                    out = [r for s2, q2 in out for r in self.learn_variant(s2, q2, v.a[0], n, False, v.a[1], fr, bb, sp)]
                return out
        f = st.f.get(v)
        if f is not None and f[0] == "k":
            return [] if f[1] in vals else [(st, q)]
        old = f[1] if f is not None and f[0] == "nk" else frozenset()
        return self._fact(st, q, v, ("nk", old | frozenset(vals)), fr, bb, sp)

    def _fact(self, st, q, v, fact, fr, bb, sp):
        if v.tag == "k":
            return [(st, q)]
        st = st.copy()
        st.f[v] = fact
        ev = Ev("cond", val=v, extra=fact, fr=fr, bb=bb, sp=sp)
        return [(st, q2) for q2 in self.emit(q, ev, st)]

    def learn_variant(self, st, q, v, name, pos, adt, fr, bb, sp):
        cur = self.variant(st, v)
        if cur is not None:
            return [(st, q)] if (cur == name) == pos else []
        vs = self.p.variants(adt) or []
        f = st.f.get(v)
        neg = f[1] if f is not None and f[0] == "nv" else frozenset()
        if pos:
            if name in neg:
                return []
            return self._outcome(st, q, v, name, adt, fr, bb, sp)
        neg = neg | {name}
        if vs:
            rest = [x for x in vs if x not in neg]
            if not rest:
                return []
            if len(rest) == 1:
                return self._outcome(st, q, v, rest[0], adt, fr, bb, sp)
        st = st.copy()
        st.f[v] = ("nv", neg)
        ev = Ev("notoutcome", val=v, extra=neg, fr=fr, bb=bb, sp=sp, ty=adt)
        return [(st, q2) for q2 in self.emit(q, ev, st)]

    def _outcome(self, st, q, v, name, adt, fr, bb, sp):
        st = st.copy()
        st.f[v] = ("v", name)
        ev = Ev("outcome", val=v, extra=name, fr=fr, bb=bb, sp=sp, ty=adt, path=self.callpath.get(v))
        return [(st, q2) for q2 in self.emit(q, ev, st)]

    def split(self, st, q, v, adt, fr, bb, sp):
        """[(variant, payload, st, q)] over an Option/Result value"""
        var = self.variant(st, v)
        names = VARIANTS[adt]
        out = []
        for n in names:
            if var is not None and var != n:
                continue
            for s2, q2 in ([(st, q)] if var is not None else self.learn_variant(st, q, v, n, True, adt, fr, bb, sp)):
                pay = UNIT if n == "None" else self.project(self.project(v, ("v", n)), ("f", "0"))
                out.append((n, pay, s2, q2))
        return out

    def emit(self, q, ev, st):
        self.nevents += 1
        r = self.auto.step(q, ev, st)
        if r is None:
            return []
        if isinstance(r, list):
            return r
        return [r]

    # ---------------------------------------------------------- tokens
    def fresh(self, st, q, tok):
        """(re)define token: earlier values of it become 'old'"""
        hit = any(tok in v.leaves for v in st.s.values()) or any(tok in v.leaves for v in st.f)
        if not hit:
            lv = set()
            q_leaves(q, lv)
            hit = tok in lv
        if not hit:
            return st, q
        memo, old = {}, mk("old", tok)
        # anything that already was old collapses into old
        s = {(("H", rewrite(k[1], tok, old, memo)) if k[0] == "H" else k): rewrite(v, tok, old, memo) for k, v in st.s.items()}
        f = {}
        for k, x in st.f.items():
            if old in k.leaves and tok not in k.leaves:
                continue
            f[rewrite(k, tok, old, memo)] = x
        return St(s, f), rename_q(q, tok, old, memo)

    # ---------------------------------------------------------- running
    def fork(self, auto, max_steps=None):
        """engine for another automaton (or another thread) over the same value tables"""
        e = Engine.__new__(Engine)
        e.__dict__.update(self.__dict__)
        e.auto = auto
        auto.eng = e
        e.nodes, e.work, e.viol, e.spawned = {}, collections.deque(), {}, {}
        e.steps = e.nevents = 0
        e._droppy = {}
        e.externs, e.inlined = collections.Counter(), set()
        e.cur_trace = None
        e.reports = []
        if max_steps:
            e.max_steps = max_steps
        return e

    def merge_spawns(self, recs):
        """one record per spawning call site"""
        by = {}
        for c, fr, sp, st in recs:
            s = st.copy()
            s.s[(fr.ctx, ("spawnclo",))] = c
            k = (c.a[0], c.a[1], fr.ctx, tuple(sp))
            by[k] = s if k not in by else self.join(("spawn", fr.ctx, k), by[k], s)
            by.setdefault(("rec", k), (fr, sp))
        out = []
        for k, s in by.items():
            if k[0] != "rec":
                fr, sp = by[("rec", k)]
                s = s.copy()
                c = s.s.pop((fr.ctx, ("spawnclo",)))
                out.append((c, fr, sp, s))
        return out

    def run_spawned(self, rec):
        """analyse a spawned closure from the store it was spawned with"""
        c, fr, sp, st = rec
        b = self.p.bodies[c.a[0]]
        nf = self.frame(None, ("spawn", fr.ctx, tuple(sp)), None, b, self.envs[c.a[1]], "root")
        st = st.copy()
        for i in range(2, b.argc + 1):
            st.s[(nf.ctx, i)] = mk("arg", b.id, i)
        if b.local_ty(1).k == "ref":
            st.s[(nf.ctx, ("clo", 0))] = c
            st.s[(nf.ctx, 1)] = mk("ref", (nf.ctx, ("clo", 0)), ())
        else:
            st.s[(nf.ctx, 1)] = c
        self.push((nf.ctx, 0, 0), st, self.auto.init, None)
        return self.loop(b)

    def run(self, body, args=None, env=None, captures=None, q=None):
        fr = self.frame(None, None, None, body, env or {}, "root")
        st = St({}, {})
        if body.kind == "closure" and captures is not None:
            self_v = mk("clo", body.id, self.envidx(env or {}), tuple(captures))
            st.s[(fr.ctx, 1)] = self_v
            rng = range(2, body.argc + 1)
        else:
            rng = range(1, body.argc + 1)
        for i in rng:
            st.s[(fr.ctx, i)] = (args or {}).get(i) or mk("arg", body.id, i)
        self.push((fr.ctx, 0, 0), st, q if q is not None else self.auto.init, None)
        return self.loop(body)

    def loop(self, body):
        while self.work:
            item = self.work.popleft()
            key, st, trace = item
            node, q = key
            lst = self.nodes[key][0]
            if st not in lst:
                continue  # was merged into another
            self.steps += 1
            if self.steps > self.max_steps:
                raise Incomplete(f"state budget exhausted analysing {body.path}")
            self.cur_trace = (node, trace)
            for n2, s2, q2 in self.process(node, st.copy(), q):
                self.push(n2, s2, q2, self.cur_trace)
        return self

    def gc(self, st, q):
        if not st.f and not any(k[0] == "H" for k in st.s):
            return
        live = set()
        for k, v in st.s.items():
            if k[0] != "H":
                live |= v.leaves
        # a reachable heap cell keeps what it holds alive
        heap = [k for k in st.s if k[0] == "H"]
        ch = True
        while ch and heap:
            ch = False
            for k in heap:
                if all(l.tag in ("arg", "static") or l in live for l in k[1].leaves):
                    lv = st.s[k].leaves
                    if not lv <= live:
                        live |= lv
                        ch = True
        q_leaves(q, live)
        ok = lambda v: all(l in live or l.tag in ("arg", "static") for l in v.leaves)
        st.f = {k: x for k, x in st.f.items() if ok(k)}
        for k in heap:
            if not ok(k[1]):
                del st.s[k]

    def push(self, node, st, q, trace):
        if node[2] == 0:
            ctx = node[0]
            lv = self.frames[ctx].body.live()[node[1]]
            if any(k[0] == ctx and isinstance(k[1], int) and k[1] not in lv for k in st.s):
                st = St({k: v for k, v in st.s.items() if not (k[0] == ctx and isinstance(k[1], int) and k[1] not in lv)}, dict(st.f))
        self.gc(st, q)
        key = (node, q)
        ent = self.nodes.get(key)
        if ent is None:
            ent = self.nodes[key] = [[], None]
        lst, groups = ent
        for o in lst:
            if self.leq(st, o):
                return
        if groups or len(lst) >= self.auto.max_disj:
            if not groups:
                # too many stores here: from now on, one per combination of known variants
                ent[1] = groups = {}
                for o in lst:
                    groups.setdefault(self.skel(o), []).append(o)
            k = self.skel(st)
            g = groups.get(k)
            if g is None and len(groups) >= self.auto.max_groups:
                k = min(groups, key=lambda x: len(x ^ k))
                g = groups[k]
            if g is not None:
                acc = g[0]
                for o in g[1:] + [st]:
                    acc = self.join(node, acc, o)
                for o in g:
                    lst.remove(o)
                groups[k] = [acc]
                lst.append(acc)
                if len(g) == 1 and self.leq(acc, g[0]):
                    lst[-1] = groups[k][0] = g[0]
                    return
                self.work.append((key, acc, trace))
                return
            groups[k] = [st]
        lst.append(st)
        self.work.append((key, st, trace))

    def skel(self, st):
        """known enum variants and flags of the locals: the part of a store that later branches depend on"""
        out = []

        def go(k, v, d):
            if v.tag == "agg":
                if v.a[1] is not None and (v.a[0] in (OPT, RES) or v.a[0].endswith("ControlFlow") or self.p.adts.get(v.a[0], {}).get("kind") == "enum"):
                    out.append((k, v.a[1]))
                if d < 2:
                    for i, x in enumerate(v.a[2]):
                        go((k, i), x, d + 1)
            elif v.tag == "k":
                if v.a[0] in (0, 1):
                    out.append((k, v.a[0]))
            else:
                f = st.f.get(v)
                if f is not None and (f[0] == "v" or f[0] == "k" and f[1] in (0, 1)):
                    out.append((k, f[1]))
        for k, v in st.s.items():
            if k[0] != "H":
                go(k, v, 0)
        return frozenset(out)

    def leq(self, a, b):
        """a is described by b"""
        if a.s.keys() != b.s.keys():
            for k in b.s:
                if k not in a.s:
                    return False
        for k, v in b.s.items():
            if a.s[k] is not v:
                return False
        for k, x in b.f.items():
            y = a.f.get(k)
            if y is None:
                return False
            if y != x and not (x[0] == y[0] and x[0] in ("nv", "nk") and x[1] <= y[1]):
                return False
        return True

    def join(self, node, a, b):
        s, pairs, newf = {}, {}, {}
        n = hash(node) & 0xFFFFFFFF
        for k, va in a.s.items():
            vb = b.s.get(k)
            if vb is None:
                if k[0] == "H":
                    vb = k[1]
                else:
                    continue
            if va is vb:
                s[k] = va
                continue
            s[k] = self.joinv(va, vb, node, k, pairs, a, b, newf, 0)
        for k, vb in b.s.items():
            if k[0] == "H" and k not in a.s:
                s[k] = self.joinv(k[1], vb, node, k, pairs, a, b, newf, 0)
        made = set(pairs.values())
        f = {}
        for k, x in a.f.items():
            if k.leaves & made:
                continue
            y = b.f.get(k)
            if y is None:
                continue
            if x == y:
                f[k] = x
            elif x[0] == y[0] and x[0] in ("nv", "nk"):
                i = x[1] & y[1]
                if i:
                    f[k] = (x[0], i)
        f.update(newf)
        return St(s, f)

    def joinv(self, a, b, node, place, pairs, sa, sb, newf, d):
        if a is b:
            return a
        if d < 4 and a.tag == b.tag == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
            return AGG(a.a[0], a.a[1], [self.joinv(x, y, node, (place, i), pairs, sa, sb, newf, d + 1)
                                        for i, (x, y) in enumerate(zip(a.a[2], b.a[2]))], a.a[3])
        if d < 4 and a.tag == b.tag == "clo" and a.a[:2] == b.a[:2]:
            return mk("clo", a.a[0], a.a[1], tuple(self.joinv(x, y, node, (place, i), pairs, sa, sb, newf, d + 1)
                                                   for i, (x, y) in enumerate(zip(a.a[2], b.a[2]))))
        if (a.tag == "ov" or b.tag == "ov") and d < 4:
            ba, ia = (a.a[0], dict(a.a[1])) if a.tag == "ov" else (a, {})
            bb, ib = (b.a[0], dict(b.a[1])) if b.tag == "ov" else (b, {})
            if ba is bb and ba.tag != "agg":
                items = {}
                for n in set(ia) | set(ib):
                    x = ia.get(n) or self.project(ba, ("f", n))
                    y = ib.get(n) or self.project(bb, ("f", n))
                    items[n] = self.joinv(x, y, node, (place, n), pairs, sa, sb, newf, d + 1)
                return mk("ov", ba, tuple(sorted(items.items(), key=lambda kv: kv[0])))
        t = pairs.get((a, b))
        if t is None and d < 4 and a.tag == b.tag == "op" and len(a.a) == len(b.a) and a.a[0] == b.a[0] and a.a[0] != "deep":
            # keep the relation between a value and what was computed from it
            o = mk("op", a.a[0], *(self.joinv(x, y, node, (place, i), pairs, sa, sb, newf, d + 1) if isinstance(x, V) and isinstance(y, V) else x
                                   for i, (x, y) in enumerate(zip(a.a[1:], b.a[1:]))))
            fa, fb = self.fact_of(a, sa), self.fact_of(b, sb)
            if fa is not None and fa == fb and o.tag != "k":
                newf[o] = fa
            return o
        if t is None:
            t = pairs[(a, b)] = mk("phi", node, place)
            for x in (a, b):
                if x is not t and x.tag != "k":
                    for y in (x.a[2] if x.tag == "phi" and len(x.a) > 2 else ()):
                        pass
            self.deriv[t] |= {a, b} - {t}
            fa, fb = self.fact_of(a, sa), self.fact_of(b, sb)
            if fa is not None and fa == fb:
                newf[t] = fa
        return t

    def fact_of(self, v, st):
        if v.tag == "agg" and v.a[1] is not None:
            return ("v", v.a[1])
        if v.tag == "k":
            return ("k", v.a[0])
        return st.f.get(v)

    # ---------------------------------------------------------- transfer
    def process(self, node, st, q):
        ctx, bb, stage = node
        fr = self.frames[ctx]
        blk = fr.body.blocks[bb]
        if stage == 0:
            states = [(st, q)]
            for s in blk["s"]:
                if s[0] == "=":
                    nxt = []
                    for st, q in states:
                        # assignment through a name the automaton may care about
                        val = self.rvalue(st, fr, s[2], s[3])
                        if s[2][0] == "bin" and s[2][1] in ("Add", "Sub", "AddWithOverflow", "SubWithOverflow", "Offset") or len(s[1]) > 1 or s[2][0] == "use":
                            loc, oldv = self.resolve(st, fr, s[1]) if len(s[1]) > 1 else (((ctx, s[1][0]), ()), st.s.get((ctx, s[1][0])))
                            ev = Ev("assign", val=val, extra=(loc, oldv), fr=fr, bb=bb, sp=[fr.body.file, s[3]],
                                    index=[st.s.get((ctx, x[1])) for x in s[1][1:] if x[0] == "i"])
                            qs = self.emit(q, ev, st)
                        else:
                            qs = [q]
                        if val.tag == "agg" and s[2][0] in ("agg", "use") and val.a[0] in self.auto.makes:
                            ev = Ev("make", val=val, path=val.a[0], extra=val.a[1], fr=fr, bb=bb, sp=[fr.body.file, s[3]])
                            qs = [q3 for q2 in qs for q3 in self.emit(q2, ev, st)]
                        self.write(st, fr, s[1], val)
                        for i, q2 in enumerate(qs):
                            nxt.append((st if i == len(qs) - 1 else st.copy(), q2))
                    states = nxt
                elif s[0] == "dead":
                    for st, q in states:
                        st.s.pop((ctx, s[1]), None)
                elif s[0] == "setd":
                    for st, q in states:
                        self.setd(st, fr, s)
            out = []
            for st, q in states:
                out += self.term(fr, bb, st, q, blk["t"])
            return out
        return self.resume(fr, bb, stage, st, q, blk["t"])

    def setd(self, st, fr, s):
        loc, v = self.resolve(st, fr, s[1])
        st.f.pop(v, None)
        self.store_loc(st, loc, mk("undef", fr.ctx, s[1][0]))

    def term(self, fr, bb, st, q, t):
        ctx = fr.ctx
        if isinstance(t, dict):
            return self.call(fr, bb, st, q, t)
        k = t[0]
        if k == "goto":
            return [((ctx, t[1], 0), st, q)]
        if k == "switch":
            v = self.operand(st, fr, t[1])
            out = []
            isb = fr.body.crate.ty(t[5]).s == "bool"
            for val, to in t[2]:
                for s2, q2 in self.learn(st, q, v, val, fr, bb, t[4]):
                    out.append(((ctx, to, 0), s2.copy(), q2))
            for s2, q2 in self.learn_not(st, q, v, [x for x, _ in t[2]], fr, bb, t[4], isb):
                out.append(((ctx, t[3], 0), s2.copy(), q2))
            return out
        if k == "ret":
            return self.ret(fr, st, q)
        if k == "drop":
            return self.drop(fr, bb, st, q, t, 0)
        if k == "assert":
            v = self.operand(st, fr, t[1])
            out = []
            if v.tag == "op" and v.a[0] == "ovf":
                good, bad = [(st, q)], [(st, q)]
            else:
                good = self.learn(st, q, v, int(t[2]), fr, bb, t[7])
                bad = self.learn(st, q, v, 1 - int(t[2]), fr, bb, t[7])
            for s2, q2 in good:
                out.append(((ctx, t[5], 0), s2.copy(), q2))
            for s2, q2 in bad:
                out += self.panic(fr, bb, s2.copy(), q2, t[6], t[7])
            return out
        if k == "resume":
            return self.unwind_up(fr, st, q)
        return []

    def panic(self, fr, bb, st, q, uw, sp):
        out = []
        for q2 in self.emit(q, Ev("panic", fr=fr, bb=bb, sp=sp), st):
            if self.auto.unwind:
                out += self.unwind_to(fr, bb, uw, st.copy(), q2)
        return out

    def unwind_to(self, fr, bb, uw, st, q):
        if fr.body.blocks[bb]["c"]:
            return []    # a panic while unwinding aborts the process
        if uw is not None:
            return [((fr.ctx, uw, 0), st, q)]
        return self.unwind_up(fr, st, q)

    def drop_frame(self, st, ctx):
        for k in [k for k in st.s if k[0] == ctx]:
            del st.s[k]

    def unwind_up(self, fr, st, q):
        self.drop_frame(st, fr.ctx)
        if fr.parent is None:
            for q2 in self.emit(q, Ev("exit", extra="panic", fr=fr, bb=0, val=None), st):
                pass
            return []
        pf = self.frames[fr.parent]
        if fr.pstage == "scope":
            out = []
            sp = self.term_line(pf.body.blocks[fr.pbb]["t"])
            qs = self.emit(q, Ev("scope_end", extra="panic", fr=pf, bb=fr.pbb, sp=sp), st)
            if not qs:
                return []
            if len(qs) > 1 or qs[0] != q:
                for q2 in qs:
                    out += self._unwind_parent(fr, pf, st.copy(), q2)
                return out
        return self._unwind_parent(fr, pf, st, q)

    def _unwind_parent(self, fr, pf, st, q):
        if fr.kind == "catch":
            st.s[(pf.ctx, ("rv", fr.pbb))] = mk("panic", fr.ctx)
            return [((pf.ctx, fr.pbb, "caught"), st, q)]
        for k in [k for k in st.s if k[0] == pf.ctx and isinstance(k[1], tuple)]:
            del st.s[k]
        t = pf.body.blocks[fr.pbb]["t"]
        uw = t["uw"] if isinstance(t, dict) else (t[4] if t[0] == "drop" else None)
        return self.unwind_to(pf, fr.pbb, uw, st, q)

    def ret(self, fr, st, q):
        v = st.s.get((fr.ctx, 0), UNIT if fr.body.local_ty(0).k == "tuple" else mk("undef", fr.ctx, 0))
        if fr.parent is None:
            self.emit(q, Ev("exit", extra="return", val=v, fr=fr, bb=0), st)
            return []
        ev = Ev("ret", val=v, fr=fr, bb=0, path=fr.body.path)
        out = []
        for q2 in self.emit(q, ev, st):
            s2 = st.copy()
            self.drop_frame(s2, fr.ctx)
            s2.s[(fr.parent, ("rv", fr.pbb))] = v
            out.append(((fr.parent, fr.pbb, fr.pstage), s2, q2))
        return out

    # ---------------------------------------------------------- drops
    def droppy(self, ty, seen=()):
        """does dropping this type run a workspace Drop impl or drop a type of interest"""
        key = ty.key()
        m = self._droppy.get(key)
        if m is not None:
            return m
        if key in seen or len(seen) > 8:
            return False
        r = False
        if ty.k == "adt":
            if ty.path in self.drop_impls or ty.path in self.auto.drop_types:
                r = True
            elif ty.path == "core::mem::manually_drop::ManuallyDrop":
                r = False
            else:
                a = self.p.adts.get(ty.path)
                subs = [x for x in ty.args if isinstance(x, Ty)]
                if a and a["local"]:
                    subs += [f["t"] for v in a["variants"] for f in v["fields"] if "t" in f]
                r = any(self.droppy(x, seen + (key,)) for x in subs)
        elif ty.k == "closure":
            r = any(self.droppy(x, seen + (key,)) for x in ty.upvars)
        elif ty.k in ("tuple", "array", "slice"):
            r = any(self.droppy(x, seen + (key,)) for x in ty.args if isinstance(x, Ty))
        if not seen:
            self._droppy[key] = r
        return r

    def glue(self, st, loc, ty, depth=0):
        """ordered [(loc, ty, maybe)] of drops of interest, outermost first"""
        out = []
        if depth > 6 or (depth and not self.droppy(ty)):
            return out
        if ty.k == "adt":
            out.append((loc, ty, False))
            if not self.droppy(ty):
                return out
            a = self.p.adts.get(ty.path)
            v = self.load_loc(st, loc)
            if ty.path in (OPT, RES):
                var = self.variant(st, v)
                for i, n in enumerate(["Some"] if ty.path == OPT else ["Ok", "Err"]):
                    if var is not None and var != n:
                        continue
                    sub = self.glue(st, (loc[0], loc[1] + (("v", n), ("f", "0"))), ty.args[i], depth + 1)
                    out += [(l, t, m or var is None) for l, t, m in sub]
            elif ty.path == "alloc::boxed::Box":
                out += self.glue(st, loc, ty.args[0], depth + 1)
            elif a and a["local"]:
                env = {}
                vs = a["variants"]
                var = self.variant(st, v) if a["kind"] == "enum" else None
                for vv in vs:
                    if var is not None and a["kind"] == "enum" and vv["name"] != var:
                        continue
                    for f in vv["fields"]:
                        if "t" not in f:
                            continue
                        pr = (("v", vv["name"]),) if a["kind"] == "enum" else ()
                        sub = self.glue(st, (loc[0], loc[1] + pr + (("f", f["name"]),)), f["t"], depth + 1)
                        mb = a["kind"] == "enum" and var is None
                        out += [(l, t, m or mb) for l, t, m in sub]
            else:
                for x in ty.args:
                    if isinstance(x, Ty):
                        out += [(l, t, True) for l, t, m in self.glue(st, (loc[0], loc[1] + (("x",),)), x, depth + 1)]
        elif ty.k == "closure":
            for i, x in enumerate(ty.upvars):
                out += self.glue(st, (loc[0], loc[1] + (("f", str(i)),)), x, depth + 1)
        elif ty.k == "tuple":
            for i, x in enumerate(ty.args):
                out += self.glue(st, (loc[0], loc[1] + (("f", str(i)),)), x, depth + 1)
        elif ty.k in ("array", "slice"):
            out += [(l, t, True) for l, t, m in self.glue(st, (loc[0], loc[1] + (("x",),)), ty.args[0], depth + 1)]
        return out

    def drop(self, fr, bb, st, q, t, i, resumed=False):
        """drop terminator; also used for mem::drop (t is then a dict)"""
        isterm = not isinstance(t, dict)
        if isterm:
            loc, _ = self.resolve(st, fr, t[1])
            ty = subst(fr.body.crate.ty(t[2]), fr.env)
            sp = t[5]
        else:
            loc = ((fr.ctx, ("sv", bb)), ())
            ty = subst(fr.body.crate.ty(t["callee"]["args"][0]), fr.env)
            sp = t["sp"]
        acts = self.glue(st, loc, ty)
        sigs = st.s.get((fr.ctx, ("dl", bb)))
        if sigs is None:
            key = tuple((l, x.key(), m) for l, x, m in acts)
            self._droppy.setdefault(("acts", key), acts)
            st.s[(fr.ctx, ("dl", bb))] = mk("dl", key)
        else:
            acts = self._droppy[("acts", sigs.a[0])]
        cur = [(st, q)]
        out = []
        while cur and i < len(acts):
            l, ty2, maybe = acts[i]
            nxt = []
            for s2, q2 in cur:
                # a variant may have been replaced by a destructor that ran before (e.g. Option::take)
                if any(x[0] == "v" and self.variant(s2, self.load_loc(s2, (l[0], l[1][:n]))) not in (None, x[1])
                       for n, x in enumerate(l[1]) if n >= len(loc[1])):
                    nxt.append((s2, q2))
                    continue
                if maybe:
                    nxt.append((s2.copy(), q2))
                val = self.load_loc(s2, l)
                for q3 in self.emit(q2, Ev("drop", ty=ty2, path=ty2.path, val=val, fr=fr, bb=bb, sp=sp), s2):
                    s3 = s2.copy()
                    im = self.drop_impls.get(ty2.path)
                    if im is not None:
                        body = self.p.bodies.get(im["items"][0]["id"])
                        if body is not None and body.id not in fr.ids:
                            nf = self.frame(fr.ctx, bb, ("drop", i + 1), body, self.bind_impl(im, ty2), "call")
                            s3.s[(nf.ctx, 1)] = self.mkref(l)
                            out.append(((nf.ctx, 0, 0), s3, q3))
                            continue
                    nxt.append((s3, q3))
            cur = nxt
            i += 1
        for s2, q2 in cur:
            s2.s.pop((fr.ctx, ("dl", bb)), None)
            if isterm:
                if len(t[1]) == 1:
                    s2.s.pop((fr.ctx, t[1][0]), None)
                out.append(((fr.ctx, t[3], 0), s2, q2))
            else:
                s2.s.pop((fr.ctx, ("sv", bb)), None)
                out += self.finish(fr, bb, s2, q2, t, UNIT)
        return out

    def bind_impl(self, im, ty):
        env = {}

        def uni(a, b):
            if a.k == "param":
                env[a.path] = b
            elif a.k == b.k:
                for x, y in zip(a.args, b.args):
                    if isinstance(x, Ty) and isinstance(y, Ty):
                        uni(x, y)
        uni(im["self_ty"], ty)
        return env

    # ---------------------------------------------------------- calls
    def finish(self, fr, bb, st, q, t, val):
        if t["to"] is None:
            return []
        if t["dest"]:
            self.write(st, fr, t["dest"], val)
        return [((fr.ctx, t["to"], 0), st, q)]

    def resolve_callee(self, fr, t):
        """(path, body or None, env, trait path or None, self type)"""
        c = t["callee"]
        cr = fr.body.crate
        if c is None:
            return None
        args = [subst(cr.ty(a), fr.env) if not isinstance(a, str) else a for a in c["args"]]
        trait = c.get("trait")
        self_ty = next((a for a in args if isinstance(a, Ty)), None)
        path, rid = c["path"], None
        tpath = path if trait else None
        env = {}
        if "rid" in c and c.get("rk") != "virtual":
            path, rid = c["rpath"], c["rid"]
            b = self.p.bodies.get(rid)
            if b is not None:
                ra = [subst(cr.ty(a), fr.env) if not isinstance(a, str) else a for a in c["rargs"]]
                env = self.zipenv(b, ra)
            elif trait is not None and self_ty is not None and c["rpath"] == c["path"]:
                # provided method of a trait; nothing to specialise
                pass
        else:
            b = self.p.bodies.get(c["id"]) if trait is None else None
            if b is not None:
                env = self.zipenv(b, args)
            elif trait is not None and self_ty is not None and self_ty.k not in ("param", "dyn", "alias"):
                im = self.p.find_impl(trait, self_ty)
                if im is not None:
                    nm = c["path"].split("::")[-1]
                    for it in im["items"]:
                        if it["name"] == nm:
                            b = self.p.bodies.get(it["id"])
                            if b is not None:
                                env = self.bind_impl(im, self_ty)
                                path = b.path
        return path, b, env, tpath, self_ty, args

    @staticmethod
    def zipenv(b, args):
        tys = [a for a in args if isinstance(a, Ty)]
        g = [x for x in b.generics]
        if len(g) == len(args):
            return {n: a for n, a in zip(g, args) if isinstance(a, Ty) and n}
        if len(g) == len(tys):
            return {n: a for n, a in zip(g, tys) if n}
        return {n: a for n, a in zip(g, tys) if n}

    def call(self, fr, bb, st, q, t):
        cr = fr.body.crate
        raw = [self.operand(st, fr, a) for a in t["args"]]
        r = self.resolve_callee(fr, t)
        if r is None:
            f = self.operand(st, fr, t["f"])
            return self.invoke(fr, bb, st, q, t, f, raw, "fin")
        path, body, env, tpath, self_ty, targs = r
        if tpath and tpath.rsplit("::", 1)[0] in FN_TRAITS:
            f = self.peel(st, raw[0])
            tup = raw[1] if len(raw) > 1 else UNIT
            tup = self.peel(st, tup)
            n = list(tup.a[2]) if tup.tag == "agg" and tup.a[0] == "tuple" else [tup]
            return self.invoke(fr, bb, st, q, t, f, n, "fin", raw[0])
        return self.dispatch(fr, bb, st, q, t, path, body, env, tpath, self_ty, raw, targs, "fin")

    def invoke(self, fr, bb, st, q, t, f, args, stage, selfraw=None, kind="call"):
        """call a function value; result goes to (fr,bb,stage) through ('rv',bb)"""
        if f.tag == "clo":
            b = self.p.bodies.get(f.a[0])
            if b is not None and b.id not in fr.ids and fr.depth < 40:
                nf = self.frame(fr.ctx, bb, stage, b, self.envs[f.a[1]], kind)
                # a closure taken by reference mutates its own captures in place
                byref = b.local_ty(1).k == "ref"
                if byref and selfraw is not None and selfraw.tag == "ref":
                    st.s[(nf.ctx, 1)] = selfraw
                elif byref:
                    st.s[(fr.ctx, ("clo", bb))] = f
                    st.s[(nf.ctx, 1)] = mk("ref", (fr.ctx, ("clo", bb)), ())
                else:
                    st.s[(nf.ctx, 1)] = f
                for i, a in enumerate(args):
                    st.s[(nf.ctx, 2 + i)] = a
                ev = Ev("call", path=b.path, args=[self.peel(st, a) for a in args], raw=args, fr=fr, bb=bb, sp=self.term_line(t), inl=True)
                return [((nf.ctx, 0, 0), st if i == 0 else st.copy(), q2) for i, q2 in enumerate(self.emit(q, ev, st))]
            st.s[(fr.ctx, ("rv", bb))] = mk("call", fr.ctx, bb, "rec")
            return [((fr.ctx, bb, stage), st, q)]
        if f.tag == "fn":
            path, fid, fargs = f.a
            ctor = self.ctor(path, args)
            if ctor is not None:
                st.s[(fr.ctx, ("rv", bb))] = ctor
                return [((fr.ctx, bb, stage), st, q)]
            b = self.p.bodies.get(fid)
            env = self.zipenv(b, fargs) if b is not None else {}
            self_ty = fargs[0] if fargs and isinstance(fargs[0], Ty) else None
            trait = None
            return self.dispatch(fr, bb, st, q, t, path, b, env, trait, self_ty, args, list(fargs), stage)
        # unknown callable (parameter, dyn, stored callback)
        tok = mk("call", fr.ctx, bb, "cb") if stage != "fin" else mk("call", fr.ctx, bb)
        st, q = self.fresh(st, q, tok)
        ev = Ev("callback", val=f, args=[self.peel(st, a) for a in args], raw=args, res=tok, fr=fr, bb=bb, sp=self.term_line(t))
        self.callpath[tok] = "<callback>"
        out = []
        if self.auto.unwind:
            pq = self.emit(q, Ev("maypanic", path="<callback>", val=f, args=[self.peel(st, a) for a in args], fr=fr, bb=bb, sp=self.term_line(t)), st)
            for q2 in pq:
                out += self.unwind_to(fr, bb, t["uw"] if isinstance(t, dict) else None, st.copy(), q2)
        for q2 in self.emit(q, ev, st):
            s2 = st.copy()
            s2.s[(fr.ctx, ("rv", bb))] = tok
            out.append(((fr.ctx, bb, stage), s2, q2))
        return out

    def ctor(self, path, args):
        head, _, last = path.rpartition("::")
        a = self.p.adts.get(head)
        if a:
            for v in a["variants"]:
                if v["name"] == last and len(v["fields"]) == len(args):
                    return AGG(head, last, args, [f["name"] for f in v["fields"]])
        if head in (OPT, RES) and last in ("Some", "Ok", "Err"):
            return AGG(head, last, args)
        a = self.p.adts.get(path)
        if a and a["kind"] == "struct":
            return AGG(path, a["variants"][0]["name"], args, [f["name"] for f in a["variants"][0]["fields"]])
        return None

    def resume(self, fr, bb, stage, st, q, t):
        rv = st.s.pop((fr.ctx, ("rv", bb)), UNIT)
        if stage == "fin":
            st.s.pop((fr.ctx, ("clo", bb)), None)
            return self.finish(fr, bb, st, q, t, rv)
        if stage == "caught":
            return [r for q2 in self.emit(q, Ev("caught", val=rv, fr=fr, bb=bb, sp=t["sp"]), st)
                    for r in self.finish(fr, bb, st.copy(), q2, t, Err(rv))]
        if stage == "wrapok":
            return self.finish(fr, bb, st, q, t, Ok(rv))
        if stage == "scope":
            out = []
            for q2 in self.emit(q, Ev("scope_end", val=rv, fr=fr, bb=bb, sp=t["sp"]), st):
                out += self.finish(fr, bb, st.copy(), q2, t, rv)
            return out
        if stage[0] == "wrap":
            return self.finish(fr, bb, st, q, t, AGG(stage[1], stage[2], (rv,)))
        if stage[0] == "drop":
            return self.drop(fr, bb, st, q, t, stage[1])
        if stage[0] == "pl":
            return self.piped(fr, bb, st, q, t, stage[1], stage[2], rv)
        if stage[0] == "itr":
            return self.consumed(fr, bb, st, q, t, stage[1], rv)
        if stage[0] == "again":
            return self.pull(fr, bb, st, q, t, stage[1])
        if stage[0] == "hof":
            sv = st.s.get((fr.ctx, ("sv", bb)))
            if sv is not None and rv is not UNIT:
                self.deriv[sv.a[2][0]].add(rv)
            return self.hof(fr, bb, st, q, t)
        if stage[0] == "keep":   # result is the saved value
            v = st.s.pop((fr.ctx, ("sv", bb)), UNIT)
            return self.finish(fr, bb, st, q, t, v)
        if stage[0] == "goi":    # initialise the saved option
            loc, v = self.deref(st, st.s.pop((fr.ctx, ("sv", bb)), UNIT))
            return self.stored(fr, bb, st, q, t, loc, v, Some(rv))
        if stage[0] == "filter":
            v = st.s.pop((fr.ctx, ("sv", bb)), UNIT)
            out = []
            for s2, q2 in self.learn(st, q, rv, 1, fr, bb, t["sp"]):
                out += self.finish(fr, bb, s2.copy(), q2, t, Some(v))
            for s2, q2 in self.learn(st, q, rv, 0, fr, bb, t["sp"]):
                out += self.finish(fr, bb, s2.copy(), q2, t, NONE)
            return out
        raise AssertionError(stage)

    def trait_name(self, path, tpath):
        if tpath:
            return tpath
        # <X as Trait>::m
        if path.startswith("<") and " as " in path:
            tr, m = path[1:].rsplit(">::", 1)
            return tr.rsplit(" as ", 1)[1] + "::" + m
        return path

    def dispatch(self, fr, bb, st, q, t, path, body, env, tpath, self_ty, raw, targs, stage):
        """call with a known callee; `stage` receives the result via ('rv',bb)"""
        name = self.trait_name(path, tpath)
        sp = self.term_line(t)

        def done(v, s=None, qq=None):
            s, qq = (st if s is None else s), (q if qq is None else qq)
            if stage == "fin" and isinstance(t, dict):
                return self.finish(fr, bb, s, qq, t, v)
            s.s[(fr.ctx, ("rv", bb))] = v
            return [((fr.ctx, bb, stage), s, qq)]

        local = body is not None and not body.derived and body.id not in self.no_inline
        m = None
        if not local or name in IDENT and not name.endswith(("AsRef::as_ref", "AsMut::as_mut", "Deref::deref", "DerefMut::deref_mut")):
            m = self.model(name, path, fr, bb, st, q, t, raw, targs, stage, done, self_ty, local)
        if m is not None:
            return m
        if local and body.id not in fr.ids and fr.depth < 40 and body.kind == "fn":
            nf = self.frame(fr.ctx, bb, stage, body, env, "call")
            ev = Ev("call", path=path, name=name, args=[self.peel(st, a) for a in raw], raw=raw, fr=fr, bb=bb, sp=sp, inl=True, callee=body)
            for i, a in enumerate(raw):
                st.s[(nf.ctx, 1 + i)] = a
            return [((nf.ctx, 0, 0), st if i == 0 else st.copy(), q2) for i, q2 in enumerate(self.emit(q, ev, st))]
        return self.extern(fr, bb, st, q, t, path, name, raw, targs, stage, body)

    def closures_in(self, st, v, d=0):
        if d > 4:
            return []
        if v.tag in ("clo",):
            return [v]
        if v.tag == "ref":
            return self.closures_in(st, self.peel(st, v), d + 1)
        if v.tag == "lazy":
            return [c for x in v.a[2] for c in self.closures_in(st, x, d + 1)]
        if v.tag == "agg" and v.a[0] in ("tuple", "array", OPT, RES):
            return [c for x in v.a[2] for c in self.closures_in(st, x, d + 1)]
        if v.tag == "fn" and v.a[1] in self.p.bodies:
            return [v]
        return []

    def dest_ty(self, fr, t):
        if not isinstance(t, dict) or not t["dest"] or len(t["dest"]) != 1:
            return None
        return subst(fr.body.local_ty(t["dest"][0]), fr.env)

    def extern(self, fr, bb, st, q, t, path, name, raw, targs, stage, body=None):
        sp = self.term_line(t)
        self.externs[path] += 1
        clos = [c for a in raw for c in self.closures_in(st, a)]
        dt = self.dest_ty(fr, t) if stage == "fin" else None
        tok = mk("call", fr.ctx, bb) if stage == "fin" else mk("call", fr.ctx, bb, str(stage))
        st, q = self.fresh(st, q, tok)
        args = [self.peel(st, a) for a in raw]
        self.callpath[tok] = path
        self.deriv[tok] |= set(args)
        ev = Ev("call", path=path, name=name, args=args, raw=raw, res=tok, fr=fr, bb=bb, sp=sp, extra=targs, inl=False, callee=body)
        div = isinstance(t, dict) and t["to"] is None
        out = []
        if self.auto.unwind and isinstance(t, dict) and not NOPANIC.match(path):
            for q2 in self.emit(q, Ev("maypanic", path=path, name=name, args=args, fr=fr, bb=bb, sp=sp, extra=div), st):
                out += self.unwind_to(fr, bb, t["uw"], st.copy(), q2)
        if div:
            self.emit(q, ev, st)
            if not self.auto.unwind:
                self.emit(q, Ev("panic", path=path, fr=fr, bb=bb, sp=sp), st)
            return out
        for q2 in self.emit(q, ev, st):
            s2 = st.copy()
            self.havoc(fr, s2, t, raw, tok)
            if path in SPAWN:
                for c in clos:
                    recs = self.spawned.setdefault(c.a[0], [])
                    if not any(r[0] is c and self.leq(s2, r[3]) for r in recs):
                        recs.append((c, fr, sp, s2.copy()))
                        if len(recs) > 6:
                            recs[:] = self.merge_spawns(recs)
                    for q3 in self.emit(q2, Ev("spawn", val=c, fr=fr, bb=bb, sp=sp, res=tok), s2):
                        q2 = q3
                out += self._ret(fr, bb, s2, q2, t, stage, tok)
                continue
            lazy = clos and dt is not None and any(x.k in ("closure", "fndef") for x in dt.walk())
            if lazy:
                out += self._ret(fr, bb, s2, q2, t, stage, mk("lazy", fr.ctx, bb, tuple(raw)) if False else mk("lazy", (fr.ctx, bb), path, tuple(raw)))
                continue
            if clos and stage == "fin" and isinstance(t, dict) and APPLY.match(path) and len(clos) == 1:
                # looks something up and applies the closure to it: Option::map
                out += self.optres(OPT, "map", fr, bb, s2, q2, t, [tok, self.peel(st, raw[-1])], stage,
                                   lambda v, s3=None, q3=None: self.finish(fr, bb, s3 or s2, q2 if s3 is None else q3, t, v), sp)
                continue
            if clos and stage == "fin":
                s2.s[(fr.ctx, ("sv", bb))] = AGG("tuple", None, (tok,) + tuple(clos))
                s2.s[(fr.ctx, ("rv", bb))] = UNIT
                out.append(((fr.ctx, bb, ("hof",)), s2, q2))
                continue
            out += self._ret(fr, bb, s2, q2, t, stage, tok)
        return out

    def _ret(self, fr, bb, st, q, t, stage, v):
        if stage == "fin" and isinstance(t, dict):
            return self.finish(fr, bb, st, q, t, v)
        st.s[(fr.ctx, ("rv", bb))] = v
        return [((fr.ctx, bb, stage), st, q)]

    def stored(self, fr, bb, st, q, t, loc, old, new):
        """an option was set to Some: the call returns a reference to its content"""
        out = []
        for q2 in self.emit(q, Ev("assign", val=new, extra=(loc, old), fr=fr, bb=bb, sp=t["sp"]), st):
            s2 = st.copy()
            self.store_loc(s2, loc, new)
            out += self.finish(fr, bb, s2, q2, t, mk("ref", loc[0], loc[1] + (("v", "Some"), ("f", "0"))))
        return out

    def havoc(self, fr, st, t, raw, tok):
        if not isinstance(t, dict):
            return
        for i, (o, a) in enumerate(zip(t["args"], raw)):
            if a.tag != "ref" or o[0] == "c":
                continue
            ty = fr.body.local_ty(o[1][0]) if len(o[1]) == 1 else None
            if ty is None or ty.k not in ("ref", "ptr") or (ty.k == "ref" and not ty.mut):
                continue
            loc = (a.a[0], a.a[1])
            v = self.load_loc(st, loc)
            if v.tag in ("k", "op", "not", "isv", "undef") or (v.tag == "agg" and v.a[0] in (OPT, RES, "tuple")):
                n = mk("call", fr.ctx, tok.a[1], f"m{i}")
                self.deriv[n] |= {v, tok}
                self.store_loc(st, loc, n)
            else:
                st.f.pop(v, None)

    def hof(self, fr, bb, st, q, t):
        """an opaque callee may run the closures it was given any number of times"""
        sv = st.s.get((fr.ctx, ("sv", bb)))
        tok, clos = sv.a[2][0], sv.a[2][1:]
        out = []
        s2 = st.copy()
        s2.s.pop((fr.ctx, ("sv", bb)))
        for k in [k for k in s2.s if k[0] == fr.ctx and isinstance(k[1], tuple) and k[1][0] == "hofclo" and k[1][1] == bb]:
            del s2.s[k]
        out += self.finish(fr, bb, s2, q, t, tok)
        for i, c in enumerate(clos):
            s3 = st.copy()
            if c.tag == "fn":
                b = self.p.bodies.get(c.a[1])
                n = b.argc
                args = [mk("cbarg", fr.ctx, bb, i, j) for j in range(n)]
                out += self.invoke(fr, bb, s3, q, t, c, args, ("hof", i))
                continue
            b = self.p.bodies.get(c.a[0])
            if b is None:
                continue
            args = []
            for j in range(b.argc - 1):
                a = mk("cbarg", fr.ctx, bb, i, j)
                s3, q = self.fresh(s3, q, a)
                args.append(a)
                self.deriv[a] |= self.deriv[tok]
            slot = (fr.ctx, ("hofclo", bb, i))
            if slot not in s3.s:
                s3.s[slot] = c
            out += self.invoke(fr, bb, s3, q, t, s3.s[slot], args, ("hof", i), mk("ref", slot, ()))
        return out

    # ---------------------------------------------------------- models
    def model(self, name, path, fr, bb, st, q, t, raw, targs, stage, done, self_ty, local):
        sp = self.term_line(t)
        short = name.rsplit("::", 1)[1] if "::" in name else name
        if name in IDENT or path in IDENT:
            v = raw[0]
            if short in ("clone", "to_owned"):
                return done(self.peel(st, v))
            if name.endswith("Option::as_ref"):
                return None
            return done(v)
        if name == "core::num::nonzero::NonZero::get" or name in CONV or (short == "from" and name == "core::convert::From::from"):
            ts = [x for x in targs if isinstance(x, Ty)]
            if len(ts) == 2 and ts[0].key() == ts[1].key() and ts[0].k in ("adt", "int", "uint", "prim"):
                return done(raw[0])
            return done(mk("conv", self.peel(st, raw[0]), short) if raw[0].tag != "conv" else raw[0])
        if name in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne"):
            a, b = self.peel(st, self.peel(st, raw[0])), self.peel(st, self.peel(st, raw[1]))
            r = None
            for x, y in ((a, b), (b, a)):
                if x.tag == "agg" and x.a[1] is not None and not x.a[2] and self.p.variants(x.a[0]):
                    var = self.variant(st, y)
                    r = K(int(var == x.a[1])) if var is not None else mk("isv", y, x.a[1], x.a[0])
                    break
            if r is None:
                r = compare("Eq", a, b)
            return done(Not(r) if short == "ne" else r)
        if name in ("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge"):
            a, b = self.peel(st, self.peel(st, raw[0])), self.peel(st, self.peel(st, raw[1]))
            return done(compare(short.capitalize(), a, b))
        if name == "core::ops::bit::Not::not":
            return done(Not(self.peel(st, raw[0])))
        if name == "core::ops::try_trait::Try::branch":
            adt = RES if "Result" in (self_ty.path if self_ty is not None and self_ty.path else path) else OPT
            if self_ty is not None and self_ty.path and "ControlFlow" in self_ty.path:
                return None
            out = []
            for n, pay, s2, q2 in self.split(st, q, raw[0], adt, fr, bb, sp):
                if n in ("Ok", "Some"):
                    v = AGG("core::ops::control_flow::ControlFlow", "Continue", (pay,))
                else:
                    v = AGG("core::ops::control_flow::ControlFlow", "Break", (Err(pay) if n == "Err" else NONE,))
                out += done(v, s2.copy(), q2)
            return out
        if name == "core::ops::try_trait::Try::from_output":
            adt = RES if "Result" in path else OPT
            return done(AGG(adt, "Ok" if adt == RES else "Some", (raw[0],)))
        if name == "core::ops::try_trait::FromResidual::from_residual":
            v = raw[0]
            if v.tag == "agg" and v.a[0] == RES and v.a[1] == "Err":
                ts = [x.args[1] for x in targs if isinstance(x, Ty) and x.path == RES and len(x.args) == 2]
                same = len(ts) == 2 and isinstance(ts[0], Ty) and isinstance(ts[1], Ty) and ts[0].key() == ts[1].key()
                return done(v if same else Err(mk("conv", v.a[2][0], "from") if v.a[2][0].tag != "conv" else v.a[2][0]))
            return done(v)
        if name in ("core::mem::drop", "core::mem::forget"):
            st.s[(fr.ctx, ("sv", bb))] = raw[0]
            if name.endswith("drop") and stage == "fin":
                return self.drop(fr, bb, st, q, t, 0)
            return done(UNIT)
        if name in ("core::mem::take", "core::mem::replace", "core::option::Option::take", "core::option::Option::replace",
                    "core::option::Option::insert"):
            loc, v = self.deref(st, raw[0])
            isopt = bool(targs) and isinstance(targs[0], Ty) and targs[0].path == OPT
            new = NONE if path.endswith("Option::take") or len(raw) == 1 and isopt else (raw[1] if len(raw) > 1 else mk("call", fr.ctx, bb, "default"))
            if path.endswith("Option::replace") or path.endswith("Option::insert"):
                new = Some(new)
            s2 = st.copy()
            for q2 in self.emit(q, Ev("assign", val=new, extra=(loc, v), fr=fr, bb=bb, sp=sp), s2):
                q = q2
            self.store_loc(s2, loc, new)
            return done(mk("ref", loc[0], loc[1] + (("v", "Some"), ("f", "0"))) if path.endswith("Option::insert") else v, s2, q)
        if name in ("core::option::Option::get_or_insert", "core::option::Option::get_or_insert_with") and stage == "fin":
            loc, v = self.deref(st, raw[0])
            out = []
            for n, pay, s2, q2 in self.split(st, q, v, OPT, fr, bb, sp):
                s2 = s2.copy()
                if n == "Some":
                    out += done(mk("ref", loc[0], loc[1] + (("v", "Some"), ("f", "0"))), s2, q2)
                elif name.endswith("with"):
                    s2.s[(fr.ctx, ("sv", bb))] = raw[0]
                    out += self.invoke(fr, bb, s2, q2, t, self.peel(st, raw[1]), [], ("goi",))
                else:
                    out += self.stored(fr, bb, s2, q2, t, loc, v, Some(raw[1]))
            return out
        if name == "core::mem::swap":
            l1, v1 = self.deref(st, raw[0])
            l2, v2 = self.deref(st, raw[1])
            self.store_loc(st, l1, v2)
            self.store_loc(st, l2, v1)
            return done(UNIT)
        if path in ("std::panic::catch_unwind", "std::panicking::catch_unwind"):
            f = self.peel(st, raw[0])
            out = []
            if f.tag == "agg" and f.a[2]:
                f = f.a[2][0]
            if f.tag == "clo":
                s2 = st.copy()
                out += self.invoke(fr, bb, s2, q, t, f, [], "wrapok", kind="catch")
                if not self.auto.unwind and getattr(self.auto, "catch_fork", True):
                    tok = mk("panic", fr.ctx, bb)
                    for q2 in self.emit(q, Ev("caught", val=tok, fr=fr, bb=bb, sp=sp), st):
                        out += done(Err(tok), st.copy(), q2)
                return out
            return None
        if path == "std::thread::scoped::scope":
            f = self.peel(st, raw[0])
            if f.tag == "clo":
                return self.invoke(fr, bb, st, q, t, f, [mk("call", fr.ctx, bb, "scope")], "scope")
            return None
        if short in ("then", "then_some") and path.startswith("bool::"):
            out = []
            for s2, q2 in self.learn(st, q, raw[0], 1, fr, bb, sp):
                if short == "then_some":
                    out += done(Some(raw[1]), s2.copy(), q2)
                elif stage == "fin":
                    out += self.invoke(fr, bb, s2.copy(), q2, t, self.peel(st, raw[1]), [], ("wrap", OPT, "Some"))
                else:
                    return None
            for s2, q2 in self.learn(st, q, raw[0], 0, fr, bb, sp):
                out += done(NONE, s2.copy(), q2)
            return out
        for adt in (OPT, RES):
            if path.startswith(adt + "::"):
                return self.optres(adt, path[len(adt) + 2:], fr, bb, st, q, t, raw, stage, done, sp)
        if name.startswith(ITER) and stage == "fin" and isinstance(t, dict) and short in CONSUME:
            it = self.peel(st, raw[0])
            pipe = self.pipeline(st, it)
            if short == "next":
                if pipe is None or not pipe[1]:
                    return None
            elif short == "collect":
                dt = self.dest_ty(fr, t)
                if pipe is None or not pipe[1] and (dt is None or dt.path not in (OPT, RES)):
                    return None
            elif pipe is None or not all(self.callable(st, a) for a in raw[1:] if a is not raw[0] and not (short in ("fold", "try_fold") and a is raw[1])):
                return None
            return self.consume(fr, bb, st, q, t, path, name, raw, targs, short, it)
        return None

    # ---------------------------------------------------------- iterators
    def callable(self, st, a):
        f = self.peel(st, a)
        return f.tag == "clo" or f.tag == "fn" and f.a[1] in self.p.bodies

    def pipeline(self, st, it):
        """(source, [(adapter, closure)]) of an iterator built from known adapters, None if an adapter with closures is not known"""
        ops = []
        while it.tag == "lazy":
            n = it.a[1].rsplit("::", 1)[-1]
            if n in ("repeat_with", "from_fn") and len(it.a[2]) == 1:
                ops.append((n, self.peel(st, it.a[2][0])))
                return it, ops[::-1]
            if n in ("map", "filter", "filter_map", "inspect", "enumerate", "fuse", "by_ref", "into_iter") and it.a[2]:
                ops.append((n, self.peel(st, it.a[2][1]) if len(it.a[2]) > 1 else None))
                if ops[-1][1] is not None and not self.callable(st, it.a[2][1]):
                    return None
                it = self.peel(st, it.a[2][0])
                continue
            return None
        return it, ops[::-1]

    def consume(self, fr, bb, st, q, t, path, name, raw, targs, short, it):
        """next() on a chain of adapters, and the consumers of which it is a loop"""
        sp = self.term_line(t)
        if short != "next":
            self.externs[path] += 1
            args = [self.peel(st, a) for a in raw]
            tok = mk("call", fr.ctx, bb)
            st, q = self.fresh(st, q, tok)
            self.callpath[tok] = path
            self.deriv[tok] |= set(args)
            qs = self.emit(q, Ev("call", path=path, name=name, args=args, raw=raw, res=tok, fr=fr, bb=bb, sp=sp, extra=targs, inl=False), st)
        else:
            qs = [q]
        out = []
        for q2 in qs:
            s2 = st.copy()
            c = fr.ctx
            s2.s[(c, ("itm", bb))] = it
            f = [self.peel(st, a) for a in raw[1:]]
            if short in ("fold", "try_fold"):
                s2.s[(c, ("acc", bb))] = raw[1]
                f = f[1:]
            if f:
                s2.s[(c, ("icl", bb))] = f[0]
            out += self.pull(fr, bb, s2, q2, t, short)
        return out

    def pull(self, fr, bb, st, q, t, short):
        src, ops = self.pipeline(st, st.s[(fr.ctx, ("itm", bb))])
        sp = self.term_line(t)
        if ops and ops[0][0] in ("repeat_with", "from_fn"):
            return self.invoke(fr, bb, st, q, t, ops[0][1], [], ("pl", 0, short))
        tok = mk("call", fr.ctx, bb, "src")
        st, q = self.fresh(st, q, tok)
        p = ITER + "next"
        self.callpath[tok] = p
        self.deriv[tok].add(src)
        out = []
        for q2 in self.emit(q, Ev("call", path=p, name=p, args=[src], raw=[src], res=tok, fr=fr, bb=bb, sp=sp, inl=False), st):
            for n, pay, s3, q3 in self.split(st.copy(), q2, tok, OPT, fr, bb, sp):
                if n == "None":
                    out += self.itend(fr, bb, s3.copy(), q3, t, short, None)
                else:
                    out += self.pipe(fr, bb, s3.copy(), q3, t, short, ops, 0, pay)
        return out

    def pipe(self, fr, bb, st, q, t, short, ops, i, x):
        """item x enters adapter i"""
        c = fr.ctx
        while i < len(ops):
            n, f = ops[i]
            if n == "enumerate":
                tok = mk("call", c, bb, "idx")
                st, q = self.fresh(st, q, tok)
                x = AGG("tuple", None, (tok, x))
            elif n in ("map", "filter", "filter_map", "inspect"):
                st.s[(c, ("cur", bb))] = x
                a = x if n in ("map", "filter_map") else mk("ref", (c, ("cur", bb)), ())
                return self.invoke(fr, bb, st, q, t, f, [a], ("pl", i, short))
            i += 1
        return self.item(fr, bb, st, q, t, short, x)

    def piped(self, fr, bb, st, q, t, i, short, rv):
        """adapter i produced rv"""
        src, ops = self.pipeline(st, st.s[(fr.ctx, ("itm", bb))])
        cur = st.s.pop((fr.ctx, ("cur", bb)), None)
        n = ops[i][0]
        sp = self.term_line(t)
        out = []
        if n in ("map", "repeat_with"):
            return self.pipe(fr, bb, st, q, t, short, ops, i + 1, rv)
        if n == "inspect":
            return self.pipe(fr, bb, st, q, t, short, ops, i + 1, cur)
        if n in ("filter_map", "from_fn"):
            for v, pay, s2, q2 in self.split(st, q, rv, OPT, fr, bb, sp):
                if v == "Some":
                    out += self.pipe(fr, bb, s2.copy(), q2, t, short, ops, i + 1, pay)
                elif n == "from_fn":
                    out += self.itend(fr, bb, s2.copy(), q2, t, short, None)
                else:
                    out += self.again(fr, bb, s2.copy(), q2, t, short)
            return out
        for s2, q2 in self.learn(st, q, rv, 1, fr, bb, sp):
            out += self.pipe(fr, bb, s2.copy(), q2, t, short, ops, i + 1, cur)
        for s2, q2 in self.learn(st, q, rv, 0, fr, bb, sp):
            out += self.again(fr, bb, s2.copy(), q2, t, short)
        return out

    def again(self, fr, bb, st, q, t, short):
        st.s[(fr.ctx, ("rv", bb))] = UNIT
        return [((fr.ctx, bb, ("again", short)), st, q)]

    def item(self, fr, bb, st, q, t, short, x):
        """an item reaches the consumer"""
        c = fr.ctx
        out = []
        if short == "next":
            return self.itend(fr, bb, st, q, t, short, Some(x))
        if short == "collect":
            adt = getattr(self.dest_ty(fr, t), "path", None)
            tok = mk("call", c, bb)
            for v, pay, s2, q2 in (self.split(st, q, x, adt, fr, bb, self.term_line(t)) if adt in (OPT, RES) else [("Ok", x, st, q)]):
                if v in ("Ok", "Some"):
                    self.deriv[tok].add(pay)
                    for q3 in self.emit(q2, Ev("collected", val=pay, res=tok, fr=fr, bb=bb, sp=self.term_line(t)), s2):
                        out += self.again(fr, bb, s2.copy(), q3, t, short)
                else:
                    out += self.itend(fr, bb, s2.copy(), q2, t, short, NONE if v == "None" else Err(pay))
            return out
        f = st.s[(c, ("icl", bb))]
        st.s[(c, ("cur", bb))] = x
        a = [mk("ref", (c, ("cur", bb)), ())] if short == "find" else [x]
        if short in ("fold", "try_fold"):
            a = [st.s[(c, ("acc", bb))]] + a
        slot = (c, ("icl", bb))
        return self.invoke(fr, bb, st, q, t, f, a, ("itr", short), mk("ref", slot, ()))

    def consumed(self, fr, bb, st, q, t, short, rv):
        """the consumer's closure returned rv"""
        c = fr.ctx
        cur = st.s.pop((c, ("cur", bb)), None)
        sp = self.term_line(t)
        out = []
        if short == "for_each":
            return self.again(fr, bb, st, q, t, short)
        if short == "fold":
            st.s[(c, ("acc", bb))] = rv
            return self.again(fr, bb, st, q, t, short)
        if short in ("any", "all", "find", "position"):
            hit = 0 if short == "all" else 1
            for s2, q2 in self.learn(st, q, rv, hit, fr, bb, sp):
                v = {"any": TRUE, "all": FALSE, "find": Some(cur)}.get(short) or Some(mk("call", c, bb, "pos"))
                out += self.itend(fr, bb, s2.copy(), q2, t, short, v)
            for s2, q2 in self.learn(st, q, rv, 1 - hit, fr, bb, sp):
                out += self.again(fr, bb, s2.copy(), q2, t, short)
            return out
        if short == "find_map":
            for v, pay, s2, q2 in self.split(st, q, rv, OPT, fr, bb, sp):
                out += self.itend(fr, bb, s2.copy(), q2, t, short, Some(pay)) if v == "Some" else self.again(fr, bb, s2.copy(), q2, t, short)
            return out
        adt = self.try_ty(fr, t)     # try_for_each, try_fold
        for v, pay, s2, q2 in self.split(st, q, rv, adt, fr, bb, sp):
            if v in ("Some", "Ok", "Continue"):
                s2 = s2.copy()
                if short == "try_fold":
                    s2.s[(c, ("acc", bb))] = pay
                out += self.again(fr, bb, s2, q2, t, short)
            else:
                out += self.itend(fr, bb, s2.copy(), q2, t, short, NONE if v == "None" else AGG(adt, v, (pay,)))
        return out

    def try_ty(self, fr, t):
        dt = self.dest_ty(fr, t)
        return dt.path if dt is not None and dt.path in VARIANTS else RES

    def itend(self, fr, bb, st, q, t, short, v):
        """the consumer is done, with result v or because the items are exhausted"""
        c = fr.ctx
        acc = st.s.get((c, ("acc", bb)))
        for k in ("itm", "icl", "cur", "acc"):
            st.s.pop((c, (k, bb)), None)
        if v is None:
            good = {OPT: "Some", RES: "Ok"}.get(self.try_ty(fr, t), "Continue")
            v = {"next": NONE, "any": FALSE, "all": TRUE, "find": NONE, "find_map": NONE, "position": NONE, "for_each": UNIT, "fold": acc}.get(short)
            if short == "collect":
                adt = getattr(self.dest_ty(fr, t), "path", None)
                v = mk("call", c, bb)
                v = AGG(adt, "Ok" if adt == RES else "Some", (v,)) if adt in (OPT, RES) else v
            if v is None:
                v = AGG(self.try_ty(fr, t), good, (acc if short == "try_fold" else UNIT,))
        return self.finish(fr, bb, st, q, t, v)

    def optres(self, adt, m, fr, bb, st, q, t, raw, stage, done, sp):
        good, bad = ("Some", "None") if adt == OPT else ("Ok", "Err")
        v0 = raw[0]
        v = self.peel(st, v0)
        tests = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}
        if m in tests:
            var = self.variant(st, v)
            return done(K(int(var == tests[m])) if var is not None else mk("isv", v, tests[m], adt))
        if m in ("as_ref", "as_deref", "cloned", "copied", "as_deref_mut", "as_slice"):
            return done(v)
        if m == "as_mut":
            if v.tag == "agg" and v.a[1] == good and v0.tag == "ref":
                return done(AGG(adt, good, (mk("ref", v0.a[0], v0.a[1] + (("v", good), ("f", "0"))),)))
            return done(v)
        if stage != "fin":
            return None

        def each():
            return self.split(st, q, v, adt, fr, bb, sp)
        f = [self.peel(st, a) for a in raw[1:]]
        out = []

        def inv(fn, args, s, qq, stg):
            return self.invoke(fr, bb, s.copy(), qq, t, fn, args, stg)
        if m in ("unwrap", "expect", "unwrap_err", "expect_err"):
            want = good if not m.endswith("_err") else bad
            for n, pay, s2, q2 in each():
                if n == want:
                    out += done(pay, s2.copy(), q2)
                else:
                    out += self.panic(fr, bb, s2.copy(), q2, t["uw"], sp)
            return out
        if m in ("unwrap_or", "unwrap_or_default", "unwrap_or_else"):
            for n, pay, s2, q2 in each():
                if n == good:
                    out += done(pay, s2.copy(), q2)
                elif m == "unwrap_or":
                    out += done(raw[1], s2.copy(), q2)
                elif m == "unwrap_or_default":
                    out += done(mk("call", fr.ctx, bb, "default"), s2.copy(), q2)
                else:
                    out += inv(f[0], [pay] if adt == RES else [], s2, q2, "fin")
            return out
        if m == "map":
            for n, pay, s2, q2 in each():
                if n == good:
                    out += inv(f[0], [pay], s2, q2, ("wrap", adt, good))
                else:
                    out += done(NONE if adt == OPT else Err(pay), s2.copy(), q2)
            return out
        if m == "map_err":
            for n, pay, s2, q2 in each():
                if n == bad:
                    out += inv(f[0], [pay], s2, q2, ("wrap", adt, bad))
                else:
                    out += done(Ok(pay), s2.copy(), q2)
            return out
        if m == "and_then":
            for n, pay, s2, q2 in each():
                if n == good:
                    out += inv(f[0], [pay], s2, q2, "fin")
                else:
                    out += done(NONE if adt == OPT else Err(pay), s2.copy(), q2)
            return out
        if m == "or_else":
            for n, pay, s2, q2 in each():
                if n == good:
                    out += done(AGG(adt, good, (pay,)), s2.copy(), q2)
                else:
                    out += inv(f[0], [pay] if adt == RES else [], s2, q2, "fin")
            return out
        if m in ("map_or", "map_or_else"):
            for n, pay, s2, q2 in each():
                if n == good:
                    out += inv(f[1], [pay], s2, q2, "fin")
                elif m == "map_or":
                    out += done(raw[1], s2.copy(), q2)
                else:
                    out += inv(f[0], [pay] if adt == RES else [], s2, q2, "fin")
            return out
        if m in ("ok_or", "ok_or_else"):
            for n, pay, s2, q2 in each():
                if n == good:
                    out += done(Ok(pay), s2.copy(), q2)
                elif m == "ok_or":
                    out += done(Err(raw[1]), s2.copy(), q2)
                else:
                    out += inv(f[0], [], s2, q2, ("wrap", RES, "Err"))
            return out
        if m in ("ok", "err"):
            for n, pay, s2, q2 in each():
                out += done(Some(pay) if (n == "Ok") == (m == "ok") else NONE, s2.copy(), q2)
            return out
        if m in ("and", "or"):
            for n, pay, s2, q2 in each():
                keep = (n == good) == (m == "or")
                out += done((AGG(adt, n, (pay,)) if n != "None" else NONE) if keep else raw[1], s2.copy(), q2)
            return out
        if m == "transpose":
            other = RES if adt == OPT else OPT
            for n, pay, s2, q2 in each():
                if n != good:
                    out += done(Ok(NONE) if adt == OPT else Some(Err(pay)), s2.copy(), q2)
                    continue
                for n3, pay3, s3, q3 in self.split(s2, q2, self.peel(s2, pay), other, fr, bb, sp):
                    out += done({"Ok": lambda: Ok(Some(pay3)), "Err": lambda: Err(pay3), "Some": lambda: Some(Ok(pay3)), "None": lambda: NONE}[n3](), s3.copy(), q3)
            return out
        if m == "zip" and adt == OPT:
            for n, pay, s2, q2 in each():
                if n != good:
                    out += done(NONE, s2.copy(), q2)
                    continue
                for n3, pay3, s3, q3 in self.split(s2, q2, self.peel(s2, raw[1]), OPT, fr, bb, sp):
                    out += done(Some(AGG("tuple", None, (pay, pay3))) if n3 == good else NONE, s3.copy(), q3)
            return out
        if m == "flatten":
            for n, pay, s2, q2 in each():
                out += done(pay if n == good else (NONE if adt == OPT else Err(pay)), s2.copy(), q2)
            return out
        if m == "filter":
            for n, pay, s2, q2 in each():
                if n == good:
                    s2 = s2.copy()
                    s2.s[(fr.ctx, ("sv", bb))] = pay
                    out += inv(f[0], [pay], s2, q2, ("filter",))
                else:
                    out += done(NONE, s2.copy(), q2)
            return out
        if m in ("is_some_and", "is_ok_and", "is_none_or"):
            for n, pay, s2, q2 in each():
                if n == good:
                    out += inv(f[0], [pay], s2, q2, "fin")
                else:
                    out += done(K(int(m == "is_none_or")), s2.copy(), q2)
            return out
        if m in ("inspect", "inspect_err"):
            for n, pay, s2, q2 in each():
                w = AGG(adt, n, (pay,)) if n != "None" else NONE
                if (n == good) == (m == "inspect"):
                    s2 = s2.copy()
                    s2.s[(fr.ctx, ("sv", bb))] = w
                    out += inv(f[0], [pay], s2, q2, ("keep",))
                else:
                    out += done(w, s2.copy(), q2)
            return out
        return None

    # ---------------------------------------------------------- queries
    def derives(self, v, pred, limit=4000):
        """some value v was computed from satisfies pred (through opaque calls too)"""
        seen, st = set(), [v]
        while st and len(seen) < limit:
            x = st.pop()
            if isinstance(x, tuple):
                st.extend(x)
                continue
            if not isinstance(x, V) or x in seen:
                continue
            seen.add(x)
            if pred(x):
                return True
            st.extend(x.a)
            st.extend(self.deriv.get(x, ()))
        return False
