"""Program database: loads the MIR facts of every workspace crate and offers
resolved lookups (types, bodies, impls, call graph)."""
import json, os, glob, collections


class Ty:
    __slots__ = ("k", "path", "args", "id", "mut", "s", "upvars", "len", "_key")

    def __init__(self, k, path=None, args=(), id=None, mut=False, s="", upvars=(), len=None):
        self.k, self.path, self.args, self.id, self.mut, self.s, self.upvars, self.len = k, path, args, id, mut, s, upvars, len
        self._key = None

    def key(self):
        if self._key is None:
            self._key = (self.k, self.path or (self.s if self.k in ("prim", "alias", "fnptr") else None), self.id, self.mut,
                         tuple(a.key() if isinstance(a, Ty) else a for a in self.args))
        return self._key

    def __repr__(self):
        a = ",".join(repr(x) for x in self.args)
        if self.k == "adt":
            return self.path + (f"<{a}>" if a else "")
        if self.k == "ref":
            return "&" + ("mut " if self.mut else "") + a
        if self.k == "param":
            return "$" + self.path
        if self.k in ("closure", "fndef"):
            return f"{self.k}[{self.path}]"
        if self.k == "tuple":
            return f"({a})"
        if self.k == "slice":
            return f"[{a}]"
        if self.k == "array":
            return f"[{a};{self.len}]"
        if self.k == "dyn":
            return "dyn " + self.path
        return self.s

    def peel(self):
        t = self
        while t.k in ("ref", "ptr") and t.args:
            t = t.args[0]
        return t

    def walk(self, seen=None):
        seen = set() if seen is None else seen
        if id(self) in seen:
            return
        seen.add(id(self))
        yield self
        for a in self.args:
            if isinstance(a, Ty):
                yield from a.walk(seen)


def subst(t, env):
    if not env or not isinstance(t, Ty):
        return t
    if t.k == "param":
        return env.get(t.path, t)
    if t.k == "alias":
        return t
    if not t.args:
        return t
    n = tuple(subst(a, env) for a in t.args)
    if all(a is b for a, b in zip(n, t.args)):
        return t
    return Ty(t.k, t.path, n, t.id, t.mut, t.s, t.upvars, t.len)


class Body:
    def __init__(self, crate, j):
        self.crate = crate
        self.j = j
        self.id = j["id"]
        self.path = j["path"] if j["path"].startswith(crate.name) or j["path"].startswith("<") else j["path"]
        self.kind = j["kind"]
        self.argc = j["argc"]
        self.blocks = j["blocks"]
        self.generics = j["generics"]
        self.parent = j["parent"]
        self.trait_item = j["trait_item"]
        self.file, self.line = j["span"]
        self.vis = j["vis"]
        self.derived = j["derived"]
        self.upvars = {int(i): n for i, n in j["upvars"]}

    # -- liveness of locals at block entry (locals whose address is taken always count as live)
    def live(self):
        lv = getattr(self, "_live", None)
        if lv is not None:
            return lv
        borrowed, gen, kill, succ = set(), [], [], []

        def indices(pl, acc):
            acc.update(y[1] for y in pl[1:] if isinstance(y, list) and y[0] == "i")

        def uses(x, acc):
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ("mv", "cp"):
                    acc.add(x[1][0])
                    indices(x[1], acc)
                else:
                    for y in x:
                        if isinstance(y, list):
                            uses(y, acc)
        for b in self.blocks:
            g, k = set(), set()

            def use(l):
                if l not in k:
                    g.add(l)
            for st in b["s"]:
                if st[0] == "=":
                    acc = set()
                    r = st[2]
                    if r[0] in ("ref", "fakeref", "rawptr"):
                        pl = r[-1]
                        acc.add(pl[0])
                        indices(pl, acc)
                        if len(pl) == 1 or pl[1] != "*":
                            borrowed.add(pl[0])
                    elif r[0] in ("use", "cast", "bin", "un", "agg", "repeat"):
                        uses(r, acc)
                    elif r[0] == "discr":
                        acc.add(r[1][0])
                    else:
                        stk = [r]
                        while stk:
                            y = stk.pop()
                            if isinstance(y, list):
                                if y and isinstance(y[0], int):
                                    acc.add(y[0])
                                stk.extend(y)
                    indices(st[1], acc)
                    for l in acc:
                        use(l)
                    if len(st[1]) == 1:
                        k.add(st[1][0])
                    else:
                        use(st[1][0])
                elif st[0] == "setd":
                    use(st[1][0])
            t = b["t"]
            acc, sc = set(), []
            dest = None
            if isinstance(t, dict):
                uses(t["args"], acc)
                uses([t.get("f")], acc)
                dest = t["dest"]
                if dest and len(dest) > 1:
                    acc.add(dest[0])
                sc = [x for x in (t["to"], t["uw"]) if x is not None]
            elif t[0] == "goto":
                sc = [t[1]]
            elif t[0] == "switch":
                uses([t[1]], acc)
                sc = [x for _, x in t[2]] + [t[3]]
            elif t[0] == "ret":
                acc.add(0)
            elif t[0] == "drop":
                acc.add(t[1][0])
                sc = [x for x in (t[3], t[4]) if x is not None]
            elif t[0] == "assert":
                uses(t[1:5], acc)
                sc = [x for x in (t[5], t[6]) if x is not None]
            else:
                sc = [x for x in t[1:] if isinstance(x, int)]
            for l in acc:
                use(l)
            gen.append(g)
            kill.append(k)
            succ.append(sc)
        n = len(self.blocks)
        lin = [set(g) for g in gen]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for j in succ[i]:
                    if isinstance(j, int) and j < n:
                        o |= lin[j]
                v = gen[i] | (o - kill[i])
                if v != lin[i]:
                    lin[i] = v
                    ch = True
        self._live = [frozenset(x | borrowed) for x in lin]
        return self._live

    def local_ty(self, i):
        return self.crate.ty(self.j["locals"][i]["ty"])

    def local_name(self, i):
        return self.j["locals"][i].get("name")

    def calls(self, cleanup=False):
        """(bb index, terminator) of every call"""
        for i, b in enumerate(self.blocks):
            if b["c"] and not cleanup:
                continue
            t = b["t"]
            if isinstance(t, dict):
                yield i, t

    def __repr__(self):
        return f"<{self.path}>"


class Crate:
    def __init__(self, prog, j, src):
        self.prog = prog
        self.name = j["crate"]
        self.src = src
        self._tj = j["types"]
        self._t = [None] * len(self._tj)
        self.public = set(j["public"])
        self.adts = [a for a in j["adts"] if a]
        self.impls = j["impls"]
        for im in self.impls:
            im["self_ty"] = self.ty(im["self"])
            im["crate"] = self
        for a in self.adts:
            for v in a["variants"]:
                for f in v["fields"]:
                    if "ty" in f:
                        f["t"] = self.ty(f["ty"])
        self.bodies = [Body(self, b) for b in j["bodies"]]

    def ty(self, i):
        if isinstance(i, str):
            return i
        t = self._t[i]
        if t is None:
            j = self._tj[i]
            t = self._t[i] = Ty(j["k"], j.get("path"), (), j.get("id"), j.get("mut", False), j["s"], (), j.get("len"))
            t.args = tuple(self.ty(a) for a in j.get("args", ()))
            t.upvars = tuple(self.ty(a) for a in j.get("upvars", ()))
        return t


class Prog:
    def __init__(self, d):
        self.crates = {}
        for f in sorted(glob.glob(os.path.join(d, "*.json"))):
            j = json.load(open(f))
            c = Crate(self, j, os.path.basename(f))
            self.crates[c.name] = c
        self.bodies = {}
        self.by_path = collections.defaultdict(list)
        self.children = collections.defaultdict(list)
        for c in self.crates.values():
            for b in c.bodies:
                self.bodies[b.id] = b
                self.by_path[b.path].append(b)
                if b.kind == "closure":
                    self.children[b.parent].append(b)
        self.adts = {}
        for c in self.crates.values():
            for a in c.adts:
                if a["local"] or a["path"] not in self.adts:
                    self.adts[a["path"]] = a
        self.impls = [im for c in self.crates.values() for im in c.impls]
        self.impl_idx = collections.defaultdict(list)
        for im in self.impls:
            if im["trait"]:
                self.impl_idx[im["trait"]].append(im)

    def path(self, p):
        """unique body by normalized path"""
        bs = [b for b in self.by_path.get(p, ()) if b.kind in ("fn", "closure")]
        return bs[0] if len(bs) == 1 else None

    def fns(self, crate=None):
        for c in self.crates.values():
            if crate is None or c.name == crate:
                for b in c.bodies:
                    if b.kind in ("fn", "closure"):
                        yield b

    def find_impl(self, trait, self_ty):
        """impl of `trait` whose self type has the same head"""
        t = self_ty
        for im in self.impl_idx.get(trait, ()):
            s = im["self_ty"]
            if s.k == t.k and s.path == t.path and s.mut == t.mut:
                if s.k in ("ref", "ptr") and not (isinstance(t.args[0], Ty) and s.args[0].k in (t.args[0].k, "param")):
                    continue
                return im
        for im in self.impl_idx.get(trait, ()):
            if im["self_ty"].k == "param":
                return im
        return None

    def variants(self, adt):
        a = self.adts.get(adt)
        return [v["name"] for v in a["variants"]] if a else None

    def ancestors(self, b):
        while b is not None:
            yield b
            b = self.bodies.get(b.parent) if b.kind == "closure" else None


# -- helpers over raw facts ------------------------------------------------
def show_place(p):
    s = f"_{p[0]}"
    for e in p[1:]:
        if e == "*":
            s = f"(*{s})"
        elif e == "?":
            s += ".?"
        elif e[0] == "f":
            s += "." + e[2]
        elif e[0] == "v":
            s += " as " + e[2]
        elif e[0] == "i":
            s += f"[_{e[1]}]"
        else:
            s += str(e)
    return s


def show_op(o):
    if o[0] in ("cp", "mv"):
        return o[0] + " " + show_place(o[1])
    c = o[1]
    for k in ("str", "ch", "v", "def", "static", "promoted", "dbg"):
        if isinstance(c, dict) and k in c:
            return f"const {c[k]!r}"
    return "const " + str({k: v for k, v in c.items() if k != "ty"}) if isinstance(c, dict) else str(c)


def show_rv(r):
    k = r[0]
    if k == "use":
        return show_op(r[1])
    if k in ("ref", "fakeref"):
        return ("&mut " if r[1] else "&") + show_place(r[2])
    if k == "bin":
        return f"{r[1]}({show_op(r[2])}, {show_op(r[3])})"
    if k == "un":
        return f"{r[1]}({show_op(r[2])})"
    if k == "discr":
        return f"discr({show_place(r[1])})"
    if k == "agg":
        return f"{r[1][1:4] if len(r[1]) > 1 else r[1]}{{{', '.join(show_op(x) for x in r[2])}}}"
    if k == "cast":
        return f"cast({r[1]}, {show_op(r[2])})"
    return str(r)


def dump(b):
    out = [f"fn {b.path} [{b.kind}] {b.file}:{b.line} generics={b.generics} upvars={b.upvars}"]
    for i, l in enumerate(b.j["locals"]):
        out.append(f"  let _{i}: {b.local_ty(i)!r}" + (f"  // {l['name']}" if "name" in l else ""))
    for i, bl in enumerate(b.blocks):
        out.append(f" bb{i}{' (cleanup)' if bl['c'] else ''}:")
        for s in bl["s"]:
            if s[0] == "=":
                out.append(f"   {show_place(s[1])} = {show_rv(s[2])}   @{s[3]}")
            elif s[0] != "dead":
                out.append("   " + str(s))
        t = bl["t"]
        if isinstance(t, dict):
            c = t["callee"] or {}
            out.append(f"   {show_place(t['dest'])} = {c.get('rpath') or c.get('path')}"
                       f"({', '.join(show_op(a) for a in t['args'])}) -> bb{t['to']} uw {t['uw']}  [{c.get('rk')}] @{t['sp'][1]}")
        elif t[0] == "switch":
            out.append(f"   switch {show_op(t[1])} {t[2]} else {t[3]}")
        elif t[0] == "drop":
            out.append(f"   drop {show_place(t[1])} -> bb{t[3]}")
        else:
            out.append("   " + str(t))
    return "\n".join(out)


if __name__ == "__main__":
    import sys
    p = Prog(sys.argv[1])
    for b in p.bodies.values():
        if len(sys.argv) > 2 and sys.argv[2] in b.path and (len(sys.argv) < 4 or b.path.endswith(sys.argv[3])):
            print(dump(b))
            print()
