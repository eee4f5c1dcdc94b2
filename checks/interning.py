"""Interning: keys identify sequences (S01), paths are normalized and restored (S02)."""
from base import *
from data import lossy
from dialogs import evaluate, negated
from profiles import Calls
from rows import field_of

MOD = "asylum::sequence::"
READS = {"len", "is_empty", "index", "deref", "as_slice", "iter", "get", "first", "last", "capacity", "clone", "as_ref", "borrow", "split_at", "starts_with",
         "reserve", "reserve_exact", "shrink_to_fit", "eq", "ne", "fmt", "as_ptr", "get_unchecked", "ends_with", "next", "into_iter", "to_vec", "hash"}


class Names:
    """names of the private fields that matter, found by their types"""
    def __init__(self, ctx):
        self.ok = True
        self.vec = self.table = self.state = self.start = self.owner = self.boxed = None
        p = ctx.p
        for f in self.fields(ctx, "SequenceInterner"):
            t = str(f["t"])
            if t.startswith("alloc::vec::Vec"):
                self.vec = f["name"]
            elif "RawTable" in t:
                self.table = f["name"]
            elif "RandomState" in t:
                self.state = f["name"]
        for f in self.fields(ctx, "SequenceEntry"):
            t = str(f["t"])
            if t == "usize":
                self.start = f["name"]
            elif "SequenceInterner" in t:
                self.owner = f["name"]
        for f in self.fields(ctx, "InternedSequences"):
            if str(f["t"]).startswith("alloc::boxed::Box"):
                self.boxed = f["name"]
        for k, v in list(self.__dict__.items()):
            if v is None:
                ctx.anchor(f"field ({k}) of the sequence interner", None)
                self.ok = False

    def fields(self, ctx, name):
        a = ctx.p.adts.get(MOD + name)
        ctx.anchor(f"type {MOD}{name}", a)
        return [f for v in (a or {}).get("variants", ()) for f in v["fields"] if "t" in f]


def negs(v):
    v = strip(v)
    n = False
    while v.tag == "not" or v.tag == "op" and v.a[0] == "Not":
        v, n = strip(v.a[-1]), not n
    return v, n


class Keys(Calls):
    """q = (lengths known to be those before any change, change, lookup, inserted key, pending loop, conditions on the number of items)
    change: None | "items" (items of the entry) | ("seq", key of the sequence) | "cut" | "bad"
    lookup: None | (result, hash, sequence, None | "hit" | "miss")
    loop: None | (iterator result, sequence, item left to be pushed)
    sizes: numbers of items of the entry that are possible on this path"""
    SIZES = frozenset(range(4))
    makes = (MOD + "SequenceInterner", MOD + "SequenceEntry", MOD + "InternedSequences")

    def __init__(self, names, body):
        Calls.__init__(self)
        self.n, self.body, self.seen = names, body, set()
        self.init = (frozenset(), None, None, None, None, self.SIZES)
        self.gets, self.inserts = {}, {}

    def bad(self, ev, msg, key):
        self.eng.report("keys", ev, msg, key)

    def owner(self, v, *names):
        """interner whose field (of one of these names) v is"""
        x, n = field_of(v, *names)
        return x

    def vec(self, v):
        return self.owner(v, self.n.vec)

    def seq(self, v, d=0):
        """identity of a sequence: ("tail", interner, start) for the end of the concatenated sequences, otherwise a value"""
        v = strip(v)
        if v.tag == "call" and d < 12:
            n, a = self.name(v), self.args.get(v, ())
            if n in ("index", "get") and len(a) > 1:
                r = strip(a[1])
                k = r.a[0].rsplit("::", 1)[-1] if r.tag == "agg" else None
                if k == "RangeFull":
                    return self.seq(a[0], d + 1)
                w = self.vec(a[0])
                if w is not None and k == "RangeFrom":
                    return ("tail", w, strip(r.a[2][0]))
                if w is not None and k == "Range" and self.name(r.a[2][1]) == "len" and self.vec(self.args.get(strip(r.a[2][1]), (r,))[0]) is w:
                    return ("tail", w, strip(r.a[2][0]))
                return ("val", v)
            if n in ("as_slice", "deref", "as_ref", "borrow", "iter", "into_iter", "cloned", "copied", "to_vec", "clone", "as_mut_slice", "into_boxed_slice", "to_owned", "into_vec") and a:
                return self.seq(a[0], d + 1)
        if v.tag == "lazy" and v.a[1].rsplit("::", 1)[-1] in ("cloned", "copied", "by_ref"):
            return self.seq(v.a[2][0], d + 1)
        return ("val", v)

    def hash_of(self, v):
        """(interner whose random state is used, sequence) that a hash was computed from"""
        v = strip(v)
        if self.name(v) == "hash_one" and len(self.args.get(v, ())) > 1:
            return self.owner(self.args[v][0], self.n.state), self.seq(self.args[v][1])
        return None, None

    def length(self, v, s):
        """is v the length of sequence s"""
        v = strip(v)
        return self.name(v) == "len" and bool(self.args.get(v)) and self.seq(self.args[v][0]) == s

    def keyed(self, st, ev, key, s, w, base):
        """does a key designate the sequence that is (or will be) stored at the end of the concatenated ones"""
        c = strip(root_of(key))
        if self.name(c) != "try_from_impl_key" or not self.args.get(c):
            return False
        r = strip(self.args[c][0])
        if r.tag != "agg" or r.a[0].rsplit("::", 1)[-1] != "Range":
            return False
        a, b = strip(r.a[2][0]), strip(r.a[2][1])
        if s[0] == "tail":
            if a is not s[2]:
                return False
            if self.name(b) == "len" and self.vec(self.args[b][0]) is w:
                return True
        elif a not in base:
            return False
        if b.tag == "op" and b.a[0] == "Add":
            x, y = strip(b.a[1]), strip(b.a[2])
            return x is a and self.length(y, s) or y is a and self.length(x, s)
        return False

    def entry_start(self, v, w):
        """is v the number of items that were there before the entry"""
        x, n = field_of(v, self.n.start)
        return x is not None

    def size(self, v, w):
        """leaf of the evaluation of conditions: number of items in the concatenated sequences, relative to the start of the entry"""
        def leaf(x, k):
            x = strip(x)
            if self.name(x) == "len" and self.args.get(x) and self.vec(self.args[x][0]) is not None:
                return 100 + k
            if self.entry_start(x, w):
                return 100
            return self.leafop(x, lambda y: leaf(y, k))
        return lambda k: evaluate(v, lambda x: leaf(x, k))

    def closure_frame(self, ev, names):
        """arguments of the opaque call (of one of these names) that runs the closure that just returned"""
        fr = ev.fr
        if not (isinstance(fr.pstage, tuple) and fr.pstage[0] == "hof"):
            return None
        pf = self.eng.frames[fr.parent]
        return self.calls_at.get((pf.ctx, fr.pbb)) if hasattr(self, "calls_at") else None

    def step(self, q, ev, st):
        base, chg, look, ins, loop, sizes = q
        e, n = self.eng, self.n
        self.note(ev)
        if ev.kind == "call" and not ev.inl:
            m = last(ev.path)
            self.__dict__.setdefault("calls_at", {})[(ev.fr.ctx, ev.bb)] = (m, ev.args)
            w = self.vec(ev.args[0]) if ev.args else None
            if w is not None and ("vec::Vec" in ev.path or "[T]" in ev.path or "slice" in ev.path or m not in READS):
                if m == "len":
                    return (base | {strip(ev.res)} if chg is None else base, chg, look, ins, loop, sizes)
                if m in ("push", "extend_from_slice", "extend", "pop", "truncate", "into_boxed_slice"):
                    self.seen.add(m)
                elif m not in READS:
                    self.bad(ev, f"the stored sequences are changed by {m}()", f"{self.body.path} {m}")
                if m in ("extend_from_slice", "extend"):
                    if chg is not None or ins is not None and look is not None and look[2][0] == "tail":
                        self.bad(ev, "items are stored twice", f"{self.body.path} stored twice")
                    if lossy(e, ev.args[1]) or not (strip(ev.args[1]).tag in ("arg", "call", "lazy", "fld", "cbarg")):
                        self.bad(ev, "it cannot be established that a sequence is stored whole", f"{self.body.path} whole")
                    return (base, ("seq", self.seq(ev.args[1])), look, ins, loop, sizes)
                if m == "push":
                    if loop is not None:
                        it = loop[2]
                        if it is None or strip(ev.args[1]) is not strip(it) and strip(root_of(ev.args[1])) is not loop[0]:
                            self.bad(ev, "something else than the next item is stored", f"{self.body.path} other item")
                        return (base, ("part", loop[1]), look, ins, (loop[0], loop[1], None), sizes)
                    if strip(ev.args[1]).tag != "arg":
                        self.bad(ev, "something else than the item that was given is stored", f"{self.body.path} other item")
                    return (base, "items" if chg is None else "bad", look, ins, loop, sizes)
                if m == "pop":
                    if min(sizes, default=1) < 1:
                        self.bad(ev, "an item of another sequence may be removed", f"{self.body.path} pop")
                    return (base, "cut" if chg is None else "bad", look, ins, loop, sizes)
                if m == "truncate":
                    if ins is not None:
                        self.bad(ev, "the items of the sequence are removed, although its key has been recorded", f"{self.body.path} cut")
                    if not self.entry_start(ev.args[1], w) and not (strip(ev.args[1]) in base and not self.body.path.endswith("::pop") and chg is not None):
                        self.bad(ev, "items of other sequences may be removed", f"{self.body.path} truncate")
                    return (base, "cut" if chg is None or chg[0] != "seq" else None, look, ins, loop, sizes)
                return q
            if w is None and any(self.vec(a) is not None for a in ev.args) and m not in READS and m not in ("ptr_eq", "drop_in_place"):
                if not (m in ("assert_fields_are_eq",) or "core::panicking" in ev.path or "fmt" in ev.path):
                    self.bad(ev, f"the stored sequences are handed to {m}()", f"{self.body.path} {m}")
            tb = self.owner(ev.args[0], n.table) if ev.args else None
            if tb is not None:
                if m in ("get", "find"):
                    self.seen.add("lookup")
                    o, s = self.hash_of(ev.args[1])
                    if o is not tb:
                        # the hash was given: look at the caller
                        self.bad(ev, "a sequence is looked up under something else than its hash", f"{self.body.path} hash")
                        s = ("val", ev.args[1])
                    return (base, chg, (strip(ev.res), strip(ev.args[1]), s, None, chg), ins, loop, sizes)
                if m in ("insert", "insert_entry", "insert_no_grow", "try_insert_no_grow"):
                    self.seen.add("insert")
                    if look is None or look[3] != "miss":
                        self.bad(ev, "a key is recorded although the sequence may have one already", f"{self.body.path} not looked up")
                        return (base, chg, look, "bad", loop, sizes)
                    if ev.args[1] is not look[1] and self.hash_of(ev.args[1]) != self.hash_of(look[1]):
                        self.bad(ev, "a key is recorded under another hash than that of its sequence", f"{self.body.path} hash of insert")
                    if not self.keyed(st, ev, ev.args[2], look[2], tb, base):
                        self.bad(ev, "the recorded key does not designate exactly the new sequence", f"{self.body.path} key")
                    if look[2][0] == "tail" and chg != look[4]:
                        self.bad(ev, "the items are changed before the key is recorded", f"{self.body.path} changed")
                    return (base, chg, look, strip(ev.args[2]), loop, sizes)
                if m not in ("len", "iter", "is_empty", "clone", "buckets", "capacity", "new", "reserve"):
                    self.bad(ev, f"the recorded keys are changed by {m}()", f"{self.body.path} table {m}")
            if m == "next":
                s = self.seq(ev.args[0])
                if look is not None and s == look[2] or chg is None and s[1].tag == "arg":
                    if loop is not None and loop[2] is not None:
                        self.bad(ev, "an item is not stored", f"{self.body.path} skipped item")
                    return (base, chg, look, ins, (strip(ev.res), s, None), sizes)
            return q
        if ev.kind == "outcome":
            v = strip(ev.val)
            if look is not None and v is look[0] and ev.extra in ("Some", "None"):
                return (base, chg, look[:3] + ("hit" if ev.extra == "Some" else "miss", look[4]), ins, loop, sizes)
            if loop is not None and v is loop[0]:
                if ev.extra == "Some":
                    return (base, chg, look, ins, (v, loop[1], e.project(e.project(v, ("v", "Some")), ("f", "0"))), sizes)
                return (base, ("seq", loop[1]), look, ins, None, sizes)
        if ev.kind == "cond" and ev.extra[0] == "k":
            f = self.size(ev.val, None)
            got = {k: f(k) for k in sizes}
            if None not in got.values():
                left = frozenset(k for k in sizes if bool(got[k]) == bool(ev.extra[1]))
                return (base, chg, look, ins, loop, left) if left else None
        if ev.kind == "ret":
            c = self.closure_frame(ev, ())
            if c is not None and self.owner(c[1][0], n.table) is not None if c and c[1] else False:
                w = self.owner(c[1][0], n.table)
                if c[0] in ("get", "find"):
                    self.seen.add("comparison")
                    v, neg = negs(ev.val)
                    ab = None
                    if v.tag == "op" and v.a[0] == "Eq" and not neg:
                        ab = [strip(v.a[1]), strip(v.a[2])]
                    elif self.name(v) == "eq" and not neg:
                        ab = [strip(x) for x in self.args[v]]
                    o, s = self.hash_of(c[1][1])
                    ok = ab is not None and any(self.stored(a, w) and self.seq(b) == s for a, b in (ab, ab[::-1]))
                    if not ok:
                        self.bad(ev, "sequences are not compared in full when looking for a key", f"{self.body.path} comparison")
                if c[0].startswith("insert"):
                    self.seen.add("rehash")
                    v = strip(ev.val)
                    a = self.args.get(v, ())
                    if not (self.name(v) == "hash_one" and self.owner(a[0], n.state) is w and self.stored(a[1], w)):
                        self.bad(ev, "keys are moved under something else than the hash of their sequence", f"{self.body.path} rehash")
        if ev.kind == "make":
            v = strip(ev.val)
            t = v.a[0].rsplit("::", 1)[-1]
            f = dict(zip(v.a[3], (strip(x) for x in v.a[2])))
            if t == "SequenceInterner":
                src = {field_of(x)[0] for x in f.values()}
                fresh = all(x.tag == "call" and self.name(x) in ("new", "default", "with_capacity", "with_seeds", "generate_with") for x in f.values())
                if not fresh and not (len(src) == 1 and None not in src and all(field_of(x)[1] == k for k, x in f.items())):
                    self.bad(ev, "an interner is made of parts that do not belong together", f"{self.body.path} parts")
            elif t == "SequenceEntry":
                x = f.get(n.start)
                c = self.args.get(x, (None,))[0] if x is not None else None
                o = f.get(n.owner)
                if self.name(x) != "len" or c is None or chg is not None or self.vec(c) is not self.target(st, o):
                    self.bad(ev, "an entry does not start at the end of the stored sequences", f"{self.body.path} start")
                self.seen.add("entry")
            elif t == "InternedSequences":
                x = f.get(n.boxed)
                if x is None or self.vec(x) is None and field_of(x, n.boxed)[0] is None and not (self.name(x) in ("into", "clone", "into_boxed_slice") and self.args.get(x) and self.vec(self.args[x][0]) is not None):
                    self.bad(ev, "the final collection does not hold all stored sequences", f"{self.body.path} final")
                self.seen.add("final")
        if ev.kind == "assign" and isinstance(ev.extra, tuple):
            pr = [x[1] for x in ev.extra[0][1] if x[0] == "f"] if isinstance(ev.extra[0], tuple) and len(ev.extra[0]) == 2 else []
            if any(x in (n.vec, n.table, n.state) for x in pr[-1:]) and self.body.argc and "sequence" in self.body.path:
                self.bad(ev, "a part of an interner is replaced", f"{self.body.path} replaced")
        if ev.kind == "exit" and ev.extra == "return":
            if isinstance(chg, tuple) and (chg[0] != "seq" or ins is None):
                self.bad(ev, "items are stored without recording a key for all of them", f"{self.body.path} unrecorded")
            if ins is not None and look is not None and look[2][0] != "tail" and chg != ("seq", look[2]):
                self.bad(ev, "a key is recorded, but its sequence is not stored", f"{self.body.path} not stored")
            if (look is not None or ins is not None) and not self.lookup_fn():
                v = strip(ev.val)
                if look is None or look[3] is None or (look[3] == "miss") != (ins is not None):
                    self.bad(ev, "a key is returned that is not recorded", f"{self.body.path} unknown key")
                elif look[3] == "hit" and not (root_of(v) is look[0] or self.name(root_of(v)) in ("as_ref", "read", "as_ptr") and mentions(tuple(self.args.get(strip(root_of(v)), ())), look[0])):
                    self.bad(ev, "a sequence that was interned before does not get the same key", f"{self.body.path} other key")
                elif look[3] == "miss" and strip(v) is not strip(ins):
                    self.bad(ev, "another key than the recorded one is returned", f"{self.body.path} other key")
                self.seen.add("return")
        return q

    def target(self, st, v):
        v = strip(v)
        if v.tag == "ref":
            return strip(self.eng.load_loc(st, (v.a[0], v.a[1])))
        return v

    def lookup_fn(self):
        return "option::Option" in str(self.body.local_ty(0)).split("<")[0]

    def stored(self, v, w):
        """is v the stored sequence of the key that a closure was given"""
        v = strip(v)
        a = self.args.get(v, ())
        if self.name(v) not in ("index", "get") or len(a) < 2 or self.vec(a[0]) is not w and not self.same(self.vec(a[0]), w):
            return False
        k = strip(a[1])
        return self.name(k) == "into_impl_key" and strip(root_of(self.args[k][0])).tag == "cbarg"

    def same(self, a, b):
        return a is not None and b is not None and strip(a) is strip(b)


class Getter(Calls):
    """what a function that resolves a key returns"""
    init = 0

    def __init__(self, names, body):
        Calls.__init__(self)
        self.n, self.body, self.seen = names, body, set()

    def step(self, q, ev, st):
        self.note(ev)
        if ev.kind == "exit" and ev.extra == "return":
            v = strip(ev.val)
            a = self.args.get(v, ())
            self.seen.add("get")
            ok = self.name(v) == "index" and field_of(a[0], self.n.vec, self.n.boxed)[0] is mk("arg", self.body.id, 1)
            k = strip(a[1]) if ok else None
            ok = ok and self.name(k) == "into_impl_key" and strip(self.args[k][0]) is mk("arg", self.body.id, 2)
            if not ok:
                self.eng.report("keys", ev, "a key is resolved to something else than the stored items that it designates", self.body.path)
        return q


class Packing(Calls):
    """q = conditions known on the path (value, truth)"""
    init = frozenset()

    def __init__(self, body):
        Calls.__init__(self)
        self.body, self.out = body, []

    def step(self, q, ev, st):
        self.note(ev)
        if ev.kind == "cond" and ev.extra[0] == "k":
            v, n = negs(ev.val)
            return q | {(v, bool(ev.extra[1]) != n)}
        if ev.kind == "exit" and ev.extra == "return":
            self.out.append((q, strip(ev.val), ev))
        return q


def is_bits(v):
    v = strip(v)
    return v.tag == "k" and isinstance(v.a[0], str)


def is_pow(v):
    """1 << number of length bits"""
    v = strip(v)
    return v.tag == "op" and v.a[0] == "Shl" and strip(v.a[1]) is K(1) and is_bits(v.a[2])


def is_mask(v):
    v = strip(v)
    return v.tag == "op" and v.a[0] == "Sub" and is_pow(v.a[1]) and strip(v.a[2]) is K(1)


def parts(v):
    """fields of a packed integer: {"low": value, "high": value}"""
    v = strip(v)
    if v.tag == "op" and v.a[0] in ("BitOr", "Add", "BitXor"):
        a, b = parts(v.a[1]), parts(v.a[2])
        if a and b and not set(a) & set(b):
            return {**a, **b}
        return None
    if v.tag == "op" and (v.a[0] == "Shl" and is_bits(v.a[2]) or v.a[0] == "Mul" and is_pow(v.a[2])):
        return {"high": strip(v.a[1])}
    return {"low": v}


def part(v):
    """(part, packed integer) that is extracted"""
    v = strip(v)
    if v.tag == "op":
        if v.a[0] == "Shr" and is_bits(v.a[2]) or v.a[0] == "Div" and is_pow(v.a[2]):
            return "high", strip(v.a[1])
        for a, b in ((v.a[1], v.a[2]), (v.a[2], v.a[1])) if len(v.a) == 3 else ():
            if v.a[0] == "BitAnd" and is_mask(b):
                return "low", strip(a)
        if v.a[0] == "Rem" and is_pow(v.a[2]):
            return "low", strip(v.a[1])
    return None, None


def packing(ctx):
    """keys are packed such that unpacking yields the same range, or refused"""
    p = ctx.p
    pack = [b for b in p.bodies.values() if b.path == f"<{MOD}SequenceKey as asylum::InternerKey>::try_from_impl_key"]
    unpack = [b for b in p.bodies.values() if b.path == f"<{MOD}SequenceKey as asylum::InternerKey>::into_impl_key"]
    if not ctx.anchor("packing of keys", pack) or not ctx.anchor("unpacking of keys", unpack):
        return
    ctx.rule("a key packs the start and length of its range into separate bits, refuses those that do not fit, and yields them back")
    a = Packing(pack[0])
    ctx.run(pack[0], a)
    e = a.eng
    arg = mk("arg", pack[0].id, 1)
    start, end = e.project(arg, ("f", "start")), e.project(arg, ("f", "end"))
    some = 0

    def is_len(v):
        v = strip(v)
        if a.name(v) in ("count", "len"):
            return strip(a.args[v][0]) is arg
        return v.tag == "op" and v.a[0] == "Sub" and strip(v.a[1]) is strip(end) and strip(v.a[2]) is strip(start)
    for q, v, ev in a.out:
        if v.tag == "agg" and v.a[1] == "None":
            continue
        some += 1
        ctx.count("packed keys")
        c = strip(root_of(v.a[2][0].a[2][0])) if v.tag == "agg" and v.a[1] == "Some" and strip(v.a[2][0]).tag == "agg" else None
        if c is None and a.name(root_of(v)) == "map":
            c = None
        f = parts(a.args[c][0]) if c is not None and a.name(c) == "try_from_usize" else None
        if f is None or set(f) != {"low", "high"}:
            e.report("packing", ev, "a key is not made of the start and length of its range in separate bits", "layout")
            continue
        if strip(f["high"]) is not strip(start) or not is_len(f["low"]):
            e.report("packing", ev, "a key does not hold the start and length of its range", "content")
        fits = {"low": False, "high": False}
        for c, t in q:
            if c.tag != "op":
                continue
            x, y = strip(c.a[1]), strip(c.a[2]) if len(c.a) > 2 else None
            if c.a[0] == "Lt" and t and is_len(x) and (is_pow(y) or is_mask(y)):
                fits["low"] = True
            if c.a[0] == "Lt" and not t and is_mask(x) and is_len(y):
                fits["low"] = True
            if c.a[0] == "Lt" and not t and a.name(x) == "leading_zeros" and strip(a.args[x][0]) is strip(start) and is_bits(y):
                fits["high"] = True
            if c.a[0] == "Eq" and t:
                for u, w in ((x, y), (y, x)):
                    if w is K(0) and part(u)[0] == "high" and is_len(part(u)[1]):
                        fits["low"] = True
                    if w is strip(start) and part(u)[0] == "high" and parts(part(u)[1]) == {"high": strip(start)}:
                        fits["high"] = True
        for k, what in (("low", "length"), ("high", "start")):
            if not fits[k]:
                e.report("packing", ev, f"a {what} that does not fit into its bits is not refused", f"overflow of {what}")
    ctx.absorb_reports(e)
    ctx.anchor("a range that is packed", some)
    b = Packing(unpack[0])
    ctx.run(unpack[0], b)
    e = b.eng
    for q, v, ev in b.out:
        ctx.count("unpacked keys")
        ok = v.tag == "agg" and v.a[0].rsplit("::", 1)[-1] == "Range"
        if ok:
            h, x = part(v.a[2][0])
            s = strip(v.a[2][1])
            lo = [part(y) for y in (s.a[1], s.a[2])] if s.tag == "op" and s.a[0] == "Add" else []
            ok = h == "high" and ("low", x) in lo and any(strip(y) is strip(v.a[2][0]) or part(y) == (h, x) for y in (s.a[1], s.a[2]))
            ok = ok and b.name(x) == "into_usize" and field_of(b.args[x][0])[0] is mk("arg", unpack[0].id, 1)
        if not ok:
            e.report("packing", ev, "a key is not unpacked into the range that it was made of", "unpacking")
    ctx.absorb_reports(e)
    ctx.anchor("a key that is unpacked", b.out)


class Reuse(Calls):
    """buffers of nested entries: q = (buffers known to be empty, borrowed)"""
    init = frozenset()

    def __init__(self, owner):
        Calls.__init__(self)
        self.makes = (owner,)
        self.puts, self.takes, self.seen = [], [], set()

    def step(self, q, ev, st):
        self.note(ev)
        if ev.kind == "call" and not ev.inl and ev.args:
            m = last(ev.path)
            if m in ("clear",) or m == "truncate" and strip(ev.args[1]) is K(0):
                return q | {strip(ev.args[0])}
            if m == "push" and "Vec<alloc::vec::Vec" in str(ev.extra) + str(ev.fr.body.local_ty(0)) or m == "push" and field_of(ev.args[0], "storage")[0] is not None:
                self.puts.append((strip(ev.args[1]) in q, ev))
        if ev.kind == "make":
            for x in ev.val.a[2]:
                v = strip(x)
                r = strip(root_of(v))
                if r.tag == "call" and self.name(r) in ("pop", "take", "new", "with_capacity", "default", "unwrap_or_default", "swap_remove", "remove", "pop_back"):
                    self.seen.add("entry")
                    self.takes.append((self.name(r) in ("new", "with_capacity", "default") or v in q or r in q, ev))
                elif v.tag == "call":
                    self.seen.add("entry")
                    self.takes.append((v in q, ev))
        return q


class Whole(Calls):
    """interning of a buffered sequence: q = ()"""
    init = 0

    def __init__(self, body, opaque):
        Calls.__init__(self)
        self.body, self.opaque, self.seen = body, opaque, set()

    def full(self, v, d=0):
        v = strip(v)
        if v.tag == "call" and d < 8:
            a = self.args.get(v, ())
            if self.name(v) == "index" and strip(a[1]).tag == "agg" and strip(a[1]).a[0].endswith("::RangeFull") or self.name(v) in ("as_slice", "deref", "as_ref", "borrow"):
                return self.full(a[0], d + 1)
        return field_of(v)[0] is mk("arg", self.body.id, 1) and field_of(v)[1]

    def step(self, q, ev, st):
        self.note(ev)
        if ev.kind == "exit" and ev.extra == "return":
            self.seen.add("exit")
            v = strip(ev.val)
            if self.eng.callpath.get(v) != MOD + "SequenceInterner::intern" or not self.full(self.args[v][1]):
                self.eng.report("buffer", ev, "another sequence than the one that was built is interned", "interned buffer")
        if ev.kind == "call" and not ev.inl and ev.args and self.full(ev.args[0]) and last(ev.path) not in READS | {"take", "clear", "replace"}:
            self.eng.report("buffer", ev, f"the sequence is changed by {last(ev.path)}() before it is interned", "changed buffer")
        return q


class Pushes(Calls):
    """addition of an item to a buffered sequence: q = number of items added"""
    init = 0

    def __init__(self, body):
        Calls.__init__(self)
        self.body = body

    def step(self, q, ev, st):
        self.note(ev)
        me = mk("arg", self.body.id, 1)
        if ev.kind == "call" and not ev.inl and ev.args and field_of(ev.args[0])[0] is me and last(ev.path) not in READS:
            if last(ev.path) != "push" or strip(ev.args[1]) is not mk("arg", self.body.id, 2):
                self.eng.report("buffer", ev, "something else than the given item is added", "item")
            return q + 1
        if ev.kind == "exit" and ev.extra == "return" and q != 1:
            self.eng.report("buffer", ev, "an item is not added exactly once", "item count")
        return q


class Items(Calls):
    """interner for single items: q = (length before the item was added, result of the lookup, "hit"/"miss", item added, recorded key)"""
    init = (None, None, None, False, None)
    makes = ("asylum::Interned",)

    def __init__(self, ctx, body):
        Calls.__init__(self)
        self.bounds = set()
        self.body, self.seen, self.calls_at = body, set(), {}
        self.vec, self.table, self.state = ctx

    def bad(self, ev, msg, key):
        self.eng.report("items", ev, msg, f"{self.body.path} {key}")

    def me(self, v):
        """is v the interner that the function was called on"""
        return v is not None and strip(v) is mk("arg", self.body.id, 1)

    def part(self, v, name):
        x, n = field_of(v, name)
        return x is not None and (self.me(x) or strip(x).tag in ("arg", "fld"))

    def item(self, v):
        v = strip(v)
        return v is mk("arg", self.body.id, 2) or self.name(v) in ("clone", "to_owned", "borrow", "as_ref") and self.item(self.args[v][0])

    def stored(self, v):
        """is v the stored item of the key that a closure was given"""
        v = strip(v)
        a = self.args.get(v, ())
        if self.name(v) not in ("index", "get", "get_unchecked") or len(a) < 2 or not self.part(a[0], self.vec):
            return False
        k = strip(a[1])
        return self.name(k) in ("into_usize", "into_impl_key") and strip(root_of(self.args[k][0])).tag == "cbarg"

    def hashed(self, v):
        v = strip(v)
        return self.name(v) == "hash_one" and self.part(self.args[v][0], self.state) and self.item(self.args[v][1])

    def step(self, q, ev, st):
        n, look, hit, added, ins = q
        self.note(ev)
        if ev.kind == "call" and not ev.inl and ev.args:
            m = last(ev.path)
            self.calls_at[(ev.fr.ctx, ev.bb)] = (m, ev.args)
            if self.part(ev.args[0], self.vec):
                if m == "len" and not added:
                    return (strip(ev.res), look, hit, added, ins)
                if m == "push":
                    self.seen.add("push")
                    if hit != "miss" or added:
                        self.bad(ev, "an item is added although it may have been interned before", "added")
                    if not self.item(ev.args[1]):
                        self.bad(ev, "something else than the item is added", "other item")
                    return (n, look, hit, True, ins)
                if m not in READS and m not in ("into_boxed_slice", "into"):
                    self.bad(ev, f"the stored items are changed by {m}()", m)
            elif self.part(ev.args[0], self.table):
                if m in ("get", "find"):
                    self.seen.add("lookup")
                    if not self.hashed(ev.args[1]):
                        self.bad(ev, "an item is looked up under something else than its hash", "hash")
                    return (n, strip(ev.res), None, added, ins)
                if m in ("insert", "insert_entry", "insert_no_grow"):
                    self.seen.add("insert")
                    if hit != "miss" or ins is not None:
                        self.bad(ev, "a key is recorded although the item may have one already", "not looked up")
                    if not self.hashed(ev.args[1]):
                        self.bad(ev, "a key is recorded under something else than the hash of its item", "hash of insert")
                    k = strip(root_of(ev.args[2]))
                    a = self.args.get(k, ())
                    if not (self.name(k) in ("try_from_usize", "try_from_impl_key") and a and strip(a[0]) is n and n is not None):
                        self.bad(ev, "the recorded key is not the position of the new item", "key")
                    return (n, look, hit, added, strip(ev.args[2]))
                if m not in ("len", "iter", "is_empty", "clone", "buckets", "capacity", "reserve"):
                    self.bad(ev, f"the recorded keys are changed by {m}()", "table " + m)
        if ev.kind == "cond" and ev.val.tag == "op" and ev.val.a[0] == "Lt":
            self.bounds.add((strip(ev.val.a[1]), field_of(strip(ev.val.a[2].a[1]), self.vec, "0")[0] if ev.val.a[2].tag == "op" and ev.val.a[2].a[0] == "PtrMetadata" else None))
        if ev.kind == "outcome" and look is not None and strip(ev.val) is look and ev.extra in ("Some", "None"):
            return (n, look, "hit" if ev.extra == "Some" else "miss", added, ins)
        if ev.kind == "ret" and isinstance(ev.fr.pstage, tuple) and ev.fr.pstage[0] == "hof":
            pf = self.eng.frames[ev.fr.parent]
            m, args = self.calls_at.get((pf.ctx, ev.fr.pbb), (None, ()))
            if args and self.part(args[0], self.table):
                v, neg = negs(ev.val)
                if m in ("get", "find"):
                    self.seen.add("comparison")
                    ab = ()
                    if v.tag == "op" and v.a[0] == "Eq":
                        ab = v.a[1:]
                    elif self.name(v) == "eq":
                        ab = self.args[v]
                    if neg or not any(self.stored(a) and self.item(b) for a, b in (ab, ab[::-1]) if ab):
                        self.bad(ev, "items are not compared in full when looking for a key", "comparison")
                elif m.startswith("insert"):
                    self.seen.add("rehash")
                    a = self.args.get(v, ())
                    if not (self.name(v) == "hash_one" and self.part(a[0], self.state) and self.stored(a[1])):
                        self.bad(ev, "keys are moved under something else than the hash of their item", "rehash")
        if ev.kind == "exit" and ev.extra == "return":
            v = strip(ev.val)
            if added != (ins is not None):
                self.bad(ev, "an item is added without its key, or the other way around", "unrecorded")
            if look is not None:
                self.seen.add("return")
                if hit == "hit" and not (strip(root_of(v)) is look or self.name(root_of(v)) in ("as_ref", "read") and mentions(tuple(self.args.get(strip(root_of(v)), ())), look)):
                    self.bad(ev, "an item that was interned before does not get the same key", "other key")
                if hit != "hit" and (ins is None or v is not ins):
                    self.bad(ev, "another key than the recorded one is returned", "other key")
            t = str(self.body.local_ty(0))
            if self.body.argc == 2 and t.startswith("&"):
                self.seen.add("get")
                a = self.args.get(v, ())
                k = strip(a[1]) if len(a) > 1 else None
                ok = self.name(v) == "index" and field_of(a[0], self.vec, "0")[0] is mk("arg", self.body.id, 1)
                if ev.val.tag == "ref" and ev.val.a[1] and ev.val.a[1][-1][0] == "x":
                    # element of a slice: the index is the one that was checked against its length
                    ok, k = len(self.bounds) == 1 and next(iter(self.bounds))[1] is mk("arg", self.body.id, 1), next(iter(self.bounds), (None,))[0]
                if not (ok and self.name(k) in ("into_usize", "into_impl_key") and strip(self.args[k][0]) is mk("arg", self.body.id, 2)):
                    self.bad(ev, "a key is resolved to something else than the item at its position", "get")
        if ev.kind == "make":
            self.seen.add("final")
            x = strip(ev.val).a[2][0]
            while x.tag == "conv":
                x = x.a[0]
            x = strip(x)
            if not (self.name(x) in ("into", "into_boxed_slice", "clone", "from") and self.part(self.args[x][0], self.vec)) and not self.part(x, self.vec) and field_of(x, self.vec, "0")[0] is None and self.body.j.get("trait_item") is None:
                self.bad(ev, "the final collection does not hold all stored items", "final")
        if ev.kind == "assign" and isinstance(ev.extra, tuple) and isinstance(ev.extra[0], tuple) and len(ev.extra[0]) == 2:
            if any(x in (self.vec, self.table, self.state) for x in [x[1] for x in ev.extra[0][1] if x[0] == "f"][-1:]):
                self.bad(ev, "a part of an interner is replaced", "replaced")
        return q


def items(ctx):
    a = ctx.p.adts.get("asylum::Interner")
    ctx.anchor("type asylum::Interner", a)
    f = {k: [x["name"] for v in (a or {}).get("variants", ()) for x in v["fields"] if "t" in x and m in str(x["t"])] for k, m in (("vec", "vec::Vec"), ("table", "RawTable"), ("state", "RandomState"))}
    for k, v in f.items():
        ctx.anchor(f"field ({k}) of the item interner", len(v) == 1)
    if any(len(v) != 1 for v in f.values()):
        return
    ctx.rule("single items: looked up under the hash of the very item, compared in full, added and recorded under their position exactly if not found; stored items are never changed")
    seen = set()
    for b in ctx.p.bodies.values():
        if b.kind != "fn" or b.crate.name != "asylum" or not b.path.startswith(("asylum::Interner::", "asylum::Interned::", "<asylum::Interner ", "<asylum::Interned ")):
            continue
        if not (b.j["vis"] == "pub" or b.j.get("trait_item")) or b.path.endswith(("Debug>::fmt", "assert_fields_are_eq")):
            continue
        t = Items([f[k][0] for k in ("vec", "table", "state")], b)
        ctx.run(b, t)
        seen |= t.seen
        ctx.count("functions of the item interner")
    for x in ("push", "lookup", "comparison", "insert", "rehash", "return", "get", "final"):
        ctx.anchor(f"operation of the item interner: {x}", x in seen)


@check("S01")
def s01(ctx):
    p = ctx.p
    n = Names(ctx)
    if not n.ok:
        return
    ctx.rule("looked up under hash_one() of the very sequence, compared in full, recorded only if not found; the key designates exactly the stored items; "
             "stored items are only ever appended, and removed back to the start of an entry that is not recorded")
    seen = set()
    roots = [b for b in p.bodies.values() if (b.path.startswith(MOD) or b.path.startswith("<" + MOD)) and b.kind == "fn"
             and (b.j["vis"] == "pub" or b.j.get("trait_item")) and "SequenceKey" not in b.path and not b.path.endswith(("Debug>::fmt", "assert_fields_are_eq"))]
    for b in roots:
        a = Keys(n, b)
        ctx.run(b, a)
        seen |= a.seen
        ctx.count("functions of the interner")
        if b.argc == 2 and "[$Item]" in str(b.local_ty(0)) and b.path.rsplit("::", 1)[-1] == "get":
            g = Getter(n, b)
            e = Engine(p, g)
            e.run(b)
            ctx.absorb(e, b.path)
            seen |= g.seen
    for x in ("push", "pop", "truncate", "lookup", "comparison", "insert", "rehash", "return", "entry", "final", "get"):
        ctx.anchor(f"operation of the sequence interner: {x}", x in seen)
    items(ctx)
    packing(ctx)
    for b in p.bodies.values():
        if b.path == f"<{MOD}SequenceKey as core::cmp::PartialEq>::eq":
            a = Packing(b)
            ctx.run(b, a)
            for q, v, ev in a.out:
                ok = v.tag == "op" and v.a[0] == "Eq" and {field_of(v.a[1])[0], field_of(v.a[2])[0]} == {mk("arg", b.id, 1), mk("arg", b.id, 2)}
                if not ok:
                    a.eng.report("keys", ev, "keys are equal although they differ, or the other way around", "equality of keys")
            ctx.absorb_reports(a.eng)
            ctx.anchor("comparison of keys", a.out)
    # nested entries
    R = "cpparser::interning::recursion::"
    ctx.rule("a reused buffer is emptied before a new sequence is built in it, every item is added, and the whole buffer is interned")
    opaque = {b.id for b in p.bodies.values() if b.path.startswith(MOD)}
    takes, puts, seen = [], [], set()
    fns = [b for b in p.bodies.values() if b.path.startswith((R, "<" + R)) and b.kind == "fn" and "tests" not in b.path]
    ctx.anchor("interner for nested sequences", fns)
    for b in fns:
        a = Reuse(R + "SequenceEntry")
        ctx.run(b, a, opaque=opaque)
        takes += a.takes
        puts += a.puts
        seen |= a.seen
        ctx.count("functions of the nested interner")
    ctx.anchor("start of a nested entry", "entry" in seen)
    if not all(ok for ok, _ in takes) and not (puts and all(ok for ok, _ in puts)):
        ev = next(ev for ok, ev in takes if not ok)
        ctx.violation("buffer", ev.where(), "a new sequence may start with the items of an earlier one", key="reused buffer")
    for b in fns:
        if b.path == R + "SequenceEntry::intern":
            a = Whole(b, opaque)
            ctx.run(b, a, opaque=opaque)
            ctx.anchor("interning of a nested entry", "exit" in a.seen)
        elif b.path == R + "SequenceEntry::push":
            ctx.run(b, Pushes(b))
    ctx.public(R + "SequenceEntry::intern")
    ctx.public(R + "SequenceEntry::push")


# ---------------------------------------------------------------------- S02
PI = "asylum::path::"


class Paths(Keys):
    """interning of a path: q = (relative?, component, kind, done, possible numbers of components, changes)
    done: operation made for the current component"""

    def __init__(self, names, body):
        Keys.__init__(self, names, body)
        self.init = (None, None, None, None, frozenset(range(4)))
        self.sink = None
        self.interned = False
        self.makes = ()

    def bad(self, ev, msg, key):
        self.eng.report("path", ev, msg, key)

    def given(self, v):
        return self.eng.derives(v, lambda x: x is mk("arg", self.body.id, 2))

    def container(self, v):
        """is v the list of components that is being built"""
        if self.vec(v) is not None:
            return True
        v = strip(v)
        return v.tag == "call" and self.name(v) in ("new", "with_capacity") and "vec::Vec" in self.eng.callpath.get(v, "")

    def number(self, v):
        def leaf(x, k):
            x = strip(x)
            if self.name(x) == "len" and self.args.get(x) and self.container(self.args[x][0]):
                return (100 if self.before.get(x) == 0 else 100 + k) if self.vec(self.args[x][0]) is not None else k
            if self.name(x) == "is_empty" and self.args.get(x) and self.container(self.args[x][0]):
                return int(k == 0) if self.vec(self.args[x][0]) is None else None
            return self.leafop(x, lambda y: leaf(y, k))
        return lambda k: evaluate(v, lambda x: leaf(x, k))

    def step(self, q, ev, st):
        rel, comp, kind, done, sizes = q
        e = self.eng
        self.note(ev)
        if not hasattr(self, "before"):
            self.before = {}
        if ev.kind == "call" and not ev.inl:
            m = last(ev.path)
            if m == "len" and ev.args and self.vec(ev.args[0]) is not None:
                # taken before the loop: start of the entry
                self.before.setdefault(strip(ev.res), 0 if comp is None else 1)
            if m == "next" and "Components" in ev.path + str(ev.extra) or m == "next" and e.derives(ev.args[0], lambda x: x.tag == "call" and self.name(x) in ("components", "iter") and "path::Path" in e.callpath.get(x, "")):
                self.finish(ev, kind, done, sizes)
                src = ev.args[0]
                if not e.derives(src, lambda x: self.name(x) == "components" if x.tag == "call" else False) or not self.given(src):
                    self.bad(ev, "something else than the components of the path is interned", "source")
                if lossy(e, src) or e.derives(src, lambda x: x.tag == "call" and self.name(x) in ("rev", "file_name", "parent", "strip_prefix", "with_extension", "canonicalize")):
                    self.bad(ev, "some components may be left out", "left out")
                if rel is not False:
                    self.bad(ev, "a relative path may be interned", "relative")
                return (rel, strip(ev.res), None, None, frozenset(range(4)))
            if ev.args and self.container(ev.args[0]) and m in ("push", "pop", "truncate", "clear", "extend", "extend_from_slice", "insert", "remove") and not ("RawTable" in ev.path):
                if m in ("extend_from_slice", "extend") and kind is None and comp == "end":
                    return q
                if m == "truncate" and comp == "end" or m == "truncate" and rel is True:
                    return q
                if m == "push":
                    c = strip(ev.args[1])
                    a = self.args.get(c, ())
                    if self.name(c) not in ("get_or_intern", "try_get_or_intern", "get_or_intern_static") or not self.text_of(a[1], comp):
                        self.bad(ev, "something else than the component is interned", "other component")
                elif m not in ("pop",):
                    self.bad(ev, f"components are changed by {m}()", m)
                if done is not None:
                    self.bad(ev, "a component is handled twice", "twice")
                if m == "pop" and min(sizes) < 2:
                    self.bad(ev, "the root may be removed from a path", "root removed")
                return (rel, comp, kind, m, sizes)
            if m == "hash_one" and "RandomState" in ev.path and comp is not None and not self.reading(ev):
                if comp != "end":
                    self.bad(ev, "a path is interned before all of its components have been handled", "early")
        if ev.kind == "cond" and ev.extra[0] == "k":
            v, neg = negs(ev.val)
            t = bool(ev.extra[1]) != neg
            if self.name(v) in ("is_relative", "is_absolute", "has_root") and self.given(v):
                return (t if self.name(v) == "is_relative" else not t,) + q[1:]
            f = self.number(ev.val)
            got = {k: f(k) for k in sizes}
            if None not in got.values() and comp is not None and comp != "end":
                left = frozenset(k for k in sizes if bool(got[k]) == bool(ev.extra[1]))
                return (rel, comp, kind, done, left) if left else None
        if ev.kind == "outcome" and comp is not None and comp != "end":
            v = strip(ev.val)
            if v is comp:
                return (rel, comp if ev.extra == "Some" else "end", None, None, sizes)
            if root_of(v) is comp and ev.extra in ("Prefix", "RootDir", "CurDir", "ParentDir", "Normal"):
                self.seen.add(ev.extra)
                return (rel, comp, frozenset({ev.extra}), done, sizes)
        if ev.kind == "notoutcome" and comp is not None and comp != "end" and root_of(strip(ev.val)) is comp and kind is None:
            return (rel, comp, frozenset({"Prefix", "RootDir", "CurDir", "ParentDir", "Normal"}) - set(ev.extra), done, sizes)
        if ev.kind == "exit" and ev.extra == "return":
            v = strip(ev.val)
            k = e.variant(st, v)
            if rel is True:
                self.seen.add("relative")
                if k != "Err":
                    self.bad(ev, "a relative path is not refused", "relative")
            elif k == "Err":
                self.bad(ev, "an absolute path is refused", "absolute refused")
            elif comp != "end":
                self.bad(ev, "a path is interned before all of its components have been handled", "early")
            else:
                self.seen.add("interned")
                r = strip(root_of(strip(e.project(e.project(v, ("v", "Ok")), ("f", "0")))))
                if self.name(r) not in ("get", "find", "try_from_impl_key"):
                    self.bad(ev, "another key than that of the components is returned", "other key")
        return q

    def reading(self, ev):
        return isinstance(ev.fr.pstage, tuple) and ev.fr.pstage[0] == "hof"

    def text_of(self, v, comp):
        """is v the text of the component that is being handled"""
        ok = {"as_os_str", "to_str", "as_ref", "to_string_lossy", "deref", "as_path", "borrow", "expect", "unwrap", "into_owned", "to_owned"}
        v = strip(v)
        for _ in range(12):
            r = strip(root_of(v))
            if r is comp:
                return True
            if self.name(r) in ok and self.args.get(r):
                v = self.args[r][0]
                continue
            return False

    def finish(self, ev, kind, done, sizes):
        if kind is None:
            return
        if kind & {"Normal", "RootDir", "Prefix"}:
            if kind & {"CurDir", "ParentDir"}:
                self.bad(ev, "components of different kinds are handled alike", "alike")
            elif done != "push":
                self.bad(ev, "a component is left out of the path", "component left out")
        elif done == "push":
            self.bad(ev, "'.' or '..' is kept in the path", "kept")
        elif kind == {"ParentDir"}:
            if done is None and max(sizes) > 1:
                self.bad(ev, "'..' does not remove the component before it", "parent")
        elif kind == {"CurDir"} and done is not None:
            self.bad(ev, "'.' changes the path", "current")
        elif "ParentDir" in kind and "CurDir" in kind:
            self.bad(ev, "'.' and '..' are handled alike", "alike")


class Restore(Calls):
    """conversion of an interned path into a path: q = (buffer, item left to be pushed, end?)"""
    init = (None, None, False)

    def __init__(self, body):
        Calls.__init__(self)
        self.body, self.seen = body, set()

    def step(self, q, ev, st):
        buf, item, end = q
        e = self.eng
        self.note(ev)
        me = mk("arg", self.body.id, 1)
        if ev.kind == "call" and not ev.inl:
            m = last(ev.path)
            if m == "next":
                s = ev.args[0]
                if item is not None:
                    e.report("restore", ev, "a component is left out", "component")
                if lossy(e, s) or e.derives(s, lambda x: x.tag == "lazy" and x.a[1].rsplit("::", 1)[-1] in ("rev", "chain") or x.tag == "call" and self.name(x) == "rev"):
                    e.report("restore", ev, "components are left out or reordered", "components")
                if not e.derives(s, lambda x: x.tag == "call" and self.name(x) == "get_path_components" and self.of(x, me)):
                    e.report("restore", ev, "the components are not those of the path", "source")
                return (buf, None, False)
            if m in ("push", "extend", "set_file_name", "pop", "join") and "path::Path" in ev.path:
                if m != "push" or item is None or not self.text(ev.args[1], item, me):
                    e.report("restore", ev, "something else than the next component is added", "pushed")
                b = strip(ev.args[0])
                if self.name(b) not in ("new", "with_capacity", "default"):
                    e.report("restore", ev, "the path does not start empty", "start")
                self.seen.add("push")
                return (b, None, end)
        if ev.kind == "outcome" and self.name(ev.val) == "next" or ev.kind == "outcome" and strip(ev.val).tag == "call" and str(strip(ev.val).a[-1]) == "src":
            return (buf, strip(ev.val), False) if ev.extra == "Some" else (buf, None, True)
        if ev.kind == "exit" and ev.extra == "return":
            self.seen.add("exit")
            v = strip(ev.val)
            while self.name(v) in ("into_boxed_path", "into") and self.args.get(v):
                v = strip(self.args[v][0])
            if not end or buf is not None and v is not buf or self.name(v) not in ("new", "with_capacity", "default"):
                e.report("restore", ev, "the path is returned before all of its components have been added", "early")
        return q

    def of(self, x, me):
        a = self.args.get(x, ())
        return len(a) > 1 and field_of(a[0])[0] is me and field_of(a[1])[0] is me

    def text(self, v, item, me):
        e = self.eng
        v = strip(v)
        found = [v] if v.tag != "agg" else [strip(x) for x in v.a[2]]
        for x in found:
            for _ in range(6):
                if self.name(x) in ("resolve", "try_resolve") and len(self.args.get(x, ())) > 1 and strip(root_of(self.args[x][1])) is item:
                    r = strip(self.args[x][0])
                    return self.name(r) == "component_resolver" and field_of(self.args[r][0])[0] is me
                if self.name(x) in ("value", "as_ref", "deref") and self.args.get(x):
                    x = strip(self.args[x][0])
        return False


def conjunction(ctx, b, rule, need, msg):
    """a comparison holds exactly if all of the given comparisons do; need: name -> predicate(auto, value)"""
    class C(Calls):
        init = frozenset()

        def __init__(self):
            Calls.__init__(self)
            self.exits = 0

        def which(self, v):
            for k, f in need.items():
                if f(self, v):
                    return k

        def step(self, q, ev, st):
            self.note(ev)
            if ev.kind == "cond" and ev.extra[0] == "k":
                v, n = negs(ev.val)
                k = self.which(v)
                if k:
                    return q | {(k, bool(ev.extra[1]) != n)}
                return q | {("?", True)}
            if ev.kind == "exit" and ev.extra == "return":
                self.exits += 1
                v, n = negs(ev.val)
                d = dict(q)
                if v.tag == "op" and v.a[0] == "BitAnd" and not n:
                    parts, todo = [], [v]
                    while todo:
                        x = strip(todo.pop())
                        if x.tag == "op" and x.a[0] == "BitAnd":
                            todo += x.a[1:]
                        else:
                            parts.append(x)
                    ks = {self.which(x) for x in parts}
                    if None in ks or "?" in d or False in d.values() or not all(d.get(k) is True or k in ks for k in need):
                        self.eng.report(rule, ev, msg, b.path)
                    return q
                if v.tag == "k" and bool(v.a[0]) != n:
                    if not all(d.get(k) is True for k in need) or "?" in d:
                        self.eng.report(rule, ev, msg, b.path)
                elif v.tag == "k":
                    if False not in d.values():
                        self.eng.report(rule, ev, msg, b.path)
                else:
                    k = self.which(v)
                    if n or k is None or "?" in d or not all(d.get(x) is True for x in need if x != k) or d.get(k) is False:
                        self.eng.report(rule, ev, msg, b.path)
            return q
    a = C()
    ctx.run(b, a)
    ctx.anchor(f"result of {b.path}", a.exits)


def compares(field):
    """comparison of the same field of both sides"""
    def f(a, v):
        v = strip(v)
        if v.tag == "op" and v.a[0] == "Eq":
            xs = v.a[1:]
        elif a.name(v) in ("eq", "ptr_eq", "addr_eq"):
            xs = a.args.get(v, ())
        else:
            return False
        fs = [field_of(x) for x in xs]
        return len(fs) == 2 and all(x is not None and x.tag == "arg" and n == field for x, n in fs) and fs[0][0] is not fs[1][0]
    return f


@check("S02")
def s02(ctx):
    p = ctx.p
    n = Names(ctx)
    b = ctx.public(PI + "PathInterner::intern")
    if not n.ok or b is None:
        return
    ctx.rule("a relative path is an error; every prefix, root and normal component is interned in turn; '..' removes the last component unless only the root is left; "
             "'.' does nothing; the key is that of the resulting list")
    a = Paths(n, b)
    ctx.run(b, a)
    for x in ("relative", "interned", "ParentDir", "Normal"):
        ctx.anchor(f"handling of paths: {x}", x in a.seen)
    r = ctx.public(PI + "InternedPath::to_boxed_path")
    if r is not None:
        ctx.rule("an interned path is restored by adding every component of its key in order to an empty path")
        a = Restore(r)
        ctx.run(r, a)
        for x in ("push", "exit"):
            ctx.anchor(f"restoration of paths: {x}", x in a.seen)
    t = ctx.p.adts.get(PI + "InternedPath")
    names = [f["name"] for v in (t or {}).get("variants", ()) for f in v["fields"]]
    for b in p.bodies.values():
        if b.path == f"<{PI}InternedPath as core::cmp::PartialEq>::eq":
            ctx.rule("two interned paths are equal exactly if they have the same key and collection")
            conjunction(ctx, b, "equality", {x: compares(x) for x in names}, "paths are equal although they differ, or the other way around")
            ctx.count("comparisons")
        if b.path == f"<{PI}InternedPath as core::fmt::Display>::fmt":
            d = Shown(b)
            ctx.run(b, d, opaque={r.id} if r is not None else ())
            ctx.anchor("display of a path", d.seen)


class Shown(Calls):
    init = False

    def __init__(self, body):
        Calls.__init__(self)
        self.body, self.seen = body, set()

    def step(self, q, ev, st):
        self.note(ev)
        if ev.kind == "call" and not ev.inl and last(ev.path) in ("write_fmt", "write_str", "fmt", "pad", "display_fmt"):
            if any(self.eng.derives(a, lambda x: x.tag == "call" and self.name(x) == "to_boxed_path") for a in ev.args):
                return True
        if ev.kind == "exit" and ev.extra == "return":
            self.seen.add("exit")
            if not q and self.eng.variant(st, strip(ev.val)) != "Err":
                self.eng.report("restore", ev, "the path is not displayed", "display")
        return q
