"""Decoding of single trace events (T02) and of activity arguments (T05)."""
from base import *
from data import Results
from trace import TT, getter, deref

ACT = TT + "::stats::activity"


def fpath(v, root):
    """fields that lead from root to v, seeing through Some(..); None if v is no projection of root"""
    out = []
    v = deref(v)
    while v is not root:
        if v.tag == "fld":
            out.append(v.a[1])
            v = v.a[0]
            if v.tag == "as" and v.a[1] == "Some":
                out.pop()
                v = v.a[0]
        elif v.tag in ("conv", "old", "ov", "as"):
            v = v.a[0]
        elif v.tag == "ref":
            d = deref(v)
            if d is v:
                return None
            v = d
        else:
            return None
    return tuple(reversed(out))


def some(v):
    return v.a[2][0] if v.tag == "agg" and v.a[1] == "Some" and len(v.a[2]) == 1 else v


KEYED = ("get", "remove", "get_mut", "remove_entry", "get_key_value")


class Decode(Automaton):
    """q = (facts, current argument item, its key): what is known about the event at a point of the parser"""
    init = (frozenset(), None, "")
    max_disj = 96

    def __init__(self, root, args):
        self.root, self.argsf, self.items = root, args, set()
        self.oks, self.errs, self.others, self.src = set(), set(), [], collections.defaultdict(set)

    def fp(self, v):
        return fpath(v, self.root)

    def of_args(self, v, item=False):
        """computed from the arguments as a whole (item: or from one of them)"""
        seen, todo = set(), [v]
        while todo and len(seen) < 2000:
            x = todo.pop()
            if isinstance(x, tuple):
                todo.extend(x)
                continue
            if not isinstance(x, V) or x in seen:
                continue
            if x.tag in ("fld", "as") and self.fp(x) == self.argsf:
                return True
            if not item and seen and x.tag == "call" and x in self.items:
                continue
            seen.add(x)
            todo.extend(x.a)
            todo.extend(self.eng.deriv.get(x, ()))
        return False

    def of_item(self, v, item):
        return item is not None and croot_(v) is item

    def step(self, q, ev, st):
        facts, item, key = q
        e = self.eng
        f = set(facts)
        if ev.kind == "call" and not ev.inl:
            n = last(ev.path)
            if n == "next" and self.of_args(ev.args[0]):
                self.items.add(ev.res)
                if ("pend",) in f:
                    f.add(("extra",))
                f = {x for x in f if x[0] not in ("kne", "exh")}
                item, key = None, ""
            elif n in KEYED and "hash" in ev.path.lower() and self.of_args(ev.args[0]):
                self.items.add(ev.res)
            elif n in ("keys", "values", "values_mut") and ev.args and self.of_args(ev.args[0]):
                e.report("args", ev, "the association of argument names and values is lost", "keys")
        elif ev.kind in ("outcome", "notoutcome"):
            v = strip(deref(ev.val))
            path = e.callpath.get(v, "") if v.tag == "call" else ""
            n = last(path)
            x = ev.extra
            fp = self.fp(v)
            if fp is not None:
                f.add(("is" if ev.kind == "outcome" else "isnt", fp, x))
                if fp == self.argsf and x == "None":
                    f.add(("closed",))
            elif n == "next" and self.of_args(v) and ev.kind == "outcome":
                self.items.add(v)
                if x == "Some":
                    item, key = v, ""
                    f.add(("pend",))
                else:
                    item, key = None, ""
                    f |= {("exh",), ("closed",)}
            elif n in KEYED and any(self.of_args(a) for a in e.deriv.get(v, ())) and "hash" in path.lower():
                k = [a.a[0] for a in map(strip, e.deriv.get(v, ())) if a.tag == "str"]
                if len(k) == 1 and ev.kind == "outcome":
                    f.add(("key", k[0]) if x == "Some" else ("missing", k[0]))
                    self.src[v].add(k[0])
            elif n == "get" and "phf" in path and ev.kind == "outcome":
                f.add(("known", v, x))
            elif n in ("strip_prefix", "as_u64", "as_f64", "as_str", "as_i64") and ev.kind == "outcome":
                if x == "None":
                    f.add(("bad", n))
                elif self.of_item(next(iter(e.deriv[v])), item) if e.deriv.get(v) else False:
                    self.src[v].add(key)
                    f.add(("have", v))
                else:
                    f.add(("have", v))
            elif item is not None and croot_(v) is item or v.tag in ("fld", "as") and croot_(v) in self.src:
                if not (x == "String" if ev.kind == "outcome" else "String" not in x):
                    f.add(("bad", "value"))
                else:
                    self.src[strip(v)].add(key)
            elif path and "RefCell" in path + "Option" and self.of_args(v) and ev.kind == "outcome" and x == "None":
                f.add(("closed",))
            elif path and ev.kind == "outcome" and x == "Err" and e.p.by_path.get(path) is None and self.of_args(v):
                f.add(("bad", n))
        elif ev.kind == "cond" and ev.extra[0] == "k":
            self.cond(f, strip(ev.val), ev.extra[1], item)
            if item is not None and ("keyis",) in f:
                f.discard(("keyis",))
                f.discard(("pend",))
                f = {x for x in f if x[0] != "kne"}
                key = [x[1] for x in f if x[0] == "nowkey"][0]
                f = {x for x in f if x[0] != "nowkey"}
                f.add(("key", key))
        elif ev.kind == "exit" and ev.extra == "return":
            var = e.variant(st, ev.val)
            if var == "Ok":
                val = payload(e, ev.val, "Ok")
                self.oks.add((frozenset(f), val, self.known(st, val)))
            elif var == "Err":
                self.errs.add(frozenset(f))
            else:
                self.others.append(ev.val)
        return (frozenset(f), item, key)

    def known(self, st, val):
        """variants known at the exit of values in the result"""
        out = set()
        def go(v, n=0):
            if not isinstance(v, V) or n > 6:
                return
            x = self.eng.variant(st, v)
            if x is not None:
                out.add((v, x))
            if v.tag == "agg":
                for y in v.a[2]:
                    go(y, n + 1)
        go(val)
        return frozenset(out)

    def cond(self, f, v, k, item):
        e = self.eng
        while v.tag == "not":
            v, k = v.a[0], 1 - k
        if v.tag == "op" and v.a[0] == "Eq":
            a, b = some(strip(deref(v.a[1]))), some(strip(deref(v.a[2])))
            for x, y in ((a, b), (b, a)):
                fx, fy = self.fp(x), self.fp(y)
                if fx is not None and fy is not None:
                    f.add(("eq" if k else "ne", tuple(sorted((fx, fy)))))
                    return
                if fx is not None:
                    c = y.a[0] if y.tag in ("k", "str") else "?"
                    f.add(("eq" if k else "ne", fx, c))
                    if y.tag == "agg" and y.a[1] == "None" and k:
                        f.add(("is", fx, "None"))
                    if y.tag == "call" and last(e.callpath.get(y, "")) in ("default", "new") and k:
                        f |= {("is", fx, "Some"), ("empty", fx), ("empty", fx + ("0",))}
                    return
                if x.tag == "call" and last(e.callpath.get(x, "")) == "len" and y.tag == "k":
                    d = list(e.deriv.get(x, ()))
                    if d and self.of_args(d[0]):
                        if k:
                            f.add(("len", y.a[0]))
                        else:
                            f.add(("bad", "len"))
                    elif d and self.fp(d[0]) is not None and y.a[0] == 0:
                        f.add(("empty" if k else "nonempty", self.fp(d[0])))
                    return
                if item is not None and croot_(x) is item and y.tag == "str":
                    if k:
                        f |= {("keyis",), ("nowkey", y.a[0])}
                    else:
                        f.add(("kne", y.a[0]))
                    return
        elif v.tag == "call":
            n = last(e.callpath.get(v, ""))
            d = [strip(deref(x)) for x in e.deriv.get(v, ())]
            if n == "is_empty" and d:
                fp = self.fp(d[0])
                if fp is not None:
                    f.add(("empty" if k else "nonempty", fp))
                if self.of_args(d[0]) and "hash" in e.callpath[v].lower():
                    f.add(("closed",) if k else ("nonempty", self.argsf))
            elif n in ("is_none", "is_some", "starts_with") and d and self.fp(d[0]) is not None:
                f.add(("is", self.fp(d[0]), "None" if (n == "is_none") == bool(k) else "Some"))
            elif n == "starts_with":
                f.add(("bad", n) if not k else ("have", v))
        elif self.fp(v) is not None:
            f.add(("eq", self.fp(v), k))


def croot_(v):
    v = deref(v)
    while v.tag in ("conv", "fld", "as", "ov", "idx"):
        v = deref(v.a[0])
    return v


def flat(x):
    if isinstance(x, tuple):
        for y in x:
            yield from flat(y)
    else:
        yield x


def pid_rule(f, pid, tid, legacy=True):
    if ("eq", tuple(sorted((pid, tid)))) in f:
        return True
    if legacy and ("eq", pid, 1) in f and ("eq", tid, 0) in f:
        return True
    # both known to be the same constant
    c = {x[2] for x in f if x[0] == "eq" and len(x) == 3 and x[1] == pid} & {x[2] for x in f if x[0] == "eq" and len(x) == 3 and x[1] == tid}
    return bool(c - {"?"})


def pid_open(f, pid, tid, legacy=True):
    """the identifiers may still be as they should be"""
    if pid_rule(f, pid, tid, legacy):
        return True
    c = {p: {x[2] for x in f if x[0] == "eq" and len(x) == 3 and x[1] == p} for p in (pid, tid)}
    differ = ("ne", tuple(sorted((pid, tid)))) in f or any(("ne", p, k) in f for p, q in ((pid, tid), (tid, pid)) for k in c[q]) or bool(c[pid] and c[tid] and not c[pid] & c[tid])
    old = not legacy or ("ne", pid, 1) in f or ("ne", tid, 0) in f or bool(c[pid] - {1}) or bool(c[tid] - {0})
    return not (differ and old)


def eqc(f, path, c):
    return ("eq", path, c) in f


def is_none(f, path):
    return ("is", path, "None") in f


def variant_known(f, path, name):
    return ("is", path, name) in f


def closed(f):
    keys = {x[1] for x in f if x[0] == "key"}
    return ("closed",) in f or any(x[0] == "len" and x[1] == len(keys) for x in f)


def bad(f, fields, names, variant, want_keys, rule=False, fine=()):
    """a fact that justifies rejecting the event (rule: the identifiers are as they should be)"""
    for x in f:
        if x[0] == "ne" and (x in fine or rule and not {"pid", "tid"}.isdisjoint({str(y) for z in x[1:2] for y in flat(z)})):
            continue
        if x[0] == "is" and x[1] in fields and x[2] != "None" or x[0] == "isnt" and x[1] in fields and "None" in x[2]:
            return True
        if x[0] == "is" and x[1] in names and x[2] == "None" or x[0] == "isnt" and x[1] in names and "Some" in x[2]:
            return True
        if x[0] == "is" and x[1] == () and x[2] != variant or x[0] == "isnt" and x[1] == () and variant in x[2]:
            return True
        if x[0] in ("ne", "bad", "nonempty", "missing", "extra", "kne"):
            return True
        if x[0] == "eq" and len(x) == 3 and x[1][-1:] == ("tid",) and x[2] == 0 and "tid" in want_keys:
            return True
    keys = {x[1] for x in f if x[0] == "key"}
    if (("closed",) in f) and set(k for k in want_keys if k != "tid") - keys:
        return True
    if ("pend",) in f:
        return True
    return False


DE = "duration_event"
D = lambda n: (DE, n)
NONE_FIELDS = (D("cat"), D("tts"), D("stack_trace"), ("tdur",), ("end_stack_trace",))


def decode(ctx, path, args):
    b = ctx.public(path)
    if b is None:
        return None, None, None
    a = Decode(mk("arg", b.id, 1), args)
    infer = {x.id for x in ctx.p.bodies.values() if x.crate.name == TT and x.kind == "fn" and not x.path.startswith("<") and x.local_ty(0).path == ACT + "::argument::ActivityArgumentType" and [repr(t) for t in x.local_ty(1).args] == ["str"]}
    a.infer = {ctx.p.bodies[i].path for i in infer}
    e = ctx.run(b, a, opaque=infer)
    ctx.anchor(f"accepted event in {short(path)}", a.oks)
    ctx.anchor(f"rejected event in {short(path)}", a.errs)
    for v in a.others:
        ctx.violation("decode", path, f"the outcome of {short(path)} is not decided", key=f"{path} unknown")
    ctx.count("accepting paths", len(a.oks))
    ctx.count("rejecting paths", len(a.errs))
    return b, a, e


def require(ctx, path, f, conds):
    for ok, msg, key in conds:
        ctx.count("conditions of accepted events")
        if not ok:
            ctx.violation("accept", path, f"{last(path)}() accepts an event {msg}", key=f"{path} {key}")


def duration(ctx, path, f):
    require(ctx, path, f, [(variant_known(f, (), "X"), "that is not known to be a complete (X) event", "variant")]
            + [(is_none(f, n), f"whose {'.'.join(n)} is not known to be absent", n) for n in NONE_FIELDS])


@check("T02")
def t02(ctx):
    ctx.rule("On every path of the event parsers that accepts an event, the following is known about it: event kind, absence of the fields that should be absent, name present, process / thread identifiers in the expected relation, "
             "timestamp (statistics, names), and every argument was looked at and had an expected name and type. The result holds exactly the event's name, time, duration, count and detail. Every rejecting path knows a reason.")
    p = ctx.p
    # ---- activities
    path = ACT + "::ActivityStat::parse"
    b, a, e = decode(ctx, path, D("args"))
    if b is not None:
        for f, val, kn in a.oks:
            duration(ctx, path, f)
            keys = {x[1] for x in f if x[0] == "key"}
            require(ctx, path, f, [(pid_rule(f, D("pid"), D("tid")), "of another thread than the main one", "tid"),
                                   (closed(f), "without looking at all of its arguments", "args"),
                                   (("pend",) not in f and ("extra",) not in f, "with an argument whose name was not checked", "key"),
                                   (keys <= {"detail"}, "with unexpected arguments", "keys")])
            activity(ctx, path, a, e, f, val, dict(kn), keys)
        ctx.anchor("accepted activities with a detail", any(("key", "detail") in f for f, val, kn in a.oks))
        for f in a.errs:
            ctx.count("rejections")
            if not bad(f, NONE_FIELDS, (D("name"),), "X", {"detail"}, pid_open(f, D("pid"), D("tid"))):
                ctx.violation("reject", path, "an activity is rejected although nothing is wrong with it", key=path + " spurious")
    # ---- global statistics
    path = TT + "::stats::global::GlobalStat::parse"
    b, a, e = decode(ctx, path, D("args"))
    if b is not None:
        for f, val, kn in a.oks:
            duration(ctx, path, f)
            keys = {x[1] for x in f if x[0] == "key"}
            tid0 = ("ne", D("tid"), 0) in f
            require(ctx, path, f, [(tid0, "whose thread identifier may be that of an activity (0)", "tid"), (eqc(f, D("ts"), 0), "whose timestamp is not zero", "ts"),
                                   (closed(f), "without looking at all of its arguments", "args"),
                                   (("pend",) not in f and ("extra",) not in f, "with an argument whose name was not checked", "key"),
                                   (keys <= {"count", "avg ms"}, "with unexpected arguments", "keys"), ("count" in keys, "without a count", "count")])
            ok = val.tag == "agg" and val.a[0] == "tuple" and len(val.a[2]) == 2 and strip(val.a[2][1]).tag == "agg"
            if not ok:
                ctx.violation("result", path, "the decoded global statistic is not known", key=path + " result")
                continue
            name, stat = strip(val.a[2][0]), strip(val.a[2][1])
            src = strip(croot_(name))
            pre = src.tag == "call" and last(e.callpath.get(src, "")) == "strip_prefix" and any(strip(x).tag == "str" and strip(x).a[0] == "Total " for x in e.deriv[src]) \
                and any(a.fp(x) == D("name") for x in e.deriv[src]) and ("have", src) in f
            if not pre:
                ctx.violation("result", path, "the name of a global statistic is not that of the event without its \"Total \" prefix", key=path + " name")
            r = dict(zip(stat.a[3], stat.a[2]))
            dur = r.get("total_duration")
            if dur is None or a.fp(dur) != ("dur",):
                ctx.violation("result", path, "the duration of a global statistic is not that of the event", key=path + " duration")
            c = r.get("count")
            cs = strip(croot_(c)) if c is not None else None
            if cs is None or cs.tag != "call" or a.src.get(cs) != {"count"} or last(e.callpath.get(cs, "")) != "as_u64":
                ctx.violation("result", path, "the count of a global statistic is not that of the event", key=path + " count")
            ctx.count("decoded fields", 3)
        for f in a.errs:
            ctx.count("rejections")
            if not bad(f, NONE_FIELDS, (D("name"), D("args")), "X", {"count", "avg ms", "tid"}, fine={("ne", D("tid"), 0)}):
                ctx.violation("reject", path, "a global statistic is rejected although nothing is wrong with it", key=path + " spurious")
    # ---- names
    for n in ("process_name", "thread_name"):
        path = f"{TT}::metadata::parse_{n}"
        b, a, e = decode(ctx, path, ("args", "extra"))
        if b is None:
            continue
        O = lambda x: ("options", x)
        for f, val, kn in a.oks:
            empty = any(x[0] == "empty" and x[1][:2] == O("cat") for x in f)
            require(ctx, path, f, [(variant_known(f, (), n), f"that is not a {n} event", "variant"), (("empty", ("args", "extra")) in f, "with unexpected arguments", "extra"),
                                   (empty and (("is", O("cat"), "Some") in f), "with categories or without a category field", "cat"),
                                   (is_none(f, O("tts")), "with a thread clock", "tts"), (eqc(f, O("ts"), 0), "whose timestamp is not zero", "ts"),
                                   (pid_rule(f, ("pid",), ("tid",), n == "process_name"), "whose process and thread identifiers do not match", "pid")])
            if a.fp(val) != ("args", "name"):
                ctx.violation("result", path, f"the {n} is not that of the event", key=path + " name")
            ctx.count("decoded fields")
        for f in a.errs:
            ctx.count("rejections")
            if not bad(f, (O("tts"),), (O("cat"), O("ts"), ("pid",), ("tid",)), n, set(), pid_open(f, ("pid",), ("tid",), n == "process_name")):
                ctx.violation("reject", path, f"a {n} event is rejected although nothing is wrong with it", key=path + " spurious")
    # ---- accessors
    for m, fl in (("ActivityStat::activity", "activity"), ("ActivityStat::start", "start"), ("ActivityStat::duration", "duration"), ("Activity::id", "id"), ("Activity::raw_argument", "arg"),
                  ("argument::RawActivityArgument::arg_type", "arg_type"), ("argument::RawActivityArgument::detail", "detail")):
        getter(ctx, f"{ACT}::{m}", fl)
    for m in ("total_duration", "count"):
        getter(ctx, f"{TT}::stats::global::GlobalStat::{m}", m)
    table(ctx)


def activity(ctx, path, a, e, f, val, kn, keys):
    ctx.count("decoded fields", 5)
    if val.tag != "agg" or not val.a[0].endswith("::ActivityStat"):
        ctx.violation("result", path, "the decoded activity is not known", key=path + " result")
        return
    r = dict(zip(val.a[3], val.a[2]))
    for n, want in (("start", D("ts")), ("duration", ("dur",))):
        if n not in r or a.fp(r[n]) != want:
            ctx.violation("result", path, f"the {n} of an activity is not that of the event", key=f"{path} {n}")
    act = strip(r.get("activity"))
    if act.tag != "agg" or not act.a[0].endswith("::Activity"):
        ctx.violation("result", path, "the decoded activity is not known", key=path + " activity")
        return
    ar = dict(zip(act.a[3], act.a[2]))
    idv, arg = strip(ar["id"]), strip(ar["arg"])
    lookup = next((x[1] for x in f if x[0] == "known"), None)
    found = next((x[2] for x in f if x[0] == "known"), None)
    byname = lookup is not None and any(a.fp(x) == D("name") for x in e.deriv.get(lookup, ())) and any(strip(x).tag == "static" for x in e.deriv.get(lookup, ()))
    if not byname:
        ctx.violation("result", path, "the activity is not looked up by the name of the event", key=path + " lookup")
        return
    if idv.tag == "agg" and idv.a[1] == "UnknownActivity":
        if found != "None" or a.fp(strip(idv.a[2][0])) != D("name"):
            ctx.violation("result", path, "an unknown activity does not keep the name of the event, or hides a known one", key=path + " unknown id")
    elif strip(croot_(idv)) is not lookup or found != "Some" or show_fields(idv)[-1:] != ["0"]:
        ctx.violation("result", path, "the identifier of an activity is not the one of its name", key=path + " id")
    if arg.tag != "agg":
        ctx.violation("result", path, "the argument of an activity is not known", key=path + " arg")
        return
    rr = dict(zip(arg.a[3], arg.a[2]))
    ty, det = strip(rr["arg_type"]), strip(rr["detail"])
    if det.tag == "agg" and det.a[1] == "Some":
        d = strip(det.a[2][0])
        own = strip(croot_(d))
        src = set()
        for x, ks in a.src.items():
            if x is d or strip(croot_(x)) is own:
                src |= ks
        if own.tag != "call" or not a.of_args(own, True) or "detail" not in src or "detail" not in keys:
            ctx.violation("result", path, "the detail of an activity is not the detail argument of the event", key=path + " detail")
    elif det.tag == "agg" and det.a[1] == "None":
        v = kn.get(ty) or (ty.a[1] if ty.tag == "agg" else None)
        if keys:
            ctx.violation("result", path, "the detail argument of an activity is lost", key=path + " lost detail")
        if v not in ("Nothing", "SymbolOpt", "UnnamedLoopOpt"):
            ctx.violation("result", path, "an activity is accepted without the detail argument that its kind requires", key=path + " no detail")
    else:
        ctx.violation("result", path, "the detail of an activity is not known", key=path + " detail")
    if found == "Some":
        if strip(croot_(ty)) is not lookup or show_fields(ty)[-1:] != ["1"]:
            ctx.violation("result", path, "the argument of a known activity is not interpreted as its table entry says", key=path + " type")
    elif not (ty.tag == "call" and e.callpath.get(ty) in a.infer and a.of_args(ty, True) or ty.tag == "agg" and (ty.a[1] == "Nothing" and not keys or not a.infer)):
        ctx.violation("result", path, "the kind of argument of an unknown activity is not inferred from it", key=path + " inferred")


def show_fields(v):
    out = []
    while v.tag in ("conv", "fld", "as", "ov", "old"):
        if v.tag == "fld":
            out.append(v.a[1])
        v = v.a[0]
    return list(reversed(out))


def consts(b):
    """constant tables of a promoted body: nested tuples of (variant, fields) / strings / numbers"""
    env, out = {}, None
    for bl in b.blocks:
        for s in bl["s"]:
            if s[0] != "=" or len(s[1]) != 1:
                continue
            env[s[1][0]] = rv(env, s[2])
    return env.get(0), env


def rv(env, r):
    op = lambda o: operand(env, o)
    if r[0] == "use":
        return op(r[1])
    if r[0] == "cast":
        return op(r[2])
    if r[0] == "ref":
        return env.get(r[2][0])
    if r[0] == "agg":
        xs = tuple(op(o) for o in r[2])
        return (r[1][3], xs) if r[1][0] == "adt" else xs
    return None


def operand(env, o):
    if o[0] == "c":
        return o[1].get("str", o[1].get("v"))
    return env.get(o[1][0])


def table(ctx):
    """the activity name table and ActivityId::name() are inverses of each other"""
    p = ctx.p
    rows = None
    for b in p.bodies.values():
        if b.path.startswith(ACT + "::ACTIVITIES"):
            _, env = consts(b)
            for v in env.values():
                if isinstance(v, tuple) and len(v) > 3 and all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and isinstance(x[1], tuple) for x in v):
                    rows = v
    if not ctx.anchor("table of known activities", rows):
        return
    b = ctx.public(ACT + "::ActivityId::name")
    if b is None:
        return
    a = Results()
    e = ctx.run(b, a)
    name = {}
    me = mk("arg", b.id, 1)
    for q, v in a.out:
        x = strip(deref(v))
        if x.tag == "str":
            name.setdefault(q, set()).add(x.a[0])
        elif q == "UnknownActivity" and fpath(x, me) is not None:
            name.setdefault(q, set()).add("payload")
        else:
            name.setdefault(q, set()).add("?")
    ctx.count("known activities", len(rows))
    seen = collections.Counter(r[0] for r in rows)
    ids = collections.Counter(r[1][0][0] for r in rows)
    for k, n in seen.items():
        if n > 1:
            ctx.violation("table", ACT + "::ACTIVITIES", f"several entries for activity {k!r}", key="dup " + k)
    for k, n in ids.items():
        if n > 1:
            ctx.violation("table", ACT + "::ACTIVITIES", f"several activity names share identifier {k}", key="shared " + k)
    for r in rows:
        got = name.get(r[1][0][0], set())
        if got != {r[0]}:
            ctx.violation("table", ACT + "::ActivityId::name", f"activity {r[0]!r} is named {sorted(got)}", key="name " + r[0])
    if name.get("UnknownActivity") != {"payload"}:
        ctx.violation("table", ACT + "::ActivityId::name", "an unknown activity is not named as in the trace", key="unknown name")
    adt = next((x for x in p.adts if x == ACT + "::ActivityId"), None)
    if adt:
        miss = {v["name"] for v in p.adts[adt]["variants"]} - set(ids) - {"UnknownActivity"}
        for m in sorted(miss):
            ctx.violation("table", ACT + "::ACTIVITIES", f"no activity name is known for identifier {m}", key="miss " + m)
