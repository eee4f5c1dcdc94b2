"""Text user interface: when results are measured anew or reused (U03)."""
from base import *
from ui import pathkey, reaching

TUI = "crofiler::ui::tui::"
LABELS = {"Yes": True, "Measure": True, "No": False, "Reuse": False}
FRESHNESS = ("profile_freshness", "derived_freshness", "product_freshness")


def text(v):
    """text of a constant string value"""
    v = strip(v)
    return v.a[0] if v is not None and v.tag == "str" else None


def negated(v):
    v, neg = strip(v), False
    while v.tag in ("not",) or v.tag == "op" and v.a[0] == "Not":
        v, neg = strip(v.a[-1]), not neg
    return v, neg


def evaluate(v, leaf):
    """value of a symbolic arithmetic expression, or None"""
    v = strip(v)
    x = leaf(v)
    if x is not None:
        return x
    if v.tag == "k":
        return v.a[0] if isinstance(v.a[0], int) else None
    if v.tag == "not" or v.tag == "op" and v.a[0] == "Not":
        x = evaluate(v.a[-1], leaf)
        return None if x is None else int(not x)
    if v.tag == "op" and len(v.a) == 3:
        a, b = evaluate(v.a[1], leaf), evaluate(v.a[2], leaf)
        if a is None or b is None:
            return None
        try:
            return {"Lt": lambda: int(a < b), "Le": lambda: int(a <= b), "Gt": lambda: int(a > b), "Ge": lambda: int(a >= b), "Eq": lambda: int(a == b),
                    "Ne": lambda: int(a != b), "Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "Div": lambda: a // b,
                    "Rem": lambda: a % b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b}[v.a[0]]()
        except (KeyError, ZeroDivisionError):
            return None
    return None


class Prompts(Automaton):
    """which prompt is made for which freshness: q = (variant, manual?, age known?, conditions on the age)"""
    init = (None, None, None, frozenset())

    def __init__(self, fresh, manual):
        self.fresh, self.manual, self.prompts, self.seen = fresh, manual, {}, set()

    def step(self, q, ev, st):
        var, man, age, conds = q
        e = self.eng
        if ev.kind == "outcome":
            v = strip(ev.val)
            if v is self.fresh:
                return (ev.extra, man, age, conds)
            if ev.extra in ("Some", "None") and v is not self.fresh and mentions(v, self.fresh):
                return (var, man, ev.extra, conds)
        elif ev.kind == "cond" and ev.extra[0] == "k":
            v, neg = negated(ev.val)
            if v is self.manual:
                return (var, bool(ev.extra[1]) != neg, age, conds)
            if e.derives(v, lambda x: x is self.fresh) and len(conds) < 8:
                return (var, man, age, conds | {(strip(ev.val), ev.extra[1])})
        elif ev.kind == "exit" and ev.extra == "return":
            v = strip(ev.val)
            if v.tag != "agg" or v.a[1] not in ("Some", "None"):
                e.report("prompt", ev, f"it is not known whether the user is asked when the product is {var}", f"unknown {var}")
                return q
            some = v.a[1] == "Some"
            if some:
                self.prompts[strip(v.a[2][0])] = var
            self.seen.add((var, some))
            if var in ("Nonexistent", "Outdated", None):
                if not some:
                    e.report("prompt", ev, f"the user is not asked although the product is {var or 'possibly outdated'}", f"none {var}")
            elif not some:
                if man is not True and (age == "None" or self.possible(conds, 60) or self.possible(conds, 600000)):
                    e.report("prompt", ev, "the user is not asked about a default product that is not recent", "none old")
            elif man is not False:
                e.report("prompt", ev, "the user may be asked about a product that was specified manually and is not known to be outdated", "some manual")
            elif age != "None" and (self.possible(conds, 0) or self.possible(conds, 59)):
                e.report("prompt", ev, "the user is asked about a product that is less than a minute old", "some recent")
        return q

    def possible(self, conds, secs):
        def leaf(x):
            n = last(self.eng.callpath.get(x, "")) if x.tag == "call" else None
            return {"as_secs": secs, "as_millis": secs * 1000, "as_secs_f64": secs, "as_secs_f32": secs, "as_micros": secs * 10**6, "as_nanos": secs * 10**9}.get(n)
        for c, val in conds:
            x = evaluate(c, leaf)
            if x is None or bool(x) != bool(val):
                return False
        return True


class Buttons(Automaton):
    """collects the buttons of a dialog"""
    init = 0

    def __init__(self):
        self.buttons = []

    def step(self, q, ev, st):
        if ev.kind == "call" and not ev.inl and last(ev.path) == "button" and len(ev.args) > 2:
            self.buttons.append((text(ev.args[1]), strip(ev.args[2]), ev.fr, ev.sp, st.copy()))
        return q


class Reply(Automaton):
    """what a button tells to the reply handler: q = number of calls"""
    init = 0

    def __init__(self, handler, label):
        self.handler, self.label, self.told = handler, label, set()

    def step(self, q, ev, st):
        e = self.eng
        if ev.kind == "callback" and e.derives(ev.val, lambda x: x is self.handler):
            v = strip(ev.args[1])
            want = LABELS.get(self.label)
            self.told.add(v)
            if v.tag != "k" or want is None:
                e.report("buttons", ev, f"it is not known what button '{self.label}' stands for", f"unknown {self.label}")
            elif bool(v.a[0]) != want:
                e.report("buttons", ev, f"button '{self.label}' {'requests' if v.a[0] else 'declines'} a measurement", f"swapped {self.label}")
            return min(q + 1, 2)
        if ev.kind == "exit" and ev.extra == "return" and q != 1:
            e.report("buttons", ev, f"button '{self.label}' {'does not tell anyone that it was pressed' if q == 0 else 'answers several times'}", f"calls {q}")
        return q


class Answer(Automaton):
    """reply handler of a dialog that waits for its answer: q = (answer stored, event loop left)"""
    init = (False, False)

    def __init__(self, caps, reply):
        self.caps, self.reply, self.where = caps, reply, set()

    def step(self, q, ev, st):
        e = self.eng
        stored, left = q
        if ev.kind == "assign" and ev.val is not None:
            old = ev.extra[1]
            t = self.target(old)
            if t is not None:
                stored = self.store(ev, ev.val, t)
        elif ev.kind == "call" and not ev.inl:
            if last(ev.path) == "quit":
                return (stored, True)
            if last(ev.path) in ("send", "set", "replace", "store", "insert") and len(ev.args) > 1:
                t = self.target(ev.args[0])
                if t is not None:
                    stored = self.store(ev, ev.args[1], t)
        elif ev.kind == "exit" and ev.extra == "return":
            if not stored:
                e.report("answer", ev, "the user's answer is not passed on", "lost")
            if not left:
                e.report("answer", ev, "the dialog keeps waiting after the user has answered", "stuck")
        return (stored, left)

    def target(self, v):
        if v is None:
            return None
        for c in self.caps:
            if self.eng.derives(v, lambda x: x is c):
                return c
        return None

    def store(self, ev, v, t):
        v = strip(v)
        if v.tag == "agg" and v.a[1] == "Some":
            v = strip(v.a[2][0])
        if v is self.reply:
            self.where.add(t)
            return True
        self.eng.report("answer", ev, "something else than the user's answer is passed on", "altered")
        return True


class Update(Automaton):
    """reuse or measure: q = (freshness ok, exists, prompt, answer, measured, path looked at)"""
    init = (None, None, None, None, None, None)

    def __init__(self, fresh, prompt, ask, measure, default):
        self.fn = dict(fresh=fresh, prompt=prompt, ask=ask, measure=measure)
        self.tok, self.default, self.seen, self.show = {}, default, set(), []

    def which(self, ev):
        for k, v in self.fn.items():
            if ev.path in v:
                return k

    def step(self, q, ev, st):
        ok, ex, prompt, ans, meas, path = q
        e = self.eng
        if ans == "later" and ev.kind != "exit":
            return q        # the reply handler is looked at separately
        if ev.kind == "call" and not ev.inl:
            k = self.which(ev)
            if k:
                self.seen.add(k)
                self.tok.setdefault(k, set()).add(ev.res)
            if k == "fresh":
                return (ok, ex, prompt, ans, meas, pathkey(e, ev.args[1]))
            elif k == "prompt":
                if not self.of("fresh", ev.args[0]):
                    e.report("reuse", ev, "the user is asked about something else than the freshness of the product", "other freshness")
                self.manual(ev, q)
            elif k == "measure":
                if ans is not True:
                    e.report("reuse", ev, "a measurement is started although the user did not ask for it", "unasked measurement")
                if path not in [pathkey(e, a) for a in ev.args]:
                    e.report("reuse", ev, "the product that gets measured is not the one whose freshness was looked at", "other product measured")
                return (ok, ex, prompt, ans, "started", path)
        elif ev.kind in ("outcome", "notoutcome"):
            v = strip(ev.val)
            if ev.kind == "outcome" and ev.extra in ("Ok", "Err") and v in self.tok.get("fresh", ()):
                return (ev.extra == "Ok", ex, prompt, ans, meas, path)
            if ev.kind == "outcome" and ev.extra in ("Some", "None") and v in self.tok.get("prompt", ()):
                return (ok, ex, ev.extra == "Some", ans, meas, path)
            if ev.kind == "outcome" and ev.extra in ("Some", "None") and v in self.tok.get("ask", ()):
                return (ok, ex, prompt, "asked" if ev.extra == "Some" else "quit", meas, path)
            if self.of("fresh", v) and v not in self.tok["fresh"]:
                if ev.kind == "outcome" and ev.extra in ("Nonexistent", "Outdated", "MaybeOutdated"):
                    return (ok, ev.extra != "Nonexistent", prompt, ans, meas, path)
                if ev.kind == "notoutcome" and "Nonexistent" in ev.extra:
                    return (ok, True, prompt, ans, meas, path)
        elif ev.kind == "cond" and ev.extra[0] == "k":
            v, neg = negated(ev.val)
            yes = bool(ev.extra[1]) != neg
            if v in self.tok.get("measure", ()):
                return (ok, ex, prompt, ans, yes, path)
            if v.tag == "isv" and v.a[1] == "Nonexistent" and self.of("fresh", v.a[0]):
                return (ok, not yes, prompt, ans, meas, path)
            if self.of("ask", v) and v.tag != "isv" and v not in self.tok["ask"]:
                return (ok, ex, prompt, yes, meas, path)
            if v.tag == "call" and last(e.callpath.get(v, "")) == "exists" and any(self.of("fresh", a) for a in e.deriv.get(v, ())):
                return (ok, yes, prompt, ans, meas, path)
        return self.use(q, ev, st)

    def of(self, k, v):
        return strip(root_of(v)) in self.tok.get(k, ())

    def manual(self, ev, q):
        pass

    def use(self, q, ev, st):
        return q


class UpdateProfile(Update):
    def manual(self, ev, q):
        e = self.eng
        v = strip(ev.args[1])
        if not (v.tag == "isv" and v.a[1] == "Some" and "build_profile" in show(v.a[0])) and not (v.tag == "k"):
            e.report("reuse", ev, "it is not known whether the product was specified manually", "manual unknown")
        elif v.tag == "k":
            user = self.user(q[5])
            if bool(v.a[0]) != user:
                e.report("reuse", ev, "a product is taken to be specified manually or not when it is the other way round", "manual wrong")

    def user(self, p):
        return self.eng.derives(p, lambda x: "build_profile" in show(x)[-40:])

    def use(self, q, ev, st):
        ok, ex, prompt, ans, meas, path = q
        e = self.eng
        if ev.kind == "exit" and ev.extra == "return":
            v = strip(ev.val)
            if v.tag != "agg" or v.a[1] not in ("Some", "None"):
                e.report("reuse", ev, "it is not known whether a product is displayed", "unknown result")
                return q
            if v.a[1] == "Some":
                if pathkey(e, v.a[2][0]) is not path:
                    e.report("reuse", ev, "the product that gets displayed is not the one whose freshness was looked at", "other product")
                good = prompt is False or prompt and ans is True and meas is True or prompt and ans is False and ex is True
                if not good:
                    e.report("reuse", ev, "a product gets displayed that was not measured successfully and " +
                             ("may not exist" if ans is False else "that the user did not agree to reuse"), f"shown {prompt} {ans} {meas} {ex}")
            elif not (ok is False or prompt and (ans == "quit" or ans is True and meas is False or ans is False and ex is False)):
                e.report("reuse", ev, "a product that exists and is fine with the user does not get displayed", f"not shown {prompt} {ans} {meas} {ex}")
        return q


class Wizard(Update):
    """like Update, for a dialog that calls back: use of the product is a call of the loader; q[4] = "started" | "loaded" """

    def __init__(self, *a, loader=(), showdlg=(), **k):
        super().__init__(*a, **k)
        self.loader, self.showdlg = loader, showdlg

    def manual(self, ev, q):
        v = strip(ev.args[1])
        if v.tag != "k" or v.a[0]:
            self.eng.report("reuse", ev, "a time trace is taken to be specified manually", "manual wrong")

    def use(self, q, ev, st):
        ok, ex, prompt, ans, meas, path = q
        e = self.eng
        if ev.kind == "call" and not ev.inl:
            if ev.path in self.loader:
                self.seen.add("load")
                if not any(pathkey(e, a) is path for a in ev.args):
                    e.report("reuse", ev, "the trace that gets displayed is not the one whose freshness was looked at", "other trace")
                if not (prompt is False or ans is False and ex is True):
                    e.report("reuse", ev, "an existing trace gets displayed although the user was not asked or chose to measure it again, or it may not exist", f"loaded {prompt} {ans} {ex}")
                if meas is not None:
                    e.report("reuse", ev, "a trace gets displayed twice", "loaded twice")
                return (ok, ex, prompt, ans, "loaded", path)
            if ev.path in self.showdlg:
                self.seen.add("show")
                for a in map(strip, ev.args):
                    if a.tag == "clo":
                        self.show.append((a, ev.fr, ev.sp, st.copy(), q))
                if not (any(self.of("prompt", a) for a in ev.args)):
                    e.report("reuse", ev, "the dialog shown is not the one that was called for", "other dialog")
                return (ok, ex, prompt, "later", meas, path)
        elif ev.kind == "cond" and ev.extra[0] == "k":
            v, neg = negated(ev.val)
            if v is getattr(self, "reply", None):
                return (ok, ex, prompt, bool(ev.extra[1]) != neg, meas, path)
        elif ev.kind == "exit" and ev.extra == "return":
            if prompt is False and meas != "loaded":
                e.report("reuse", ev, "a trace that is up to date does not get displayed", "not loaded")
            elif prompt is True and ans is None:
                e.report("reuse", ev, "the user does not get asked what to do about a trace", "not asked")
            elif ans is True and meas != "started":
                e.report("reuse", ev, "a measurement that was requested is not started", "not started")
            elif ans is False and ex is not False and meas != "loaded":
                e.report("reuse", ev, "a trace that exists and is fine with the user does not get displayed", "not loaded2")
        return q


@check("U03")
def u03(ctx):
    p = ctx.p
    ctx.rule("CreatePrompt::from_freshness: Some(prompt) on every path for nonexistent and outdated products; otherwise None exactly on paths where the product was manually specified or its age condition holds below 60 s only.")
    ctx.rule("CreatePrompt::show, run for every prompt made: the closure of each button calls the reply handler once on every path, with true for Yes/Measure and false for No/Reuse; CreatePrompt::ask stores that answer unchanged, leaves the event loop and returns it.")
    ctx.rule("Dialogs: measurement only after an affirmative answer; the product looked at, measured and displayed is one path value; it is displayed iff no prompt, or answered true and measured, or answered false and it exists.")
    fresh = ctx.public(TUI + "create::CreatePrompt::from_freshness")
    shown = ctx.public(TUI + "create::CreatePrompt::show")
    ask = ctx.public(TUI + "create::CreatePrompt::ask")
    if not (fresh and shown and ask):
        return
    args = {i: mk("arg", fresh.id, i) for i in (1, 2)}
    fr = [i for i in args if "ProductFreshness" in (fresh.local_ty(i).path or "")]
    ctx.anchor("freshness parameter of from_freshness", fr)
    pr = Prompts(args[fr[0] if fr else 1], args[3 - (fr[0] if fr else 1)])
    ctx.run(fresh, pr, args=args)
    ctx.anchor("prompts for each freshness", {v for v, s in pr.seen if s} >= {"Nonexistent", "Outdated", "MaybeOutdated"} and ("MaybeOutdated", False) in pr.seen)
    kinds = set()
    for prm in pr.prompts:
        if prm.tag != "agg":
            ctx.violation("buttons", fresh.path, "the prompt is made in an unknown way", "unknown prompt")
            continue
        key = tuple(x if strip(x).tag in ("str", "k") and i else None for i, x in enumerate(prm.a[2]))
        if key in kinds:
            continue
        kinds.add(key)
        bt = Buttons()
        sargs = {i: mk("arg", shown.id, i) for i in range(1, shown.argc + 1)}
        sargs[1] = prm
        e = ctx.run(shown, bt, args=sargs)
        labels = {}
        for lab, clo, f, sp, st in bt.buttons:
            if clo.tag != "clo":
                ctx.violation("buttons", shown.path, f"it is not known what button '{lab}' does", f"opaque {lab}")
                continue
            r = Reply(sargs[shown.argc], lab)
            ctx.fork(e, (clo, f, sp, st), r)
            labels[lab] = r.told
            ctx.count("buttons")
            ctx.sample("buttons", f"{lab}: {sorted(show(x) for x in r.told)}")
        if len({v for s in labels.values() for v in s}) < 2:
            ctx.violation("buttons", shown.path, "a dialog does not offer both choices", "one choice " + str(sorted(map(str, labels))))
    ctx.anchor("prompts", kinds)
    # ask
    class Ask(Automaton):
        init = 0

        def __init__(self):
            self.handlers, self.rets = [], []

        def step(self, q, ev, st):
            if ev.kind == "call" and not ev.inl and ev.path == shown.path:
                for a in map(strip, ev.args):
                    if a.tag == "clo":
                        self.handlers.append((a, ev.fr, ev.sp, st.copy()))
            elif ev.kind == "exit" and ev.extra == "return":
                self.rets.append((ev, ev.val))
            return q
    a = Ask()
    e = ctx.run(ask, a, opaque=[shown.id])
    ctx.anchor("reply handler of CreatePrompt::ask", a.handlers)
    ctx.anchor("result of CreatePrompt::ask", a.rets)
    where = set()
    for clo, f, sp, st in a.handlers:
        caps = [strip(root_of(x)) for x in clo.a[2]]
        an = Answer(caps, mk("arg", clo.a[0], 3))
        ctx.fork(e, (clo, f, sp, st), an)
        where |= an.where
        ctx.count("reply handlers")
    for ev, v in a.rets:
        if not any(e.derives(v, lambda x: x is c) for c in where) or has_op(v):
            ctx.violation("answer", ask.path, "the value returned is not the user's answer", "other answer")
    # full-build profile
    meas = {b.path for b in p.bodies.values() if b.crate.name == "crofiler" and b.kind != "closure" and
            any(True for _ in direct_calls(b, lambda x: x == "cmakeperf::measure::Measurement::start"))}
    up = [b for b in p.bodies.values() if b.crate.name == "crofiler" and b.path.startswith(TUI + "build") and
          any(True for _ in direct_calls(b, lambda x: x == fresh.path))]
    mfn = set()
    cg, callers = call_graph(p)
    for b in up:
        reach = reaching(p, lambda x: x.path in meas)
        mfn |= {c for c in cg.get(b.id, ()) if c in reach and p.bodies[c].kind != "closure"}
    frs = {b.path for b in p.bodies.values() if b.crate.name == "cmakeperf" and last(b.path) in FRESHNESS}
    op = [fresh.id, shown.id, ask.id] + sorted(mfn) + [b.id for b in p.bodies.values() if b.path in frs]
    ctx.anchor("function that brings the full-build profile up to date", up)
    for b in up:
        u = UpdateProfile(frs, {fresh.path}, {ask.path}, {p.bodies[m].path for m in mfn}, None)
        ctx.run(b, u, opaque=op)
        ctx.count("dialogs")
        for k in ("fresh", "prompt", "ask", "measure"):
            ctx.anchor(f"{k} step of {b.path}", k in u.seen)
    # time trace
    wz = [b for b in p.bodies.values() if b.crate.name == "crofiler" and b.path.startswith(TUI + "trace") and
          any(True for _ in direct_calls(b, lambda x: x == fresh.path))]
    ctx.anchor("function that brings a time trace up to date", wz)
    sm = {b.path for b in p.bodies.values() if b.path == TUI + "trace::measure::start_measure"}
    ld = {b.path for b in p.bodies.values() if b.path == TUI + "trace::load::show_loader"}
    ctx.anchor("start_measure and show_loader", sm and ld)
    op += [b.id for b in p.bodies.values() if b.path in sm | ld]
    for b in wz:
        w = Wizard(frs, {fresh.path}, {ask.path}, sm, None, loader=ld, showdlg={shown.path})
        e = ctx.run(b, w, opaque=op)
        ctx.count("dialogs")
        seen = set(w.seen)
        for clo, f, sp, st, q in w.show:
            w2 = Wizard(frs, {fresh.path}, {ask.path}, sm, None, loader=ld, showdlg={shown.path})
            w2.init = q[:3] + ("told",) + q[4:]
            w2.tok, w2.reply = w.tok, mk("arg", clo.a[0], 3)
            ctx.fork(e, (clo, f, sp, st), w2)
            seen |= w2.seen
            ctx.count("reply handlers")
        for k in ("fresh", "prompt", "show", "measure", "load"):
            ctx.anchor(f"{k} step of {b.path}", k in seen)


def has_op(v):
    v = strip(v)
    if v.tag in ("op", "not"):
        return True
    return any(has_op(x) for x in v.a if isinstance(x, V)) or any(has_op(y) for x in v.a if isinstance(x, tuple) for y in x if isinstance(y, V))
