"""Text user interface: waiting screens and profile layers (U04, U08)."""
from base import *
from dialogs import evaluate, negated, text, TUI
from procs import CHILD
from ui import sites

LAYER = "layers_below_profile"


def fields(ev):
    """field names of the place that an assignment writes"""
    return [x[1] for x in ev.extra[0][1] if isinstance(x, tuple) and x[0] == "f"]


def closures(e, vals, depth=0):
    """closures held by values, through aggregates and boxes"""
    for v in vals:
        v = strip(v)
        if v.tag == "clo":
            yield v
        elif v.tag == "agg":
            yield from closures(e, v.a[2], depth)
        elif v.tag == "call" and depth < 4 and last(e.callpath.get(v, "")) in ("new", "from", "into", "pin"):
            yield from closures(e, e.deriv.get(v, ()), depth + 1)


def is_ui(ev, *names):
    return ev.kind == "call" and not ev.inl and last(ev.path) in names and ev.path.startswith(("cursive", "<cursive"))


def inside(e, ev):
    """event of a closure that was given to somebody else, who may run it later"""
    fr = ev.fr
    while fr is not None:
        if isinstance(fr.pstage, tuple) and fr.pstage[0] == "hof":
            return True
        fr = e.frames[fr.parent] if fr.parent is not None else None
    return False


class Screen(Automaton):
    """state of the screen as far as waiting dialogs are concerned; s = (escape, fps, layers, open)
         escape  None | "off" | "on"      no_escape = true | false
         fps     None | "saved" | "auto" | "back"
         layers  None | "kept" (count recorded) | "more" | "done"
         open    number of layers added (0..2)
    """
    empty = (None, None, None, 0)

    def screen(self, s, ev):
        esc, fps, lay, dlg = s
        e = self.eng
        if ev.kind == "assign" and ev.val is not None:
            f = fields(ev)
            if f and f[-1] == "no_escape":
                v = strip(ev.val)
                if v.tag == "k":
                    return ("off" if v.a[0] else "on", fps, lay, dlg)
            if f and f[-1] == LAYER:
                v = strip(ev.val)
                if not self.is_len(v):
                    self.bad(ev, "the number of layers recorded is not the number of layers on screen", "layers value")
                if dlg:
                    self.bad(ev, "the number of layers is recorded after the waiting dialog was added, which will thus be left on screen", "layers late")
                return (esc, fps, "kept", dlg)
        elif is_ui(ev, "fps"):
            return (esc, "saved" if fps is None else fps, lay, dlg)
        elif is_ui(ev, "set_autorefresh"):
            if fps != "saved":
                self.bad(ev, "the refresh rate is changed without saving the previous one", "fps unsaved")
            return (esc, "auto", lay, dlg)
        elif is_ui(ev, "set_fps"):
            v = strip(ev.args[1])
            if v.tag == "k" and not v.a[0] or e.derives(v, lambda x: x.tag == "call" and last(e.callpath.get(x, "")) == "fps"):
                return (esc, "back", lay, dlg)
            self.bad(ev, "the refresh rate is not set back to what it was", "fps value")
        elif is_ui(ev, "add_layer", "add_fullscreen_layer"):
            return (esc, fps, lay, min(dlg + 1, 2))
        elif is_ui(ev, "pop_layer"):
            if lay != "more":
                self.bad(ev, "a layer is removed although there may be none left above those from before the wait", "pop")
            return (esc, fps, "popped", dlg)
        elif ev.kind == "outcome" and ev.extra in ("Some", "None") and self.excess(strip(ev.val)):
            # once per layer in excess
            return (esc, fps, lay if lay == "more" else "more" if ev.extra == "Some" else "done", dlg)
        elif ev.kind == "cond" and ev.extra[0] == "k" and LAYER in show(ev.val):
            eq, more = self.holds(ev, 3), self.holds(ev, 4)
            if eq is not None and more is not None:
                return (esc, fps, "more" if more and not eq else "done" if eq and not more else lay, dlg)
        return s

    def is_len(self, v):
        return v.tag == "call" and last(self.eng.callpath.get(v, "")) == "len"

    def excess(self, v):
        """the next item of a range with as many items as there are layers above those from before the wait"""
        e = self.eng
        if v.tag != "call" or last(e.callpath.get(v, "")) != "next":
            return False

        def minus(x):
            x = strip(x)
            if x.tag == "op" and x.a[0] == "Sub":
                a, b = x.a[1], x.a[2]
            elif x.tag == "call" and last(e.callpath.get(x, "")) == "saturating_sub":
                ds = list(e.deriv.get(x, ()))
                a, b = next((d for d in ds if self.is_len(strip(d))), None), next((d for d in ds if show(d).endswith(LAYER)), None)
            else:
                return False
            return a is not None and b is not None and self.is_len(strip(a)) and show(b).endswith(LAYER)
        rs = []
        e.derives(v, lambda x: rs.append(x) if x.tag == "agg" and last(x.a[0] or "") == "Range" else False)
        return len(rs) == 1 and strip(rs[0].a[2][0]).tag == "k" and strip(rs[0].a[2][0]).a[0] == 0 and minus(rs[0].a[2][1])

    def holds(self, ev, n):
        def leaf(x):
            if self.is_len(x):
                return n
            if show(x).endswith(LAYER):
                return 3
        r = evaluate(ev.val, leaf)
        return None if r is None else bool(r) == bool(ev.extra[1])

    def closed(self, s, ev, when):
        esc, fps, lay, dlg = s
        if esc != "on":
            self.bad(ev, f"the Esc key remains disabled {when}", "escape " + when)
        if fps != "back":
            self.bad(ev, f"the refresh rate is not restored {when}", "fps " + when)
        if lay != "done":
            self.bad(ev, f"the waiting screen is not removed {when}", "layers " + when)

    def bad(self, ev, msg, key):
        self.eng.report("screen", ev, msg, key)


class Open(Screen):
    """function that shows a waiting screen: q = (screen, started)"""
    init = (Screen.empty, False)

    def __init__(self, begin):
        self.begin, self.buttons, self.jobs = begin, [], []

    def step(self, q, ev, st):
        s, started = q
        e = self.eng
        if inside(e, ev):
            return q
        if ev.kind == "call" and not ev.inl and last(ev.path) == "button" and len(ev.args) > 2:
            for c in closures(e, ev.args[2:3]):
                self.buttons.append((text(ev.args[1]), c, ev.fr, ev.sp, st.copy()))
            return q
        job = self.begin(self, ev)
        if job is not None:
            self.jobs.append((job, ev.fr, ev.sp, st.copy()))
            return (s, True)
        s = self.screen(s, ev)
        if ev.kind == "exit" and ev.extra == "return" and started:
            esc, fps, lay, dlg = s
            if not dlg:
                self.bad(ev, "work goes on without a waiting screen that lets one abort it", "no dialog")
            if lay != "kept":
                self.bad(ev, "the number of layers to go back to is not recorded", "layers unrecorded")
            if fps != "auto":
                self.bad(ev, "the screen may not be refreshed when the work is done", "no refresh")
            if esc != "off":
                self.bad(ev, "the Esc key may close the waiting screen without aborting anything", "escape on")
        elif ev.kind == "exit" and ev.extra == "return" and s[0] == "off":
            self.bad(ev, "the Esc key is disabled although nothing was started", "escape off")
        return (s, started)


class Flagged(Screen):
    """knows about the flag of an aborted job"""

    def flag_caps(self, v):
        """values that an atomic operand may stand for"""
        e = self.eng
        return {x for x in self.flags if e.derives(v, lambda y: y is x)}


class Abort(Flagged):
    """Abort button: q = (screen, flag set, empty?, quit, new thread)"""
    init = (Screen.empty, False, None, False, False)

    def __init__(self, flags, closes=True):
        self.flags, self.closes, self.set = flags, closes, set()

    def step(self, q, ev, st):
        s, flag, empty, quit_, new = q
        e = self.eng
        if inside(e, ev):
            return q
        if ev.kind == "call" and not ev.inl and is_atomic(ev.path, "store", "swap", "fetch_or"):
            f = self.flag_caps(ev.args[0])
            v = strip(ev.args[1])
            if f and v.tag == "k" and v.a[0]:
                self.set |= f
                return (s, True, empty, quit_, new)
        elif ev.kind == "call" and not ev.inl and last(ev.path) == "quit":
            if empty is not True:
                self.bad(ev, "aborting quits the application although there is something to go back to", "quit early")
            return (s, flag, empty, True, new)
        elif ev.kind == "cond" and ev.extra[0] == "k":
            v, neg = negated(ev.val)
            if v.tag == "call" and last(e.callpath.get(v, "")) == "is_empty":
                return (s, flag, bool(ev.extra[1]) != neg, quit_, new)
        elif ev.kind == "assign" and ev.val is not None and fields(ev)[-1:] == ["processing_thread"]:
            return (s, flag, empty, quit_, True)
        elif ev.kind == "exit" and ev.extra == "return":
            if not flag:
                self.bad(ev, "the job goes on as if it had not been aborted", "flag unset")
            if self.closes:
                self.closed(s, ev, "when aborting")
                if empty is not False and not quit_:
                    self.bad(ev, "the application goes on with an empty screen after aborting", "no quit")
                if not quit_ and not new:
                    self.bad(ev, "later requests go to the thread that is busy with the aborted job", "old thread")
        return (self.screen(s, ev), flag, empty, quit_, new)


class Loaded(Flagged):
    """what is done in the main thread once a trace is loaded: q = (screen, canceled?, result, shown, error dialog, norm, display)"""
    init = (Screen.empty, None, None, False, False, False, False)

    def __init__(self, flags, result):
        self.flags, self.result, self.seen, self.read = flags, result, set(), set()

    def step(self, q, ev, st):
        s, can, res, shown, err, norm, disp = q
        e = self.eng
        if inside(e, ev):
            return q
        if ev.kind == "cond" and ev.extra[0] == "k":
            v, neg = negated(ev.val)
            if v.tag == "call" and is_atomic(e.callpath.get(v, ""), "load", "swap", "fetch_or") and any(self.flag_caps(a) for a in e.deriv.get(v, ())):
                for a in e.deriv.get(v, ()):
                    self.read |= self.flag_caps(a)
                self.seen.add("flag")
                return (s, bool(ev.extra[1]) != neg, res, shown, err, norm, disp)
        if ev.kind == "outcome" and ev.extra in ("Ok", "Err") and strip(root_of(ev.val)) is self.result and strip(ev.val) is self.result:
            self.seen.add(ev.extra)
            return (s, can, ev.extra, shown, err, norm, disp)
        effect = ev.kind == "assign" and ev.val is not None and isinstance(ev.extra[0][0], tuple) and ev.extra[0][0][0] == "H" or \
            is_ui(ev, "add_layer", "add_fullscreen_layer", "pop_layer", "set_fps", "quit", "set_autorefresh", "clear") or \
            ev.kind == "call" and not ev.inl and (is_send(ev.path) or is_recv(ev.path))
        if effect and can is not False:
            self.bad(ev, "a trace whose loading was aborted still has an effect" if can else "a loaded trace has an effect although its loading may have been aborted", f"effect {can}")
        if ev.kind == "assign" and ev.val is not None:
            f = fields(ev)
            if f[-1:] == ["global_percent_norm"]:
                v = strip(ev.val)
                norm = norm or v.tag == "agg" and v.a[1] == "Some"
            if f[-1:] == ["duration_display"]:
                v = strip(ev.val)
                disp = disp or v.tag == "agg" and v.a[1] == "None"
        if is_ui(ev, "add_fullscreen_layer"):
            self.seen.add("shown")
            if shown:
                self.bad(ev, "a loaded trace is displayed twice", "twice")
            if res != "Ok":
                self.bad(ev, "a trace is displayed that is not known to have been loaded", "not loaded")
            if not norm:
                self.bad(ev, "percentages of a new trace are relative to a previous one", "norm")
            if not disp:
                self.bad(ev, "durations of a new trace are displayed relative to a previous one", "display")
            self.closed(s, ev, "when a trace is displayed")
            return (s, can, res, True, err, norm, disp)
        if is_ui(ev, "add_layer"):
            if res == "Ok":
                self.bad(ev, "an error is reported although the trace was loaded", "false error")
            elif s[2] != "done":
                self.closed(s, ev, "when an error is displayed")
            return (s, can, res, shown, True, norm, disp)
        if ev.kind == "exit" and ev.extra == "return":
            if can is False:
                self.closed(s, ev, "when loading is over")
                if res == "Err" and not err:
                    self.bad(ev, "failure to load a trace is not reported", "silent")
                if res == "Ok" and not shown:
                    self.bad(ev, "a loaded trace is not displayed", "not shown")
                if res is None:
                    self.bad(ev, "nobody looks whether the trace was loaded", "no result")
            elif can is None:
                self.bad(ev, "nobody looks whether loading was aborted", "no flag")
        return (self.screen(s, ev), can, res, shown, err, norm, disp)


class Once(Automaton):
    """completion callback of a load: sends a closure to the main thread once: q = closures sent"""
    init = 0

    def __init__(self):
        self.sent = []

    def step(self, q, ev, st):
        if inside(self.eng, ev):
            return q
        if ev.kind == "call" and not ev.inl and is_send(ev.path):
            for c in closures(self.eng, ev.args[1:]):
                self.sent.append((c, ev.fr, ev.sp, st.copy()))
            if q:
                self.eng.report("screen", ev, "the end of the load is handled twice", "two ends")
            return 1
        if ev.kind == "exit" and ev.extra == "return" and not q:
            self.eng.report("screen", ev, "the end of the load is not handled", "no end")
        return q


def request(auto, ev):
    """start of a load: the closure in the request that is sent to the processing thread"""
    if ev.kind == "call" and not ev.inl and is_send(ev.path):
        for a in map(strip, ev.args[1:]):
            if a.tag == "agg" and a.a[1] == "LoadTrace":
                for c in closures(auto.eng, [a]):
                    return c


@check("U04")
def u04(ctx):
    ctx.rule("Typestate of the waiting screen (Esc handling, refresh rate, layers) over show_loader, its Abort button and the closures run when the load is over.")
    ctx.rule("In the completion closure, no effect before the abort flag was read as false; flag read there = flag set by the Abort button, which also restores the screen and either quits (empty screen) or replaces the processing thread.")
    p = ctx.p
    fs = [b for b in p.bodies.values() if b.path == TUI + "trace::load::show_loader"]
    ctx.anchor("function that loads a trace", fs)
    for b in fs:
        o = Open(request)
        e = ctx.run(b, o)
        ctx.anchor("request to load a trace", o.jobs)
        ctx.anchor("button of the waiting screen", o.buttons)
        ctx.count("functions")
        flags = set()
        inner = []
        seen = set()
        for rec in o.jobs:
            n = Once()
            f = ctx.fork(e, rec, n)
            ctx.count("completion callbacks")
            for c, fr, sp, st in n.sent:
                if c in seen:
                    continue
                seen.add(c)
                inner.append((f, c, fr, sp, st, rec[0]))
        ctx.anchor("closure run in the main thread when a load is over", inner)
        for lab, c, fr, sp, st in o.buttons:
            flags |= atoms(e, c)
        read, set_, got = set(), set(), set()
        for f, c, fr, sp, st, cb in inner:
            l = Loaded(flags, mk("arg", cb.a[0], 2))
            ctx.fork(f, (c, fr, sp, st), l)
            ctx.count("main thread closures")
            read |= l.read
            got |= l.seen
        for k in ("flag", "Ok", "Err", "shown"):
            ctx.anchor(f"{k} case of the completion of a load", k in got)
        for lab, c, fr, sp, st in o.buttons:
            a = Abort(flags)
            ctx.fork(e, (c, fr, sp, st), a)
            ctx.count("buttons")
            ctx.sample("buttons", str(lab))
            if not a.set & read:
                ctx.violation("screen", b.path, "the flag that is set when a load is aborted is not the one that is looked at when it is over", "other flag")


def atoms(e, v):
    """atomic cells reachable from a closure's captures"""
    out = set()

    def visit(x, depth=0):
        if isinstance(x, tuple):
            for y in x:
                visit(y, depth)
            return
        if not isinstance(x, V) or depth > 12:
            return
        if x.tag == "call" and is_atomic(e.callpath.get(x, ""), "new"):
            out.add(x)
        visit(x.a, depth + 1)
        if x.tag == "call":
            for y in e.deriv.get(x, ()):
                visit(y, depth + 1)
    visit(v.a[2] if v.tag == "clo" else v)
    return out


# ------------------------------------------------------------ measurements
class Closing(Screen):
    """closure run in the main thread: does it close the waiting screen (on all paths), does it display something"""
    init = Screen.empty

    def __init__(self):
        self.opens, self.ends = False, []

    def step(self, q, ev, st):
        if inside(self.eng, ev):
            return q
        if is_ui(ev, "add_layer", "add_fullscreen_layer"):
            self.opens = True
        s = self.screen(q, ev)
        if ev.kind == "exit" and ev.extra == "return":
            self.ends.append((s, ev))
        return s

    def touches(self):
        return any(s[0] or s[1] in ("auto", "back") or s[2] for s, _ in self.ends)


class Finish(Flagged):
    """thread that awaits clang: q = (closes sent, failure known, failure reported, kill/exit/None, waited since the flag was read, abort seen)"""
    init = (0, False, False, None, False, False)

    def __init__(self, flags, closing=(), showing=()):
        self.flags, self.closing, self.showing, self.sent, self.read, self.seen = flags, closing, showing, [], set(), set()

    def step(self, q, ev, st):
        n, fail, told, gone, waited, abort = q
        e = self.eng
        if ev.kind == "call" and not ev.inl:
            name = last(ev.path)
            if is_send(ev.path):
                for c in closures(e, ev.args[1:]):
                    self.sent.append((c, ev.fr, ev.sp, st.copy()))
                    if c in self.closing:
                        if n:
                            self.bad(ev, "the measurement screen is closed twice, which removes what is displayed next", "closed twice")
                        n = min(n + 1, 2)
                    elif c in self.showing:
                        if not n:
                            self.bad(ev, "something is displayed before the measurement screen is closed, which removes it", "shown early")
                        told = True
                return (n, fail, told, gone, waited, abort)
            if ev.path.startswith(("wait_timeout", "<std::process::Child as wait_timeout")) or ev.path.startswith("std::process::Child") and name == "try_wait":
                self.seen.add("wait")
                if waited:
                    self.bad(ev, "clang is awaited again without looking whether the user has aborted the measurement", "unpolled")
                if abort and gone is None:
                    self.bad(ev, "clang is awaited although the user has aborted the measurement", "not killed")
                return (n, fail, told, gone, True, abort)
            if ev.path.startswith("std::process::Child"):
                if name == "kill":
                    return (n, fail, told, "killed", waited, abort)
                if name in ("wait", "wait_with_output") and gone is None:
                    self.bad(ev, "clang is awaited in such a way that the measurement cannot be aborted", "blocking wait")
        elif ev.kind == "outcome":
            r = strip(root_of(ev.val))
            if ev.extra == "Some" and r.tag == "call" and last(e.callpath.get(r, "")) in ("wait_timeout", "try_wait"):
                return (n, fail, told, gone or "exit", waited, abort)
            if ev.extra == "Err" and r.tag == "call" and last(e.callpath.get(r, "")) in ("wait_timeout", "try_wait", "kill") and strip(ev.val) is r:
                # failure to kill what is gone already is not a failure
                return (n, fail or last(e.callpath[r]) != "kill", told, gone or "lost", waited, abort)
        elif ev.kind == "cond" and ev.extra[0] == "k":
            v, neg = negated(ev.val)
            yes = bool(ev.extra[1]) != neg
            if v.tag == "call" and is_atomic(e.callpath.get(v, ""), "load", "swap"):
                fs = set()
                for a in e.deriv.get(v, ()):
                    fs |= self.flag_caps(a)
                if fs:
                    self.read |= fs
                    return (n, fail, told, gone, False, abort or yes)
            if v.tag == "call" and e.callpath.get(v, "").startswith("std::process::ExitStatus") and last(e.callpath[v]) == "success" and not yes:
                self.seen.add("failure")
                return (n, True, told, gone, waited, abort)
        elif ev.kind == "exit" and ev.extra == "return":
            if not n:
                self.bad(ev, "the measurement screen is not closed when the measurement is over", "not closed")
            if fail and not told:
                self.bad(ev, "the failure of a measurement is not reported", "silent")
        return q


class Sync(Screen):
    """waiting screen of a function that runs the event loop itself: q = (screen, None | "started" | "ran")"""
    init = (Screen.empty, None)

    def __init__(self):
        self.base, self.seen = set(), set()

    def step(self, q, ev, st):
        s, ran = q
        e = self.eng
        if inside(e, ev):
            return q
        if is_ui(ev, "len") and not s[3]:
            self.base.add(ev.res)
        if ev.kind == "call" and ev.path == "cmakeperf::measure::Measurement::start":
            return (s, "started")
        if is_ui(ev, "run") and ran == "started":
            self.seen.add("run")
            if s[0] != "off":
                self.bad(ev, "the Esc key may close the waiting screen without aborting anything", "escape on")
            if not s[3]:
                self.bad(ev, "work goes on without a waiting screen that lets one abort it", "no dialog")
            if s[1] != "auto":
                self.bad(ev, "the screen may not be refreshed during the work", "no refresh")
            return (s, "ran")
        if ev.kind == "cond" and ev.extra[0] == "k":
            eq, more = self.holds2(ev, 3), self.holds2(ev, 4)
            if eq is not None and more is not None and eq != more:
                s = s[:2] + ("more" if more else "done",) + s[3:]
        if ev.kind == "exit" and ev.extra == "return" and ran == "ran":
            self.closed(s, ev, "when the measurement is over")
        return (self.screen(s, ev), ran)

    def holds2(self, ev, n):
        used = set()

        def leaf(x):
            if self.is_len(x):
                used.add(x in self.base)
                return 3 if x in self.base else n
        r = evaluate(ev.val, leaf)
        return None if r is None or len(used) < 2 else bool(r) == bool(ev.extra[1])


@check("U08")
def u08(ctx):
    ctx.rule("Typestate of the waiting screen over the functions that start measurements; the thread that awaits clang sends exactly one closure that closes it on every path, before any closure that displays something, and one that displays something if clang failed.")
    ctx.rule("The flag set by the Abort button is read between any two waits for clang, which all have a timeout unless clang is gone or killed; no wait without kill once it was read as true.")
    p = ctx.p
    # time trace
    fs = sites(ctx, lambda x: x == "std::process::Command::spawn")
    fs = owners(p, [b for b in fs if b.path.startswith(TUI)], CHILD)
    ctx.anchor("function that starts a time-trace measurement", fs)

    def spawned(auto, ev):
        if ev.kind == "spawn" and ev.val.tag == "clo" and contains_ty(p, p.bodies[ev.val.a[0]].local_ty(1), CHILD):
            return ev.val
    for b in fs:
        o = Open(spawned)
        e = ctx.run(b, o)
        ctx.count("functions")
        ctx.anchor("thread that awaits clang", o.jobs)
        ctx.anchor("button of the measurement screen", o.buttons)
        flags = set()
        for lab, c, fr, sp, st in o.buttons:
            flags |= atoms(e, c)
        read, set_, kinds, done = set(), set(), {}, set()
        jobs = []
        for rec in o.jobs:
            if rec[0] not in done:
                done.add(rec[0])
                jobs.append(rec)
        seen = set()
        for rec in jobs:
            f1 = Finish(flags)
            e1 = e.fork(f1)
            try:
                e1.run_spawned(rec)
            except Incomplete:
                pass
            for c, fr, sp, st in f1.sent:
                if c in kinds:
                    continue
                k = Closing()
                e2 = e1.fork(k)
                try:
                    e2.run_spawned((c, fr, sp, st))
                except Incomplete as x:
                    ctx.undecided(p.bodies[c.a[0]].path, x)
                kinds[c] = "close" if k.touches() and not k.opens else "show"
                if kinds[c] == "close":
                    for s, ev in k.ends:
                        k.closed(s, ev, "when the measurement is over")
                ctx.absorb(e2, p.bodies[c.a[0]].path)
                ctx.count("main thread closures")
                ctx.sample("main thread closures", f"{p.bodies[c.a[0]].path}: {kinds[c]}")
            f = Finish(flags, {c for c in kinds if kinds[c] == "close"}, {c for c in kinds if kinds[c] == "show"})
            ctx.fork(e, rec, f)
            ctx.count("threads")
            read |= f.read
            seen |= f.seen
        ctx.anchor("closure that closes the measurement screen", "close" in kinds.values())
        ctx.anchor("wait for clang", "wait" in seen)
        ctx.anchor("failure of clang", "failure" in seen)
        for lab, c, fr, sp, st in o.buttons:
            a = Abort(flags, closes=False)
            ctx.fork(e, (c, fr, sp, st), a)
            ctx.count("buttons")
            if not a.set & read:
                ctx.violation("screen", b.path, "the flag that is set when a measurement is aborted is not the one that is looked at while it runs", "other flag")
    # full build
    ms = owners(p, sites(ctx, lambda x: x == "cmakeperf::measure::Measurement::start"), "cmakeperf::measure::Measurement")
    ctx.anchor("function that performs a full-build measurement", ms)
    for b in ms:
        s = Sync()
        ctx.run(b, s)
        ctx.count("functions")
        ctx.anchor("event loop of the measurement", "run" in s.seen)
