"""Text user interface: properties of the profiling and trace measuring dialogs (U..)."""
from base import *
from procs import CHILD, WAITS, Proc, Reap

RENAME, REMOVE = ("std::fs::rename",), ("std::fs::remove_file",)
PATHID = {"into_boxed_path", "to_path_buf", "into_path_buf", "to_owned", "as_ref", "as_path", "deref", "deref_mut", "clone", "into", "from",
          "borrow", "new", "as_os_str", "into_os_string", "as_mut_os_str", "as_mut", "into_boxed_str", "unwrap_or", "cloned", "to_string"}


def pathkey(e, v, depth=0):
    """identity of a path value: conversions between path types do not matter"""
    v = strip(v)
    if v.tag == "conv":
        return pathkey(e, v.a[0], depth + 1)
    if v.tag == "call" and depth < 12 and last(e.callpath.get(v, "")) in PATHID:
        args = [a for a in e.deriv.get(v, ()) if a.tag != "k"]
        keys = {pathkey(e, a, depth + 1) for a in args}
        if len(keys) == 1:
            return keys.pop()
    return v


def ui_body(ctx, name):
    """body of a function of the crofiler binary by name"""
    out = [b for b in ctx.p.bodies.values() if b.crate.name == "crofiler" and b.path.rsplit("::", 1)[-1] == name and b.kind != "closure"]
    return out


def sites(ctx, pred, crate="crofiler"):
    return [b for b in ctx.p.bodies.values() if b.crate.name == crate and any(True for _ in direct_calls(b, pred))]


class Backup(Automaton):
    """Protocol of the file that a measurement replaces.
    q = (bk, run, ok, undo):
      bk   None | ("try", src, dst, result) | ("made"|"none", src, dst)
      run  "no" | "trying" | "run" | "over"
      ok   None | True | False    what the measurement is known to have returned
      undo None | ("try", result) | "failed" | "done"
    """
    init = (None, "no", None, None)
    unwind = True
    what = "previous result"

    def __init__(self):
        self.seen = set()

    # -- to be defined: start/over/verdict recognition
    def step(self, q, ev, st):
        bk, run, ok, undo = q
        e = self.eng
        if ev.kind == "maypanic" and (ev.path in RENAME + REMOVE or last(ev.path or "") == "join" and "JoinHandle" in ev.path):
            return None
        if ev.kind == "call" and not ev.inl and ev.path in RENAME:
            a, b = pathkey(e, ev.args[0]), pathkey(e, ev.args[1])
            if run == "no" and (bk is None or bk[0] == "none" and (bk[1], bk[2]) != (b, a)):
                self.seen.add("backup")
                if a is b:
                    self.bad(ev, "the previous result is not moved elsewhere", "same path")
                return (("try", a, b, ev.res), run, ok, undo)
            if bk is not None and (bk[1], bk[2]) == (b, a):
                self.seen.add("restore")
                self.may_undo(q, ev, "restored")
                return (bk, run, ok, ("try", ev.res))
            self.bad(ev, "a file is renamed that is not the previous result being moved out of the way or back", "odd rename")
        elif ev.kind == "call" and not ev.inl and ev.path in REMOVE:
            a = pathkey(e, ev.args[0])
            if bk is not None and a is bk[1]:
                self.seen.add("delete")
                self.may_undo(q, ev, "deleted")
                if undo != "failed" and not (bk[0] == "none" and undo is None):
                    self.bad(ev, "the output is deleted although the previous result was not looked for or is back in place", "delete " + str(undo if not isinstance(undo, tuple) else undo[0]))
                return (bk, run, ok, "done")
            if bk is not None and a is bk[2]:
                self.seen.add("forget")
                if ok is not True:
                    self.bad(ev, "the backup of the previous result is deleted although the measurement is not known to have succeeded", "forget")
                return q
            self.bad(ev, "a file is deleted that is neither the output nor its backup", "odd delete")
        elif ev.kind == "outcome":
            v = strip(ev.val)
            if bk is not None and bk[0] == "try" and v is bk[3] and ev.extra == "Ok":
                return (("made",) + bk[1:3], run, ok, undo)
            if bk is not None and bk[0] == "try" and ev.extra == "NotFound" and e.derives(v, lambda x: x is bk[3]):
                return (("none",) + bk[1:3], run, ok, undo)
            if isinstance(undo, tuple) and v is undo[1]:
                return (bk, run, ok, "done" if ev.extra == "Ok" else "failed")
        elif ev.kind == "cond" and bk is not None and bk[0] == "try" and self.notfound(ev.val, bk[3], ev.extra):
            return (("none",) + bk[1:3], run, ok, undo)
        elif ev.kind == "exit":
            self.finish(q, ev)
        r = self.protocol(q, ev, st)
        return q if r is None else r

    def notfound(self, v, res, extra):
        """condition `error.kind() == NotFound` (as a call) taken positively"""
        if v.tag == "op" and v.a[0] in ("Eq", "Ne") and extra[0] == "k":
            pos = extra[1] == (1 if v.a[0] == "Eq" else 0)
            return pos and any("NotFound" in show(x) for x in v.a[1:] if not isinstance(x, str)) and any(self.eng.derives(x, lambda y: y is res) for x in v.a[1:] if not isinstance(x, str))
        if v.tag == "call" and last(self.eng.callpath.get(v, "")) == "eq" and extra == ("k", 1):
            d = self.eng.deriv.get(v, ())
            return any("NotFound" in show(x) for x in d) and any(self.eng.derives(x, lambda y: y is res) for x in d)
        return False

    def may_undo(self, q, ev, how):
        bk, run, ok, undo = q
        if run in ("run", "trying") :
            self.bad(ev, f"the previous result is {how} while the measurement may still write to the output", f"{how} early")
        elif ok is True:
            self.bad(ev, f"the output of a successful measurement is {how if how == 'deleted' else 'replaced by the previous result'}", f"{how} after success")
        elif run == "over" and ok is None:
            self.bad(ev, f"the previous result is {how} without having looked whether the measurement succeeded", f"{how} blindly")

    def start(self, q, ev, out):
        """the measurement that writes to path `out` starts"""
        bk, run, ok, undo = q
        self.seen.add("start")
        if run != "no":
            self.bad(ev, "a second measurement is started over the first one", "second start")
        if bk is None or bk[0] == "try":
            self.bad(ev, "the measurement starts although the previous result may still be in place" if bk is None else
                     "the measurement starts although moving the previous result out of the way may have failed", "start without backup")
        elif out is not None and bk[1] is not out:
            self.bad(ev, "the file that was moved out of the way is not the one that the measurement will write", "other output")

    def finish(self, q, ev):
        bk, run, ok, undo = q
        how = ev.extra
        if run in ("run", "trying"):
            self.bad(ev, f"the owner of the output ends ({how}) while the measurement may still be running", f"running {how}")
        elif ok is not True and undo not in ("done",) and bk is not None and (bk[0] == "made" or run == "over") and not (undo == "failed" and False):
            if ok is None and run == "over":
                self.bad(ev, f"the measurement ends ({how}) without anyone looking whether it succeeded", f"no verdict {how}")
            else:
                self.bad(ev, f"the previous result is not brought back, or the partial output is not deleted, before the end ({how})", f"not restored {how} {undo if not isinstance(undo, tuple) else undo[0]}")

    def bad(self, ev, msg, key):
        self.eng.report("backup", ev, msg, key)


class ProfileBackup(Backup):
    """full-build profiling: Measurement::start ... join, verdict = flag set by its completion callback"""

    def __init__(self):
        super().__init__()
        self.done = []

    def protocol(self, q, ev, st):
        bk, run, ok, undo = q
        e = self.eng
        if ev.kind == "call" and ev.path == "cmakeperf::measure::Measurement::start":
            self.start(q, ev, pathkey(e, ev.args[0]))
            for x in map(strip, ev.args):
                if x.tag == "clo" and e.p.bodies[x.a[0]].argc == 2:
                    self.done.append((x, ev.fr, ev.sp, st.copy()))
            return (bk, "trying", ok, undo)
        if ev.kind == "spawn" and run == "trying":
            return (bk, "run", ok, undo)
        if ev.kind in ("maypanic", "panic") and run == "trying":
            return (bk, "no", ok, undo)     # the measuring thread was not started
        if ev.kind == "call" and not ev.inl and last(ev.path) == "join" and "JoinHandle" in ev.path and run == "run":
            self.seen.add("join")
            return (bk, "over", ok, undo)
        if ev.kind == "cond" and ev.extra[0] == "k":
            v = strip(ev.val)
            neg = False
            while v.tag == "op" and v.a[0] == "Not":
                v, neg = strip(v.a[1]), not neg
            if v.tag == "call" and is_atomic(e.callpath.get(v, ""), "load", "swap") and self.flag(v):
                self.seen.add("verdict")
                yes = bool(ev.extra[1]) != neg
                return (bk, run, yes, undo)
        if ev.kind == "call" and not ev.inl and is_atomic(ev.path, "load", "swap", "get_mut", "into_inner") and self.flag_arg(ev.args[0]):
            if run in ("run", "trying"):
                self.bad(ev, "the success of the measurement is looked at before it is over", "early verdict")
        return None

    def flag(self, v):
        return any(self.flag_arg(a) for a in self.eng.deriv.get(v, ()))

    def flag_arg(self, a):
        e = self.eng
        r = strip(root_of(a))
        caps = [strip(root_of(x)) for c, *_ in self.done for x in c.a[2]]
        return any(r is x for x in caps) or any(e.derives(a, lambda y: y is x) for x in caps if x.tag == "call" and is_atomic(e.callpath.get(x, ""), "new"))


class Verdict(Automaton):
    """completion callback of a measurement: q = (result known Ok?, flag stored?, result stored?, user interface woken up?)"""
    init = (None, False, False, False)

    def __init__(self, arg):
        self.arg, self.seen, self.out = arg, set(), set()

    def step(self, q, ev, st):
        ok, flag, res, woke = q
        e = self.eng
        if ev.kind in ("outcome", "notoutcome"):
            if strip(root_of(ev.val)) is self.arg and strip(ev.val) is self.arg:
                return (ev.extra == "Ok", flag, res, woke)
        elif ev.kind == "cond" and ev.extra[0] == "k":
            v = strip(ev.val)
            n = last(e.callpath.get(v, ""))
            if v.tag == "call" and n in ("is_ok", "is_err") and any(strip(a) is self.arg for a in e.deriv.get(v, ())):
                return (bool(ev.extra[1]) == (n == "is_ok"), flag, res, woke)
        elif ev.kind == "call" and not ev.inl and is_atomic(ev.path, "store", "swap", "fetch_or"):
            v = strip(ev.args[1])
            val = v.a[0] if v.tag == "k" else None
            if v.tag == "isv" and v.a[0] is self.arg and v.a[1] == "Ok":
                self.seen.add("flag")
                return (ok, "same", res, woke)
            if val is None and v.tag == "call" and last(e.callpath.get(v, "")) == "is_ok" and any(strip(a) is self.arg for a in e.deriv.get(v, ())):
                self.seen.add("flag")
                return (ok, "same", res, woke)
            if val == 1:
                self.seen.add("flag")
                if ok is not True:
                    e.report("verdict", ev, "the measurement is marked as successful although its result is not known to be a success", "marked")
                return (ok, True, res, woke)
            if val is None:
                e.report("verdict", ev, "the success mark of the measurement is set to something else than its success", "mark value")
        elif ev.kind == "assign" and ev.val is not None and self.holds(ev.val) and ev.extra[1] is not None and \
                e.derives(ev.extra[1], lambda x: x.tag == "call" and last(e.callpath.get(x, "")) == "lock"):
            return (ok, flag, True, woke)
        elif ev.kind == "call" and not ev.inl and last(ev.path) in ("send", "replace", "insert", "set") and any(self.holds(a) for a in ev.args):
            return (ok, flag, True, woke)
        elif ev.kind == "call" and not ev.inl and is_send(ev.path):
            return (ok, flag, res, True)
        elif ev.kind == "exit" and ev.extra == "return":
            if not res:
                e.report("verdict", ev, "the result of the measurement is not passed on to the user interface", "result lost")
            if not woke:
                e.report("verdict", ev, "the user interface is not told that the measurement is over", "no wake-up")
            if ok is True and not flag:
                e.report("verdict", ev, "a successful measurement is not marked as such, its output will be replaced by the previous one", "unmarked")
        return q

    def holds(self, v):
        return self.eng.derives(v, lambda x: x is self.arg)


class ProfileResult(Automaton):
    """what the profiling function returns to its caller"""
    init = (None, False)
    unwind = False

    def __init__(self):
        self.seen = set()

    def step(self, q, ev, st):
        ok, over = q
        e = self.eng
        if ev.kind == "call" and not ev.inl and last(ev.path) == "join" and "JoinHandle" in ev.path:
            return (ok, True)
        if ev.kind == "outcome" and ev.extra in ("Ok", "Err"):
            v = strip(ev.val)
            if v.tag != "call" and e.derives(v, lambda x: x.tag == "call" and last(e.callpath.get(x, "")) in ("lock", "take", "into_inner", "recv", "try_recv")):
                self.seen.add("result")
                if not over:
                    e.report("verdict", ev, "the result of the measurement is looked at before it is over", "early result")
                return (ev.extra == "Ok", over)
        elif ev.kind == "exit" and ev.extra == "return":
            v = strip(ev.val)
            if v.tag != "k":
                e.report("verdict", ev, "it is not known whether the profiling function reports success", "unknown result")
            elif bool(v.a[0]) != (ok is True):
                e.report("verdict", ev, "success is reported for a measurement that did not succeed" if v.a[0] else "failure is reported for a measurement that succeeded", f"result {v.a[0]} {ok}")
        return q


@check("U01")
def u01(ctx):
    ctx.rule("Protocol of the output file over all paths of the function that owns a full-build measurement, unwinding included: output renamed away (or absent) before "
             "Measurement::start on that path; after the measurement thread was joined, flag false -> renamed back, else output deleted; flag true -> neither.")
    ctx.rule("The completion callback given to Measurement::start sets the flag exactly on success; the owner returns true exactly if the stored result is Ok, read after the join.")
    p = ctx.p
    s = sites(ctx, lambda x: x == "cmakeperf::measure::Measurement::start")
    ctx.anchor("start of a full-build measurement", s)
    for b in owners(p, s, "cmakeperf::measure::Measurement"):
        a = ProfileBackup()
        e = ctx.run(b, a)
        ctx.count("owners")
        ctx.sample("owners", b.path)
        for k in ("backup", "start", "join", "verdict", "restore", "delete"):
            ctx.anchor(f"{k} step in {b.path}", k in a.seen)
        marked = False
        for n, rec in {r[0]: r for r in a.done}.items():
            v = Verdict(mk("arg", n.a[0], 2))
            ctx.fork(e, rec, v)
            ctx.count("completion callbacks")
            marked |= "flag" in v.seen
        ctx.anchor(f"completion callback of the measurement in {b.path}", a.done)
        ctx.anchor("success mark set by the completion callback", marked)
        r = ProfileResult()
        ctx.run(b, r)
        ctx.anchor(f"result of the measurement in {b.path}", "result" in r.seen)


def reaching(p, pred, crate="crofiler"):
    """ids of the bodies from which a body that satisfies the predicate can be reached"""
    cg, callers = call_graph(p)
    seen, todo = set(), [b.id for b in p.bodies.values() if pred(b)]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += callers.get(x, ())
    return seen


class TraceBackup(Backup):
    """time-trace measurement: Command::spawn ... exit status collected; verdict = the exit status; undo "shown" = trace handed to the loader"""
    unwind = False

    def __init__(self, loaders):
        super().__init__()
        self.loaders, self.handoff, self.child = loaders, [], set()

    def mine(self, v):
        return any(self.eng.derives(v, lambda x: x is c) for c in self.child)

    def protocol(self, q, ev, st):
        bk, run, ok, undo = q
        e = self.eng
        if ev.kind == "call" and not ev.inl:
            n = last(ev.path)
            if ev.path == "std::process::Command::spawn":
                self.start(q, ev, None)
                self.child.add(ev.res)
                return (bk, "trying", ok, undo)
            if run == "run" and ev.args and ev.path.startswith("std::process") and self.mine(ev.args[0]):
                if n == "kill":
                    return (bk, "killed", ok, undo)
            if run in ("run", "killed") and n in ("wait", "wait_with_output") and ev.path.startswith("std::process") and self.mine(ev.args[0]):
                return (bk, "over", False if run == "killed" else ok, undo)
            if is_send(ev.path):
                cl = [a for a in self.closures(ev.args) if a.a[0] in self.loaders]
                if cl:
                    self.seen.add("shown")
                    if ok is not True:
                        self.bad(ev, "the trace is displayed although clang is not known to have succeeded", "shown without success")
                    elif bk is not None and not any(pathkey(e, x) is bk[1] for c in cl for x in c.a[2]):
                        self.bad(ev, "the trace that is displayed is not the one that was measured", "other trace shown")
                    elif undo == "shown":
                        self.bad(ev, "the measured trace is displayed twice", "shown twice")
                    return (bk, run, ok, "shown")
        elif ev.kind == "outcome":
            v = strip(ev.val)
            if run == "trying" and v in self.child:
                return (bk, "run", ok, undo) if ev.extra == "Ok" else (bk, "over", False, undo)
            if ev.extra == "Some" and run in ("run", "killed"):
                r = strip(root_of(v))
                if r.tag == "call" and last(e.callpath.get(r, "")) in WAITS:
                    self.seen.add("over")
                    return (bk, "over", ok, undo)
        elif ev.kind == "cond" and run == "over" and ev.extra[0] == "k":
            v, neg = strip(ev.val), False
            while v.tag == "op" and v.a[0] == "Not":
                v, neg = strip(v.a[1]), not neg
            if v.tag == "call" and e.callpath.get(v, "").startswith("std::process::ExitStatus") and last(e.callpath[v]) == "success":
                self.seen.add("verdict")
                return (bk, run, bool(ev.extra[1]) != neg, undo)
        elif ev.kind == "spawn" and run in ("run", "killed", "over") and ev.val.tag == "clo":
            if any(self.mine(x) for x in ev.val.a[2]) and Reap.owns(self, ev.val):
                self.handoff.append((ev.val, ev.fr, ev.sp, st.copy(), q))
                return (None, "handed", None, None)
        return None

    def closures(self, vals, depth=0):
        for v in vals:
            v = strip(v)
            if v.tag == "clo":
                yield v
                yield from self.closures(v.a[2], depth + 1)
            elif v.tag == "agg":
                yield from self.closures(v.a[2], depth + 1)
            elif v.tag == "call" and depth < 4 and last(self.eng.callpath.get(v, "")) in ("new", "from", "into", "pin"):
                yield from self.closures(self.eng.deriv.get(v, ()), depth + 1)

    def finish(self, q, ev):
        if q[1] == "handed":
            return
        if q[1] == "killed":
            q = (q[0], "run") + q[2:]
        super().finish(q, ev)
        if q[2] is True and q[3] != "shown":
            self.bad(ev, "a trace that was measured is not displayed", "not shown")


@check("U02")
def u02(ctx):
    ctx.rule("Protocol of the trace file over all normal paths of the function that starts clang and of the thread it hands it to: output renamed away (or absent) before clang starts; "
             "after clang was reaped, exit status success -> loader shown once with that output; anything else (start failure, abort, error) -> renamed back, else output deleted, loader not shown.")
    p = ctx.p
    s = sites(ctx, lambda x: x == "std::process::Command::spawn")
    s = [b for b in s if "clang" not in b.path.split("::")[1:2]]
    ctx.anchor("start of a time-trace measurement", s)
    loaders = reaching(p, lambda b: b.crate.name == "crofiler" and any(True for _ in direct_calls(b, lambda x: last(x) == "start_load_trace")))
    ctx.anchor("functions that load a trace", loaders)
    for b in owners(p, s, CHILD):
        a = TraceBackup(loaders)
        e = ctx.run(b, a)
        ctx.count("owners")
        ctx.sample("owners", b.path)
        seen = set(a.seen)
        ctx.anchor(f"thread that awaits clang, started by {b.path}", a.handoff or "over" in seen)
        done = set()
        for c, fr, sp, st, q in a.handoff:
            if (c, q) in done:
                continue
            done.add((c, q))
            f = TraceBackup(loaders)
            f.init, f.child = q, a.child
            ctx.fork(e, (c, fr, sp, st), f)
            ctx.count("threads")
            seen |= f.seen
        for k in ("backup", "start", "over", "verdict", "restore", "delete", "forget", "shown"):
            ctx.anchor(f"{k} step of {b.path}", k in seen)
