"""Compiler runs: what is run for a unit and what is recorded about it (D04)."""
from base import *
from measure import roles, START, Worker
from data import lossy
from rows import field_of

CMD = "std::process::Command"
CONFIG = {"new", "current_dir", "arg", "args", "env", "envs", "env_clear", "env_remove", "arg0", "uid", "gid", "groups", "process_group", "pre_exec", "exec", "raw_arg"}
WIZARD = "crofiler::ui::tui::trace::measure::show_wizard"


def fld(v, *names):
    """base of v.name, through references and representation changes, or None"""
    v = strip(v)
    return strip(v.a[0]) if v is not None and v.tag == "fld" and v.a[1] in names else None


class Run(Automaton):
    """configuration of a compiler.
    q = (job, command, directory set, iterators over command words: {(token, index of the next word)}, word: None | (value, index), state of arguments, extras)
    state of arguments: "" | "some" | "all"; extras: facts about additional arguments"""
    init = (None, None, False, frozenset(), None, "", frozenset())
    unwind = False
    max_disj = 64

    def __init__(self):
        self.seen, self.sites = set(), set()

    # what differs between full builds and time traces
    def entry(self, ev):
        raise NotImplementedError

    def program(self, q, ev, v):
        raise NotImplementedError

    def extra(self, q, ev, v):
        return None

    def isjob(self, v, job):
        return v is not None and job is not None and v is job

    def words(self, q, v):
        v = strip(v)
        for t, i in q[3]:
            if t is v:
                return i
        return None

    def step(self, q, ev, st):
        e = self.eng
        job, cmd, cwd, its, word, args, ext = q
        j = self.entry(ev)
        if j is not None:
            self.seen.add("entry")
            return (strip(j), None, False, frozenset(), None, "", frozenset(x for x in ext if isinstance(x, str)))
        if ev.kind == "outcome":
            v = strip(ev.val)
            i = self.words(q, v)
            x = [(t, k) for t, k in its if isinstance(t, tuple) and t[1] is v]
            if x and ev.extra in ("Some", "None"):
                t, k = x[0]
                its = its - {(t, k)}
                if ev.extra == "Some":
                    return (job, cmd, cwd, its, (strip(payload(e, ev.val, "Some")), k), args, ext)
                return (job, cmd, cwd, its, None, "all" if cmd is not None and t[0] == "tail" else args, ext)
        if ev.kind != "call" or ev.inl:
            return q
        p = ev.path
        if p.startswith("shlex::") and ev.args and last(p) in ("new", "split"):
            self.seen.add("words")
            if not self.isjob(fld(ev.args[0], "command"), job):
                e.report("entry", ev, "the words of a compiler invocation are not those of the command of the unit's database entry", "words of another command")
                return q
            return (job, cmd, cwd, its | {(ev.res, 0)}, word, args, ext)
        i = self.words(q, ev.args[0]) if ev.args else None
        if i is not None and not p.startswith(CMD):
            n = last(p)
            src = strip(ev.args[0])
            if n == "skip" and ev.args[1].tag == "k":
                return (job, cmd, cwd, its | {(ev.res, i + ev.args[1].a[0] if i + ev.args[1].a[0] <= 1 else 3)}, word, args, ext)
            if n in ("into_iter", "by_ref", "map", "iter", "cloned", "peekable", "fuse"):
                return (job, cmd, cwd, its | {(ev.res, i)}, word, args, ext)
            if n == "next":
                if word is not None and word[1] >= 1:
                    e.report("args", ev, "an argument of the unit's command is not passed to the compiler", "argument dropped")
                return (job, cmd, cwd, frozenset(x for x in its if x[0] is not src) | {(src, (1, 2, 2, 3)[i]), ((self.start(q, src, i), ev.res), i)}, None, args, ext)
        if p.startswith(CMD + "::"):
            n = last(p)
            if n in CONFIG:
                self.sites.add((ev.fr.body.id, ev.bb))
            if n == "new":
                if not self.program(q, ev, ev.args[0]):
                    e.report("program", ev, "the program that is started is not " + self.what, "other program")
                self.seen.add("command")
                return (job, ev.res, False, its, None, "", frozenset())
            if cmd is None or not e.derives(ev.args[0], lambda x: x is cmd):
                return q
            if n == "current_dir":
                if not self.isjob(fld(ev.args[1], "directory"), job):
                    e.report("dir", ev, "the compiler is not started in the directory of the unit's database entry", "other directory")
                self.seen.add("dir")
                return (job, cmd, True, its, word, args, ext)
            if n == "arg":
                v = strip(ev.args[1])
                if word is not None and self.is_word(v, word[0]):
                    self.seen.add("arg")
                    if word[1] == 0:
                        e.report("args", ev, "the program of the unit's command is passed to the compiler as an argument", "program as argument")
                    return (job, cmd, cwd, its, None, "some", ext)
                x = self.extra(q, ev, v)
                if x is None or args == "some":
                    e.report("args", ev, "the compiler is given an argument that is not in the unit's command" if x is None else
                             "the compiler is given an additional argument amid those of the unit's command", "additional argument")
                    return q
                return (job, cmd, cwd, its, word, args, ext | {x})
            if n == "args":
                it = strip(e.peel(st, ev.args[1]))
                while self.words(q, it) is None and it.tag == "lazy" and last(it.a[1]) in ("map", "into_iter", "by_ref", "inspect", "fuse") and it.a[2]:
                    it = strip(e.peel(st, it.a[2][0]))
                if self.words(q, it) != 1:
                    e.report("args", ev, "the arguments given to the compiler are not known to be all those of the unit's command", "other arguments")
                self.seen.add("arg")
                return (job, cmd, cwd, its, None, "all", ext)
            if n in CONFIG:
                e.report("args", ev, f"the compiler is set up in a way that the unit's command does not ask for ({n})", "setup " + n)
            if n in ("spawn", "output", "status"):
                self.seen.add("spawn")
                self.ready(q, ev)
        return q

    def is_word(self, v, w):
        return v is w or self.eng.derives(v, lambda x: x is w) and strip(root_of(v)) is strip(root_of(w))

    def start(self, q, src, i):
        """"tail" if the iterator started with the first argument, or got there after the program was read from it"""
        return "tail" if i in (1, 2) else "head"

    def ready(self, q, ev):
        e = self.eng
        job, cmd, cwd, its, word, args, ext = q
        if not cwd:
            e.report("dir", ev, "the compiler may be started without having been given the directory of the unit's database entry", "no directory")
        if args != "all" or word is not None:
            e.report("args", ev, "the compiler may be started without all arguments of the unit's command", "missing arguments")


class Build(Run):
    """compiler runs of a full build: what is run, and what is recorded.
    q = Run's + (phase: "" | "running" | "exited", instants before the start, elapsed time, sampled since the last poll, tree has this root, timed?)"""
    what = "the program of the unit's command"
    init = Run.init + (("", frozenset(), None, True, False, None, False, None),)

    def __init__(self, timed, feeds):
        super().__init__()
        self.timed, self.feeds = timed, feeds

    def entry(self, ev):
        return Worker.take(self, ev)

    def program(self, q, ev, v):
        return q[4] is not None and q[4][1] == 0 and self.is_word(strip(v), q[4][0])

    def step(self, q, ev, st):
        e = self.eng
        r = Run.step(self, q[:7], ev, st)
        ph, before, wall, sampled, rooted, timed, took, top = q[7]
        if r[0] is not q[0]:
            return r + (("", frozenset(), None, True, False, timed, False, None),)
        if ev.kind == "call" and not ev.inl:
            p = ev.path
            if "pathdiff" in p and self.isjob(fld(ev.args[0], "file"), q[0]) and e.derives(ev.args[1], lambda x: x.tag == "call" and last(e.callpath.get(x, "")) == "current_dir"):
                r = r[:6] + (r[6] | {("path", ev.res)},)
            if last(p) in ("to_path_buf", "to_owned", "clone", "into", "from", "into_owned") and len(ev.args) == 1 and self.isjob(fld(ev.args[0], "file"), q[0]):
                r = r[:6] + (r[6] | {("path", ev.res)},)
            if p == "std::time::Instant::now" and ph == "":
                before = before | {ev.res}
            elif p.startswith("std::time::Instant") and last(p) in ("elapsed", "duration_since", "sub", "saturating_duration_since", "checked_duration_since"):
                i = strip(root_of(ev.args[-1]))
                if i in before:
                    self.seen.add("elapsed")
                    if ph != "exited":
                        e.report("time", ev, "the elapsed time is taken before the compiler has exited", "early time")
                    wall = ev.res
            elif p == CMD + "::spawn":
                ph, sampled, rooted = "starting", True, False
            elif p.startswith("std::process::Child") and last(p) == "id":
                rooted = True
                self.seen.add("root")
            elif "ChildExt" in p and last(p).startswith("wait_timeout") or p.startswith("std::process::Child") and last(p) == "try_wait":
                if not sampled:
                    e.report("memory", ev, "memory usage is not sampled between two waits for the compiler", "poll without sample")
            elif self.sample(ev):
                self.seen.add("sample")
                if not rooted:
                    e.report("memory", ev, "memory usage is sampled without having identified the process of this unit", "sample of another process")
                sampled = took = True
                top = (strip(ev.res), None)
        elif ev.kind == "call" and ev.path == "cmakeperf::output::UnitProfile::new":
            self.profile(q, ev, st)
        elif ev.kind == "outcome":
            p = ev.path or e.callpath.get(strip(root_of(ev.val)), "")
            if "ChildExt" in p or p.startswith("std::process::Child") and last(p) in ("try_wait", "wait"):
                if ev.extra == "None":
                    sampled = False
                elif ev.extra == "Some":
                    ph = "exited"
            if "pathdiff" in p and ev.extra in ("Some", "None"):
                r = r[:6] + (r[6] | {("rel", ev.extra)},)
            if ev.extra == "None" and strip(ev.val) in self.feeds:
                sampled = True
        elif ev.kind == "cond":
            v, x = ev.val, ev.extra
            while v.tag == "not":
                v, x = v.a[0], ("k", 1 - x[1]) if x[0] == "k" else x
            if top is not None and v.tag == "op" and v.a[0] in ("Lt", "Le", "Gt", "Ge") and x[0] == "k":
                a, b = strip(v.a[1]), strip(v.a[2])
                if top[0] in (a, b) and a is not b and "op" not in (a.tag, b.tag):
                    top = (top[0], bool(x[1]) == ((v.a[0] in ("Gt", "Ge")) == (a is top[0])))
            if strip(v) in self.timed and x[0] == "k":
                timed = bool(x[1])
                self.seen.add("timed")
        return r + ((ph, before, wall, sampled, rooted, timed, took, top),)

    def sample(self, ev):
        return last(ev.path) in ("sum", "fold", "reduce", "max", "for_each") and self.eng.derives(ev.res, self.is_memory)

    def is_memory(self, x):
        p = self.eng.callpath.get(x, "") if x.tag == "call" else ""
        return p.startswith("sysinfo::") and last(p) == "memory"

    def profile(self, q, ev, st):
        e = self.eng
        self.seen.add("profile")
        job = q[0]
        ph, before, wall, sampled, rooted, timed, took, top = q[7]
        path, rss, time = ev.args[:3]
        v = e.peel(st, path)
        x = strip(v)
        c = strip(root_of(x))
        if c.tag == "call" and ("path", c) in q[6]:
            pass
        elif not self.isjob(fld(x, "file"), job):
            e.report("path", ev, "the recorded path is not that of the unit's input", "other path")
        # memory
        names, ops = set(), set()

        def look(y):
            if y.tag == "call":
                names.add(last(e.callpath.get(y, "")))
            elif y.tag == "op":
                ops.add(y.a[0])
            return False
        e.derives(rss, look)
        if strip(rss).tag == "k" and not took:
            pass        # it has exited before the first poll
        elif self.compared and took and not e.derives(rss, self.is_memory):
            pass        # chosen by a comparison
        elif not e.derives(rss, self.is_memory):
            e.report("memory", ev, "the recorded memory usage is not computed from samples of the process tree", "memory from elsewhere")
        bad = sorted((names & {"min", "last", "nth", "virtual_memory", "min_by", "min_by_key", "available_memory", "used_memory", "saturating_sub", "wrapping_sub", "abs_diff"}) | (ops & {"Sub", "Mul", "Div", "Rem", "Shl", "Shr"}))
        if bad:
            e.report("memory", ev, "the recorded memory usage is not the largest of the samples (" + ", ".join(bad) + ")", "other than maximum")
        elif names and not names & {"max", "max_by", "reduce", "fold"} and not self.compared:
            e.report("memory", ev, "the recorded memory usage is not the largest of the samples", "no maximum")
        if self.compared and top is not None and top[1] is not None and (strip(root_of(rss)) is top[0]) != top[1] and not names & {"max", "max_by", "reduce"}:
            e.report("memory", ev, "the recorded memory usage is not the largest of the samples (" + ("a larger one is ignored" if top[1] else "a smaller one is kept") + ")", "not the largest")
        # time
        t = e.peel(st, time)
        var = e.variant(st, t)
        if var != "None":
            d = e.peel(st, payload(e, t, "Some"))
            if wall is None or not e.derives(d, lambda y: y is wall) and strip(d) is not wall:
                e.report("time", ev, "the recorded time is not that from before the start of the compiler until it has exited", "other time")
        if timed is None or var not in ("Some", "None") or (var == "Some") != timed:
            e.report("time", ev, "the elapsed time is not recorded exactly if it was asked for", "time not as asked for")


class Survey(Automaton):
    """iterators whose items' memory usage is looked at; comparisons of samples"""
    unwind = False

    def __init__(self):
        self.mem, self.nexts, self.conds = set(), set(), set()

    def step(self, q, ev, st):
        if ev.kind == "call" and not ev.inl:
            if ev.path.startswith("sysinfo::") and last(ev.path) == "memory":
                self.mem.add(ev.args[0])
            elif last(ev.path) == "next":
                self.nexts.add(ev.res)
        elif ev.kind == "cond" and ev.val.tag == "op" and ev.val.a[0] in ("Lt", "Le", "Gt", "Ge"):
            self.conds.add(ev.val)
        return q

    def feeds(self, e):
        return {n for n in self.nexts if any(e.derives(m, lambda x: x is n) for m in self.mem)}


class Trace(Run):
    """compiler run of a time trace; at the end of the function that sets it up"""
    what = "the configured clang"

    def __init__(self, body):
        super().__init__()
        self.args_ = [mk("arg", body.id, i) for i in range(1, body.argc + 1)]
        self.clang = {a for i, a in enumerate(self.args_, 1) if body.local_ty(i).peel().key()[1] in ("str", "std::path::Path", "std::ffi::os_str::OsStr", "alloc::string::String")
                      and "path" not in str(body.local_ty(i).peel().path or "").lower()}
        self.gran = {a for i, a in enumerate(self.args_, 1) if body.local_ty(i).path == "core::option::Option"}
        self.paths = {a for i, a in enumerate(self.args_, 1) if (body.local_ty(i).peel().path or "").endswith("path::Path")}

    def entry(self, ev):
        if ev.kind == "outcome" and ev.extra == "Some" and "HashMap" in (ev.path or "") and last(ev.path) == "get":
            return payload(self.eng, ev.val, "Some")
        return None

    def program(self, q, ev, v):
        return strip(v) in self.clang

    def extra(self, q, ev, v):
        if v.tag == "str" and v.a[0] == "-ftime-trace":
            return "trace"
        if self.eng.derives(v, lambda x: x in self.gran):
            return "granularity"
        return None

    def step(self, q, ev, st):
        e = self.eng
        if ev.kind == "call" and not ev.inl and "HashMap" in ev.path and last(ev.path) == "get":
            if not e.derives(ev.args[1], lambda x: x in self.paths):
                e.report("entry", ev, "the database entry that is compiled is not looked up by the path of the unit", "other entry")
        if ev.kind == "outcome" and ev.extra in ("Some", "None") and strip(ev.val) in self.gran:
            self.seen.add("gran")
            return q[:6] + (q[6] | {"asked" if ev.extra == "Some" else "none"},)
        if ev.kind == "exit" and q[1] is not None:
            self.seen.add("ready")
            self.ready(q, ev)
            if "trace" not in q[6]:
                e.report("trace", ev, "clang may be started without being asked for a time trace", "no -ftime-trace")
            if ("granularity" in q[6]) != ("asked" in q[6]) or not q[6] & {"asked", "none"}:
                e.report("trace", ev, "clang is not given the granularity that was asked for", "granularity")
        return Run.step(self, q, ev, st)


@check("D04")
def d04(ctx):
    ctx.rule("A compiler is started with exactly the arguments of the unit's database entry (each word of its command but the first, in order) in the entry's directory; full builds "
             "run the first word of the command, time traces the configured clang with -ftime-trace and the requested granularity before these arguments; nothing else sets up commands.")
    ctx.rule("A unit profile holds the path of the entry's input, a maximum of the memory usage of the process tree rooted in that compiler, sampled at every poll, and, exactly if "
             "asked for, the time from before the start of the compiler until its exit status was obtained.")
    sites = set()
    ts, col, wrk = roles(ctx)
    b = ts[0].body
    timed = {mk("arg", b.id, i) for i in range(1, b.argc + 1) if b.local_ty(i).key()[1] == "bool"}
    ctx.anchor("request to measure time", timed)
    for t in wrk:
        s = Survey()
        e = ctx.explore(t, s)
        a = Build(timed, s.feeds(e))
        a.compared = any(e.derives(c, lambda x: x.tag == "call" and e.callpath.get(x, "").startswith("sysinfo::") and last(e.callpath[x]) == "memory") for c in s.conds)
        ctx.explore(t, a)
        for x in ("entry", "words", "command", "dir", "arg", "spawn", "elapsed", "root", "sample", "profile", "timed"):
            ctx.anchor(f"worker event '{x}'", x in a.seen)
        sites |= a.sites
    w = ctx.public(WIZARD)
    if w is not None:
        a = Trace(w)
        ctx.run(w, a)
        for x in ("entry", "words", "command", "dir", "arg", "gran", "ready"):
            ctx.anchor(f"time trace event '{x}'", x in a.seen)
        sites |= a.sites
    n = 0
    for b in ctx.p.bodies.values():
        if b.crate.name == "mock":
            continue
        for i, t in direct_calls(b, lambda c: c.startswith(CMD + "::") and last(c) in CONFIG):
            if any(True for _ in direct_calls(b, lambda c: c in (CMD + "::output", CMD + "::status"))):
                continue        # runs something else to completion
            n += 1
            if (b.id, i) not in sites:
                ctx.violation("setup", b.path, f"a command is set up in {b.path}, outside of what was analysed", key="setup in " + b.path)
    ctx.count("command set-up call sites", n)
