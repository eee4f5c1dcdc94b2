"""Child processes: properties M06 (no process is left behind) and M07 (pipes are emptied)."""
from base import *

CHILD = "std::process::Child"
WAITS = ("wait", "try_wait", "wait_timeout", "wait_timeout_ms", "wait_with_output")


def spawn_owners(ctx):
    p = ctx.p
    sites = []
    for b in p.bodies.values():
        if b.crate.name in ("mock",):
            continue        # test helper executable of cmakeperf
        for _, t in direct_calls(b, lambda x: x == "std::process::Command::spawn"):
            sites.append(b)
            ctx.sample("process starts", b.path)
    ctx.anchor("start of a compiler process", sites)
    ctx.count("process start sites", len(sites))
    return owners(p, sites, CHILD)


class Proc(Automaton):
    unwind = True

    def child_arg(self, ev, child):
        return child is not None and ev.args and self.eng.derives(ev.args[0], lambda x: x is child)

    def captures(self, ev, pred):
        c = ev.val
        return [x for x in c.a[2] if self.eng.derives(x, pred)] if c.tag == "clo" else []


class Reap(Proc):
    """q = (child token | None, state): new, run, killed, reaped"""
    init = (None, "")

    def __init__(self):
        self.seen, self.handoff = set(), []

    def step(self, q, ev, st):
        child, s = q
        e = self.eng
        if ev.kind == "call" and not ev.inl:
            n = last(ev.path)
            if ev.path == "std::process::Command::spawn":
                self.seen.add("spawn")
                self.left(q, ev, "starts another process")
                return (ev.res, "new")
            if s in ("run", "killed") and self.child_arg(ev, child):
                if n == "kill" and ev.path.startswith("std::process"):
                    self.seen.add("kill")
                    return (child, "killed")
                if n in ("wait", "wait_with_output") and ev.path.startswith("std::process"):
                    self.seen.add("reap")
                    return (child, "reaped")
        elif ev.kind == "outcome":
            v = strip(ev.val)
            if s == "new" and v is child:
                return (child, "run") if ev.extra == "Ok" else (None, "")
            if ev.extra == "Some" and s in ("run", "killed") and v.tag in ("fld", "as", "call"):
                r = strip(root_of(v))
                if r.tag == "call" and last(e.callpath.get(r, "")) in ("try_wait", "wait_timeout", "wait_timeout_ms"):
                    self.seen.add("reap")
                    return (child, "reaped")
        elif ev.kind == "spawn" and s in ("run", "killed", "reaped"):
            c = ev.val
            if c.tag == "clo" and self.captures(ev, lambda x: x is child) and self.owns(c):
                self.handoff.append((c.a[0], child, s))
                return (None, "")
        elif ev.kind == "maypanic" and s in ("run", "killed") and any(a.tag == "clo" and self.owns(a) and e.derives(a, lambda x: x is child) for a in ev.args):
            return (None, "")    # the thread could not be started: its closure, destructors included, is dropped by the callee
        elif ev.kind == "exit":
            self.left(q, ev, f"ends ({ev.extra})", ev.extra)
        return q

    def owns(self, clo):
        b = self.eng.p.bodies[clo.a[0]]
        t = b.local_ty(1)
        t = t.args[0] if t.k == "ref" else t
        return contains_ty(self.eng.p, t, CHILD)

    def left(self, q, ev, what, key=""):
        child, s = q
        if s in ("run", "killed", "new"):
            self.eng.report("unreaped", ev, f"a process that was started is neither awaited nor killed and awaited before its owner {what}"
                            if s != "killed" else f"a process that was killed is not awaited before its owner {what}", f"unreaped {s} {key}")


HANDLE = ("std::thread::JoinHandle", "std::thread::join_handle::JoinHandle")


class Attached(Automaton):
    """threads that own or start a process are awaited, or owned by something whose destructor awaits them; q = unjoined thread handles"""
    init = frozenset()
    unwind = False
    drop_types = HANDLE

    def __init__(self, owners):
        self.owners, self.seen, self.wrap = owners, set(), {}

    def step(self, q, ev, st):
        e = self.eng
        if ev.kind == "call" and not ev.inl and last(ev.path) in ("spawn", "spawn_unchecked") and "thread" in ev.path and "scope" not in ev.path.lower():
            if any(a.tag == "clo" and a.a[0] in self.owners for a in map(strip, ev.args)):
                self.seen.add(tuple(ev.sp or ()))
                return q | {ev.res}
        elif q and ev.kind == "call" and not ev.inl and last(ev.path) == "join" and ev.args:
            return frozenset(t for t in q if strip(root_of(ev.args[0])) is not t)
        elif q and ev.kind == "drop" and ev.path in HANDLE:
            t = next((t for t in q if strip(root_of(ev.val)) is t), None)
            if t is not None:
                e.report("detached", ev, "nobody awaits a thread that owns a compiler process: the process is left behind when the program ends", "detached")
                return q - {t}
        elif q and ev.kind == "assign" and ev.val is not None:
            self.note(q, ev.val)
        elif q and ev.kind == "call" and not ev.inl:
            for a in ev.args:
                self.note(q, a)
        elif q and ev.kind == "exit" and ev.extra == "return":
            if ev.val is not None:
                self.note(q, ev.val)
            for t in q:
                if not self.wrap.get(t):
                    e.report("detached", ev, "a thread that owns a compiler process is neither awaited nor handed to an owner that awaits it", "not awaited")
                elif not any(self.joins(a) for a in self.wrap[t]):
                    e.report("detached", ev, f"the destructor of {', '.join(sorted(short(a) for a in self.wrap[t]))} does not await the thread that owns a compiler process", "no joining destructor")
        return q

    def note(self, q, v):
        if v.tag == "agg":
            for t in q:
                if mentions(v, t) and v.a[0] in self.eng.p.adts and self.eng.p.adts[v.a[0]]["local"]:
                    self.wrap.setdefault(t, set()).add(v.a[0])
            for x in v.a[2]:
                self.note(q, x)
        elif v.tag == "clo":
            for x in v.a[2]:
                self.note(q, x)

    def joins(self, adt):
        """the destructor of this type awaits a thread on every path on which it has one"""
        im = self.eng.drop_impls.get(adt)
        b = self.eng.p.bodies.get(im["items"][0]["id"]) if im else None
        if b is None:
            return False
        a = Joins()
        Engine(self.eng.p, a).run(b)
        return a.joined and not a.missed


class Joins(Automaton):
    """does a destructor join a thread on every path on which there is one; q = joined or known to be without a thread"""
    init = False
    joined = missed = False

    def step(self, q, ev, st):
        if ev.kind == "call" and not ev.inl and last(ev.path) == "join" and "JoinHandle" in ev.path:
            self.joined = True
            return True
        if ev.kind == "outcome" and ev.extra == "None":
            return True
        if ev.kind == "exit" and ev.extra == "return" and not q:
            self.missed = True
        return q


def check_attached(ctx):
    """every detached thread that owns or (transitively) starts a process"""
    p = ctx.p
    cg, _ = call_graph(p)
    starts = {b.id for b in p.bodies.values() if b.crate.name != "mock" and any(True for _ in direct_calls(b, lambda x: x == "std::process::Command::spawn"))}

    def reaches(i):
        seen, todo = set(), [i]
        while todo:
            x = todo.pop()
            if x in starts:
                return True
            if x not in seen:
                seen.add(x)
                todo += cg.get(x, ())
        return False
    own = set()
    for b in p.bodies.values():
        if b.kind == "closure" and b.crate.name != "mock":
            t = b.local_ty(1)
            t = t.args[0] if t.k == "ref" else t
            if contains_ty(p, t, CHILD) or reaches(b.id):
                own.add(b.id)
    n = 0
    for b in p.bodies.values():
        if b.crate.name == "mock" or not any(True for _ in direct_calls(b, lambda x: "thread" in x and last(x) in ("spawn", "spawn_unchecked") and "scope" not in x.lower())):
            continue
        if not own & (cg.get(b.id, set())):
            continue
        a = Attached(own)
        ctx.run(b, a)
        n += len(a.seen)
        ctx.sample("functions that start threads owning a process", b.path)
    ctx.anchor("threads that own a process", n)
    ctx.count("threads that must be awaited", n)


@check("M06")
def m06(ctx):
    ctx.rule("Typestate of every std::process::Child from Command::spawn over all paths, unwinding included: its exit status is collected (wait, or a poll that returned it) "
             "before its owner ends, starts another process or leaves it to another thread, which is then held to the same rule.")
    for b in spawn_owners(ctx):
        a = Reap()
        e = ctx.run(b, a)
        ctx.anchor(f"process start on the paths of {b.path}", "spawn" in a.seen)
        ctx.count("owners")
        ctx.sample("owners", b.path)
        reaped = "reap" in a.seen
        for clo, child, s in set(a.handoff):
            for r in e.merge_spawns(e.spawned.get(clo, ())):
                f = Reap()
                f.init = (child, s)
                ctx.fork(e, r, f)
                ctx.count("threads owning a process")
                reaped |= "reap" in f.seen
        ctx.anchor(f"waiting for the process started by {b.path}", reaped)
    ctx.rule("A thread that owns or starts processes is joined, or its handle belongs to a value whose destructor joins it, so that it is not cut off by the end of the program.")
    check_attached(ctx)


class Pipes(Proc):
    """q = (child | None, piped, handed, free); free: killed or not running"""
    init = (None, frozenset(), frozenset(), True)

    def __init__(self):
        self.seen, self.readers, self.handoff = set(), {}, []

    def step(self, q, ev, st):
        child, piped, handed, free = q
        e = self.eng
        if ev.kind == "call" and not ev.inl:
            n = last(ev.path)
            if ev.path == "std::process::Command::new":
                return (child, frozenset(), handed, free)
            if ev.path in ("std::process::Command::stdout", "std::process::Command::stderr"):
                a = strip(ev.args[1])
                if last(e.callpath.get(a, "")) == "piped" or a.tag not in ("call",):
                    self.seen.add("piped")
                    return (child, piped | {n}, handed, free)
                return (child, piped - {n}, handed, free)
            if ev.path == "std::process::Command::spawn":
                return (ev.res, piped, frozenset(), False)
            if child is not None and not free and self.child_arg(ev, child):
                if n == "kill" and ev.path.startswith("std::process"):
                    return (child, piped, handed, True)
                if n in WAITS:
                    self.seen.add("wait")
                    if n != "wait_with_output" and not piped <= handed:
                        e.report("pipe", ev, f"the process is awaited although nobody reads its {' and '.join(sorted(piped - handed))}: it blocks once the pipe is full",
                                 "unread " + " ".join(sorted(piped - handed)))
        elif ev.kind == "spawn" and child is not None and ev.val.tag == "clo":
            got = set()
            for n in ("stdout", "stderr"):
                c = self.captures(ev, lambda x: self.is_pipe(x, child, n))
                if c:
                    got.add(n)
            if got and not Reap.owns(self, ev.val):
                self.readers.setdefault(ev.val.a[0], set()).update(got)
                return (child, piped, handed | got, free)
            if self.captures(ev, lambda x: x is child) and Reap.owns(self, ev.val):
                self.handoff.append((ev.val.a[0], q))
        elif ev.kind == "outcome" and ev.extra == "None" and child is not None:
            v = strip(ev.val)
            for n in piped - handed:
                if self.is_pipe(v, child, n):
                    return None      # a piped stream is there
        return q

    def is_pipe(self, x, child, n):
        return x.tag == "fld" and x.a[1] == n and self.eng.derives(x.a[0], lambda y: y is child)


class Reader(Automaton):
    """thread that gets the reading end of a pipe: must read it to the end"""
    init = False

    def __init__(self):
        self.seen = set()

    def step(self, q, ev, st):
        e = self.eng
        if ev.kind == "call" and not ev.inl and ev.args:
            n = last(ev.path)
            if n in ("read_to_end", "read_to_string", "copy") and ("io" in ev.path):
                a = ev.args[0]
                seen = []

                def lim(x):
                    if x.tag in ("call", "lazy") and last(e.callpath.get(x, "") or (x.a[1] if x.tag == "lazy" else "")) in ("take",) and "io" in e.callpath.get(x, ""):
                        seen.append(x)
                    return False
                e.derives(a, lim)
                if seen:
                    e.report("pipe", ev, "only part of the pipe is read", "limited read")
                self.seen.add("read")
                return True
            if n == "read" and "io" in ev.path:
                self.seen.add("read")
                return "loop"
        if ev.kind == "cond" and q == "loop":
            v = ev.val
            if v.tag == "op" and v.a[0] == "Eq" and ev.extra == ("k", 1) and v.a[2].tag == "k" and v.a[2].a[0] == 0 or ev.extra == ("k", 0) and v.tag in ("fld", "phi"):
                return True
        if ev.kind == "outcome" and q == "loop" and ev.extra == "Err":
            return True
        if ev.kind == "exit" and ev.extra == "return" and q is not True:
            e.report("pipe", ev, "the thread that gets a pipe of a running process may end without having read it to the end", "partial read")
        return q


@check("M07")
def m07(ctx):
    ctx.rule("For every process started with piped output: before its owner waits for it while it may be running, both pipes were handed to threads, and each of those "
             "reads its pipe to the end on every path.")
    for b in spawn_owners(ctx):
        a = Pipes()
        e = ctx.run(b, a)
        ctx.count("owners")
        readers = dict(a.readers)
        waits = "wait" in a.seen
        subs = [e]
        for clo, q in set(a.handoff):
            for r in e.merge_spawns(e.spawned.get(clo, ())):
                f = Pipes()
                f.init = q
                subs.append(ctx.fork(e, r, f))
                readers.update(f.readers)
                waits |= "wait" in f.seen
        ctx.anchor(f"waiting for the process started by {b.path}", waits)
        for clo in readers:
            for s in subs:
                for r in s.merge_spawns(s.spawned.get(clo, ())):
                    ctx.fork(s, r, Reader())
                    ctx.count("reader threads")
