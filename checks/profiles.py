"""Text user interface: stack of trace profiles (U09) and their contents (U10)."""
from base import *
from data import lossy
from dialogs import evaluate, negated, text, TUI
from screens import is_ui, inside, fields, closures
from processing import HANDLE

STACK = "profile_stack"
BELOW = "layers_below_profile"
PUSH, READS = {"push"}, {"len", "is_empty", "iter", "last", "first", "get", "clone", "as_slice", "deref", "as_ref", "contains", "to_vec", "eq", "fmt"}
ARITH = {"add": "Add", "sub": "Sub", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge", "eq": "Eq", "ne": "Ne", "mul": "Mul"}


def is_stack(v):
    v = strip(v)
    return v is not None and v.tag == "fld" and v.a[1] == STACK


class Calls(Automaton):
    """remembers the arguments of opaque calls"""

    def __init__(self):
        self.args = {}

    def note(self, ev):
        if ev.kind == "call" and not ev.inl and ev.res is not None:
            self.args[strip(ev.res)] = ev.args

    def name(self, v):
        v = strip(v)
        return last(self.eng.callpath.get(v, "")) if v.tag == "call" else None

    def leafop(self, v, leaf):
        """value of a call of an arithmetic trait method (on references) or of an integer method"""
        m = {"saturating_sub": lambda a, b: max(a - b, 0), "wrapping_sub": lambda a, b: a - b, "saturating_add": lambda a, b: a + b, "wrapping_add": lambda a, b: a + b,
             "min": min, "max": max, "abs_diff": lambda a, b: abs(a - b)}
        if v.tag == "call" and self.name(v) in m and len(self.args.get(v, ())) == 2:
            a = [evaluate(x, leaf) for x in self.args[v]]
            return None if None in a else m[self.name(v)](*a)
        if v.tag == "call" and "core::ops::" in self.eng.callpath.get(v, "") + "core::cmp::" and self.name(v) in ARITH and len(self.args.get(v, ())) == 2:
            a = [evaluate(x, leaf) for x in self.args[v]]
            if None not in a:
                return evaluate(mk("op", ARITH[self.name(v)], K(a[0]), K(a[1])), lambda x: None)


def stack_sites(p):
    """bodies that mention the profile stack"""
    import json
    out = []
    for b in p.bodies.values():
        if b.crate.name == "crofiler" and f'"{STACK}"]' in json.dumps(b.j.get("blocks")):
            out.append(b)
    return out


class Mutates(Calls):
    init = 0

    def __init__(self):
        Calls.__init__(self)
        self.hits = []

    def step(self, q, ev, st):
        if ev.kind == "call" and not ev.inl and ev.args and is_stack(ev.args[0]) and last(ev.path) not in READS:
            self.hits.append((last(ev.path), ev.fr.body.id))
        if ev.kind == "assign" and fields(ev)[-1:] == [STACK]:
            self.hits.append(("=", ev.fr.body.id))
        return q


def units(ctx):
    """functions and callbacks that change the profile stack along with the layers on screen, as a whole: ({body: operations}, functions that show a profile)"""
    p = ctx.p
    if hasattr(p, "_punits"):
        return p._punits
    cg, callers = call_graph(p)
    reach = {}

    def reaches(b, seen):
        """may call something that changes the layers on screen"""
        if b.id in reach:
            return reach[b.id]
        if b.id in seen:
            return False
        seen.add(b.id)
        r = any(True for _ in direct_calls(b, lambda x: "cursive" in x and last(x) in ("pop_layer", "add_fullscreen_layer", "add_layer"))) or \
            any(reaches(p.bodies[c], seen) for c in cg.get(b.id, ()))
        reach[b.id] = r
        return r
    muts = {}
    for b in stack_sites(p):
        m = Mutates()
        e = Engine(p, m, max_steps=200000)
        e.no_inline |= {x.id for x in p.bodies.values() if x.kind != "closure"}
        try:
            e.run(b)
        except Incomplete as x:
            ctx.undecided(b.path, x)
        ops = {n for n, i in m.hits if i == b.id}
        if ops:
            muts[b] = ops
    ctx.anchor("code that changes the profile stack", muts)
    out = {}
    for b, ops in muts.items():
        todo, seen = [b], set()
        while todo:
            x = todo.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            up = [p.bodies[c] for c in callers.get(x.id, ())]
            if reaches(x, set()) and x.id != b.id or not up:
                out.setdefault(x, set()).update(ops)
            elif reaches(x, set()) and x.id == b.id:
                out.setdefault(x, set()).update(ops)
            else:
                todo += up
    p._punits = out
    return out


class Show(Calls):
    """function that shows a profile: q = (profiles pushed, layers added)"""
    init = (0, 0)

    def __init__(self, body):
        Calls.__init__(self)
        self.body = body
        self.events, self.submits, self.selects, self.sorts = [], [], [], []
        self.lens, self.layers, self.names, self.uses = {}, [], [], []

    def step(self, q, ev, st):
        e = self.eng
        self.note(ev)
        push, add = q
        if ev.kind == "call" and not ev.inl:
            n = last(ev.path)
            if n in ("call_on_name", "find_name") and is_ui(ev, n):
                self.uses.append((self.view(ev), ev.args[1], ev))
            if inside(e, ev):
                return q
            if ev.args and is_stack(ev.args[0]):
                if n == "len":
                    self.lens.setdefault(strip(ev.res), set()).add(push)
                elif n in PUSH:
                    self.layers.append((strip(ev.args[1]), ev))
                    if push:
                        self.bad(ev, "a profile is registered twice", "push twice")
                    return (1, add)
                elif n not in READS:
                    self.bad(ev, f"showing a profile changes the stack of profiles by {n}()", "other " + n)
            elif is_ui(ev, "add_fullscreen_layer", "add_layer"):
                if add:
                    self.bad(ev, "several layers are added for one profile", "add twice")
                return (push, 1)
            elif is_ui(ev, "pop_layer"):
                self.bad(ev, "showing a profile removes a layer", "pop")
            elif n == "with_name":
                self.names.append((self.view(ev), ev.args[1], ev))
            elif n in ("on_event", "set_on_event", "on_pre_event", "on_event_inner"):
                for c in closures(e, ev.args[2:]):
                    self.events.append((c, ev.fr, ev.sp, st.copy()))
            elif n in ("set_on_submit", "on_submit"):
                for c in closures(e, ev.args[1:]):
                    self.submits.append((c, ev.fr, ev.sp, st.copy()))
            elif n in ("set_on_select", "on_select"):
                for c in closures(e, ev.args[1:]):
                    self.selects.append((c, ev.fr, ev.sp, st.copy()))
        elif ev.kind == "exit" and ev.extra == "return":
            if not push:
                self.bad(ev, "a profile is shown that is not registered in the stack of profiles", "no push")
            if not add:
                self.bad(ev, "a profile is registered that is not shown", "no layer")
        return q

    def view(self, ev):
        """type of the view that is named or looked up"""
        return "table" if "TableView" in str(ev.extra[0]) else "text" if "TextView" in str(ev.extra[0]) else str(ev.extra[0])

    def injective(self, v, t, depth=0):
        """text that differs whenever the number t differs"""
        v = strip(v)
        if v is t:
            return True
        if depth > 10 or v is None:
            return False
        if v.tag == "agg":
            return any(self.injective(x, t, depth + 1) for x in v.a[2])
        if v.tag == "op" and v.a[0] in ("Add", "Sub"):
            return any(self.injective(x, t, depth + 1) for x in v.a[1:]) and any(strip(x).tag == "k" for x in v.a[1:])
        if v.tag == "call" and self.name(v) in ("format", "new", "new_display", "new_debug", "new_lower_hex", "to_string", "as_str", "as_ref", "deref", "clone"):
            return any(self.injective(x, t, depth + 1) for x in self.args.get(v, ()))
        return False

    def bad(self, ev, msg, key):
        self.eng.report("stack", ev, msg, key)

    def finish(self, ctx):
        """consistency of the names of views"""
        e = self.eng
        ctx.anchor("registration of a profile", self.layers)
        toks = set()
        for layer, ev in self.layers:
            d = dict(zip(layer.a[3], layer.a[2])) if layer.tag == "agg" else {}
            ctx.anchor("description of a profile layer", d)
            for f, v in d.items():
                if f == "table_name":
                    toks.add(strip(v))
                    ls = {t for t in self.lens if self.injective(v, t)}
                    if not ls or any(1 in self.lens[t] for t in ls):
                        self.bad(ev, "the name of a profile's table does not depend on its own position in the stack, or does so differently from its description's", "table name")
                elif not (strip(v).tag == "arg" and strip(v).a[0] == self.body.id):
                    self.bad(ev, f"the {f} that is registered for a profile is not the one it was to be shown with", "field " + f)
        ctx.anchor("name of a profile's table", toks)
        own = {"table": set(), "text": set()}
        for k, v, ev in self.names:
            own.setdefault(k, set()).add(strip(v))
            if k == "table" and not (strip(v) in toks):
                self.bad(ev, "a table is displayed under another name than the one in the stack of profiles", "other table")
            if k == "text" and not any(self.injective(v, t) and 1 not in self.lens[t] for t in self.lens):
                self.bad(ev, "the description panes of several profiles may have the same name", "text name")
        ctx.anchor("named table of a profile", own["table"])
        for k, v, ev in self.uses:
            s = strip(v)
            if not (s in own.get(k, ()) or k == "table" and s.tag == "fld" and s.a[1] == "table_name"):
                self.bad(ev, f"a {k} is looked up under another name than that of the profile's own", "lookup " + k)
        ctx.count("view names", len(self.names))
        ctx.count("view lookups", len(self.uses))


class Toggle(Calls):
    """replacement of the current profile by another one: q = (popped from the stack, layers removed, shown)"""
    init = (0, 0, 0)

    def __init__(self, show, unit):
        Calls.__init__(self)
        self.show, self.unit, self.pops, self.seen = show, unit, set(), set()
        self.callbacks = {}

    def step(self, q, ev, st):
        e = self.eng
        self.note(ev)
        pop, rem, shown = q
        if inside(e, ev):
            return q
        if ev.kind == "callback" and ev.res is not None:
            self.callbacks[strip(ev.res)] = ev.val
        if ev.kind == "call" and not ev.inl:
            n = last(ev.path)
            if ev.args and is_stack(ev.args[0]):
                if n == "pop":
                    if pop:
                        self.bad(ev, "switching profiles forgets several profiles", "pops")
                    self.pops.add(strip(ev.res))
                    return (1, rem, shown)
                if n not in READS:
                    self.bad(ev, f"switching profiles changes the stack of profiles by {n}()", "other " + n)
            elif is_ui(ev, "pop_layer"):
                if rem or shown:
                    self.bad(ev, "switching profiles removes a layer that is not the replaced profile", "layers")
                return (pop, 1, shown)
            elif is_ui(ev, "add_layer", "add_fullscreen_layer"):
                self.bad(ev, "switching profiles adds a layer", "add")
            elif ev.path == self.unit.path:
                self.seen.add("show")
                if not pop or not rem:
                    self.bad(ev, "the other profile is shown above the one that it should replace" if not rem else "the profile that is replaced remains in the stack of profiles", f"above {pop} {rem}")
                if shown:
                    self.bad(ev, "switching profiles shows several profiles", "shows")
                self.shown(ev, st)
                return (pop, rem, 1)
        elif ev.kind == "exit" and ev.extra == "return":
            if (pop, rem, shown) != (1, 1, 1) and (pop, rem, shown) != (0, 0, 0):
                self.bad(ev, f"switching profiles ends with {pop} profiles forgotten, {rem} layers removed and {shown} profiles shown", f"end {q}")
        return q

    def shown(self, ev, st):
        e, p = self.eng, self.eng.p
        for i, a in enumerate(ev.args):
            ty = self.unit.local_ty(i + 1)
            v = strip(a)
            base = strip(root_of(a))
            if ty.k == "ref":
                continue
            if ty.path and ty.path.endswith("::ProfileKind"):
                was = e.variant(st, mk("arg", self.unit.id, i + 1))
                self.seen.add(was)
                if v.tag != "agg" or was is None or v.a[1] == was:
                    self.bad(ev, f"switching profiles shows the same kind of profile ({was}) again", f"kind {was}")
            elif base in self.pops:
                lay = [n for n in ("parent_name", "parent_percent_norm") if v.tag == "fld" and v.a[1] == n]
                if not lay:
                    self.bad(ev, "the replacing profile has a property of the replaced one that is not its name or norm", f"prop {i}")
                self.seen.add("layer")
            elif v.tag == "arg" and v.a[0] == self.unit.id or any(True for _ in closures(e, [a])):
                cs = list(closures(e, [a]))
                if cs and not any(e.derives(x, self.infos) for x in cs[0].a[2]):
                    self.bad(ev, "switching back would not show the activities that were shown before", "old activities")
                if not cs and self.infos(v):
                    self.bad(ev, "the other profile shows the activities of the one it replaces", "same activities")
                self.seen.add("back" if cs else "direct")
            elif base in self.callbacks:
                if not e.derives(self.callbacks[base], lambda x: x.tag == "arg" and x.a[0] == self.unit.id):
                    self.bad(ev, "the other profile does not show the activities that were meant for it", "other activities")
                self.seen.add("new")
            else:
                self.bad(ev, "something is shown in the replacing profile that is not known to belong there", f"unknown {i}")

    def infos(self, x):
        """activities that the replaced profile displays"""
        return x.tag == "arg" and x.a[0] == self.unit.id and "ActivityInfo" in str(self.unit.local_ty(x.a[1])) and "dyn" not in str(self.unit.local_ty(x.a[1]))

    def bad(self, ev, msg, key):
        self.eng.report("toggle", ev, msg, key)


class Return(Calls):
    """way back to an earlier profile, from a screen of n layers: b layers below s profiles and d layers above, with a chosen profile of index i:
       q = (layers removed, profiles left, values of the lengths that were read, feasible?)"""

    def __init__(self, n, b, s, i, esc):
        Calls.__init__(self)
        self.n, self.b, self.s, self.i, self.esc = n, b, s, i, esc
        self.init = (0, s, frozenset(), True)
        self.ends, self.index = set(), False

    def leaf(self, lens):
        d = dict(lens)

        def f(v):
            v = strip(v)
            if v in d:
                return d[v]
            if v.tag == "phi" and v.a[-1] in d:     # variable that several assignments reach
                return d[v.a[-1]]
            if v.tag == "fld" and v.a[1] == BELOW:
                return self.b
            if v.tag == "fld" and v.a[1] == "no_escape":
                return int(self.esc)
            if (v.tag == "cbarg" or v.tag == "arg") and self.is_index(v):
                self.index = True
                return self.i
            return self.leafop(v, f)
        return f

    def is_index(self, v):
        return self.i is not None and v in self.indices

    def step(self, q, ev, st):
        e = self.eng
        self.note(ev)
        k, s, lens, live = q
        if not live or inside(e, ev):
            return q
        if ev.kind == "call" and not ev.inl:
            n = last(ev.path)
            if ev.args and is_stack(ev.args[0]):
                if n == "len":
                    return (k, s, self.put(lens, ev.res, s), live)
                if n == "is_empty":
                    return (k, s, self.put(lens, ev.res, int(s == 0)), live)
                if n == "pop":
                    return (k, max(s - 1, 0), lens, live)
                if n == "clear":
                    return (k, 0, lens, live)
                if n in ("truncate", "drain", "split_off"):
                    a = strip(ev.args[1])
                    if a.tag == "agg" and a.a[2] and n == "drain":
                        a = a.a[2][0]
                    x = evaluate(a, self.leaf(lens))
                    if x is None or x < 0:
                        self.bad(ev, f"it is not known how many profiles remain in the stack after {n}()", "unknown " + n)
                        return (k, s, lens, False)
                    return (k, min(s, x), lens, live)
                if n not in READS:
                    self.bad(ev, f"the stack of profiles is changed by {n}() on the way back to a profile", "other " + n)
            elif is_ui(ev, "len"):
                return (k, s, self.put(lens, ev.res, self.n - k), live)
            elif is_ui(ev, "pop_layer"):
                if k >= self.n:
                    self.bad(ev, "layers are removed from an empty screen", "empty")
                    return (k, s, lens, False)
                return (k + 1, s, lens, live)
            elif is_ui(ev, "add_layer", "add_fullscreen_layer"):
                self.bad(ev, "a layer is added on the way back to a profile", "add")
        elif ev.kind == "assign" and isinstance(ev.extra[0][0], tuple) and not ev.extra[0][1]:
            loc = ev.extra[0][0]
            x = evaluate(ev.val, self.leaf(lens)) if ev.val is not None else None
            lens = frozenset((a, b) for a, b in lens if a != loc)
            return (k, s, lens if x is None else lens | {(loc, x)}, live)
        elif ev.kind == "cond" and ev.extra[0] == "k":
            x = evaluate(ev.val, self.leaf(lens))
            if x is not None and x != ev.extra[1]:
                return (k, s, lens, False)
        elif ev.kind == "exit" and ev.extra == "return":
            self.ends.add((k, s))
        return q

    def put(self, lens, tok, val):
        tok = strip(tok)
        return frozenset([(a, b) for a, b in lens if a is not tok] + [(tok, val)])

    def bad(self, ev, msg, key):
        self.eng.report("return", ev, msg, key)


@check("U09")
def u09(ctx):
    ctx.rule("Showing a profile pushes one layer description and adds one screen layer on every path, and all views of the profile are named and looked up under names derived from its own position in the stack.")
    ctx.rule("Switching between hierarchical and flat profile pops one, removes one, then shows the other kind with the popped layer's name and norm.")
    ctx.rule("Effect of Esc and of the backtrace on (layers on screen, profile stack), abstractly interpreted for all small screens: the stack holds exactly the profiles left on screen.")
    p = ctx.p
    us = units(ctx)
    shows = [b for b, ops in us.items() if "push" in ops]
    ctx.anchor("function that shows a profile", shows)
    for b in shows:
        s = Show(b)
        e = ctx.run(b, s, opaque=[b.id])
        s.finish(ctx)
        ctx.absorb_reports(e)
        ctx.count("functions that show profiles")
        ctx.anchor("shortcut that switches between kinds of profiles", s.events)
        seen = set()
        for rec in e.merge_spawns(s.events):
            t = Toggle(s, b)
            ctx.fork(e, rec, t)
            seen |= t.seen
            us = {u: o for u, o in us.items() if u.id != rec[0].a[0]}
            ctx.count("profile switches")
        for k in ("show", "Hierarchical", "Flat", "layer", "back", "new"):
            ctx.anchor(f"switching between kinds of profiles ({k})", k in seen)
    pops = [b for b, ops in us.items() if "push" not in ops]
    ctx.anchor("ways back to earlier profiles", len(pops) >= 2)
    for b in sorted(pops, key=lambda b: b.path):
        back(ctx, b)


def back(ctx, b):
    p = ctx.p
    idx = [i for i in range(1, b.argc + 1) if b.local_ty(i).peel().k == "prim" and b.local_ty(i).peel().s == "usize"]
    parent = p.bodies.get(b.parent) if b.kind == "closure" else None
    ctx.count("ways back")
    ctx.sample("ways back", b.path)
    runs = 0
    if parent is not None:
        l = Listing(b)
        e0 = ctx.run(parent, l)
        recs = e0.merge_spawns(l.recs)
        ctx.anchor("registration of " + b.path, recs)
        if idx:
            ctx.anchor("list of profiles to go back to", l.items)
            l.finish()
            ctx.absorb_reports(e0)
    chosen = set()
    for below in (0, 1, 2):
        for s in (0, 1, 2, 3):
            for d in (0, 1, 2):
                for i in (range(s) if idx else (None,)):
                    for esc in ((False, True) if not idx else (False,)):
                        n = below + s + d
                        if n == 0 or idx and d == 0:
                            continue
                        r = Return(n, below, s, i, esc)
                        r.indices = {mk("arg", b.id, j) for j in idx}
                        for rec in (recs if parent is not None else (None,)):
                            if rec is None:
                                e = ctx.run(b, r)
                            else:
                                e = ctx.fork(e0, rec, r)
                            runs += 1
                        judge(ctx, b, r, d, bool(idx))
                        chosen.add(r.index)
    if idx:
        ctx.anchor(f"use of the chosen profile in {b.path}", True in chosen)
    ctx.count("cases", runs)


def judge(ctx, b, r, d, idx):
    for k, s in r.ends:
        left = r.n - k
        profiles = max(0, min(r.s, left - r.b))
        state = f"{r.b} layers below {r.s} profiles and {d} above"
        if r.s and s != profiles:
            ctx.violation("return", b.path, f"with {state}, {profiles} profiles are left on screen but {s} in the stack", key="sync")
        if left < 1:
            ctx.violation("return", b.path, f"with {state}, no layer is left on screen", key="empty screen")
        if idx and (profiles != r.i + 1 or left != r.b + r.i + 1):
            ctx.violation("return", b.path, f"with {state}, choosing profile {r.i} leads to profile {left - r.b - 1}", key="other profile")
        if not idx and r.esc and k:
            ctx.violation("return", b.path, f"Esc removes a layer although it is disabled", key="disabled")
        if not idx and not r.esc and k != int(r.n > 1):
            ctx.violation("return", b.path, f"with {state}, Esc removes {k} layers", key="esc layers")
    if not r.ends:
        ctx.violation("return", b.path, "it is not known what is left on screen", key="no end")


class Listing(Calls):
    """list of profiles to choose from: (label, index) pairs"""
    init = 0

    def __init__(self, body):
        Calls.__init__(self)
        self.body, self.recs, self.items, self.pairs = body, [], [], []

    def step(self, q, ev, st):
        self.note(ev)
        e = self.eng
        if ev.kind == "call" and not ev.inl:
            for a in ev.args:
                v = strip(a)
                if v.tag == "clo" and v.a[0] == self.body.id:
                    self.recs.append((v, ev.fr, ev.sp, st.copy()))
            if last(ev.path) == "add_item" and len(ev.args) > 2:
                self.items.append((ev.args[1], ev.args[2], ev))
        if ev.kind == "ret" and ev.val is not None:
            v = strip(ev.val)
            if v.tag == "agg" and len(v.a[2]) == 2 and strip(v.a[2][1]).tag in ("fld", "cbarg"):
                self.items.append((v.a[2][0], v.a[2][1], ev))
        if ev.kind == "call" and not ev.inl and last(ev.path) in ("add_all", "with_all"):
            self.chain(ev, strip(ev.args[1]))
        return q

    def chain(self, ev, v, inner=False):
        """iterator adapters between the stack and the list"""
        numbered = False
        for _ in range(16):
            if v.tag == "lazy":
                v = strip(v.a[2][0] if isinstance(v.a[2], tuple) else v.a[2])
                continue
            if v.tag != "call" or not self.args.get(v):
                break
            n = self.name(v)
            if n == "enumerate":
                numbered = True
            elif n == "rev" and numbered:
                self.eng.report("listing", ev, "the profiles are numbered in reverse order", "reversed")
            elif n in DROPPING:
                self.eng.report("listing", ev, f"some profiles may be left out or misnumbered by {n}()", "dropped")
            v = strip(self.args[v][0])

    def finish(self):
        for label, idx, ev in self.items:
            i, l = strip(idx), label
            base = strip(root_of(i))
            if not (i.tag == "fld" and i.a[1] == "0" and self.eng.derives(l, lambda x: x.tag == "fld" and x.a[1] == "1" and strip(x.a[0]) is strip(i.a[0]))):
                self.eng.report("listing", ev, "an entry of the list may lead to another profile than the one it names", "label")
            if not self.eng.derives(l, lambda x: x.tag == "fld" and x.a[1] == "parent_name"):
                self.eng.report("listing", ev, "an entry of the list is not named after its profile", "name")
