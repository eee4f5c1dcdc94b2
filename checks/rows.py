"""Text user interface: contents of trace profiles (U10)."""
from base import *
from data import lossy
from dialogs import evaluate, negated, text, TUI
from screens import is_ui, inside, fields, closures
from processing import HANDLE
from profiles import Calls, units, is_stack

ROW = "HierarchicalData"
REORDERING = {"rev", "sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "reverse", "sorted", "sorted_by", "sorted_by_key", "swap", "rotate_left", "rotate_right"}
TEXT = {None, "clone", "into", "from", "to_string", "to_owned", "deref", "as_ref", "as_str", "borrow", "into_string", "fmt", "format", "new_display", "new", "new_v1", "new_const", "to_str", "must_use",
        "with_capacity", "push_str", "write_str", "write_fmt", "extend", "append", "into_boxed_str", "as_mut", "deref_mut", "String"}
KEYS = {"Total": "TotalDuration", "Myself": "SelfDuration", "Description": "Description"}
LIST = {"get_root_activities", "get_all_activities", "get_direct_children", "get_all_children"}


def opaque_ids(p, *more):
    return {b.id for b in p.bodies.values() if b.path.startswith((HANDLE, TUI[:-5] + "display::"))} | set(more)


def field_of(v, *names):
    """(x, name) if v is field `name` of x"""
    v = strip(v)
    return (strip(v.a[0]), v.a[1]) if v.tag == "fld" and (not names or v.a[1] in names) else (None, None)


class Content(Calls):
    def note(self, ev):
        Calls.note(self, ev)
        if ev.kind == "call" and not ev.inl and last(ev.path) in ("insert_column", "column") and "TableView" in ev.path:
            c = strip(ev.args[2 if last(ev.path) == "insert_column" else 1])
            k = strip(c.a[2][0]) if c.tag == "agg" and c.a[2] else None
            self.__dict__.setdefault("sites", {}).setdefault((ev.fr.ctx, ev.bb), set()).add(KEYS.get(c.a[1] if k is None else k.a[1] if k.tag == "agg" else None) if c.tag == "agg" else None)

    def ordering(self, ev):
        """order that a new column is given: that which was recorded for it"""
        fr = ev.fr
        while fr is not None and not (isinstance(fr.pstage, tuple) and fr.pstage[0] == "hof"):
            fr = self.eng.frames[fr.parent] if fr.parent is not None else None
        ks = self.__dict__.setdefault("sites", {}).get((fr.parent, fr.pbb)) if fr is not None else None
        if ks is None or len(ks) != 1:
            return
        v = strip(ev.args[1])
        i = self.keys.get(next(iter(ks)))
        if v.tag != "idx" or v.a[1:] != (("k", i),) or field_of(v.a[0], "order")[0] is None:
            self.bad(ev, f"a column is not sorted in the order that was chosen for it ({next(iter(ks))})", "order of column")

    def covers(self, ev, item, what):
        """the loop over displayed profiles leaves none out, except the last one when sorting, which did it itself"""
        r = strip(root_of(item))
        src = self.args.get(r)
        todo, seen, found = [strip(src[0])] if src else [], set(), False
        while todo:
            v = strip(todo.pop())
            if v in seen:
                continue
            seen.add(v)
            if is_stack(v):
                found = True
                continue
            n = v.a[1].rsplit("::", 1)[-1] if v.tag == "lazy" else self.name(v)
            a = v.a[2] if v.tag == "lazy" else self.args.get(v, ())
            if n == "take" and len(a) > 1:
                todo.append(a[0])
                for k in range(1, 5):
                    x = evaluate(a[1], lambda y: self.leaf(y, k))
                    if x is None or x < k - (what == "sort order"):
                        self.bad(ev, f"some profiles are left out when the {what} is changed", f"{what} some")
                        break
            elif n in ("index", "get") and len(a) > 1 and strip(a[1]).tag == "agg" and strip(a[1]).a[0].endswith(("::RangeTo", "::RangeFull")):
                todo.append(a[0])
                for k in range(1, 5):
                    x = evaluate(strip(a[1]).a[2][0], lambda y: self.leaf(y, k)) if strip(a[1]).a[2] else k
                    if x is None or x < k - (what == "sort order"):
                        self.bad(ev, f"some profiles are left out when the {what} is changed", f"{what} some")
                        break
            elif n == "split_last" and what == "sort order":
                todo.append(a[0])
            elif n in DROPPING | {"index", "get", "split_at", "split_last", "split_first"}:
                self.bad(ev, f"some profiles are left out when the {what} is changed", f"{what} some")
                return
            else:
                todo += [x for x in a[:1] if x is not None]
                if v.tag not in ("call", "lazy"):
                    todo += [x for x in (v.a[2] if v.tag == "agg" else v.a[:1]) if hasattr(x, "tag")]
        if not found:
            self.bad(ev, f"it is not known that the {what} is changed in all profiles", f"{what} some")

    def leaf(self, x, k):
        x = strip(x)
        if self.name(x) == "len" and self.args.get(x) and is_stack(self.args[x][0]):
            return k
        return self.leafop(x, lambda y: self.leaf(y, k))

    def item(self, v, indices):
        """is this value a row that was looked up under the index that a callback was given"""
        r = strip(root_of(v))
        return self.name(r) == "borrow_item" and len(self.args.get(r, ())) > 1 and strip(self.args[r][1]) in indices

    def asked(self, v, *methods):
        """request of the processing thread that a value is the answer to"""
        r = strip(root_of(v))
        return self.args[r] if r.tag == "call" and self.eng.callpath.get(r, "").startswith(HANDLE) and last(self.eng.callpath[r]) in methods and r in self.args else None

    def bad(self, ev, msg, key):
        self.eng.report("content", ev, msg, key)

    def display(self, st, v):
        """(Time | Percentage, Global | Parent | None) of a way to display durations"""
        e = self.eng
        k = e.variant(st, strip(v)) or e.variant(st, v)
        r = e.project(e.project(v, ("v", "Percentage")), ("f", "1"))
        return k, e.variant(st, r) if k == "Percentage" else None


class Rows(Content):
    """function that shows a profile: q = (item, it has children?, marked?, described?, columns, sorting, sort key, item left to be added,
    how durations are displayed)
    marked: None | "plus" | "late"   '+' given before / after the description
    sorting: None | "default"  a default column was set | "sorted" """
    init = (None, None, None, False, (), None, None, None, None)

    def __init__(self, body):
        Calls.__init__(self)
        self.body, self.seen = body, set()
        self.kind = next((mk("arg", body.id, i) for i in range(1, body.argc + 1) if str(body.local_ty(i)).endswith("::ProfileKind")), None)
        self.infos = next((mk("arg", body.id, i) for i in range(1, body.argc + 1) if "ActivityInfo" in str(body.local_ty(i)) and "dyn" not in str(body.local_ty(i))), None)
        self.norm = next((mk("arg", body.id, i) for i in range(1, body.argc + 1) if "decorum::" in str(body.local_ty(i))), None)
        self.lists, self.submits, self.selects, self.sorts = {}, [], [], []
        self.heads, self.wanted, self.loops, self.undone = set(), [], {}, set()

    def fresh(self, q, it):
        return (it, None, None, False) + q[4:]

    def step(self, q, ev, st):
        e = self.eng
        self.note(ev)
        if inside(e, ev):
            if ev.kind == "call" and not ev.inl and last(ev.path) == "ordering":
                self.ordering(ev)
            return q
        it, has, mark, desc, cols, sort, key, todo, disp = q
        if ev.kind == "call" and not ev.inl:
            n = last(ev.path)
            if n in ("set_on_submit", "on_submit"):
                self.seen.add(("submit", e.variant(st, self.kind)))
                self.submits += [(c, ev.fr, ev.sp, st.copy()) for c in closures(e, ev.args[1:])]
            elif n in ("set_on_select", "on_select"):
                self.selects += [(c, ev.fr, ev.sp, st.copy()) for c in closures(e, ev.args[1:])]
            elif n == "insert_column":
                return q[:4] + (self.column(ev, st, cols),) + q[5:]
            elif n == "describe_activities" and ev.path.startswith(HANDLE):
                self.wanted.append((ev, strip(root_of(ev.args[1]))))
                self.seen.add("descriptions")
            elif n == "next" and ev.res is not None:
                return self.fresh(self.left(q), strip(ev.res))
            elif n == "set_default_column" and "TableView" in ev.path:
                return q[:5] + (self.default(ev, st, key),) + q[6:]
            elif n in ("sort", "sort_by") and "TableView" in ev.path:
                if n == "sort_by":
                    sort = self.default(ev, st, key)
                    if strip(ev.args[2]).tag == "k":
                        self.bad(ev, "a profile is not sorted in the order that was chosen", "initial order")
                if sort is None or not cols:
                    self.bad(ev, "a profile is sorted before it has columns", "sorted early")
                return q[:5] + ("sorted",) + q[6:]
            elif n == "push" and "Vec" in ev.path and len(ev.args) == 2:
                return self.pushed(q, ev, st)
            if len(ev.args) > 1 and (self.given(strip(ev.args[0])) or e.derives(ev.args[0], self.given) and not e.derives(ev.args[0], self.plus)) and any(e.derives(a, self.plus) for a in ev.args[1:]):
                return (it, has, "late", desc) + q[4:]
            if any(self.plus(a) for a in ev.args):
                return (it, has, "late" if desc else "plus", desc) + q[4:]
            if any(self.description(a) for a in ev.args[1:] or ev.args) and n not in ("next", "as_ref", "deref", "borrow", "len", "into", "from"):
                return (it, has, mark, True) + q[4:]
        elif ev.kind == "cond" and ev.extra[0] == "k":
            v, neg = negated(ev.val)
            b, _ = field_of(v, "has_children")
            if b is not None:
                self.seen.add("children")
                return (strip(root_of(b)), bool(ev.extra[1]) != neg, mark, desc) + q[4:]
        elif ev.kind == "collected" and ev.val is not None:
            self.collected(q, ev.val, ev.res, ev, st)
            return self.fresh(q, None)
        elif ev.kind == "outcome":
            v = strip(ev.val)
            if v.tag in ("fld", "phi") and ev.extra in self.keys and (field_of(v, "key")[0] is not None or v.tag == "phi"):
                return q[:6] + (ev.extra, todo, disp)
            if ev.extra == "Some" and self.name(v) == "next" and self.source(v) is not None:
                return q[:7] + (v, disp)
            if ev.extra in ("Time", "Percentage") and disp is None or ev.extra in ("Global", "Parent") and disp in (None, "Percentage"):
                return q[:8] + (ev.extra,)
        elif ev.kind == "exit" and ev.extra == "return":
            k = e.variant(st, self.kind)
            got = sorted(c for c, _ in cols)
            want = {"Hierarchical": ["Myself", "Total"], "Flat": ["Myself"]}.get(k)
            if want is not None and got != want:
                self.bad(ev, f"a {k} profile displays {got or 'no'} durations", f"columns {k}")
            if sort != "sorted":
                self.bad(ev, "a profile is not sorted by the column that was chosen", "unsorted")
            self.left(q)
            if want is None:
                self.bad(ev, "it is not known which durations are displayed in which kind of profile", "columns ?")
        return q

    def done(self):
        for src, evs in self.loops.items():
            if src in self.undone or src is None:
                self.bad(evs[0], "activities of a profile may be left out or repeated", "lossy loop")
        for ev, ids in self.wanted:
            if not self.eng.derives(ids, lambda x: x in self.lists):
                self.bad(ev, "the descriptions that are asked for are not known to be those of the profile's activities", "ids")

    def plus(self, a):
        v = strip(a)
        return v.tag == "k" and v.a[0] == 43 or v.tag == "str" and "+" in v.a[0]

    def given(self, x):
        """is this an item of the list of descriptions"""
        return x.tag == "fld" and x.a[1] == "1" and self.name(strip(root_of(x))) == "next" or self.name(x) == "describe_activities"

    def description(self, a):
        """description of an activity, from the list of all"""
        v = strip(a)
        return self.eng.derives(v, lambda x: x.tag == "fld" and x.a[1] == "1" and self.name(strip(root_of(x))) == "next" or self.name(x) == "describe_activities")

    def pushed(self, q, ev, st):
        """rows or identifiers are put in a list one by one"""
        e = self.eng
        v, res = strip(ev.args[1]), strip(root_of(ev.args[0]))
        row = v.tag == "agg" and v.a[0].endswith("::" + ROW)
        b, f = field_of(v, "id")
        if not row and (b is None or self.source(b) is None):
            return q
        self.collected(q, v, res, ev, st)
        self.loops.setdefault(self.source(q[7]) if q[7] is not None else None, []).append(ev)
        return self.fresh(q, None)[:7] + (None, q[8])

    def left(self, q):
        """the next item is looked at, or no more: was anything done with the last one"""
        if q[7] is not None:
            self.undone.add(self.source(q[7]))
        return q[:7] + (None, q[8])

    def default(self, ev, st, key):
        """column that a profile is sorted by at first"""
        e = self.eng
        c = strip(ev.args[1])
        k = strip(c.a[2][0]) if c.tag == "agg" and c.a[2] else None
        k = c.a[1] if k is None and c.tag == "agg" else k.a[1] if k is not None and k.tag == "agg" else e.variant(st, k) if k is not None else None
        kind = e.variant(st, self.kind)
        got = KEYS.get(k)
        if got is None:
            self.bad(ev, "it is not known which column a profile is sorted by", "default column ?")
        elif kind == "Flat" and got == "TotalDuration":
            self.bad(ev, "a flat profile is sorted by a column that it does not have", "default column flat")
        elif key is not None and got != key and (kind, key, got) != ("Flat", "TotalDuration", "SelfDuration"):
            self.bad(ev, f"a profile is sorted by another column ({got}) than the one that was chosen ({key})", "default column")
        self.seen.add(("default", kind, got))
        return "default"

    def collected(self, q, val, res, ev, st):
        e = self.eng
        it, has, mark, desc = q[:4]
        v, res = strip(val), strip(res)
        b, f = field_of(v, "id")
        if b is not None and "ActivityInfo" not in v.tag:
            src = self.source(b)
            if src is not None:
                self.ordered(ev, res)
                self.same_order(ev, res)
                self.lists[res] = True
            return
        if not (v.tag == "agg" and v.a[0].endswith("::" + ROW)):
            return
        self.seen.add("rows")
        d = dict(zip(v.a[3], v.a[2]))
        bases = {strip(root_of(d[n])) for n in ("id", "duration", "self_duration") if n in d}
        for n in ("id", "duration", "self_duration"):
            x, f = field_of(d.get(n), n) if n in d else (None, None)
            if x is None:
                self.bad(ev, f"the {n} of a row is not that of its activity", "row " + n)
        if len(bases) != 1:
            self.bad(ev, "a row mixes several activities", "row mixed")
            return
        b = bases.pop()
        if self.name(b) is None:
            self.bad(ev, "it is not known which activity a row is about", "row unknown")
            return
        dv = d.get("description")
        kind = e.variant(st, self.kind)
        pair = [x for x in self.pairs(b)]
        if not e.derives(dv, lambda x: x.tag == "fld" and x.a[1] == "1" and strip(root_of(x)) is b):
            # the text was made in a buffer: some description must have been put there
            if not desc:
                self.bad(ev, "the description of a row is not that of its activity", "row description")
        for x in pair:
            self.ordered(ev, x)
            e.derives(x, lambda z: self.name(z) == "zip" and self.same_order(ev, *self.args[z]) and False)
        self.ordered(ev, res)
        if not pair:
            self.bad(ev, "it is not known that activities are paired with their own descriptions", "row pairing")
        if kind != "Flat":
            if has is True and mark is None and kind == "Hierarchical":
                self.bad(ev, "an activity that has children is not marked as one that can be zoomed", "no mark")
            if has is False and mark is not None:
                self.bad(ev, "an activity without children is marked as one that can be zoomed", "mark")
            if has is None and (mark is not None or kind == "Hierarchical"):
                self.bad(ev, "whether an activity can be zoomed is marked without looking whether it has children", "mark ?")
            if mark == "late":
                self.bad(ev, "the mark of activities that can be zoomed is not before their description", "mark late")
        elif mark is not None:
            self.bad(ev, "an activity of a flat profile is marked as one that can be zoomed", "mark flat")
        self.seen.add(("row", kind, has))

    def source(self, b):
        """iterator that an item was taken from, if over the activities of the profile"""
        r = strip(root_of(b))
        if self.name(r) != "next" and not str(r).endswith(".src"):
            return None
        a = self.args.get(r)
        src = strip(a[0]) if a else None
        return src if src is not None and self.eng.derives(src, lambda x: x is self.infos) else None

    def pairs(self, b):
        """iterators of pairs of an activity and its description"""
        src = self.source(b)
        if src is not None and self.eng.derives(src, lambda x: self.name(x) == "zip" and len(self.args.get(x, ())) == 2 and self.zipped(x)):
            yield src

    def zipped(self, z):
        e = self.eng
        a, b = self.args[z]
        return not lossy(e, a) and not lossy(e, b) and e.derives(a, lambda x: x is self.infos) and e.derives(b, lambda x: self.name(x) == "describe_activities")

    def same_order(self, ev, *vs):
        e = self.eng
        for v in vs:
            e.derives(v, lambda x: (x.a[1] if x.tag == "lazy" else e.callpath.get(x, "") if x.tag == "call" else "").rsplit("::", 1)[-1] in REORDERING
                      and self.bad(ev, "the descriptions of activities are not in the order of the activities", "order of descriptions") and False)

    def ordered(self, ev, src):
        for n in filter(None, [lossy(self.eng, src)]):
            self.bad(ev, f"activities of a profile may be left out or reordered by {n}()", f"lossy {n}")

    def column(self, ev, st, cols):
        """a column of durations is added"""
        v = strip(ev.args[2])
        if v.tag != "agg" or v.a[1] != "Duration":
            self.bad(ev, "it is not known which column is added", "column")
            return cols
        k = strip(v.a[2][0])
        kind = k.a[1] if k.tag == "agg" else self.eng.variant(st, k)
        heading(self, ev, st, kind, v.a[2][1], self.eng.variant(st, self.kind))
        e = self.eng
        form, ref = self.display(st, v.a[2][1])
        n = strip(e.project(e.project(v.a[2][1], ("v", "Percentage")), ("f", "0")))
        if form == "Percentage" and ref == "Parent" and n is not self.norm:
            self.bad(ev, "percentages of a profile are not relative to that profile's own parent", "layer norm")
        if form == "Percentage" and ref == "Global" and n is self.norm:
            self.bad(ev, "global percentages are not relative to the whole trace", "global norm")
        return tuple(sorted(cols + ((kind, text(ev.args[3])),), key=str))[:4]


def heading(self, ev, st, kind, disp, profile):
    """heading of a column of durations against what it displays"""
    t = text(ev.args[3])
    form, ref = self.display(st, disp)
    if t is None or form is None or form == "Percentage" and ref is None:
        return
    self.heads.add((profile, kind, form, ref))
    if kind == "Total" or profile == "Flat":
        want = {"Time": (False, False), "Percentage": (True, ref == "Parent")}[form]
        if ("%" in t, "Par" in t) != want:
            self.bad(ev, f"the heading of a column ({t}) is not that of what it displays ({form} {ref or ''})", f"heading {kind} {form} {ref}")
        if form == "Percentage" and ref == "Global" and "Tot" not in t:
            self.bad(ev, f"the heading of a column ({t}) is not that of what it displays ({form} {ref or ''})", f"heading {kind} {form} {ref}")
    if ("Self" in t) != (kind == "Myself"):
        self.bad(ev, f"the heading of a column ({t}) is not that of the durations it displays ({kind})", f"heading kind {kind}")


class Zoom(Content):
    """a row is chosen: q = (known to have children, shown)"""
    init = (False, False)

    def __init__(self, body, clo, args):
        Calls.__init__(self)
        self.args = args
        self.unit, self.indices = body, clo
        self.seen, self.flats, self.norms = set(), [], {}

    def done(self):
        for by in self.norms.values():
            if False not in by:
                self.bad(by[True], "percentages of a zoomed activity are not relative to its duration", "zoom norm")

    def step(self, q, ev, st):
        e = self.eng
        self.note(ev)
        plus, shown = q
        if inside(e, ev):
            return q
        if ev.kind == "outcome" and ev.extra == "Some":
            r = strip(ev.val)
            if self.name(r) in ("strip_prefix",) and self.mark(self.args.get(r, ())):
                self.seen.add("mark")
                return (True, shown)
        elif ev.kind == "cond" and ev.extra[0] == "k":
            v, neg = negated(ev.val)
            if self.name(v) == "starts_with" and self.mark(self.args.get(v, ())):
                self.seen.add("mark")
                return (plus or bool(ev.extra[1]) != neg, shown)
        elif ev.kind == "call" and not ev.inl and ev.path == self.unit.path:
            if shown:
                self.bad(ev, "choosing an activity shows several profiles", "zoom twice")
            if not plus:
                self.bad(ev, "an activity that may have no children is zoomed", "zoom childless")
            self.shown(ev, st)
            return (plus, True)
        elif ev.kind == "exit" and ev.extra == "return" and plus and not shown:
            self.bad(ev, "choosing an activity that has children has no effect", "zoom nothing")
        return q

    def mark(self, args):
        return len(args) > 1 and self.item(field_of(args[0], "description")[0] or args[0], self.indices) and Rows.plus(self, args[1])

    def shown(self, ev, st):
        e = self.eng
        self.seen.add("zoom")
        for i, a in enumerate(ev.args):
            ty = str(self.unit.local_ty(i + 1))
            v = strip(a)
            if self.unit.local_ty(i + 1).k == "ref":
                continue
            cs = list(closures(e, [a]))
            if cs:
                self.flats += [(c, ev.fr, ev.sp, st.copy()) for c in cs]
            elif ty.endswith("::ProfileKind"):
                if v.tag != "agg" or v.a[1] != "Hierarchical":
                    self.bad(ev, "zooming does not show a hierarchical profile", "zoom kind")
            elif "ActivityInfo" in ty:
                r = self.asked(v, "get_direct_children")
                if r is None or not self.own(r[1], "id"):
                    self.bad(ev, "zooming does not show the direct children of the chosen activity", "zoom children")
            elif "f64" in ty or "Constrained" in ty:
                const = self.name(v) == "from_inner" and strip(self.args[v][0]).tag == "k"
                self.norms.setdefault((ev.fr.ctx, ev.bb), {}).setdefault(const, ev)
                if not const and not e.derives(v, lambda x: x.tag == "fld" and self.own(x, "duration")) or e.derives(v, lambda x: x.tag == "fld" and x.a[1] == "self_duration"):
                    self.bad(ev, "percentages of a zoomed activity are not relative to its duration", "zoom norm")
            elif not e.derives(v, lambda x: x.tag == "fld" and self.own(x, "description")):
                self.bad(ev, "the profile of a zoomed activity is not named after it", "zoom name")

    def own(self, v, name):
        """field of the chosen row"""
        x, f = field_of(v, name)
        return x is not None and self.item(x, self.indices)


class Flattened(Content):
    """activities of the flat counterpart of a zoomed profile"""
    init = 0

    def __init__(self, zoom):
        Calls.__init__(self)
        self.zoom, self.args = zoom, zoom.args

    def step(self, q, ev, st):
        self.note(ev)
        if not inside(self.eng, ev) and ev.kind == "exit" and ev.extra == "return":
            self.zoom.eng = self.eng
            r = self.asked(ev.val, "get_all_children")
            if r is None or not self.zoom.own(r[1], "id"):
                self.bad(ev, "the flat profile of a zoomed activity is not about all its children", "flat children")
        return q


class Select(Content):
    """description pane: q = (description displayed, wrap set)"""
    init = (False, False)

    def __init__(self, args, indices, initial=False):
        Calls.__init__(self)
        self.args, self.indices, self.initial = args, indices, initial

    def step(self, q, ev, st):
        e = self.eng
        self.note(ev)
        if inside(e, ev):
            return q
        if ev.kind == "call" and not ev.inl and last(ev.path) in ("set_content", "set_content_wrap") and "TextView" in ev.path:
            r = self.asked(ev.args[1], "describe_activity")
            x, f = field_of(ev.args[1])
            i = 0 if last(ev.path) == "set_content" else 1
            if r is None or f != str(i):
                self.bad(ev, "the description pane does not show the description of an activity", "pane content")
            elif not self.selected(r[1]):
                self.bad(ev, "the description pane shows another activity than the one that is selected", "pane activity")
            return (True, q[1]) if i == 0 else (q[0], True)
        if ev.kind == "exit" and ev.extra == "return" and q != (True, True):
            self.bad(ev, "the description pane is not updated" + (" when a profile is shown" if self.initial else " when another activity is selected"), "pane " + str(self.initial))
        return q

    def selected(self, v):
        x, f = field_of(v, "id")
        if x is None:
            return False
        r = strip(root_of(x))
        if self.name(r) != "borrow_item" or len(self.args.get(r, ())) < 2:
            return False
        i = strip(self.args[r][1])
        return i in self.indices if not self.initial else self.name(strip(root_of(i))) == "item"


class Cells(Content):
    """text of a table cell, or order of two rows: q = (data shown, formatter)"""
    init = (None, None)

    def __init__(self, body, col):
        Calls.__init__(self)
        self.body, self.col, self.seen = body, col, set()

    def step(self, q, ev, st):
        e = self.eng
        self.note(ev)
        me = mk("arg", self.body.id, 1)
        if ev.kind == "call" and not ev.inl:
            n = last(ev.path)
            if n == "display_duration":
                return (strip(ev.args[1]), "time")
            if n == "reverse" or n == "then":
                self.bad(ev, "the order of rows is not that of what they display", "reversed")
            if n in ("new_display", "new_lower_exp"):
                return (strip(ev.args[0]), "number")
            if n in ("partial_cmp", "total_cmp", "cmp") and len(ev.args) == 2:
                return ((strip(ev.args[0]), strip(ev.args[1])), "cmp")
        if ev.kind == "exit" and ev.extra == "return":
            c = e.variant(st, self.col)
            d = e.project(self.col, ("v", "Duration"))
            k = e.variant(st, e.project(d, ("f", "0")))
            form, _ = self.display(st, e.project(d, ("f", "1")))
            name = {"Total": "duration", "Myself": "self_duration"}.get(k) if c == "Duration" else "description" if c == "Description" else None
            self.seen.add((c, k, form))
            if name is None:
                self.bad(ev, "it is not known what a cell displays", "cell ?")
                return q
            own = lambda v, i: v.tag == "fld" and v.a[1] == name and strip(v.a[0]) is mk("arg", self.body.id, i)
            v, how = q
            if self.body.argc > 2:
                if how != "cmp" or not own(v[0], 1) or not own(v[1], 2):
                    self.bad(ev, f"rows are not ordered by the {name} that they display", "order " + name)
                elif not e.derives(ev.val, lambda x: x.tag == "call" and last(e.callpath.get(x, "")) in ("partial_cmp", "total_cmp", "cmp")):
                    self.bad(ev, f"rows are not ordered by the {name} that they display", "order " + name)
            elif c == "Description":
                if not e.derives(ev.val, lambda x: own(x, 1)) or e.derives(ev.val, lambda x: x.tag == "call" and self.name(x) not in TEXT):
                    self.bad(ev, "the description of a row is not displayed", "cell description")
            elif form == "Time":
                if how != "time" or not own(v, 1):
                    self.bad(ev, f"a duration is not the row's {name}", "cell time " + name)
            elif form == "Percentage":
                n = e.project(e.project(e.project(d, ("f", "1")), ("v", "Percentage")), ("f", "0"))
                ok = how == "number" and v.tag == "op" and v.a[0] == "Mul" and \
                    any(own(strip(a), 1) and e.derives(b, lambda x: x is n) for a, b in (v.a[1:], v.a[:0:-1]))
                if not ok:
                    self.bad(ev, f"a percentage is not the row's {name} times the norm", "cell percent " + name)
            else:
                self.bad(ev, "it is not known how a duration is displayed", "cell form")
        return q


class Units(Content):
    """change of the duration unit: q = (old display, new display, layer, columns removed, columns inserted, state of the loop)"""
    init = (None, None, None, 0, (), None)

    def __init__(self):
        Calls.__init__(self)
        self.cycle, self.heads, self.seen = set(), set(), set()

    def step(self, q, ev, st):
        e = self.eng
        self.note(ev)
        old, new, lay, rem, ins, loop = q
        if ev.kind == "assign" and ev.val is not None and fields(ev)[-1:] == ["duration_display"] and isinstance(ev.extra[0][0], tuple) and ev.extra[0][0][0] == "H":
            was, v = ev.extra[1], strip(ev.val)
            o = self.option(st, was)
            n = self.option(st, v)
            self.cycle.add((o, n))
            if n == ("Percentage", "Global") and not e.derives(v, lambda x: x.tag == "fld" and x.a[1] == "global_percent_norm"):
                self.bad(ev, "global percentages are not relative to the whole trace", "global norm")
            return (o, n) + q[2:]
        if ev.kind == "call" and not ev.inl:
            n = last(ev.path)
            if n == "remove_column":
                return (old, new, lay, rem + 1 if rem < 3 else rem, ins, loop)
            if n == "insert_column":
                t = strip(root_of(ev.args[0]))
                l = strip(root_of(self.args[t][1])) if self.name(t) in ("find_name", "call_on_name") and len(self.args.get(t, ())) > 1 else None
                c = strip(ev.args[2])
                if l is None or field_of(self.args[t][1], "table_name")[0] is None:
                    self.bad(ev, "it is not known which profile's columns are changed", "unit table")
                    return q
                if c.tag != "agg" or c.a[1] != "Duration":
                    self.bad(ev, "it is not known which column is added", "column")
                    return q
                self.covers(ev, l, "unit of durations")
                k = strip(c.a[2][0])
                kind = k.a[1] if k.tag == "agg" else e.variant(st, k)
                form, ref = self.display(st, c.a[2][1])
                prof = e.variant(st, e.project(payload(e, l, "Some"), ("f", "kind")))
                if (form, ref) != new and form is not None and new is not None:
                    self.bad(ev, f"a profile displays durations as {form} {ref or ''} instead of {new[0]} {new[1] or ''}", "unit of layer")
                self.seen.add((form, ref))
                if form == "Percentage" and ref == "Parent":
                    nv = e.project(e.project(c.a[2][1], ("v", "Percentage")), ("f", "0"))
                    x, f = field_of(nv, "parent_percent_norm")
                    if x is None or strip(root_of(x)) is not l:
                        self.bad(ev, "percentages of a profile are not relative to that profile's own parent", "layer norm")
                if form == "Percentage" and ref == "Global":
                    nv = e.project(e.project(c.a[2][1], ("v", "Percentage")), ("f", "0"))
                    if not e.derives(nv, lambda x: x.tag == "fld" and x.a[1] == "global_percent_norm"):
                        self.bad(ev, "global percentages are not relative to the whole trace", "global norm")
                heading(self, ev, st, kind, c.a[2][1], prof)
                return (old, new, l, rem, tuple(sorted(ins + (kind,), key=str))[:4], prof)
        if ev.kind == "outcome" and ev.extra in ("Some", "None") and self.name(strip(ev.val)) == "next":
            self.layer_done(ev, q)
            return (old, new, None, 0, (), "over" if ev.extra == "None" else "layer")
        if ev.kind == "exit" and ev.extra == "return" and new is not None and loop != "over":
            self.bad(ev, "the unit of durations is not changed in all profiles", "unit some")
        return q

    def layer_done(self, ev, q):
        old, new, lay, rem, ins, prof = q
        if prof == "layer":
            self.bad(ev, "the unit of durations is not changed in all profiles", "unit some")
        if lay is None:
            return
        want = {"Hierarchical": (2, ("Myself", "Total")), "Flat": (1, ("Myself",))}.get(prof)
        if want is None or (rem, ins) != want:
            self.bad(ev, f"changing the unit of durations in a {prof} profile removes {rem} columns and adds {ins}", f"unit columns {prof}")

    def option(self, st, v):
        e = self.eng
        k = e.variant(st, v)
        return self.display(st, payload(e, v, "Some")) if k == "Some" else None


class Sorts(Content):
    """the user changes the sort order: q = (key recorded, order recorded, state of the loop over other profiles)"""
    init = (False, False, None)

    def __init__(self, body):
        Calls.__init__(self)
        self.body, self.seen = body, set()
        self.col = next((mk("arg", body.id, i) for i in range(1, body.argc + 1) if str(body.local_ty(i)).endswith("::HierarchicalColumn")), None)
        self.order = next((mk("arg", body.id, i) for i in range(1, body.argc + 1) if str(body.local_ty(i)).endswith("::Ordering")), None)

    def what(self, st):
        e = self.eng
        c = e.variant(st, self.col)
        return e.variant(st, e.project(e.project(self.col, ("v", "Duration")), ("f", "0"))) if c == "Duration" else c

    def step(self, q, ev, st):
        e = self.eng
        self.note(ev)
        key, order, loop = q
        if ev.kind == "assign" and ev.val is not None and isinstance(ev.extra[0][0], tuple) and ev.extra[0][0][0] == "H":
            f = fields(ev)
            if f[-1:] == ["key"] and "sort_config" in f:
                k = e.variant(st, strip(ev.val))
                want = {"Total": "TotalDuration", "Myself": "SelfDuration", "Description": "Description"}.get(self.what(st))
                if k is None or k != want:
                    self.bad(ev, f"later profiles are not sorted by the column that was chosen ({k} instead of {want})", "sort key")
                self.seen.add(want)
                return (True, order, loop)
            if "order" in f and "sort_config" in f:
                if strip(ev.val) is not self.order:
                    self.bad(ev, "later profiles are not sorted in the order that was chosen", "sort order")
                i = strip(ev.index[0]) if ev.index and ev.index[0] is not None else None
                w = KEYS.get(self.what(st))
                if i is None or not (i.tag == "k" and i.a[0] == self.keys.get(w) or i.tag == "discr" and e.variant(st, strip(i.a[0])) == w):
                    self.bad(ev, "the order that was chosen is not recorded for the column that was chosen", "sort order of")
                return (key, True, loop)
        if ev.kind == "call" and not ev.inl and last(ev.path) == "sort_by" and "TableView" in ev.path:
            self.seen.add("sort")
            t = strip(root_of(ev.args[0]))
            if self.name(t) not in ("find_name", "call_on_name") or len(self.args.get(t, ())) < 2 or field_of(self.args[t][1], "table_name")[0] is None:
                self.bad(ev, "it is not known which profile is sorted", "sort table")
                return q
            l = strip(root_of(self.args[t][1]))
            prof = e.variant(st, e.project(payload(e, l, "Some"), ("f", "kind")))
            c = strip(ev.args[1])
            k = c.a[1] if c.tag == "agg" else e.variant(st, c)
            w = self.what(st)
            if k is None or (k == "Description") != (w == "Description"):
                self.bad(ev, f"another column ({k}) is sorted than the one that was chosen ({w})", "sort column")
            if k == "Duration" and c.tag == "agg":
                d = strip(c.a[2][0])
                d = d.a[1] if d.tag == "agg" else e.variant(st, d)
                if prof == "Flat" and d == "Total":
                    self.bad(ev, "a flat profile is sorted by a column that it does not have", "sort flat")
                if prof == "Hierarchical" and d == "Total" and w == "Myself":
                    self.bad(ev, "another column is sorted than the one that was chosen", "sort other")
            if strip(ev.args[2]) is not self.order:
                self.bad(ev, "a profile is not sorted in the order that was chosen", "sort order")
            self.covers(ev, l, "sort order")
            return (key, order, "done")
        if ev.kind == "outcome" and ev.extra in ("Some", "None") and self.name(strip(ev.val)) == "next":
            if loop == "layer":
                self.bad(ev, "a profile is not sorted in the order that was chosen", "sort some")
            return (key, order, "layer" if ev.extra == "Some" else "over")
        if ev.kind == "exit" and ev.extra == "return" and loop != "over":
            self.bad(ev, "some profiles are left out when the sort order is changed", "sort some")
        if ev.kind == "exit" and ev.extra == "return" and q[:2] != (True, True):
            self.bad(ev, "the sort order that was chosen is not remembered for later profiles", "sort forgotten")
        return q


class Norm(Content):
    """no division by zero in conversions that reject infinities: q = finite or nonzero values known"""
    init = frozenset()

    def __init__(self):
        Calls.__init__(self)
        self.seen = 0

    def step(self, q, ev, st):
        e = self.eng
        self.note(ev)
        if ev.kind == "cond" and ev.extra[0] == "k":
            v, neg = negated(ev.val)
            yes = bool(ev.extra[1]) != neg
            if self.name(v) in ("is_finite", "is_normal") and yes or self.name(v) == "is_infinite" and not yes:
                return q | {strip(a) for a in self.args.get(v, ())} if len(q) < 6 else q
            if v.tag == "op" and v.a[0] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") and len(v.a) == 3:
                # a comparison with zero that excludes it
                for d in v.a[1:]:
                    d = strip(d)
                    if d.tag != "k" and any(strip(x) is K(0) for x in v.a[1:]):
                        r = evaluate(mk("op", v.a[0], *[K(0) if strip(x) is d else x for x in v.a[1:]]), lambda x: None)
                        if r is not None and bool(r) != yes and len(q) < 6:
                            return q | {d}
        if ev.kind == "call" and not ev.inl and last(ev.path) == "from_inner" and "decorum" in ev.path:
            v = strip(ev.args[0])
            self.seen += 1
            if not (v.tag == "k" or v in q or v.tag == "op" and v.a[0] == "Div" and strip(v.a[2]) in q):
                self.bad(ev, "activities that take no time make the user interface panic", "norm")
        return q


@check("U10")
def u10(ctx):
    ctx.rule("Provenance of every field of a profile's rows, of the columns, headings, cells and row order, and of the description pane, on all paths.")
    ctx.rule("A row is marked and can be zoomed iff its activity has children; zooming shows the direct children of that activity, relative to its duration (flat: all its children).")
    ctx.rule("Change of unit and sort order: every displayed profile, with its own norm, and later ones.")
    p = ctx.p
    us = units(ctx)
    adt = next((a for n, a in p.adts.items() if n.startswith("crofiler::") and {v["name"] for v in a["variants"]} == set(KEYS.values())), None)
    ctx.anchor("columns that can be sorted by", adt)
    keys = {v["name"]: i for i, v in enumerate(adt["variants"])} if adt else {}
    shows = [b for b, ops in us.items() if "push" in ops]
    ctx.anchor("function that shows a profile", shows)
    for b in shows:
        r = Rows(b)
        r.keys = keys
        ctx.anchor("kind, activities and norm of a profile", r.kind is not None and r.infos is not None and r.norm is not None)
        if r.kind is None or r.infos is None:
            continue
        e = ctx.run(b, r, opaque=opaque_ids(p, b.id))
        r.done()
        ctx.absorb_reports(e)
        ctx.count("functions that show profiles")
        for k in ("rows", "descriptions", "children", ("submit", "Hierarchical"), ("row", "Hierarchical", True), ("row", "Hierarchical", False)):
            ctx.anchor(f"profile contents: {k}", k in r.seen)
        for k in (("Hierarchical", "TotalDuration"), ("Hierarchical", "SelfDuration"), ("Hierarchical", "Description"), ("Flat", "SelfDuration"), ("Flat", "Description")):
            ctx.anchor(f"initial sort order: {k}", ("default",) + k in r.seen)
        ctx.anchor("rows of flat profiles", any(k[:2] == ("row", "Flat") for k in r.seen if isinstance(k, tuple)))
        heads(ctx, r.heads)
        s = Select(r.args, (), initial=True)
        e1 = ctx.run(b, s, opaque=opaque_ids(p, b.id))
        ctx.anchor("selection of a row", r.selects)
        for rec in e.merge_spawns(r.selects):
            ctx.count("selection callbacks")
            body = p.bodies[rec[0].a[0]]
            ctx.fork(e, rec, Select(dict(r.args), {mk("arg", body.id, body.argc)}))
        ctx.anchor("choice of a row", r.submits)
        for rec in e.merge_spawns(r.submits):
            ctx.count("zoom callbacks")
            body = p.bodies[rec[0].a[0]]
            z = Zoom(b, {mk("arg", body.id, body.argc)}, dict(r.args))
            f = ctx.fork(e, rec, z)
            z.done()
            ctx.absorb_reports(f)
            for k in ("mark", "zoom"):
                ctx.anchor(f"zoom on an activity ({k})", k in z.seen)
            ctx.anchor("flat counterpart of a zoomed profile", z.flats)
            for rec2 in f.merge_spawns(z.flats):
                ctx.fork(f, rec2, Flattened(z))
    # cells
    impls = [b for b in p.bodies.values() if b.path.startswith("<" + TUI) and " as cursive_table_view::TableViewItem" in b.path and ROW in b.path and b.kind != "closure" and last(b.path) in ("to_column", "cmp")]
    ctx.anchor("cells and order of profiles", len(impls) == 2)
    for b in impls:
        c = Cells(b, mk("arg", b.id, b.argc))
        ctx.run(b, c, opaque=opaque_ids(p))
        ctx.count("cell functions")
        for k in [("Duration", k, f) for k in ("Total", "Myself") for f in (("Time", "Percentage") if b.argc == 2 else (None,))]:
            ctx.anchor(f"cells: {k}", k in c.seen or b.argc > 2 and any(x[:2] == k[:2] for x in c.seen))
        ctx.anchor("cells: description", any(x[0] == "Description" for x in c.seen))
    # units
    fs = [b for b in p.bodies.values() if b.crate.name == "crofiler" and any(True for _ in direct_calls(b, lambda x: "TableView" in x and last(x) == "remove_column"))]
    cg, callers = call_graph(p)
    top, todo, seen = set(), list(fs), set()
    while todo:
        b = todo.pop()
        if b.id in seen:
            continue
        seen.add(b.id)
        if b.kind != "closure" and b.argc == 1 and "Cursive" in str(b.local_ty(1)):
            top.add(b)
        else:
            todo += [p.bodies[c] for c in callers.get(b.id, ())]
    ctx.anchor("change of the unit of durations", top)
    for b in sorted(top, key=lambda b: b.path):
        u = Units()
        e = ctx.run(b, u, opaque=opaque_ids(p))
        ctx.count("unit changes")
        heads(ctx, u.heads)
        all3 = {("Percentage", "Global"), ("Percentage", "Parent"), ("Time", None)}
        nxt = {}
        for o, n in u.cycle:
            nxt.setdefault(o, set()).add(n)
        x, steps = ("Percentage", "Global"), []
        for _ in range(3):
            steps.append(x)
            x = next(iter(nxt[x])) if len(nxt.get(x, ())) == 1 else None
        if set(steps) != all3 or x != ("Percentage", "Global"):
            ctx.violation("content", b.path, f"the units of durations are not cycled through: {sorted(map(str, u.cycle))}", key="cycle")
        for k in all3:
            ctx.anchor(f"columns of {k}", k in u.seen)
    # sort order
    ss = [b for b in p.bodies.values() if b.crate.name == "crofiler" and b.kind != "closure" and b.argc >= 3 and str(b.local_ty(2)).endswith("::HierarchicalColumn") and "Ordering" in str(b.local_ty(3)) and "Cursive" in str(b.local_ty(1))]
    ctx.anchor("change of the sort order", ss)
    for b in ss:
        s = Sorts(b)
        s.keys = keys
        ctx.run(b, s, opaque=opaque_ids(p))
        ctx.count("sort changes")
        for k in ("TotalDuration", "SelfDuration", "Description", "sort"):
            ctx.anchor(f"sort order ({k})", k in s.seen)
    # norms
    n = 0
    for b in sorted((b for b in p.bodies.values() if b.crate.name == "crofiler" and b.kind != "closure" and any(True for _ in direct_calls(b, lambda x: "decorum" in x and last(x) == "from_inner"))), key=lambda b: b.path):
        m = Norm()
        ctx.run(b, m, opaque=opaque_ids(p))
        n += m.seen
    ctx.anchor("conversions to finite numbers", n)
    ctx.count("conversions to finite numbers", n)


def heads(ctx, got):
    for prof, kind in (("Hierarchical", "Total"), ("Flat", "Myself")):
        for d in (("Percentage", "Global"), ("Percentage", "Parent"), ("Time", None)):
            ctx.anchor(f"heading of {prof} {kind} {d}", (prof, kind) + d in got)
