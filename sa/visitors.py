"""Rules about the visitors the collectors traverse the object graph with, and the type-erased functions."""
from .core import *
from .handles import where, nm, mods, counts, effects, EFFECTS, REL, ACQ


class Roles:
    """Which visitor plays which part in the collector of a module, found by what the visitors do."""

    def __init__(self, cx, m):
        self.cx, self.m = cx, m
        self.kind = "visit_" + m.name
        self.other = "visit_" + ("sync" if m.name == "unsync" else "unsync")
        self.vis = {}
        for b in cx.P.local_fns:
            if b.impl_trait and b.impl_trait.split("<")[0].endswith("Visitor") and b.path.startswith("<" + m.name + "::"):
                ty = b.impl_self.split("<")[0]
                self.vis.setdefault(ty, {})[b.path.split("::")[-1]] = b
        self.trace = self.mark = self.sweep = None
        for ty, ms in self.vis.items():
            if self.kind not in ms or self.other not in ms:
                continue
            tk, ps = cx.paths(m, ms[self.kind])
            ks = {(t.k, t.get("value") is not None) for p in ps for t in p.toks}
            kk = {k for k, _ in ks}
            if kk & {"setptr", "dealloc", "dropval"}:
                self.put("sweep", ty)
            elif ("insert", True) in ks or "mvstore" in kk:
                self.put("trace", ty)
            elif "sinsert" in kk or "insert" in kk:
                self.put("mark", ty)
        for r in ("trace", "sweep") + (("mark",) if m.name == "unsync" else ()):
            if getattr(self, r) is None:
                raise Missing("%s visitor of the %s collector" % (r, m.name))
        self.preserved = self.id_fields(self.trace)
        self.ids = self.preserved
        self.fns = self.erased_fns()
        self.preserved = self.ids | self.tag_fields()
        self._stat = None

    def put(self, role, ty):
        if getattr(self, role) is not None:
            raise Missing("a unique %s visitor of the %s collector (%s and %s)" % (role, self.m.name, getattr(self, role), ty))
        setattr(self, role, ty)

    def id_fields(self, ty):
        ad = self.cx.P.adts[ty]
        out = set()
        for i, f in enumerate(ad["variants"][0][1]):
            if f[3] in self.cx.idtypes():
                out.add((ty, i))
        return out

    def tag_fields(self):
        """Fields of the trace visitor which hold the number of the current collection: it is read when a visitor is made for
        an allocation that is examined, and nothing else is ever stored there."""
        ad = self.cx.P.adts[self.trace]
        vals = []
        for b in self.fns.get("tracefn", ()):
            for p in self.cx.paths(self.m, b)[1]:
                vals += [(p, t.vval) for t in p.all("accept") if t.vty == self.trace]
        if not vals or any(v is None or v.op != "adt" for p, v in vals):
            return set()
        wrote = {t.place.a[1][2] for p in self.cx.paths(self.m, self.method("trace"))[1] for t in p.all("vstore") if t.place.a[1:]}
        return {(self.trace, i) for i, f in enumerate(ad["variants"][0][1]) if f[0] not in wrote and
                all(any(v.a[3][i] is g for g in tags(p)) for p, v in vals)}

    def method(self, role, kind=None):
        return self.vis[getattr(self, role)][kind or self.kind]

    def paths(self, role, kind=None):
        tk, ps = self.cx.paths(self.m, self.method(role, kind), preserved=self.preserved)
        if role == "trace" and self.preserved != self.ids:
            fs = {"f:" + self.cx.P.adts[ty]["variants"][0][1][i][0] for ty, i in self.preserved - self.ids}
            for p in ps:
                used = list(p.facts) + [t.get("operand") for t in p.toks]
                p.tags = {x for u in used if isinstance(u, Term) for x in subterms(u) if x.op == "pj" and tk.keyname(x) in fs}
        return tk, ps

    # ---- functions stored in bookkeeping entries
    def entries(self):
        """[(graph, event, value)] of everything that is put into bookkeeping maps with function pointers."""
        cx, m = self.cx, self.m
        out = []
        for b in (m.trait("ops::drop::Drop", "drop"), self.method("trace")):
            g = cx.graph(b)
            seen = set()
            for e in g.events():
                if e.kind == "map_insert" and any(x.op == "fn" for x in subterms(e.value)):
                    k = (e.span, canon(e.value))
                    if k not in seen:
                        seen.add(k)
                        out.append((b, g, e))
        return out

    def erased_fns(self):
        """Erased functions by role: what a function pointer in the bookkeeping does to the allocation it is given."""
        cx, m = self.cx, self.m
        fns = {}
        todo = [(g, e.value) for b, g, e in self.entries()]
        seen = set()
        while todo:
            g, v = todo.pop()
            for x in subterms(v):
                if x.op != "fn":
                    continue
                c = g.engine.fns[x.a[0]]
                k = c.get("inst")
                b = cx.P.bodies.get(k)
                if b is None or k in seen:
                    continue
                seen.add(k)
                tk, ps = cx.paths(m, b)
                toks = [t for p in ps for t in p.toks]
                vts = {t.vty for t in toks if t.k == "accept"}
                g2 = cx.graph(b)
                for t in toks:
                    if t.k == "insert" and t.get("value") is not None:
                        todo.append((g2, t.value))
                kk = {t.k for t in toks}
                if kk & {"dropval", "dealloc"}:
                    r = "destroy" if vts else "weakdrop"
                    if self.sweep not in vts and vts:
                        r = "destroy?"
                elif self.trace in vts:
                    r = "tracefn"
                elif self.mark and self.mark in vts:
                    r = "markfn"
                else:
                    r = "?"
                fns.setdefault(r, []).append(b)
        return fns


def roles(cx, m):
    k = ("roles", m.name)
    r = cx._g.get(k)
    if r is None:
        try:
            r = Roles(cx, m)
        except Missing as e:
            r = e
        cx._g[k] = r
    if isinstance(r, Missing):
        raise r
    return r


def live(tk, p, i=2):
    return tk.liveness(p.facts, i)


def mapfield(t):
    """Field of the visitor a map or set operation works on."""
    mp = t.map
    p = mp if mp.op == "P" else None
    els = p.a[1:] if p is not None else ()
    root = p.a[0] if p is not None else mp
    for x in subterms(root):
        if x.op == "pj" and x.a[1][0] == "f":
            return x.a[1][2]
    for e in els:
        if e[0] == "f":
            return e[2]
    return None


def acc_status(p, t):
    """"ok"/"err"/None: is the outcome of this traversal known at the end of the path?"""
    lo, hi, ex = rng(p.facts, T("disc", t.result))
    if hi == 0 or 1 in ex:
        return "ok"
    if lo >= 1 or 0 in ex:
        return "err"
    return None


def self_visitor(t, tk=None, cur=None):
    """Is the visitor that a traversal gets the one at work, or a new one for the same graph at another node?"""
    if strip(t.visitor) is sym("arg1"):
        return True
    v = t.vval
    if v is None or v.op != "adt":
        return False
    for name, x in zip(v.a[5], v.a[3]):
        if name == cur:
            if tk.keyname(x) != t.obj:
                return False
            continue
        if x.op == "ref" and len(x.a[0].a) == 1 and x.a[0].a[0].op == "*":
            x = x.a[0].a[0].a[0]
        if not (x.op == "pj" and x.a[1][0] == "f" and x.a[1][2] == name and x.a[1][3] == v.a[0] and sym("arg1") in subterms(x)):
            return False
    return True


def counter_of(v):
    """The integer counters inside a node that is put into the graph."""
    out = []
    for x in subterms(v):
        if x.op == "adt":
            for y in x.a[3]:
                if y.op in ("lin", "c") or y.op == "s" or (y.op == "pj" and y.a[0].op == "ld"):
                    out.append(y)
    return out


def count_minus(tk, m, p, v, obj, c):
    """Is v the strong count of obj plus c, as read on this path?"""
    x = v
    if c:
        if x.op != "lin" or x.a[1] != c:
            return False
        x = x.a[0]
    for t in p.toks:
        if t.k == "atom" and t.obj == obj and t.field == m.strong_f and t.op == "load" and t.result is x:
            return True
    if x.op == "pj" and x.a[0].op == "ld" and x.a[1][2] == m.strong_f:
        return tk.objplace(place(x.a[0].a[0]))[0] == obj
    return False


def node_updates(tk, m, p, obj, inserted=-1):
    """Accounting of one handle to obj in the graph: list of ("dec", tok) / ("new", tok) / ("bad", tok)."""
    out = []
    for t in p.toks:
        if t.get("obj") != obj:
            continue
        if t.k == "mvstore" and is_counter(t):
            if out and out[-1][0] == "more" and t.delta == -1:
                out[-1] = ("new", out[-1][1])
            else:
                out.append(("dec" if t.delta == -1 else "bad", t))
        elif t.k == "insert" and t.value is not None and has_counter(t.value):
            kind = "bad"
            for y in counter_of(t.value):
                if t.had is False and count_minus(tk, m, p, y, obj, inserted):
                    kind = "new"
                elif t.had is False and count_minus(tk, m, p, y, obj, inserted + 1):
                    # the handle itself is to be taken away from the new node
                    kind = "more"
            out.append((kind, t))
    return [("bad" if k == "more" else k, t) for k, t in out]


def is_counter(t):
    """A store into a graph node that is a number rather than a state."""
    return t.value.op in ("lin", "c", "s", "pj", "satsub", "add", "sub") or isinstance(t.delta, int)


def has_counter(v):
    return v.op == "adt"


def marks(p, obj):
    """Stores that turn the node of obj into a reachable one."""
    return [t for t in p.toks if t.k == "mvstore" and t.obj == obj and is_reach(t.value)]


def is_reach(v):
    if v.op != "adt":
        return False
    if v.a[4]:
        return not v.a[3]
    return any(x.op == "adt" and is_reach(x) for x in v.a[3])


def is_alloc_free(p):
    return not (p.all("alloc") or p.all("dealloc") or p.all("dropval"))


# ---------------------------------------------------------------- unsync
@rule("U-TRACE-COUNT", "C01 C03 C10 C21", "tracing an unsync handle accounts for it exactly once in the node of its allocation: "
      "a first visit records the strong count minus one, later ones take one away; dead handles are ignored", 4)
def u_trace_count(cx, o):
    m = cx.u
    r = roles(cx, m)
    b = r.method("trace")
    tk, ps = r.paths("trace")
    n = 0
    for p in ps:
        if p.how != "ret":
            continue
        lv = live(tk, p)
        o.inst(where(b))
        if lv != "live":
            bad = [t for t in p.toks if t.k not in ("tls",)]
            if bad:
                o.bad(nm(b) + ":dead", "%s acts on a handle that may be dead (%s)" % (where(b, bad[0]), p.show()))
            continue
        n += 1
        us = node_updates(tk, m, p, "h2")
        if [k for k, _ in us] not in (["dec"], ["new"]):
            o.bad(nm(b), "%s accounts for a handle %s (%s)" % (
                where(b, us[0][1] if us else None),
                "wrongly: the node gets %s" % show(us[0][1].value)[:80] if us else "not at all", p.show()))
        for t in p.toks:
            if t.k in ("mvstore", "insert") and t.get("obj") != "h2":
                o.bad(nm(b) + ":other", "%s changes the node of another allocation" % where(b, t))
            if t.k in ("cnt", "dealloc", "dropval", "setptr", "stat", "remove", "boxstore"):
                o.bad(nm(b) + ":effect", "%s has an effect on the traced objects: %s" % (where(b, t), t.k))
    if not n:
        o.bad(nm(b) + ":cases", "%s has no path for live handles" % where(b))


@rule("U-TRACE-VISIT", "C01 C03 C10", "tracing follows every allocation exactly once and records the allocations whose contents "
      "could not be traversed", 4)
def u_trace_visit(cx, o):
    m = cx.u
    r = roles(cx, m)
    b = r.method("trace")
    tk, ps = r.paths("trace")
    vf, inf = set(), set()
    for p in ps:
        if p.how != "ret" or live(tk, p) != "live":
            continue
        o.inst(where(b))
        acc = p.all("accept")
        if any(t.obj != "h2" or not self_visitor(t) for t in acc):
            o.bad(nm(b) + ":other", "%s traverses something other than the visited allocation with itself (%s)" % (
                where(b), p.show()))
            continue
        ins = [t for t in p.toks if t.k == "sinsert" and t.obj == "h2"]
        pre = [t for t in ins if not acc or p.idx(t) < p.idx(acc[0])]
        if len(acc) > 1:
            o.bad(nm(b) + ":twice", "%s traverses an allocation twice" % where(b, acc[1]))
            continue
        new = [t for t in pre if t.had is False]
        old = [t for t in pre if t.had is True]
        ent = [t for t in p.toks if t.k in ("entry", "contains", "get") and t.obj == "h2"]
        if acc:
            if not new:
                o.bad(nm(b) + ":unguarded", "%s traverses an allocation without recording that it was visited (%s)" % (
                    where(b, acc[0]), p.show()))
            vf |= {mapfield(t) for t in new}
            st = acc_status(p, acc[0])
            post = [t for t in ins if p.idx(t) > p.idx(acc[0])]
            if st is None:
                o.bad(nm(b) + ":result", "%s ignores whether the contents could be traversed (%s)" % (
                    where(b, acc[0]), p.show()))
            elif st == "err":
                if not post:
                    o.bad(nm(b) + ":err", "%s does not record that the contents of an allocation could not be traversed (%s)" % (
                        where(b, acc[0]), p.show()))
                inf |= {mapfield(t) for t in post}
            elif post:
                o.bad(nm(b) + ":ok", "%s records a fully traversed allocation as inaccessible" % where(b, post[0]))
        elif not old:
            o.bad(nm(b) + ":skip", "%s does not traverse an allocation that was not visited before (%s)" % (
                where(b), p.show()))
    if vf & inf:
        o.bad(nm(b) + ":sets", "%s records visited and inaccessible allocations in the same set" % where(b))


@rule("U-TRACE-FN", "C01 C03 C10 C16", "the erased tracing function traverses the value of the given allocation exactly once and "
      "records it as inaccessible if that fails", 1)
def u_trace_fn(cx, o):
    m = cx.u
    r = roles(cx, m)
    for b in need(r, "tracefn"):
        tk, ps = cx.paths(m, b)
        for p in ps:
            if p.how != "ret":
                continue
            o.inst(where(b))
            acc = p.all("accept")
            if len(acc) != 1 or acc[0].obj != "b1" or strip(acc[0].visitor) is not sym("arg2"):
                o.bad(nm(b), "%s does not traverse its allocation exactly once with the given visitor (%s)" % (
                    where(b), p.show()))
                continue
            st = acc_status(p, acc[0])
            ins = [t for t in p.toks if t.k == "sinsert" and t.obj == "b1" and p.idx(t) > p.idx(acc[0])]
            if st is None:
                o.bad(nm(b) + ":result", "%s ignores whether the contents could be traversed" % where(b, acc[0]))
            elif st == "err" and not ins:
                o.bad(nm(b) + ":err", "%s does not record that its allocation is inaccessible (%s)" % (where(b, acc[0]), p.show()))
            elif st == "ok" and ins:
                o.bad(nm(b) + ":ok", "%s records a traversed allocation as inaccessible" % where(b, ins[0]))


def need(r, role):
    f = r.fns.get(role)
    if not f:
        raise Missing("%s of the %s collector" % (role, r.m.name))
    return f


@rule("U-MARK-VISIT", "C01 C10", "marking marks every visited live allocation and follows it exactly if it was not marked before", 3)
def u_mark_visit(cx, o):
    m = cx.u
    r = roles(cx, m)
    b = r.method("mark")
    tk, ps = r.paths("mark")
    for p in ps:
        if p.how != "ret":
            o.bad(nm(b) + ":panic", "%s can panic (%s)" % (where(b), p.show())) if p.how == "panic" else None
            continue
        o.inst(where(b))
        lv = live(tk, p)
        if lv != "live":
            if p.toks:
                o.bad(nm(b) + ":dead", "%s acts on a handle that may be dead" % where(b))
            continue
        ins = [t for t in p.toks if t.k == "sinsert" and t.obj == "h2"]
        acc = p.all("accept")
        others = [t for t in p.toks if t.k in ("sinsert", "insert", "remove", "clear") and t.obj != "h2" if t.get("obj") != "h2"]
        if others or [t for t in p.toks if t.k in EFFECTS and t.k not in ("accept",)]:
            o.bad(nm(b) + ":other", "%s has other effects: %s" % (where(b), p.show()))
        if not ins and not [t for t in p.toks if t.k == "contains" and t.obj == "h2" and t.had]:
            o.bad(nm(b), "%s does not mark the visited allocation (%s)" % (where(b), p.show()))
            continue
        new = any(t.had is False for t in ins)
        if new and (len(acc) != 1 or acc[0].obj != "h2" or not self_visitor(acc[0])):
            o.bad(nm(b) + ":follow", "%s does not follow a newly marked allocation (%s)" % (where(b), p.show()))
        if acc and ins and p.idx(acc[0]) < p.idx(ins[0]):
            o.bad(nm(b) + ":order", "%s follows an allocation before marking it: cycles never end" % where(b, acc[0]))
        if not new and acc:
            o.bad(nm(b) + ":again", "%s follows an allocation that was marked already: cycles never end" % where(b, acc[0]))


@rule("U-MARK-FN", "C01 C10 C16", "the erased marking function traverses the value of the given allocation with the marking visitor", 1)
def u_mark_fn(cx, o):
    m = cx.u
    r = roles(cx, m)
    for b in need(r, "markfn"):
        tk, ps = cx.paths(m, b)
        for p in ps:
            if p.how != "ret":
                continue
            o.inst(where(b))
            acc = p.all("accept")
            if len(acc) != 1 or acc[0].obj != "b1" or strip(acc[0].visitor) is not sym("arg2"):
                o.bad(nm(b), "%s does not traverse its allocation exactly once with the given visitor (%s)" % (
                    where(b), p.show()))
            if effects(p) != acc:
                o.bad(nm(b) + ":effect", "%s has other effects (%s)" % (where(b), p.show()))


def living_updates(cx, r, p):
    """Changes of the number of existing handles, directly or through a reference held by the visitor."""
    out = [t for t in p.toks if t.k == "stat" and t.which == "living"]
    for t in p.toks:
        if t.k == "vstore" and isinstance(t.delta, int) and t.delta and t.place.a[0].a[0].op == "pj":
            f = t.place.a[0].a[0].a[1]
            if f[0] == "f" and stat_field(cx, r, f[2]):
                out.append(t)
    return out


def stat_field(cx, r, name):
    """Is this field of the sweeping visitor a reference to the number of existing handles?"""
    k = ("statfield", r.m.name)
    v = cx._g.get(k)
    if v is None:
        v = set()
        from .collector import collector_graph
        g = collector_graph(cx, r.m)
        tk = Toker(cx, r.m, g.entry)
        for e in g.events():
            for x in list(e.get("vals") or ()) if e.kind == "icall" else ():
                if x.op == "refto" and x.a[1].op == "adt" and x.a[1].a[0] == r.sweep:
                    for n, y in zip(x.a[1].a[5], x.a[1].a[3]):
                        pl = y.a[0] if y.op in ("ref", "refto") else None
                        if pl is not None and tk.stat(pl) == (r.m.name, "living"):
                            v.add(n)
        cx._g[k] = v
    return name in v


def destroy_seq(o, b, p, obj, key=""):
    """accept, destructor, memory in this order and once each."""
    acc, dv, de = p.all("accept"), p.all("dropval"), p.all("dealloc")
    if len(dv) != 1 or dv[0].obj != obj:
        o.bad(nm(b) + key + ":drop", "%s runs the destructor of the allocation %d times (%s)" % (where(b), len(dv), p.show()))
    if len(de) != 1 or de[0].obj != obj:
        o.bad(nm(b) + key + ":free", "%s frees the allocation %d times (%s)" % (where(b), len(de), p.show()))
    if len(dv) == 1 and len(de) == 1:
        if p.idx(dv[0]) > p.idx(de[0]):
            o.bad(nm(b) + key + ":order", "%s frees memory before running the destructor" % where(b, de[0]))
        if not de[0].layout:
            o.bad(nm(b) + key + ":layout", "%s frees memory with a layout other than the allocation's" % where(b, de[0]))
        late = [t for t in p.toks[p.idx(de[0]) + 1:] if t.get("obj") == obj]
        if late:
            o.bad(nm(b) + key + ":after", "%s uses the allocation after freeing it" % where(b, late[0]))
        if acc and p.idx(acc[0]) > p.idx(dv[0]):
            o.bad(nm(b) + key + ":accept", "%s runs the destructor before the handles inside were cleared" % where(b, dv[0]))
    if p.all("partdrop"):
        o.bad(nm(b) + key + ":part", "%s destroys only a part of the allocation" % where(b))


@rule("U-SWEEP-VISIT", "C01 C03 C06 C07 C10 C14", "sweeping leaves handles to reachable allocations alone; handles to garbage are made "
      "dead and uncounted, and the garbage is destroyed exactly once, after the handles inside it were cleared", 4)
def u_sweep_visit(cx, o):
    m = cx.u
    r = roles(cx, m)
    b = r.method("sweep")
    tk, ps = r.paths("sweep")
    kinds = set()
    for p in ps:
        if p.how != "ret":
            continue
        o.inst(where(b))
        lv = live(tk, p)
        if lv != "live":
            if [t for t in p.toks if t.k not in ("tls",)]:
                o.bad(nm(b) + ":dead", "%s acts on a handle that may be dead (%s)" % (where(b), p.show()))
            continue
        con = [t for t in p.toks if t.k == "contains" and t.obj == "h2"]
        reach = None
        for t in con:
            reach = int(t.had)
        eff = [t for t in p.toks if t.k in EFFECTS + ("sinsert", "vstore")]
        if reach is None:
            o.bad(nm(b) + ":check", "%s does not examine whether the allocation is reachable (%s)" % (where(b), p.show()))
            continue
        if reach == 1:
            kinds.add("reach")
            if eff:
                o.bad(nm(b) + ":reachable", "%s acts on a handle to a reachable allocation (%s)" % (where(b, eff[0]), p.show()))
            continue
        sp = [t for t in p.toks if t.k == "setptr"]
        if len(sp) != 1 or sp[0].obj != "h2" or not sp[0].null:
            o.bad(nm(b) + ":null", "%s does not make the handle to garbage dead (%s)" % (where(b), p.show()))
        ds = [t.delta for t in living_updates(cx, r, p)]
        if ds != [-1]:
            o.bad(nm(b) + ":stat", "%s changes the number of existing handles by %s instead of [-1] (%s)" % (
                where(b), ds, p.show()))
        if [t for t in p.toks if t.k == "stat" and t.which == "drops"]:
            o.bad(nm(b) + ":drops", "%s changes the number of dropped handles (%s)" % (where(b), p.show()))
        ins = [t for t in p.toks if t.k == "sinsert" and t.obj == "h2"]
        acc = p.all("accept")
        if len(ins) != 1:
            o.bad(nm(b) + ":visited", "%s does not record which garbage was destroyed (%s)" % (where(b), p.show()))
            continue
        if ins[0].had is False:
            kinds.add("new")
            if len(acc) != 1 or acc[0].obj != "h2" or not self_visitor(acc[0]):
                o.bad(nm(b) + ":clear", "%s does not clear the handles inside garbage before destroying it (%s)" % (
                    where(b), p.show()))
            elif p.idx(ins[0]) > p.idx(acc[0]):
                o.bad(nm(b) + ":order", "%s records the garbage only after traversing it: cycles are destroyed twice" % where(
                    b, acc[0]))
            elif sp and p.idx(sp[0]) > p.idx(acc[0]):
                o.bad(nm(b) + ":nullorder", "%s makes the handle dead only after traversing the garbage behind it" % where(b, sp[0]))
            destroy_seq(o, b, p, "h2")
        else:
            kinds.add("old")
            if acc or p.all("dropval") or p.all("dealloc"):
                o.bad(nm(b) + ":again", "%s destroys garbage a second time (%s)" % (where(b), p.show()))
    if kinds != {"reach", "new", "old"}:
        o.bad(nm(b) + ":cases", "%s does not distinguish reachable, new and destroyed allocations" % where(b))


@rule("U-SWEEP-FN", "C01 C03 C06 C07 C16", "the erased destroying function destroys its allocation exactly once unless that was done "
      "before, after the handles inside it were cleared", 1)
def u_sweep_fn(cx, o):
    m = cx.u
    r = roles(cx, m)
    sweep_sets = {mapfield(t) for p in r.paths("sweep")[1] for t in p.toks if t.k == "sinsert"}
    for b in need(r, "destroy"):
        tk, ps = cx.paths(m, b)
        kinds = set()
        for p in ps:
            if p.how != "ret":
                continue
            o.inst(where(b))
            ins = [t for t in p.toks if t.k == "sinsert" and t.obj == "b1"]
            acc = p.all("accept")
            if len(ins) != 1:
                o.bad(nm(b) + ":visited", "%s does not record that its allocation is destroyed (%s)" % (where(b), p.show()))
                continue
            if mapfield(ins[0]) not in sweep_sets:
                o.bad(nm(b) + ":set", "%s records destroyed allocations in another set than the visitor" % where(b, ins[0]))
            kinds.add(ins[0].had)
            if ins[0].had is False:
                if len(acc) != 1 or acc[0].obj != "b1" or strip(acc[0].visitor) is not sym("arg2"):
                    o.bad(nm(b) + ":clear", "%s does not clear the handles inside garbage before destroying it (%s)" % (
                        where(b), p.show()))
                elif p.idx(ins[0]) > p.idx(acc[0]):
                    o.bad(nm(b) + ":order", "%s records the garbage only after traversing it" % where(b, acc[0]))
                destroy_seq(o, b, p, "b1")
            elif acc or p.all("dropval") or p.all("dealloc"):
                o.bad(nm(b) + ":again", "%s destroys an allocation a second time (%s)" % (where(b), p.show()))
        if kinds != {True, False}:
            o.bad(nm(b) + ":cases", "%s does not examine whether its allocation was destroyed before" % where(b))


# ---------------------------------------------------------------- sync
def tags(p):
    return [t.result for t in p.toks if t.k == "gtag" and t.op == "load"] + list(p.tags)


def stale(p, x):
    """Is it established that this stamp is older than the current collection?"""
    for g in tags(p):
        if evalb(p.facts, T("lt", x, g)) == 1:
            return True
    return False


def gen_loads(p, m, obj):
    return [t for t in p.toks if t.k == "atom" and t.obj == obj and t.field == m.gen_f and t.op == "load"]


def cur_field(r):
    fs = [r.cx.P.adts[r.trace]["variants"][0][1][i][0] for _, i in r.ids]
    if len(fs) != 1:
        raise Missing("the current node of %s" % r.trace)
    return fs[0]


@rule("S-TRACE-STAMP", "C18 C02", "tracing a sync handle that was used since the collection began, or whose allocation was, makes the "
      "current node reachable", 3)
def s_trace_stamp(cx, o):
    m = cx.s
    r = roles(cx, m)
    b = r.method("trace")
    tk, ps = r.paths("trace")
    cur = "f:" + cur_field(r)
    for p in ps:
        if p.how != "ret" or live(tk, p) != "live":
            continue
        o.inst(where(b))
        if marks(p, cur) or known_reach(tk, p, cur):
            continue
        hs = [t for t in p.toks if t.k == "tag" and t.obj == "h2" and t.op in ("swap", "load", "fetch_max")]
        if not any(stale(p, t.result) for t in hs):
            o.bad(nm(b) + ":tag", "%s does not establish that the handle was not used during the collection (%s)" % (
                where(b, hs[0] if hs else None), p.show()))
        up = node_updates(tk, m, p, "h2") + [("push", t) for t in p.toks if t.k == "push"]
        gl = gen_loads(p, m, "h2")
        early = [t for t in gl if stale(p, t.result) and (not p.all("accept") or p.idx(t) < p.idx(p.all("accept")[0]))]
        if not early:
            o.bad(nm(b) + ":gen", "%s does not establish that the allocation was not used during the collection (%s)" % (
                where(b, gl[0] if gl else None), p.show()))
        for t in gl:
            if t.order not in ACQ:
                o.bad(nm(b) + ":order", "%s reads the stamp with %s ordering" % (where(b, t), t.order))
        if up:
            put = [t for t in p.toks if t.k == "tag" and t.obj == "h2" and t.op in ("swap", "store", "fetch_max") and
                   any(t.get("operand") is g for g in tags(p))]
            if not put:
                o.bad(nm(b) + ":put", "%s accounts for a handle without leaving the number of the current collection on it: a "
                      "handle that is moved while the collection runs would be counted twice (%s)" % (where(b, up[0][1]), p.show()))
            strong_order(o, b, m, p, "h2")


def strong_order(o, b, m, p, obj):
    """A collection that sees the effect of a drop on the strong count has to see its stamp and claim as well."""
    for t in p.toks:
        if t.k == "atom" and t.obj == obj and t.field == m.strong_f and t.op == "load" and t.order not in ACQ:
            o.bad(nm(b) + ":strong", "%s reads the strong count with %s ordering: the stamps of the drops it counts may not be "
                  "visible yet" % (where(b, t), t.order))


@rule("S-TRACE-COUNT", "C02 C04 C21", "tracing a sync handle either leaves the accounting alone because the current node is reachable, "
      "or accounts for the handle exactly once and records it as a child of the current node first", 4)
def s_trace_count(cx, o):
    m = cx.s
    r = roles(cx, m)
    b = r.method("trace")
    tk, ps = r.paths("trace")
    cur = "f:" + cur_field(r)
    kinds = set()
    for p in ps:
        if p.how != "ret":
            continue
        o.inst(where(b))
        if live(tk, p) != "live":
            if p.toks:
                o.bad(nm(b) + ":dead", "%s acts on a handle that may be dead (%s)" % (where(b), p.show()))
            continue
        us = node_updates(tk, m, p, "h2")
        push = [t for t in p.toks if t.k == "push" and t.obj == "h2" and node_key(tk, t.vec) == cur]
        ws = [t for t in p.toks if t.k == "atom" and t.obj == "h2" and t.field == m.weak_f and t.op != "load"]
        if any(k == "bad" for k, _ in us) or len(us) > 1:
            t = us[0][1]
            o.bad(nm(b), "%s accounts for a handle wrongly: the node gets %s (%s)" % (where(b, t), show(t.value)[:80], p.show()))
            continue
        if len(push) > 1:
            o.bad(nm(b) + ":children", "%s records a child twice" % where(b, push[1]))
        if us:
            kinds.add(us[0][0])
            k, t = us[0]
            if not push or p.idx(push[0]) > p.idx(t) and p.all("accept"):
                o.bad(nm(b) + ":child", "%s accounts for a handle without recording it as a child of the current node: marking "
                      "the node would miss it (%s)" % (where(b, t), p.show()))
            acc = p.all("accept")
            if push and acc and p.idx(push[0]) > p.idx(acc[0]):
                o.bad(nm(b) + ":childorder", "%s records the child only after traversing it" % where(b, push[0]))
            if k == "new":
                if [x.delta for x in ws] != [1]:
                    o.bad(nm(b) + ":claim", "%s changes the weak count of a newly found allocation by %s instead of [1] (%s)" % (
                        where(b, t), [x.delta for x in ws], p.show()))
                elif p.idx(ws[0]) > p.idx(acc[0] if acc else t) and acc:
                    o.bad(nm(b) + ":claimorder", "%s claims a newly found allocation only after traversing it" % where(b, ws[0]))
            elif ws:
                o.bad(nm(b) + ":claim2", "%s changes the weak count of a known allocation (%s)" % (where(b, ws[0]), p.show()))
        else:
            if ws:
                o.bad(nm(b) + ":claim3", "%s changes the weak count of an allocation it does not account for (%s)" % (
                    where(b, ws[0]), p.show()))
            # allowed: the current node is (made) reachable, or the child is known to be reachable
            if marks(p, cur) or known_reach(tk, p, cur) or known_reach(tk, p, "h2") and push:
                kinds.add("reach")
                if push and not (known_reach(tk, p, "h2") or marks(p, cur)):
                    o.bad(nm(b) + ":pushonly", "%s records a child without accounting for it" % where(b, push[0]))
            else:
                o.bad(nm(b) + ":none", "%s does not account for a handle although the current node is not known to be "
                      "reachable (%s)" % (where(b), p.show()))
    if not {"dec", "new", "reach"} <= kinds:
        o.bad(nm(b) + ":cases", "%s lacks one of the cases known, new and reachable: %s" % (where(b), sorted(kinds)))


def node_key(tk, vec):
    """Which node's child list is this?"""
    for x in subterms(vec):
        if x.op == "mv":
            return tk.keyname(x.a[1])
    return None


def known_reach(tk, p, obj):
    """Do the facts say that the node of obj is (was) in its reachable state?"""
    for f, rr in p.facts.items():
        if f.op != "disc":
            continue
        x = f.a[0]
        for y in subterms(x):
            if y.op == "mv" and tk.keyname(y.a[1]) == obj:
                return rr[0] >= 1 or 0 in rr[2]
    return False


@rule("S-TRACE-FOLLOW", "C02 C04 C10 C18", "a newly found sync allocation is traversed once as the current node, and made reachable if "
      "its contents were inaccessible or it was used meanwhile", 2)
def s_trace_follow(cx, o):
    m = cx.s
    r = roles(cx, m)
    b = r.method("trace")
    tk, ps = r.paths("trace")
    cf = cur_field(r)
    for p in ps:
        if p.how != "ret" or live(tk, p) != "live":
            continue
        us = node_updates(tk, m, p, "h2")
        acc = p.all("accept")
        o.inst(where(b))
        if len(acc) > 1 or acc and (acc[0].obj != "h2" or not self_visitor(acc[0], tk, cf)):
            o.bad(nm(b) + ":other", "%s traverses something else than the newly found allocation (%s)" % (where(b), p.show()))
            continue
        isnew = any(k == "new" for k, _ in us)
        if isnew and not acc:
            o.bad(nm(b) + ":skip", "%s does not traverse a newly found allocation (%s)" % (where(b), p.show()))
        if acc and not isnew:
            o.bad(nm(b) + ":again", "%s traverses an allocation that is not newly found (%s)" % (where(b, acc[0]), p.show()))
        if acc:
            if p.idx(us[0][1]) > p.idx(acc[0]) if us else False:
                o.bad(nm(b) + ":order", "%s traverses an allocation before entering it into the graph" % where(b, acc[0]))
            st = [t for t in p.toks if t.k == "vstore" and t.place.a[1:] and t.place.a[1][2] == cf]
            pre = [t for t in st if p.idx(t) < p.idx(acc[0])]
            if acc[0].vval is not None:
                if st and tk.keyname(st[-1].value) != "f:" + cf:
                    o.bad(nm(b) + ":change", "%s changes the current node" % where(b, st[-1]))
                follow_marked(o, tk, m, b, p, acc[0], "h2")
                continue
            if not pre or tk.keyname(pre[-1].value) != "h2":
                o.bad(nm(b) + ":current", "%s traverses an allocation without making it the current node (%s)" % (
                    where(b, acc[0]), p.show()))
            if not st or st[-1] in pre or tk.keyname(st[-1].value) != "f:" + cf:
                o.bad(nm(b) + ":restore", "%s does not restore the current node after traversing an allocation (%s)" % (
                    where(b, acc[0]), p.show()))
            follow_marked(o, tk, m, b, p, acc[0], "h2")
        else:
            st = [t for t in p.toks if t.k == "vstore" and t.place.a[1:] and t.place.a[1][2] == cf]
            if st and tk.keyname(st[-1].value) != "f:" + cf:
                o.bad(nm(b) + ":change", "%s changes the current node" % where(b, st[-1]))


def follow_marked(o, tk, m, b, p, acc, obj):
    if marks(p, obj):
        mk = marks(p, obj)[-1]
        if p.idx(mk) < p.idx(acc):
            o.bad(nm(b) + ":markearly", "%s decides reachability before traversing the allocation" % where(b, mk))
        st = acc_status(p, acc)
        gl = [t for t in gen_loads(p, m, obj) if p.idx(t) > p.idx(acc)]
        if st == "ok" and gl and all(stale(p, t.result) for t in gl):
            o.bad(nm(b) + ":overmark", "%s keeps an allocation alive that was traversed completely and not used" % where(b, mk))
        return
    if known_reach(tk, p, obj):
        return
    st = acc_status(p, acc)
    if st != "ok":
        o.bad(nm(b) + ":err", "%s does not make an allocation reachable whose contents could not be traversed (%s)" % (
            where(b, acc), p.show()))
    gl = [t for t in gen_loads(p, m, obj) if p.idx(t) > p.idx(acc)]
    if not any(stale(p, t.result) for t in gl):
        o.bad(nm(b) + ":gen", "%s does not establish that the allocation was not used while it was traversed (%s)" % (
            where(b, acc), p.show()))
    for t in gl:
        if t.order not in ACQ:
            o.bad(nm(b) + ":order2", "%s reads the stamp with %s ordering" % (where(b, t), t.order))


@rule("S-TRACE-FN", "C02 C04 C10 C16 C18", "the erased tracing function enters its allocation into the graph with the full strong count "
      "and traverses it, or gives up the duplicate claim", 2)
def s_trace_fn(cx, o):
    m = cx.s
    r = roles(cx, m)
    for b in need(r, "tracefn"):
        tk, ps = cx.paths(m, b, preserved=r.preserved)
        kinds = set()
        for p in ps:
            if p.how != "ret":
                continue
            o.inst(where(b))
            us = node_updates(tk, m, p, "b1", 0)
            acc = p.all("accept")
            ws = [t.delta for t in p.toks if t.k == "atom" and t.obj == "b1" and t.field == m.weak_f and t.op != "load"]
            if not us:
                kinds.add("dup")
                if acc:
                    o.bad(nm(b) + ":noenter", "%s traverses an allocation without entering it into the graph (%s)" % (
                        where(b, acc[0]), p.show()))
                if not any(t.had is True for t in p.toks if t.k in ("entry", "contains", "get") and t.obj == "b1"):
                    o.bad(nm(b) + ":skip", "%s skips an allocation that is not known to the graph" % where(b))
                if ws != [-1]:
                    o.bad(nm(b) + ":dupclaim", "%s changes the claims on an allocation that is known already by %s instead of "
                          "[-1] (%s)" % (where(b), ws, p.show()))
                continue
            kinds.add("new")
            if len(us) != 1 or us[0][0] != "new":
                o.bad(nm(b), "%s enters its allocation with %s instead of its strong count (%s)" % (
                    where(b, us[0][1]), show(us[0][1].value)[-90:], p.show()))
                continue
            if ws:
                o.bad(nm(b) + ":claim", "%s changes the claims on a newly entered allocation (%s)" % (where(b), p.show()))
            if len(acc) != 1 or acc[0].obj != "b1" or p.idx(acc[0]) < p.idx(us[0][1]):
                o.bad(nm(b) + ":follow", "%s does not traverse its allocation once after entering it (%s)" % (where(b), p.show()))
                continue
            v = acc[0].ev.get("after")
            vv = v.a[1] if v is not None and v.op == "refto" else None
            if vv is None or vv.op != "adt" or not any(tk.keyname(x) == "b1" for x in vv.a[3]):
                o.bad(nm(b) + ":current", "%s does not make its allocation the current node" % where(b, acc[0]))
            elif not any(y.op in ("refto", "ref") and strip(ref(y.a[0])) is sym("arg2") for y in vv.a[3]):
                o.bad(nm(b) + ":graph", "%s does not trace into the given graph" % where(b, acc[0]))
            follow_marked(o, tk, m, b, p, acc[0], "b1")
            strong_order(o, b, m, p, "b1")
        if kinds != {"dup", "new"}:
            o.bad(nm(b) + ":cases", "%s lacks a case: %s" % (where(b), sorted(kinds)))


@rule("S-SWEEP-VISIT", "C02 C04 C07 C14", "handles inside garbage are made dead and uncounted exactly if they lead to garbage", 3)
def s_sweep_visit(cx, o):
    m = cx.s
    r = roles(cx, m)
    b = r.method("sweep")
    tk, ps = r.paths("sweep")
    kinds = set()
    for p in ps:
        if p.how != "ret":
            continue
        o.inst(where(b))
        if live(tk, p) != "live":
            if p.toks:
                o.bad(nm(b) + ":dead", "%s acts on a handle that may be dead" % where(b))
            continue
        st = None
        for f, rr in p.facts.items():
            if f.op == "disc":
                for y in subterms(f.a[0]):
                    if y.op == "mv" and tk.keyname(y.a[1]) == "h2":
                        st = "reach" if rr[0] >= 1 or 0 in rr[2] else "unknown" if rr[1] == 0 or 1 in rr[2] else None
        eff = [t for t in p.toks if t.k in EFFECTS + ("vstore", "mvstore") or t.k == "atom" and t.op != "load"]
        kinds.add(st)
        if st is None:
            o.bad(nm(b) + ":check", "%s does not examine whether the allocation is reachable (%s)" % (where(b), p.show()))
        elif st == "reach":
            if eff:
                o.bad(nm(b) + ":reachable", "%s acts on a handle to a reachable allocation (%s)" % (where(b, eff[0]), p.show()))
        else:
            sp = [t for t in p.toks if t.k == "setptr"]
            if len(sp) != 1 or sp[0].obj != "h2" or not sp[0].null:
                o.bad(nm(b) + ":null", "%s does not make the handle to garbage dead (%s)" % (where(b), p.show()))
            ds = [t.delta for t in p.toks if t.k == "stat" and t.which == "living"]
            if ds != [-1]:
                o.bad(nm(b) + ":stat", "%s changes the number of existing handles by %s instead of [-1] (%s)" % (
                    where(b), ds, p.show()))
            if [t for t in eff if t.k not in ("setptr", "stat") or t.k == "stat" and t.which != "living"]:
                o.bad(nm(b) + ":other", "%s has other effects (%s)" % (where(b), p.show()))
    if kinds != {"reach", "unknown"}:
        o.bad(nm(b) + ":cases", "%s does not distinguish reachable from unreachable allocations" % where(b))


@rule("S-DESTROY-FN", "C02 C04 C06 C07 C16", "the erased destroying function clears the handles inside its allocation and then destroys "
      "it exactly once", 1)
def s_destroy_fn(cx, o):
    m = cx.s
    r = roles(cx, m)
    for b in need(r, "destroy"):
        tk, ps = cx.paths(m, b)
        for p in ps:
            if p.how != "ret":
                continue
            o.inst(where(b))
            acc = p.all("accept")
            if len(acc) != 1 or acc[0].obj != "b1" or acc[0].vty != r.sweep:
                o.bad(nm(b) + ":clear", "%s does not clear the handles inside garbage exactly once (%s)" % (where(b), p.show()))
            else:
                v = acc[0].ev.get("after")
                vv = v.a[1] if v is not None and v.op == "refto" else None
                if vv is None or vv.op != "adt" or not any(
                        strip(y) is sym("arg2") or y.op == "refto" and strip(ref(y.a[0])) is sym("arg2") for y in vv.a[3]):
                    o.bad(nm(b) + ":graph", "%s does not judge reachability with the given graph" % where(b, acc[0]))
            destroy_seq(o, b, p, "b1")
    for b in need(r, "weakdrop"):
        tk, ps = cx.paths(m, b)
        for p in ps:
            if p.how == "ret":
                o.inst(where(b))
                destroy_seq(o, b, p, "b1", ":weak")


@rule("MIX", "C21 C01 C02 C03 C04", "handles of the other kind never take part in a collection: visiting them has no effect", 4)
def mix(cx, o):
    for m in (cx.u, cx.s):
        r = roles(cx, m)
        for ty, ms in r.vis.items():
            if r.other not in ms:
                continue
            b = ms[r.other]
            tk, ps = cx.paths(m, b)
            for p in ps:
                o.inst(where(b))
                bad = [t for t in p.toks if t.k not in ("panic",)]
                if bad:
                    o.bad(nm(b), "%s acts on a handle of the other kind: %s" % (where(b, bad[0]), p.show()))
                if p.how == "panic" and m.name == "unsync":
                    o.bad(nm(b) + ":panic", "%s panics although unsync allocations may own sync handles" % where(b))


@rule("CONTAINS", "C03 C04 C05 C08 C21", "the contents check notices handles of both kinds", 2)
def contains_rule(cx, o):
    from .handles import contains_status, excludes, visits_of, last_status, drop_paths, tracked
    vt = {}
    for m in (cx.u, cx.s):
        b, tk, ps = drop_paths(cx, m)
        for p in ps:
            for t in p.toks:
                if t.k == "accept" and t.obj == "h1":
                    fs = vt.setdefault(t.vty, [])
                    if tk.liveness(p.facts) == "live" and last_status(tk, m, p) == "more" and contains_status(cx, p) == "none" and \
                            tracked(p, "h1") is None:
                        fs.append((t, p))
    if not vt:
        raise Missing("the contents check of Gc::drop")
    for ty, fs in vt.items():
        for k, b, post, q in visits_of(cx, ty):
            o.inst(where(b))
            if q.how != "ret" or not all(excludes(cx, p.facts, t.after.a[1], None, post, q.facts) for t, p in fs):
                o.bad(nm(b), "%s does not record that a handle was found (%s)" % (where(b), q.show()))


# ---------------------------------------------------------------- erased entries
@rule("ENTRY", "C16 C06 C01 C02 C03 C04", "a bookkeeping entry for an allocation holds the erased pointer of that allocation and erased "
      "functions instantiated for its own type", 4)
def entry(cx, o):
    for m in (cx.u, cx.s):
        r = roles(cx, m)
        for b, g, e in r.entries() + [(x, cx.graph(x), ev) for x in r.fns.get("tracefn", []) for ev in cx.graph(x).events()
                                      if ev.kind == "map_insert"]:
            tk = Toker(cx, m, b)
            obj = tk.keyname(e.key)
            if obj is None or e.value.op != "adt":
                continue
            o.inst("%s inserts %s at %s" % (b.path, show(e.value)[:60], e.span))
            ptrs = [x for x in subterms(e.value) if x.op == "adt" and x.a[0] in cx.erased()]
            args = [tk.boxname(y.a[3][0]) for y in ptrs if y.a[3]]
            direct = [tk.boxname(y) for y in e.value.a[3] if y.op in ("pj", "s") and tk.boxname(y)]
            if not args and not direct or any(a != obj for a in args):
                o.bad(nm(b) + ":ptr", "%s at %s enters the pointer of %s under the identity of %s" % (
                    b.path, e.span, args, obj))
            tgen = gc_param(cx, b, obj)
            for x in subterms(e.value):
                if x.op == "fn":
                    c = g.engine.fns[x.a[0]]
                    ts = [cx.P.types[t]["s"] for t in c.get("targs") or []]
                    if not ts or ts[0] != tgen:
                        o.bad(nm(b) + ":type", "%s at %s enters %s instantiated with %s for an allocation of %s" % (
                            b.path, e.span, x.a[1], ts, tgen))


def gc_param(cx, b, obj):
    """The value type of the allocation behind a handle or box argument."""
    i = int(re.sub(r"\D", "", obj) or 0)
    own = set()
    for l in b.locals:
        own |= cx.params() & set(re.findall(r"\w+", cx.P.tys(l[0])))
    own = min(own) if len(own) == 1 else "T"
    if not i:
        return own
    ty = cx.P.types[b.locals[i][0]]
    s = cx.P.types[ty["to"]]["s"] if ty["k"] in ("ref", "ptr") else ty["s"]
    mt = re.match(r"(?:un)?sync::Gc<(.*)>$", s)
    return mt.group(1) if mt else own


@rule("ENTRY-ROLES", "C16 C01 C02 C03 C04", "every erased function in a bookkeeping entry does one of the jobs the collector calls it for", 3)
def entry_roles(cx, o):
    for m in (cx.u, cx.s):
        r = roles(cx, m)
        for k, bs in r.fns.items():
            for b in bs:
                o.inst("%s: %s" % (k, b.path))
                if k.endswith("?"):
                    o.bad(nm(b), "%s neither traces, marks nor destroys its allocation the way the collector needs" % where(b))
        want = {"tracefn", "destroy"} | ({"markfn"} if m.name == "unsync" else {"weakdrop"})
        for w in want - set(r.fns):
            o.bad("%s:%s" % (m.name, w), "no bookkeeping entry of the %s collector holds a function for %s" % (m.name, w))


@rule("KEY-BOX", "C16 C01 C02 C06", "the keys of the bookkeeping are the addresses of the allocations, not of a part that lies elsewhere", 6)
def key_box(cx, o):
    for m in mods(cx):
        r = roles(cx, m)
        bs = [m.trait("ops::drop::Drop", "drop"), m.trait("clone::Clone", "clone")]
        bs += [ms[r.kind] for ms in r.vis.values() if r.kind in ms] + [b for v in r.fns.values() for b in v]
        for b in bs:
            g = cx.graph(b)
            tk = Toker(cx, m, b)
            for e in g.events():
                k = e.get("key")
                if not isinstance(k, Term) or e.kind not in ("map_insert", "map_remove", "map_get", "map_entry", "contains", "set_insert"):
                    continue
                n, rest = key_place(tk, k)
                if n is None:
                    continue
                o.inst("%s at %s: %s" % (b.path, e.span, n))
                if any(x[0] != "f" or x[1] for x in rest):
                    o.bad(nm(b), "%s at %s identifies an allocation by the address of %s" % (b.path, e.span, ".".join(
                        str(x[2]) if x[0] == "f" else str(x[0]) for x in rest)))


def key_place(tk, k):
    """(allocation, projections) a key points to."""
    while k.op in ("adt", "bits"):
        k = k.a[3][0] if k.op == "adt" and k.a[3] else k.a[0] if k.op == "bits" else T("c", 0)
    if k.op == "ref":
        return tk.objplace(k.a[0])
    n = tk.boxname(k)
    return n, ()
