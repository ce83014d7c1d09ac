"""Rules about the work done by handles and collections."""
from .core import *
from .handles import where, nm, mods
from .visitors import roles
from .collector import St, run_monitor, noep, chain


def loops(g):
    """Strongly connected components of the graph that contain an edge, as sets of nodes."""
    n = len(g.succ)
    idx, low, on, st, out, c = [None] * n, [0] * n, [False] * n, [], [], 0
    for r in range(n):
        if idx[r] is not None:
            continue
        work = [(r, 0)]
        while work:
            v, i = work.pop()
            if i == 0:
                idx[v] = low[v] = c
                c += 1
                st.append(v)
                on[v] = True
            ss = g.succ[v]
            while i < len(ss):
                w = ss[i][1]
                i += 1
                if idx[w] is None:
                    work += [(v, i), (w, 0)]
                    break
                if on[w]:
                    low[v] = min(low[v], idx[w])
            else:
                if low[v] == idx[v]:
                    comp = set()
                    while v not in comp:
                        w = st.pop()
                        on[w] = False
                        comp.add(w)
                    if len(comp) > 1 or any(d in comp for w in comp for _, d in g.succ[w]):
                        out.append(comp)
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
    return out


@rule("COST-LOOP", "C22", "outside of collections, creating, cloning, dereferencing and dropping handles only loops over entries it "
      "removes from the bookkeeping", 8)
def cost_loop(cx, o):
    for m in mods(cx):
        for b in (m.method("new"), m.trait("clone::Clone", "clone"), m.trait("deref::Deref", "deref"),
                  m.trait("ops::drop::Drop", "drop")):
            g = cx.graph(b)
            o.inst(where(b))
            for e in g.events():
                if e.kind == "shrink" and e.get("place") is not None and e.place.a[0].op in ("tls", "static"):
                    o.bad(nm(b) + ":shrink", "%s rebuilds %s each time" % (where(b, e), show(e.map)[:80]))
            inner = set()
            for comp in loops(g):
                for e in (e for n in comp for es, d in g.succ[n] if d in comp for e in es):
                    if e.kind == "iter_next" and e.get("map") is not None and e.it.op == "it":
                        k = str(e.it.a[0])
                        if k != k.upper():
                            inner.add((e.span, noep(e.map)))
            if inner:
                run_monitor(g, Passes(b, o, inner))


class Passes:
    """What a loop goes through is removed, before or after it."""

    def __init__(self, b, o, inner):
        self.b, self.o, self.inner, self.out = b, o, inner, {}

    def init(self):
        return St(dict(seen=frozenset(), gone=frozenset()))

    def step(self, s, e):
        if e.kind in ("drain", "clear"):
            return s.set(gone=s.gone | {noep(e.map)})
        if e.kind in ("take", "store") and isinstance(e.get("old"), Term):
            return s.set(gone=s.gone | {noep(e.old)})
        if e.kind == "iter_next" and e.get("map") is not None and (e.span, noep(e.map)) in self.inner:
            return s.set(seen=s.seen | {(noep(e.map), e)})
        return s

    def end(self, s, how, e):
        if how == "ret":
            for mp, x in s.seen:
                if mp not in s.gone and chain(mp)[0].op == "ld":
                    self.o.bad(nm(self.b) + ":loop", "%s goes through all of %s each time without removing anything" % (
                        where(self.b, x), show(mp)[:80]))


@rule("COST-VISIT", "C22", "the visitors of a collection follow an allocation only on its first visit", 6)
def cost_visit(cx, o):
    for m in mods(cx):
        r = roles(cx, m)
        for role in ("trace", "mark", "sweep"):
            if getattr(r, role) is None:
                continue
            b = r.method(role)
            tk, ps = r.paths(role)
            for p in ps:
                o.inst(where(b))
                for t in p.toks:
                    if t.k != "accept" or t.obj != "h2":
                        continue
                    first = [u for u in p.toks[:p.idx(t)] if u.k in ("sinsert", "insert") and u.get("obj") == "h2" and
                             u.get("had") is False]
                    if not first:
                        o.bad(nm(b) + ":again", "%s follows an allocation without recording a first visit: shared structure is "
                              "traversed once per path (%s)" % (where(b, t), p.show()))


class Trigger:
    """Counters of the thread that make a drop empty the bookkeeping begin again at zero then."""

    def __init__(self, cx, b):
        self.cx, self.b, self.out, self.n = cx, b, {}, set()

    def init(self):
        return St(dict(by=frozenset(), last=frozenset()))

    def step(self, s, e):
        if e.kind == "store" and e.place is not None and e.place.a[0].op == "tls":
            return s.set(last=frozenset(x for x in s.last if x[0] is not e.place) | {(e.place, e.value)})
        if e.kind in ("drain", "take", "clear") and e.get("place") is not None and e.place.a[0].op == "tls":
            # (numbers only: a flag is at most one)
            by = {p for p in (self.cx.load_place(t) for t, r in e.facts.items() if r[0] >= 2)
                  if p is not None and p.a[0] is e.place.a[0]}
            self.n |= {show(x) for x in by}
            return s.set(by=s.by | by)
        return s

    def end(self, s, how, e):
        if how != "ret":
            return
        for x in s.by:
            v = next((v for p, v in s.last if canon(p) is canon(x)), None)
            # (the drop that triggers may itself be counted again)
            if v is None or v.op != "c" or v.a[0] not in (0, 1):
                self.out.setdefault(".".join(str(y[2]) for y in x.a[1:] if y[0] == "f"), "%s leaves the counter %s as it is, after which every drop does the same work" % (
                    where(self.b), show(x)))


@rule("COST-TRIGGER", "C22", "a counter that makes a drop hand over or empty the bookkeeping starts again at zero when it does", 1)
def cost_trigger(cx, o):
    for m in mods(cx):
        b = m.trait("ops::drop::Drop", "drop")
        mon = Trigger(cx, b)
        run_monitor(cx.graph(b), mon)
        o.inst("%s: %d counters" % (where(b), len(mon.n)))
        for k, msg in mon.out.items():
            o.bad(nm(b) + ":" + k, msg)
