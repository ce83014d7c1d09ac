"""Rules that span functions: what is held while user code runs, unwinding, delivery and thread exit."""
import re
from .core import *
from .engine import Explosion
from .handles import mods, nm, where, weaks, tracked, untracked
from .collector import St, run_monitor, collector_graph, Monitor, UCollect, SCollect, noep, chain, mvroot, box_field, report
from .visitors import roles

USER = ("accept", "userdrop", "drop_in_place", "condition", "collect", "icall", "tcall")


def lock_id(lock):
    """A lock is identified by the field it is stored in, or by the variable it is."""
    p = lock if lock.op == "P" else place(lock)
    for e in reversed(p.a[1:]):
        if e[0] == "f":
            return "%s.%s" % (e[3], e[2])
    return show(canon(p))


def internal(lock):
    """Is this one of the crate's own locks (and not one inside a user's value)?"""
    p = lock if lock.op == "P" else place(lock)
    if p.a[0].op in ("tls", "static"):
        return True
    return any(e[0] == "f" and str(e[3]).startswith(("sync::", "unsync::")) for e in p.a[1:])


def conflict(a, b):
    """Would acquiring in mode b block or panic while the same thread holds it in mode a?"""
    return not (a == "shr" and b == "shr")


def roots(cx):
    """Every function user code, the runtime or the collectors call: the public ones, trait implementations and
    the erased functions."""
    out = {}
    for m in mods(cx):
        r = roles(cx, m)
        for bs in r.fns.values():
            for b in bs:
                out[b.key] = b
    for b in cx.P.local_fns:
        p = b.path.lstrip("<")
        if not p.startswith(("sync::", "unsync::")) or "{closure" in b.path or b.key.startswith("promoted:"):
            continue
        if b.reach or b.impl_trait:
            out[b.key] = b
    return list(out.values())


class Held:
    """Follows which of the crate's own locks and borrows a path holds."""

    def __init__(self, body, jobs=None):
        self.body, self.jobs = body, jobs
        self.out, self.n, self.order = {}, 0, {}
        self.acq = 0
        self.touchy = set()     # locks that cannot be used any more once they are poisoned

    def init(self):
        return St(dict(held=frozenset()))

    def bad(self, key, msg, e):
        self.out.setdefault(key, "%s at %s %s" % (self.body.path, e.span if e is not None else "?", msg))

    def step(self, s, e):
        k = e.kind
        if k in ("lock", "borrow"):
            if not internal(e.lock):
                return s
            self.acq += 1
            me = (noep(e.lock), e.mode, k == "lock", e.get("poisoned"))
            for lk, md, real, po in s.held:
                if lk is me[0]:
                    if conflict(md, e.mode) and not e.get("tried"):
                        self.bad("again:" + lock_id(lk), "%s %s while it still holds it" % (
                            "locks" if real else "borrows", lock_id(lk)), e)
                elif real and me[2] and not e.get("tried"):
                    self.order.setdefault((lock_id(lk), lock_id(e.lock)), "%s at %s" % (self.body.path, e.span))
            return s.set(held=s.held | {me})
        if k == "unpoison":
            return s.set(held=frozenset((lk, md, real, 0 if po else po) for lk, md, real, po in s.held))
        if k == "unlock":
            lk = noep(e.lock)
            self.touchy |= {lock_id(x[0]) for x in s.held if x[0] is lk and x[1] == e.mode and x[3]}
            return s.set(held=frozenset(x for x in s.held if not (x[0] is lk and x[1] == e.mode)))
        if k in USER:
            self.n += 1
            for lk, md, real, po in s.held:
                if self.allowed(e, lk, md, real):
                    continue
                self.bad("user:%s:%s" % (k, lock_id(lk)), "runs user code (%s) while it holds %s" % (
                    {"accept": "a traversal", "userdrop": "a destructor", "drop_in_place": "a destructor",
                     "condition": "a collection condition", "collect": "a collection", "icall": "an erased function",
                     "tcall": "a trait method"}[k], lock_id(lk)), e)
        if k == "upanic":
            for lk, md, real, po in s.held:
                if po is not None:
                    self.bad("poison:" + lock_id(lk), "poisons %s when user code panics" % lock_id(lk), e)
        return s

    def allowed(self, e, lk, md, real):
        if self.jobs is None or e.kind != "icall":
            return False
        mod, job, coll = self.jobs
        if mod == "sync":
            return real and lock_id(lk) in coll
        # traversals may run below a borrow of the tracked allocations: they do not drop handles
        return not real and job(e) in ("tracefn", "markfn")

    def end(self, s, how, e):
        self.touchy |= {lock_id(x[0]) for x in s.held if x[3]}
        if how in ("ret", "unwind") and s.held:
            for lk, md, real, po in s.held:
                self.bad("%s:%s" % (how, lock_id(lk)), "keeps %s %s" % (
                    lock_id(lk), "when it returns" if how == "ret" else "if user code panics"), e)


def collection_locks(cx, m):
    """Locks of the whole collection: held for writing at every erased call of the collector."""
    from .collector import s_monitor
    mon = s_monitor(cx)
    res = None

    class W(Held):
        def step(w, s, e):
            nonlocal res
            s = Held.step(w, s, e)
            if e.kind == "icall":
                h = {lock_id(lk) for lk, md, real, po in s.held if real and md == "write"}
                res = h if res is None else res & h
            return s
    run_monitor(collector_graph(cx, m), W(m.collector))
    return res or set()


def held(cx, unwind):
    """Run the lock monitor over everything."""
    k = ("held", unwind)
    r = cx._g.get(k)
    if r is not None:
        return r
    from .collector import u_monitor, s_monitor
    res = []
    colls = {m.collector.key: m for m in mods(cx)}
    for b in roots(cx):
        if b.key in colls:
            continue
        h = Held(b)
        run_monitor(cx.graph(b, unwind=unwind), h)
        res.append(h)
    for m in mods(cx):
        mon = (u_monitor if m.name == "unsync" else s_monitor)(cx)
        jobs = (m.name, mon.job, collection_locks(cx, m) if m.name == "sync" else ())
        for b, g in collections(cx, m, unwind):
            h = Held(b, jobs)
            run_monitor(g, h)
            res.append(h)
    cx._g[k] = res
    return res


def collections(cx, m, unwind=False):
    """Graphs in which a whole collection runs: an explicit one, and the one at thread exit."""
    out = [(m.func("%s::collect" % m.name), collector_graph(cx, m, unwind))]
    d = teardown(cx, m)
    if d is not None and m.collector.key in cx.reach(d.key):
        out.append((d, cx.graph(d, opaque=False, unwind=unwind)))
    return out


def tracked_fields(cx, m):
    """(owner, field) of the thread's bookkeeping that drops register allocations in, and its thread-local."""
    out = set()
    for e in cx.graph(m.trait("ops::drop::Drop", "drop")).events():
        if e.kind == "map_insert" and e.get("place") is not None and e.place.a[0].op == "tls":
            for x in reversed(e.place.a[1:]):
                if x[0] == "f":
                    out.add((str(x[3]), x[2], e.place.a[0]))
                    break
            else:
                out.add((None, None, e.place.a[0]))
    if not out:
        raise Missing("the thread's bookkeeping of the %s collector" % m.name)
    return out


def teardown(cx, m):
    """The destructor of the thread-local bookkeeping."""
    owners = {o for o, f, t in tracked_fields(cx, m)}
    for b in cx.P.local_fns:
        if b.impl_trait and b.impl_trait.split("<")[0].endswith("ops::drop::Drop") and b.path.endswith("::drop") and \
                (b.impl_self or "").split("<")[0] in owners:
            return b
    return None


@rule("HELD-USER", "C12 C20", "while destructors, conditions or collections run, none of the crate's own locks and borrows is held "
      "except the lock of the running sync collection; none is acquired twice", 40)
def held_user(cx, o):
    for h in held(cx, False):
        o.inst("%s: %d acquisitions, %d calls of user code" % (h.body.path, h.acq, h.n))
        for k, msg in sorted(h.out.items()):
            o.bad("%s:%s" % (nm(h.body), k), msg)


class Guard(Monitor):
    """Nothing that a running collection holds is waited for, and no collection begins, without knowing that this thread
    is not collecting."""

    def __init__(self, m, body, locks):
        self.m, self.body, self.locks = m, body, locks
        self.out, self.counts = {}, {}

    def init(self):
        return St(dict(flag=None, acted=frozenset()))

    def bad(self, group, key, msg, e=None):
        self.out.setdefault(key, "%s at %s %s" % (self.body.path, e.span if e is not None else "?", msg))

    def step(self, s, e):
        s = self.flag_step(s, e)
        if s.flag is None:
            for t, r in e.facts.items():
                if t.op == "ld" and t.a[0].op == "tls" and r[1] == 0 and e.kind == "lock":
                    return s.set(flag=(place(t.a[0]), noep(t), "idle"))
        if e.kind == "icall" and e.get("owner"):
            self.hit("icall")
            self.flag_at_icall(s, e)
        elif e.kind == "lock" and not e.get("tried") and lock_id(e.lock) in self.locks:
            self.hit("lock")
            if s.flag is None or s.flag[2] not in ("mine", "mine-done", "idle"):
                self.bad("", "wait:" + lock_id(e.lock), "waits for %s without knowing that this thread is not running the collection "
                         "that holds it" % lock_id(e.lock), e)
        return s

    def end(self, s, how, e):
        pass


def entries(cx, m, b):
    """Functions through which b starts collections, as far outside as the analysis can follow."""
    cg = cx.callgraph()
    out = []
    for k in sorted(set(cg.get(b.key, ()))):
        c = cx.P.bodies.get(k)
        if c is None or not c.local or m.collector.key not in cx.reach(k):
            continue
        if c.kind == "Closure":
            out += entries(cx, m, c)
        else:
            out.append(c)
    return out


def guarded(cx, m, b, locks, seen):
    if b.key in seen:
        return []
    seen.add(b.key)
    try:
        g = cx.graph(b, opaque=False)
    except Explosion:
        if b.key == m.collector.key:
            raise
        return [x for c in entries(cx, m, b) for x in guarded(cx, m, c, locks, seen)]
    mon = Guard(m, b, locks)
    return [run_monitor(g, mon)]


@rule("GUARD", "C12 C13", "no collection begins, and the collection lock is not waited for, unless it is known that this thread is not "
      "collecting already", 4)
def guard(cx, o):
    for m in mods(cx):
        locks = collection_locks(cx, m) if m.name == "sync" else set()
        mons = []
        seen = set()
        for c in entries(cx, m, m.trait("ops::drop::Drop", "drop")):
            mons += guarded(cx, m, c, locks, seen)
        mons += guarded(cx, m, m.func("%s::collect" % m.name), locks, seen)
        for mon in mons:
            o.inst("%s: %d erased calls, %d waits" % (mon.body.path, mon.counts.get("icall", 0), mon.counts.get("lock", 0)))
            for k, msg in sorted(mon.out.items()):
                o.bad("%s:%s" % (nm(mon.body), k), msg)
        if not mons:
            o.bad(m.name + ":none", "dropping handles of %s never starts a collection" % m.name)


class Busy(Monitor):
    """What a collection does that finds another one running on its thread."""

    def __init__(self, m, body, tk):
        self.m, self.body, self.tk = m, body, tk
        self.out, self.counts = {}, {}

    def init(self):
        return St(dict(flag=None, acted=frozenset(), did=None))

    def step(self, s, e):
        s = self.flag_step(s, e)
        if s.did is None and e.get("place") is not None and (
                e.kind == "store" or e.kind == "atomic" and e.op != "load"):
            st = Toker.stat(self.tk, e.place)
            if st == (self.m.name, "drops"):
                return s.set(did=e)
        return s

    def end(self, s, how, e):
        if how == "ret" and s.flag is not None and s.flag[2] == "reset":
            self.out.setdefault("flag", "%s can end with the thread no longer marked as collecting although it finds a collection running" %
                                self.body.path)
        if how == "ret" and s.flag is not None and s.flag[2] == "busy":
            self.hit("busy")
            if s.did is not None:
                self.out.setdefault("stat", "%s at %s changes the number of dropped handles although it finds a collection running" % (
                    self.body.path, s.did.span))


@rule("COLL-BUSY", "C14 C12 C22", "a collection that finds another one running on its thread leaves the number of dropped handles alone", 2)
def coll_busy(cx, o):
    for m in mods(cx):
        b = m.collector
        g = cx.graph(b, opaque=False)
        mon = run_monitor(g, Busy(m, b, Toker(cx, m, b)))
        o.inst("%s: %d ends with a collection running" % (b.path, mon.counts.get("busy", 0)))
        for k, msg in sorted(mon.out.items()):
            o.bad("%s:%s" % (nm(b), k), msg)


@rule("KEEP", "C03 C04 C15", "nothing but a collection forgets bookkeeping entries of allocations other than the one whose last handle is "
      "dropped", 40)
def keep(cx, o):
    pl = set()
    for m in mods(cx):
        for b in (m.trait("ops::drop::Drop", "drop"), m.func("%s::collect" % m.name)):
            for e in cx.graph(b).events():
                if e.kind == "map_insert" and e.get("place") is not None and e.place.a[0].op in ("tls", "static"):
                    pl.add(canon(e.place))
    for b in roots(cx):
        m = cx.u if b.path.lstrip("<").startswith("unsync") else cx.s
        tk = Toker(cx, m, b)
        o.inst(b.path)
        for e in cx.graph(b).events():
            if e.kind not in ("clear", "map_remove") or e.get("place") is None or canon(e.place) not in pl:
                continue
            if e.kind == "clear":
                o.bad(nm(b) + ":clear", "%s at %s forgets all tracked allocations" % (b.path, e.span))
            elif e.had and tk.keyname(e.key) != "h1":
                o.bad(nm(b) + ":remove", "%s at %s forgets a tracked allocation other than that of its handle" % (b.path, e.span))


@rule("NO-UB", "C01 C02 C07", "no function of the handles reaches an operation whose safety precondition it does not establish "
      "(unchecked unwrapping, unreachable hints)", 40)
def no_ub(cx, o):
    for b in roots(cx):
        g = cx.graph(b)
        o.inst(b.path)
        for e in g.events():
            if e.kind == "panic" and UB in str(e.get("msg")):
                o.bad(nm(b), "%s at %s is undefined for some handle: %s" % (b.path, e.span, str(e.msg).splitlines()[0]))


@rule("LOCK-ORDER", "C12 C13", "the crate's own locks are always acquired in the same order", 1)
def lock_order(cx, o):
    edges = {}
    for h in held(cx, False):
        if h.acq:
            o.inst(h.body.path)
        for (a, b), at in h.order.items():
            edges.setdefault(a, {}).setdefault(b, at)
    for a in edges:
        seen, st = set(), list(edges[a])
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st += list(edges.get(x, ()))
        if a in seen:
            o.bad("cycle:" + a, "locks are acquired in conflicting orders around %s: %s" % (a, "; ".join(
                "%s then %s (%s)" % (a, b, at) for b, at in edges[a].items())))


@rule("UNWIND-HELD", "C20", "when user code panics every lock and borrow of the crate is released and none is poisoned", 40)
def unwind_held(cx, o):
    hs = held(cx, True)
    touchy = {"poison:" + x for h in hs for x in h.touchy}
    for h in hs:
        o.inst(h.body.path)
        for k, msg in sorted(h.out.items()):
            if k.startswith("poison:") and k not in touchy:
                continue
            if k.split(":")[0] in ("unwind", "poison", "ret"):
                o.bad("%s:%s" % (nm(h.body), k), msg)


@rule("UNWIND-FLAG", "C20", "a collection interrupted by a panic does not leave the thread marked as collecting or the collection "
      "lock held", 2)
def unwind_flag(cx, o):
    for m in mods(cx):
        g = collector_graph(cx, m, unwind=True)
        mon = (UCollect if m.name == "unsync" else SCollect)(cx, m, g, roles(cx, m))
        mon.tk = Toker(cx, m, g.entry)
        run_monitor(g, mon)
        n = sum(1 for e in g.events() if e.kind == "upanic")
        o.inst("%s: %d points where user code may panic" % (m.collector.path, n), n)
        report(o, mon, ("unwind",))
        if not n:
            o.bad(m.name + ":none", "the collection of %s runs no user code" % m.name)


@rule("UNWIND-ONCE", "C20 C06", "if a destructor panics while a handle is dropped or an allocation is destroyed, nothing is destroyed or "
      "freed a second time and the allocation does not stay registered", 4)
def unwind_once(cx, o):
    for m in mods(cx):
        r = roles(cx, m)
        bs = [m.trait("ops::drop::Drop", "drop")] + [b for j in ("destroy", "weakdrop") for b in r.fns.get(j, [])]
        for b in bs:
            tk, ps = cx.paths(m, b, unwind=True)
            for p in ps:
                if p.how not in ("ret", "unwind"):
                    continue
                up = p.all("upanic")
                dv = [t for t in p.toks if t.k == "dropval"]
                de = [t for t in p.toks if t.k == "dealloc"]
                if not dv and not de:
                    continue
                o.inst(where(b, (dv + de)[0]))
                for obj in {t.obj for t in dv + de}:
                    d1, d2 = [t for t in dv if t.obj == obj], [t for t in de if t.obj == obj]
                    if len(d1) > 1:
                        o.bad(nm(b) + ":drop", "%s runs the destructor again after it panicked (%s)" % (where(b, d1[1]), p.show()))
                    if len(d2) > 1:
                        o.bad(nm(b) + ":free", "%s frees the memory twice (%s)" % (where(b, d2[1]), p.show()))
                    if d1 and d2 and p.idx(d2[0]) < p.idx(d1[-1]):
                        o.bad(nm(b) + ":order", "%s runs the destructor after freeing the memory" % where(b, d1[-1]))
                    late = [t for t in p.toks if t.k == "insert" and t.obj == obj and d1 and p.idx(t) > p.idx(d1[0])]
                    if late:
                        o.bad(nm(b) + ":again", "%s registers a destroyed allocation" % where(b, late[0]))


# ---------------------------------------------------------------- delivery and thread exit
class Deliver:
    """Every allocation taken out of the thread's bookkeeping of the sync collector arrives in the global one; claims
    of duplicates are given up exactly once."""

    def __init__(self, cx, m, body, need):
        self.cx, self.m, self.body, self.need = cx, m, body, need
        self.fields = tracked_fields(cx, m)
        self.out, self.n, self.all = {}, 0, 0

    def init(self):
        return St(dict(cur=None, map=None, f=frozenset(), gone=frozenset(), open=frozenset(), done=frozenset(), clean=False,
                       off=frozenset(), acts=frozenset(), gave=frozenset()))

    def bad(self, key, msg, e):
        self.out.setdefault(key, "%s at %s %s" % (self.body.path, e.span if e is not None and e.span else self.body.span, msg))

    def mine(self, mp, pl=None):
        root, els = chain(noep(mp))
        if root.op != "ld":
            return False
        for own, f, tls in self.fields:
            if root.a[0] is tls:
                if f is None or f in els:
                    return True
            elif root.a[0].op == "*" and f in els:
                t = mp
                while t.op in ("pj", "bits"):
                    if t.op == "pj" and t.a[1][0] == "f" and t.a[1][2] == f and str(t.a[1][3]) == own:
                        return True
                    t = t.a[0]
        return False

    def close(self, s, e):
        if s.cur is None:
            return s
        if s.map is not None:
            # (a pass that does nothing with any element only looks at them)
            s = s.set(acts=s.acts | {"some" if s.f else "none"})
            if not s.f and "some" not in s.acts:
                return s.set(cur=None)
        if "off" in s.f:
            return s.set(cur=None, f=frozenset())
        if not {"in", "dup"} & s.f:
            self.bad("lost", "does not hand over every allocation it takes out of the thread's bookkeeping", e)
        elif ("dup" in s.f) != ("undup" in s.f):
            self.bad("claim", "gives up no claim on an allocation that was delivered before" if "dup" in s.f else
                     "gives up a claim on an allocation that was not delivered before", e)
        return s.set(cur=None, f=frozenset())

    def step(self, s, e):
        k = e.kind
        if k in ("is_empty", "len") and self.mine(e.map):
            r = e.facts.get(e.result)
            return s
        if k == "iter_new" and self.mine(e.map):
            s = self.close(s, e)
            return s.set(open=s.open | {noep(e.map)}, acts=frozenset())
        if k == "iter_next" and self.mine(e.map):
            s = self.close(s, e)
            self.n += 1
            return s.set(cur=e.key, map=noep(e.map), f=frozenset())
        if k == "iter_end" and self.mine(e.map):
            s = self.close(s, e)
            mp = noep(e.map)
            if s.acts == {"none", "some"}:
                self.bad("lost", "does not hand over every allocation it takes out of the thread's bookkeeping", e)
            return s.set(open=s.open - {mp}, done=s.done if s.acts == {"none"} else s.done | {mp}, acts=frozenset(),
                         gave=s.gave | {mp} if "some" in s.acts else s.gave)
        if k == "vec_push" and s.cur is not None and (e.value is s.cur or s.cur in self.elements(e.value)):
            vec, f = noep(e.vec), s.f & {"in", "dup"}
            for v, g in s.off:
                if v is vec:
                    f &= g
            return s.set(f=s.f | {"off"}, off=frozenset(x for x in s.off if x[0] is not vec) | {(vec, f)})
        off = [x for x in s.off if k in ("vec_next", "vec_end", "vec_cut") and x[0] is noep(e.vec)]
        if off and k == "vec_next":
            s = self.close(s, e)
            ks = self.elements(e.value)
            return s.set(cur=ks[0] if ks else e.value, map=None, f=off[0][1])
        if off and k == "vec_end":
            s = self.close(s, e)
            return s.set(off=s.off - set(off))
        if off:
            self.bad("lost", "does not hand over every allocation it takes out of the thread's bookkeeping", e)
        if k in ("drain", "clear", "take", "store", "map_new") and e.get("place") is not None:
            mp = e.get("old") if k in ("take", "store") else e.get("map")
            if mp is not None and isinstance(mp, Term) and self.mine(mp) and self.tracked_place(e.place):
                return s.set(gone=s.gone | {noep(mp)})
            return s
        if k in ("contains", "map_get", "map_entry") and s.cur is not None and e.key is s.cur and e.get("place") is not None and \
                e.place.a[0].op == "static":
            return s.set(f=s.f | {"dup"}) if e.had and "in" not in s.f else s
        if k == "map_insert" and s.cur is not None and e.key is s.cur and e.get("place") is not None and \
                e.place.a[0].op == "static":
            mr = mvroot(e.value) if e.value.op != "adt" else None
            if e.value.op == "adt":
                rs = {mvroot(x) for x in e.value.a[3]}
                mr = rs.pop() if len(rs) == 1 else None
            if mr is None or mr[1] is not s.cur:
                self.bad("value", "delivers the entry of another allocation", e)
            if s.f & {"in", "off"}:
                self.bad("twice", "delivers an allocation twice", e)
            return s.set(f=s.f | {"in"} | ({"dup"} if e.existed else set()))
        if k == "atomic" and s.cur is not None and e.op != "load":
            if box_field(e.place, s.cur) == self.m.weak_f:
                if e.op == "fetch_sub" and e.operand is C(1) and "undup" not in s.f:
                    return s.set(f=s.f | {"undup"})
                self.bad("claim", "changes the claims on a delivered allocation otherwise than by giving up one", e)
        return s

    def elements(self, v):
        return [x.a[1] for x in subterms(v) if x.op in ("mv", "mk") and self.mine(x.a[0])]

    def tracked_place(self, pl):
        for own, f, tls in self.fields:
            if f is None and pl.a[0] is tls:
                return True
            if any(x[0] == "f" and x[2] == f and str(x[3]) == own for x in pl.a[1:]):
                return True
        return False

    def end(self, s, how, e):
        if how != "ret":
            return
        s = self.close(s, e)
        if s.off:
            self.bad("lost", "takes allocations out of the thread's bookkeeping without handing all of them over", e)
        for mp in s.gone:
            if mp not in s.done:
                self.bad("lost", "takes allocations out of the thread's bookkeeping without handing all of them over", e)
        for mp in s.gave:
            if mp not in s.gone:
                self.bad("kept", "hands allocations over but keeps them in the thread's bookkeeping with only one claim", e)
        if s.done:
            self.all += 1
        if self.need and not s.done and not self.empty(e):
            self.bad("need", "can end without having handed over the thread's allocations", e)

    def empty(self, e):
        """Does the path know that there is nothing to hand over?"""
        if e is None:
            return False
        for t, r in e.facts.items():
            if t.op == "s" and t in self.lens and r[0] == r[1] == self.lens[t]:
                return True
        return False

    lens = {}


def run_deliver(cx, m, b, need, opaque=True):
    g = cx.graph(b, opaque=opaque)
    d = Deliver(cx, m, b, need)
    d.lens = {}
    for e in g.events():
        if e.kind in ("len", "is_empty") and isinstance(e.get("map"), Term) and d.mine(e.map):
            d.lens[e.result] = 0 if e.kind == "len" else 1
    return run_monitor(g, d)


class Overflow:
    """What a drop adds to the thread's own bookkeeping stays there only as long as the bookkeeping is known to be small."""

    def __init__(self, cx, m, b, fields):
        self.cx, self.m, self.b, self.out, self.n = cx, m, b, {}, 0
        self.tls = {x[2] for x in fields}
        self.lens, self.empty = set(), set()

    def init(self):
        return St(dict(put=False, small=False, counts=frozenset()))

    def mine(self, e):
        return e.get("place") is not None and e.place.a[0] in self.tls

    def step(self, s, e):
        if e.kind == "map_insert" and self.mine(e):
            self.n += 1
            s = s.set(put=True)
        elif e.kind in ("drain", "take", "clear") and self.mine(e):
            s = s.set(put=False)
        elif e.kind == "store" and self.mine(e) and isinstance(delta(e.value, e.old), int) and delta(e.value, e.old) > 0:
            s = s.set(counts=s.counts | {e.value})
        elif e.kind == "tls" and e.get("ok") is False:
            # the thread is exiting
            s = s.set(small=True)
        elif e.kind == "len" and (self.mine(e) or any(x in self.tls for x in subterms(e.map))):
            self.lens.add(e.result)
        elif e.kind == "is_empty" and (self.mine(e) or any(x in self.tls for x in subterms(e.map))):
            self.empty.add(e.result)
        if not s.small and any(rng(e.facts, t)[0] >= 1 for t in self.empty):
            s = s.set(small=True)
        if not s.small and (self.lens or s.counts) and \
                any(rng(e.facts, t)[1] is not None for t in list(self.lens) + list(s.counts)):
            s = s.set(small=True)
        return s

    def end(self, s, how, e):
        if how == "ret" and s.put and not s.small:
            self.out.setdefault("full", "%s can leave an allocation in the thread's own bookkeeping however much has gathered there: "
                                "what a thread drops would not be handed over before it exits" % where(self.b))


@rule("OVERFLOW", "C04", "dropping a sync handle hands the thread's bookkeeping over to the global collector when it has grown large", 1)
def overflow(cx, o):
    m = cx.s
    b = m.trait("ops::drop::Drop", "drop")
    mon = Overflow(cx, m, b, tracked_fields(cx, m))
    run_monitor(cx.graph(b), mon)
    o.inst("%s: %d" % (where(b), mon.n), min(mon.n, 1))
    for k, msg in sorted(mon.out.items()):
        o.bad("%s:%s" % (nm(b), k), msg)


@rule("FLAG-INIT", "C03 C04 C13", "no thread starts out marked as collecting", 2)
def flag_init(cx, o):
    for m in mods(cx):
        o.inst(where(m.collector))
        seen = set()
        for b, g in collections(cx, m):
            for e in g.events():
                if e.kind != "store" or e.get("value") is not C(1) or e.place.a[0].op not in ("tls", "static") or e.place in seen:
                    continue
                seen.add(e.place)
                name = str(e.place.a[0].a[0])
                for k, c in list(cx.P.consts.items()) + [(x.path, x) for x in cx.P.bodies.values() if x.local]:
                    if k.replace("const:", "") not in (name, name + "::__RUST_STD_INTERNAL_INIT", name + "::__rust_std_internal_init_fn"):
                        continue
                    for how, v in cx.graph(c).term.values():
                        for x in e.place.a[1:]:
                            v = proj(v, x) if how == "ret" else v
                        if how == "ret" and v is C(1):
                            o.bad(m.name + ":" + name, "%s starts out as true: no collection would ever run" % name)


@rule("DELIVER", "C15 C13 C04 C02 C06", "every allocation a thread takes out of its own bookkeeping is handed to the global collector, and "
      "the claim of a duplicate is given up exactly once", 2)
def deliver(cx, o):
    m = cx.s
    bs = [(m.trait("ops::drop::Drop", "drop"), False), (m.func("sync::collect"), True)]
    d = teardown(cx, m)
    if d is not None:
        bs.append((d, True))
    for b, need in bs:
        mon = run_deliver(cx, m, b, need)
        o.inst("%s: %d" % (b.path, mon.n), mon.n)
        for k, msg in sorted(mon.out.items()):
            o.bad("%s:%s" % (nm(b), k), msg)


@rule("EXIT-SYNC", "C15 C04", "when a thread exits, the destructor of its bookkeeping hands everything to the global collector", 1)
def exit_sync(cx, o):
    m = cx.s
    d = teardown(cx, m)
    if d is None:
        o.bad("none", "the thread's bookkeeping of the sync collector has no destructor that hands over what it holds")
        return
    mon = run_deliver(cx, m, d, True)
    o.inst(d.path)
    for k, msg in sorted(mon.out.items()):
        o.bad(k, msg)
    tls_gone(cx, m, d, o)


def tls_gone(cx, m, d, o):
    """The destructor runs while its own thread-local is already gone."""
    keys = {t for own, f, t in tracked_fields(cx, m)}
    g = cx.graph(d, opaque=False)
    for e in g.events():
        if e.kind == "tls" and not e.tried and e.get("nd"):
            o.bad("tls:" + str(e.key), "%s at %s insists on the thread-local %s, which may already be destroyed" % (
                d.path, e.span, e.key))
        if e.kind == "tls" and e.tried and any(str(e.key) == str(k.a[0]) for k in keys):
            o.bad("own:" + str(e.key), "%s at %s looks for the thread-local that is being destroyed" % (d.path, e.span))


@rule("EXIT-UNSYNC", "C15 C03", "when a thread exits, the destructor of its bookkeeping collects, without the thread-local that is being "
      "destroyed", 1)
def exit_unsync(cx, o):
    m = cx.u
    d = teardown(cx, m)
    if d is None:
        o.bad("none", "the thread's bookkeeping of the unsync collector has no destructor that collects")
        return
    g = cx.graph(d)
    lens = {}
    fs = tracked_fields(cx, m)

    class W:
        def init(w):
            return St(dict(c=0))

        def step(w, s, e):
            if e.kind in ("len", "is_empty") and isinstance(e.get("place"), Term) and any(
                    x[0] == "f" and any(x[2] == f and str(x[3]) == own for own, f, t in fs) for x in e.place.a[1:]):
                lens[e.result] = 0 if e.kind == "len" else 1
            if e.kind == "collect" and e.mod == "unsync":
                o.inst("%s at %s" % (d.path, e.span))
                if e.args and strip(e.args[0]) is not sym("arg1"):
                    o.bad("self", "%s at %s collects another bookkeeping than the one being destroyed" % (d.path, e.span))
                return s.set(c=1)
            return s

        def end(w, s, how, e):
            if how == "ret" and not s.c:
                if any(e.facts.get(t, (0, None))[0] == e.facts.get(t, (0, None))[1] == v for t, v in lens.items()):
                    return
                o.bad("skip", "%s can end without a collection" % d.path)
            elif how not in ("ret", "unwind"):
                o.bad("stop", "%s can panic" % d.path)
    run_monitor(g, W())
    tls_gone(cx, m, d, o)
    for b, g in collections(cx, m)[1:]:
        mon = UCollect(cx, m, g, roles(cx, m), alias=fs)
        mon.tk = Toker(cx, m, g.entry)
        run_monitor(g, mon)
        for (gr, k), msg in sorted(mon.out.items()):
            # (whether a collection may be left out was judged above)
            if (gr, k) != ("guard", "noflag"):
                o.bad("%s:%s" % (gr, k), msg)
