"""Roles of the analysed program, graph cache, path summaries and the rule registry."""
import re
from .base import ToolError, Report
from .ir import Program
from .term import *
from .engine import Engine, Event, rng, known, evalb, possible, F, Explosion
from . import models

IGNORED_PANICS = ("MisalignedPointerDereference", "NullPointerDereference", "InvalidEnumConstruction")
UB = "unsafe precondition(s) violated"


class Missing(Exception):
    """A construct the rules are anchored on does not exist any more."""


# ---------------------------------------------------------------- terms
def canon(t, memo=None):
    """The term without load epochs and without the primes of recycled symbols."""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(canon(x, memo) if isinstance(x, (Term, tuple)) else x for x in t)
    if not isinstance(t, Term):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "ld":
        r = T("ld", canon(t.a[0], memo))
    elif t.op == "s":
        r = T("s", t.a[0].rstrip("'"))
    else:
        r = T(t.op, *[canon(x, memo) if isinstance(x, (Term, tuple)) else x for x in t.a])
    memo[t] = r
    return r


def strip(t):
    """Peel what does not change which object a pointer designates."""
    while True:
        if t.op == "bits":
            t = t.a[0]
        elif t.op == "refto":
            t = ref(t.a[0])
        elif t.op == "ref" and len(t.a[0].a) == 1 and t.a[0].a[0].op == "*":
            t = t.a[0].a[0].a[0]
        else:
            return t


def place_of(t):
    """Place behind a pointer term."""
    t = strip(t)
    if t.op == "ref":
        return t.a[0]
    return place(T("*", t))


def fields(p):
    """Names of the field projections of a place."""
    return tuple(e[2] if e[0] in ("f", "v") else e[0] for e in p.a[1:])


def delta(value, old):
    """value - old if it is a known constant, "=n" for a constant value, None otherwise."""
    if value is old:
        return 0
    if value.op == "lin" and value.a[0] is old:
        return value.a[1]
    if old.op == "lin" and old.a[0] is value:
        return -old.a[1]
    if old.op == "lin" and value.op == "lin" and old.a[0] is value.a[0]:
        return value.a[1] - old.a[1]
    if value.op == "c" and old.op == "c":
        return value.a[0] - old.a[0]
    if value.op == "c":
        return "=%d" % value.a[0]
    return None


# ---------------------------------------------------------------- paths
class Tok:
    """One relevant effect on a path."""
    __slots__ = ("k", "d", "span", "fn", "ev")

    def __init__(self, k, ev, **d):
        self.k, self.d, self.span, self.fn, self.ev = k, d, ev.span, ev.fn, ev

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def get(self, n, default=None):
        return self.d.get(n, default)

    def key(self):
        return (self.k, tuple((a, canon(b) if isinstance(b, (Term, tuple)) else b)
                              for a, b in self.d.items()), self.span)

    def __repr__(self):
        return "%s(%s)@%s" % (self.k, ", ".join("%s=%s" % x for x in self.d.items() if x[0] != "facts"), self.span)


class Path:
    def __init__(self, toks, how, value, facts):
        self.toks, self.how, self.value, self.facts = merged(toks), how, value, facts
        self.tags = ()      # further values known to be the number of the current collection

    def all(self, k, **d):
        return [t for t in self.toks if t.k == k and all(t.get(a) == b for a, b in d.items())]

    def idx(self, tok):
        for i, t in enumerate(self.toks):
            if t is tok:
                return i
        return -1

    def show(self):
        return " ; ".join("%s%s" % (t.k, "{%s}" % ",".join(str(v)[:40] for a, v in t.d.items() if a in (
            "obj", "field", "delta", "had", "new", "order", "ok", "result", "msg", "what"))) for t in self.toks) + " -> " + self.how


def merged(toks):
    """A counter that is taken out and put back changed has changed by the difference."""
    out = []
    for t in toks:
        if t.k in ("stat", "cnt") and t.ev.kind == "store" and not isinstance(t.delta, int):
            old = [x for x in out if x.k == t.k and x.ev.kind == "store" and x.ev.place is t.ev.place][-1:]
            d = delta(t.ev.value, old[0].ev.old) if old and t.ev.old is old[0].ev.value else None
            if isinstance(d, int):
                out.remove(old[0])
                t = Tok(t.k, t.ev, **dict(t.d, delta=d))
        out.append(t)
    return out


def fold(s):
    """Further iterations of a loop that repeat the effects of the previous one add nothing."""
    n = len(s)
    for l in range(1, min(16, n // 2) + 1):
        if s[n - l:] == s[n - 2 * l:n - l]:
            return s[:n - l]
    return s


def foreign(t):
    """Is this an effect on an allocation met while iterating over bookkeeping? Iterations repeat it, once is enough."""
    ob = t.get("obj")
    return isinstance(ob, str) and ob.startswith("id:") or ob is None and t.k in ("insert", "remove")


def paths(g, tok, limit=1500000):
    """All distinct effect sequences of a (loop-free as far as effects go) graph."""
    out = []
    intern, seqs, ext, edges = {}, {(): 0}, {}, {}
    lst = [()]

    def edge(n):
        r = edges.get(n)
        if r is None:
            r = edges[n] = []
            for evs, dst in g.succ[n]:
                toks, skip, endev = [], False, None
                for e in evs:
                    if e.kind == "panic" and any(i in str(e.get("msg")) for i in IGNORED_PANICS):
                        skip = True
                        break
                    if e.kind == "end":
                        endev = e
                    t = tok(e)
                    if t is not None:
                        toks += [intern.setdefault(x.key(), x) for x in (t if isinstance(t, list) else [t])]
                if not skip:
                    r.append((tuple(toks), endev, evs, dst))
        return r

    def extend(q, toks):
        if not toks:
            return q
        k = (q, tuple(map(id, toks)))
        r = ext.get(k)
        if r is None:
            s = lst[q]
            for t in toks:
                if foreign(t) and t in s:
                    continue
                s = fold(s + (t,))
            if len(s) > 400:
                raise ToolError("unbounded effect sequence in %s" % g.entry.path)
            r = seqs.get(s)
            if r is None:
                r = seqs[s] = len(lst)
                lst.append(s)
            ext[k] = r
        return r

    seen = {(0, 0)}
    work = [(0, 0)]
    done = set()
    while work:
        n, seq = work.pop()
        if len(seen) > limit:
            raise ToolError("too many effect sequences in %s" % g.entry.path)
        for toks, endev, evs, dst in edge(n):
            s = extend(seq, toks)
            if dst in g.term:
                how, val = g.term[dst]
                if how == "stop":
                    how = val if val in ("panic", "abort") else "stop"
                    val = None
                    if how != "stop" and any(e.kind == "panic" and UB in str(e.get("msg")) for e in evs):
                        how = "ub"
                if how == "stop":
                    continue
                facts = endev.facts if endev is not None else (evs[-1].facts if evs else {})
                fk = frozenset((canon(a), b) for a, b in facts.items())
                k = (s, how, val, fk)
                if k not in done:
                    done.add(k)
                    out.append(Path(list(lst[s]), how, val, facts))
                continue
            k = (dst, s)
            if k not in seen:
                seen.add(k)
                work.append(k)
    return out


# ---------------------------------------------------------------- roles
class Mod:
    """Roles of one of the two handle implementations."""

    def __init__(self, cx, name):
        self.cx, self.P, self.name = cx, cx.P, name
        P = self.P
        self.gc = "%s::Gc" % name
        ad = P.adts.get(self.gc)
        if ad is None:
            raise Missing("type %s" % self.gc)
        self.box = None
        self.ptr_f = self.tag_f = None
        for i, f in enumerate(ad["variants"][0][1]):
            m = re.search(r"<(%s::\w+)<" % name, f[3]) or re.search(r"[<*\s](%s(?:::\w+)+)<" % name, f[3])
            if m and m.group(1) in P.adts:
                self.ptr_f, self.box = (i, f[0]), m.group(1)
            elif "Atomic" in f[3]:
                self.tag_f = (i, f[0])
        if self.box is None:
            raise Missing("pointer field of %s" % self.gc)
        self.boxad = P.adts[self.box]
        fs = self.boxad["variants"][0][1]
        self.value_f = None
        for i, f in enumerate(fs):
            mt = re.match(r"(?:core::mem::manually_drop::ManuallyDrop<|core::cell::UnsafeCell<)?(\w+)>?$", f[3])
            if mt and mt.group(1) in cx.params():
                self.value_f = f[0]
        if self.value_f is None:
            raise Missing("value field of %s" % self.box)
        counters = [f[0] for f in fs if f[0] != self.value_f]
        self.count_f = self.strong_f = self.weak_f = self.gen_f = None
        if name == "unsync":
            if len(counters) == 1:
                self.count_f = counters[0]
            else:
                c = [f for f in counters if "count" in f or "strong" in f]
                self.count_f = (c or counters)[0]
            self.strong_f = self.count_f
        else:
            for f in counters:
                if "strong" in f:
                    self.strong_f = f
                elif "weak" in f:
                    self.weak_f = f
                elif "gen" in f or "tag" in f:
                    self.gen_f = f
            if None in (self.strong_f, self.weak_f, self.gen_f):
                self.roles_from_new()
            self.count_f = self.strong_f
        self.collector = self.find_collector()
        self.living = self.drops = None
        self.stat_roles()

    # ---- finding bodies
    def method(self, name):
        for b in self.P.local_fns:
            if b.path == "%s::<T>::%s" % (self.gc, name) and b.key.endswith("<T>"):
                return b
        for b in self.P.local_fns:
            if b.path.startswith(self.gc + "::<") and b.path.endswith("::" + name):
                return b
        raise Missing("%s::%s" % (self.gc, name))

    def trait(self, tr, name, required=True):
        for b in self.P.local_fns:
            if b.impl_trait and b.impl_trait.split("<")[0].endswith(tr) and b.path.endswith("::" + name) and \
                    (b.impl_self or "").startswith(self.gc + "<"):
                return b
        if required:
            raise Missing("<%s as %s>::%s" % (self.gc, tr, name))
        return None

    def func(self, path, required=True):
        for b in self.P.local_fns:
            if b.path == path:
                return b
        if required:
            raise Missing("function %s" % path)
        return None

    def info(self, name):
        for b in self.P.local_fns:
            if b.path == "%s::CollectInfo::%s" % (self.name, name):
                return b
        raise Missing("%s::CollectInfo::%s" % (self.name, name))

    def roles_from_new(self):
        g = self.cx.graph(self.method("new"), opaque=False)
        for e in g.events():
            if e.kind == "alloc" and e.value.op == "adt":
                for n, v in zip(e.value.a[5], e.value.a[3]):
                    if n == self.value_f:
                        continue
                    if v is C(1) and self.strong_f is None:
                        self.strong_f = n
                    elif v is C(0) and self.weak_f is None:
                        self.weak_f = n
                    elif v.op == "s" and self.gen_f is None:
                        self.gen_f = n
        if None in (self.strong_f, self.weak_f, self.gen_f):
            raise Missing("counter fields of %s" % self.box)

    def find_collector(self):
        """The innermost function of the module from which every call through a type-erased function
        pointer is reached: the collection proper."""
        P = self.P
        call = self.cx.callgraph()
        sites = {}
        mine = [b for b in P.bodies.values() if b.local and b.path.lstrip("<").startswith(self.name + "::")
                and b.kind in ("Fn", "AssocFn", "Closure")]
        closed = {b.key: self.cx.reach(b.key) for b in mine}
        icalls = self.cx.icalls()
        full = set()
        for b in mine:
            full |= {k for k in icalls if k in closed[b.key]}
        if not full:
            raise Missing("collection code of %s" % self.name)
        best = None
        for b in mine:
            if b.kind == "Closure":
                continue
            if full <= closed[b.key]:
                n = len([k for k in closed[b.key]])
                if best is None or n < best[0]:
                    best = (n, b)
        if best is None:
            raise Missing("a single collection function of %s" % self.name)
        return self.outermost(best[1])

    def outermost(self, b):
        """Private functions that exist only to call the collection belong to it."""
        P, calls = self.P, self.cx.callgraph()
        seen = {b.key}
        while True:
            up, work, done = set(), [b.key], {b.key}
            while work:
                x = work.pop()
                for k, c in calls.items():
                    if x in c and k not in done and P.bodies[k].local and k not in self.cx.reach(b.key):
                        done.add(k)
                        if P.bodies[k].kind == "Closure" or k.startswith("promoted:"):
                            work.append(k)
                        else:
                            up.add(k)
            if len(up) != 1:
                return b
            c = P.bodies[up.pop()]
            if c.key in seen or c.reach or c.impl_trait or not c.path.lstrip("<").startswith(self.name + "::") or any(
                    t[0] == "call" and "ptr" in t[1] for x in self.cx.reach(c.key) - self.cx.reach(b.key)
                    for st, t, cl in P.bodies[x].blocks if P.bodies[x].local):
                return b
            seen.add(c.key)
            b = c

    def stat_roles(self):
        for what, name in (("living", "n_gcs_existing"), ("drops", "n_gcs_dropped_since_last_collect")):
            b = self.info(name)
            g = self.cx.graph(b)
            pl = None
            for n, (how, v) in g.term.items():
                if how != "ret":
                    continue
                for e in g.events():
                    if e.kind == "atomic" and e.op == "load" and e.result is v:
                        pl = e.place
                if pl is None and v.op == "pj":
                    pl = self.cx.load_place(v)
            if pl is None:
                raise Missing("statistic behind %s::CollectInfo::%s" % (self.name, name))
            setattr(self, what, self.stat_key(pl))
            setattr(self, what + "_at", pl)

    def stat_key(self, pl):
        """Statistics are identified by the type owning the field and the field."""
        for e in reversed(pl.a[1:]):
            if e[0] == "f":
                return (e[3], e[2])
        return ("", repr(pl.a[0]))


PTR = re.compile(r"(?:core::ptr::non_null::NonNull<(.*)>|\*(?:mut|const) (.*)|&(?:'\w+ )?(?:mut )?(.*)|alloc::boxed::Box<(.*)>|"
                 r"core::option::Option<core::ptr::non_null::NonNull<(.*)>>)$")


class Ctx:
    """One feature configuration of the analysed program."""

    def __init__(self, cfg, path):
        self.cfg = cfg
        self.P = Program(path, cfg)
        self._g = {}
        self._cg = None
        self._reach = {}
        self._ic = None
        self._mods = {}
        self.corpus = None
        self.nodes = 0
        self.nevents = 0
        self.unmodelled = {}

    def params(self):
        """Names of type parameters."""
        if "params" not in self._g:
            self._g["params"] = {t["s"] for t in self.P.types if t["k"] == "param"}
        return self._g["params"]

    def idtypes(self):
        """Types of the crate that maps and sets are indexed by."""
        if "idtypes" not in self._g:
            keys = {k for t in self.P.types for k in re.findall(r"(?:Map|Set)<([\w:]+)[,>]", t["s"])}
            self._g["idtypes"] = {k for k in keys if k in self.P.adts}
        return self._g["idtypes"]

    def generic(self, s):
        """Does the pointee depend on the value type, so that the pointer may be a wide one?"""
        return any(x in self.params() for x in re.findall(r"(?:^|[<\s])(\w+)(?=$|[>,])", s))

    def erased(self):
        """Types of the crate whose values stand for pointers of any type: a function recovers a typed pointer from them."""
        if "erased" not in self._g:
            P = self.P
            out = set()
            for b in P.local_fns:
                if b.impl_trait or b.argc < 1:
                    continue
                a = re.sub(r"^&(?:'\w+ )?(?:mut )?", "", P.tys(b.locals[1][0]))
                r = P.tys(b.locals[0][0])
                if a in P.adts and a.split("<")[0] == a and PTR.match(r) and self.generic(r):
                    out.add(a)
            self._g["erased"] = out
        return self._g["erased"]

    def mod(self, name):
        if name not in self._mods:
            self._mods[name] = Mod(self, name)
        return self._mods[name]

    @property
    def u(self):
        return self.mod("unsync")

    @property
    def s(self):
        return self.mod("sync")

    def measure(self, rep):
        """What this run looked at."""
        if self.corpus is not None:
            self.corpus.measure(rep)
        rep.count("bodies", len(self.P.bodies))
        rep.count("graphs", len(self._g))
        rep.count("graph_nodes", self.nodes)
        rep.count("effects", self.nevents)
        rep.count("unmodelled_calls", sum(self.unmodelled.values()))

    # ---- call graph over resolved instances
    def callgraph(self):
        if self._cg is None:
            cg = {}
            for k, b in self.P.bodies.items():
                out = set()

                def fnref(c):
                    for x in ("inst", "target"):
                        v = c.get(x)
                        if isinstance(v, str) and v in self.P.bodies:
                            out.add(v)

                def op(o):
                    if isinstance(o, dict):
                        c = o.get("c")
                        if c and "fn" in c:
                            fnref(c["fn"])

                def rv(r):
                    if r[0] == "agg":
                        if r[1][0] == "closure" and r[1][2] in self.P.bodies:
                            out.add(r[1][2])
                        for o in r[2]:
                            op(o)
                    elif r[0] == "cast":
                        op(r[2])
                        if isinstance(r[4], dict):
                            fnref(r[4])
                    elif r[0] in ("use",):
                        op(r[1])
                for st, t, c in b.blocks:
                    for s in st:
                        if s[0] == "=":
                            rv(s[2])
                    if t[0] == "call":
                        if "ptr" not in t[1]:
                            fnref(t[1])
                        for o in t[2]:
                            op(o)
                    elif t[0] == "drop":
                        self.dropcalls(t[2], out, set())
                cg[k] = out
            self._cg = cg
        return self._cg

    def dropcalls(self, tid, out, seen):
        if tid in seen:
            return
        seen.add(tid)
        ty = self.P.types[tid]
        d = ty.get("drop_inst")
        if d and d in self.P.bodies:
            out.add(d)
        if ty["k"] == "adt" and ty.get("local") and ty["path"] in self.P.adts:
            for v in self.P.adts[ty["path"]]["variants"]:
                for f in v[1]:
                    self.dropcalls(f[1], out, seen)
        for a in ty.get("args", []) or []:
            if isinstance(a, int):
                self.dropcalls(a, out, seen)

    def reach(self, key):
        r = self._reach.get(key)
        if r is None:
            cg = self.callgraph()
            r = set()
            st = [key]
            while st:
                k = st.pop()
                if k in r:
                    continue
                r.add(k)
                st += cg.get(k, ())
            self._reach[key] = r
        return r

    def icalls(self):
        """Bodies with calls through function pointers of types user code cannot supply."""
        if self._ic is None:
            class E:
                prog = self.P
            openf = models.open_fn_types(E)
            s = set()
            for k, b in self.P.bodies.items():
                if not b.local:
                    continue
                for st, t, c in b.blocks:
                    if t[0] == "call" and "ptr" in t[1]:
                        ps = t[1].get("pty")
                        ps = ps if isinstance(ps, str) else self.P.types[ps]["s"] if ps is not None else ""
                        if ps not in openf:
                            s.add(k)
            self._ic = s
        return self._ic

    # ---- graphs
    def graph(self, body, unwind=False, opaque=True, preserved=None):
        """Abstract execution graph of a function. With opaque=True calls of the collection functions are
        kept as single `collect` events."""
        pk = tuple(sorted(preserved)) if preserved else ()
        k = (body.key, unwind, opaque, pk)
        g = self._g.get(k)
        if g is None:
            ops = []
            if opaque == "accept":
                def acc(x):
                    return models.trait_call(x) if x.c.get("path", "").endswith("Collectable::accept") else None
                ops = [acc]
            elif opaque:
                keys = {}
                for m in self._mods.values():
                    if hasattr(m, "collector") and m.collector.key != body.key:
                        keys[m.collector.key] = m.name

                def op(x):
                    nm = keys.get(x.c.get("inst"))
                    if nm is None:
                        return None
                    x.ev("collect", mod=nm, args=tuple(x.args))
                    outs = x.user(args=[], what="collect")
                    return outs + x.ret(UNIT)
                ops = [op]
            e = Engine(self.P, unwind=unwind, opaque=ops, preserved=preserved)
            g = e.run(body)
            g.engine = e
            self._g[k] = g
            self.nodes += len(g.succ)
            self.nevents += sum(1 for _ in g.events())
            for a, b in g.unmodelled.items():
                self.unmodelled[a] = self.unmodelled.get(a, 0) + b
        return g

    def paths(self, mod, body, unwind=False, opaque=True, preserved=None):
        k = ("paths", mod.name, body.key, unwind, opaque, tuple(sorted(preserved)) if preserved else ())
        r = self._g.get(k)
        if r is None:
            g = self.graph(body, unwind=unwind, opaque=opaque, preserved=preserved)
            tk = Toker(self, mod, body)
            r = self._g[k] = (tk, paths(g, tk))
        return r

    # ---- term helpers
    def load_place(self, v):
        """The place a loaded value was read from."""
        el = []
        t = v
        while t.op == "pj":
            el.append(t.a[1])
            t = t.a[0]
        if t.op == "ld":
            return place(t.a[0], *reversed(el))
        return None


# ---------------------------------------------------------------- tokens
class Toker:
    """Maps events of a graph to effects named by role.

    Boxes are named after the argument they are reached from: h<i> is the allocation a handle argument points
    to, b<i> an allocation given by (possibly type-erased) pointer, new a fresh allocation."""

    def __init__(self, cx, mod, body):
        self.cx, self.mod, self.body = cx, mod, body
        self.P = cx.P
        self.argkind = {}
        for i in range(1, body.argc + 1):
            ty = self.P.types[body.locals[i][0]]
            s = ty["s"]
            inner = self.P.types[ty["to"]]["s"] if ty["k"] in ("ref", "ptr") else s
            if re.match(r"(un)?sync::Gc<", inner):
                self.argkind["arg%d" % i] = ("h", i, inner.split("::")[0])
            elif inner in cx.erased() or "GcBox<" in inner or any(
                    m.box + "<" in inner for m in cx._mods.values()):
                self.argkind["arg%d" % i] = ("b", i, None)

    # -- names
    def boxname(self, t):
        """Name of the allocation a pointer value designates, or None."""
        t = strip(t)
        if t.op == "ref":
            p = t.a[0]
            n, rest = self.objplace(p)
            return n if n is not None and not rest else None
        els = []
        x = t
        while True:
            if x.op == "pj":
                els.append(x.a[1])
                x = x.a[0]
            elif x.op == "bits":
                x = x.a[0]
            else:
                break
        els.reverse()
        if x.op == "s":
            k = self.argkind.get(x.a[0].rstrip("'"))
            if k and k[0] == "b":
                return "b%d" % k[1]
            if els and els[0][0] == "f" and str(els[0][3]) in self.cx.idtypes():
                return "id:" + x.a[0].rstrip("'")
            return None
        if x.op == "ld":
            r = x.a[0]
            if r.op == "*" and r.a[0].op == "s":
                k = self.argkind.get(r.a[0].a[0].rstrip("'"))
                if k and k[0] == "h" and els and els[0][0] == "f" and "Gc" in str(els[0][3]):
                    return "h%d" % k[1]
                if k and k[0] == "b":
                    return "b%d" % k[1]
                if els and els[0][0] == "f" and any(str(e[3]) in self.cx.idtypes() for e in els[1:]):
                    return "f:" + els[0][2]
        return None

    def objplace(self, p):
        """(box name, remaining projections) of a place inside an allocation."""
        r = p.a[0]
        if r.op == "*":
            n = self.boxname(r.a[0])
            if n is not None:
                return n, p.a[1:]
            inner = r.a[0]
            if inner.op == "s":
                k = self.argkind.get(inner.a[0].rstrip("'"))
                if k and k[0] == "b":
                    return "b%d" % k[1], p.a[1:]
        if r.op == "heap":
            return "new", p.a[1:]
        return None, ()

    def keyname(self, k):
        """Name of the allocation a map key identifies."""
        if k.op == "pj" and k.a[0].op == "ld" and k.a[0].a[0].op == "*" and k.a[0].a[0].a[0] is sym("arg1") and \
                "arg1" not in self.argkind and k.a[1][0] == "f":
            return "f:" + k.a[1][2]
        for x in subterms(k):
            if x.op == "P":
                n, rest = self.objplace(x)
                if n is not None:
                    return n
            n = self.boxname(x) if x.op in ("pj", "bits", "s", "ref") else None
            if n is not None:
                return n
        return None

    def handle_place(self, p):
        """(arg index, field) if the place is a field of a handle argument."""
        r = p.a[0]
        if r.op == "*" and r.a[0].op == "s":
            k = self.argkind.get(r.a[0].a[0].rstrip("'"))
            if k and k[0] == "h" and len(p.a) > 1 and p.a[1][0] == "f":
                return k[1], p.a[1][2], p.a[2:]
        return None

    def stat(self, p):
        k = self.mod.stat_key(p)
        for m in self.cx._mods.values():
            if hasattr(m, "drops"):
                if k == m.living:
                    return m.name, "living"
                if k == m.drops:
                    return m.name, "drops"
        return None

    def region(self, p):
        """Where a tracked map lives: thread-local or global bookkeeping."""
        if p is None:
            return None
        r = p.a[0]
        if r.op == "tls":
            return "tls"
        if r.op == "static":
            return "static"
        return None

    def liveness(self, facts, i=1):
        """"live"/"dead"/None of handle argument i."""
        want = "h%d" % i
        res = None
        for t, r in facts.items():
            if t.op not in ("disc", "isnull"):
                continue
            x = t.a[0]
            y, els = x, []
            while y.op in ("pj", "bits"):
                if y.op == "pj":
                    els.append(y.a[1])
                y = y.a[0]
            if not (y.op == "ld" and y.a[0].op == "*" and y.a[0].a[0].op == "s"):
                continue
            k = self.argkind.get(y.a[0].a[0].a[0].rstrip("'"))
            if not k or "h%d" % k[1] != want or not els:
                continue
            f = els[-1]
            if f[2] != (self.cx.mod(k[2]).ptr_f[1]):
                continue
            if any(e[0] == "v" for e in els):
                continue
            lo, hi, ex = r
            if t.op == "disc":
                if lo == hi == 0 or lo == 0 and 1 in ex:
                    return "dead"
                if lo >= 1 or 0 in ex:
                    res = "live"
            else:
                if lo == hi == 1:
                    return "dead"
                if hi == 0:
                    res = "live"
        return res

    def is_null(self, v, i=None):
        """Does this value of a handle's pointer mean "dead" (keeping the metadata where there is any)?"""
        if v.op == "adt" and len(v.a[3]) == 1:
            x = v.a[3][0]
            if x.op == "adt" and x.a[0] == "core::option::Option":
                return x.a[1] == 0
            if x.op == "withaddr":
                return x.a[1] is C(0)
        return False

    # -- events
    def __call__(self, e):
        k = e.kind
        m = self.mod
        if k == "store":
            n, rest = self.objplace(e.place)
            if n is not None:
                if len(rest) == 1 and rest[0][0] == "f" and rest[0][2] in (m.strong_f, m.weak_f, m.gen_f):
                    return Tok("cnt", e, obj=n, field=rest[0][2], delta=delta(e.value, e.old), value=e.value)
                return Tok("boxstore", e, obj=n, field=".".join(str(x) for x in fields(e.place)))
            h = self.handle_place(e.place)
            if h is not None:
                if h[1] == self.cx.mod(self.argkind["arg%d" % h[0]][2]).ptr_f[1]:
                    return Tok("setptr", e, obj="h%d" % h[0], null=self.is_null(e.value) and not h[2],
                               value=e.value)
                return Tok("hstore", e, obj="h%d" % h[0], field=h[1])
            s = self.stat(e.place)
            if s is not None:
                return Tok("stat", e, mod=s[0], which=s[1], delta=delta(e.value, e.old))
            r = e.place.a[0]
            if r.op == "mv":
                return Tok("mvstore", e, obj=self.keyname(r.a[1]), map=canon(r.a[0]), key=r.a[1], field=fields(e.place),
                           delta=delta(e.value, e.old), value=e.value)
            if r.op == "*":
                return Tok("vstore", e, place=e.place, value=e.value, delta=delta(e.value, e.old))
            if e.place.a[0].op in ("tls", "static"):
                return Tok("gstore", e, place=canon(e.place), value=e.value)
            return None
        if k == "atomic":
            n, rest = self.objplace(e.place)
            if n is not None and rest:
                return Tok("atom", e, obj=n, field=rest[0][2], op=e.op, delta=self.adelta(e), order=e.order,
                           operand=e.operand, result=e.result, expected=e.get("expected"))
            h = self.handle_place(e.place)
            if h is not None:
                return Tok("tag", e, obj="h%d" % h[0], op=e.op, order=e.order, operand=e.operand, result=e.result)
            s = self.stat(e.place)
            if s is not None:
                if e.op == "load":
                    return None
                d = self.adelta(e)
                return Tok("stat", e, mod=s[0], which=s[1], delta=d if d is not None else (
                    "=%d" % e.operand.a[0] if e.op in ("store", "swap") and e.operand.op == "c" else None))
            if e.place.a[0].op == "static" and len(e.place.a) == 1:
                return Tok("gtag", e, name=e.place.a[0].a[0], op=e.op, order=e.order, operand=e.operand,
                           result=e.result)
            return Tok("gatom", e, place=canon(e.place), op=e.op, order=e.order, result=e.result)
        if k == "fence":
            return Tok("fence", e, order=e.order)
        if k == "alloc":
            return Tok("alloc", e, value=e.value, place=e.place)
        if k == "dealloc":
            n, rest = self.objplace(e.place)
            lay = e.layout
            okl = lay.op == "layout" and self.objplace(lay.a[0])[0] == n and not [
                x for x in self.objplace(lay.a[0])[1]]
            if lay.op == "layoutof":
                okl = False
            return Tok("dealloc", e, obj=n, layout=bool(okl) and not rest, whole=not rest)
        if k in ("drop_in_place", "userdrop", "stddrop"):
            if k == "stddrop" and not e.user:
                return None
            n, rest = self.objplace(e.place)
            if n is None:
                if k == "stddrop":
                    return None
                return Tok("otherdrop", e, ty=e.ty)
            if rest and not (len(rest) == 1 and rest[0][2] == m.value_f):
                return Tok("partdrop", e, obj=n, what=str(fields(e.place)))
            return Tok("dropval", e, obj=n, ty=e.ty)
        if k == "tls":
            return Tok("tls", e, key=e.key, tried=e.tried, ok=e.get("ok"), nd=e.get("nd"))
        if k in ("map_insert", "map_remove", "map_entry", "map_get", "contains", "set_insert"):
            pl = e.get("place")
            reg = self.region(pl)
            kn = self.keyname(e.key)
            had = e.get("existed") if k == "map_insert" else (e.get("had") if k != "set_insert" else not e.new)
            name = {"map_insert": "insert", "map_remove": "remove", "map_entry": "entry", "map_get": "get",
                    "contains": "contains", "set_insert": "sinsert"}[k]
            mp = e.set if k == "set_insert" else e.map
            return Tok(name, e, obj=kn, region=reg, had=had, map=canon(pl) if pl is not None else canon(mp),
                       value=e.get("value"), key=e.key, mem=T("mem", mp, e.key))
        if k == "accept":
            n, rest = self.objplace(e.value)
            if n is not None and rest and not (len(rest) == 1 and rest[0][2] == m.value_f):
                n = None
            return Tok("accept", e, obj=n, vty=e.vty, result=e.result, after=e.get("after"), visitor=e.visitor,
                       vval=e.get("vval"))
        if k == "condition":
            return Tok("cond", e, fn_value=canon(e.fn_value), result=e.result)
        if k == "icall":
            return Tok("icall", e, field=e.field, owner=e.owner, args=e.args, result=e.result)
        if k == "collect":
            return Tok("collect", e, mod=e.mod, cond=self.last_cond(e))
        if k in ("lock", "borrow", "unlock"):
            return Tok(k, e, lock=canon(e.lock), mode=e.mode)
        if k == "panic":
            return Tok("panic", e, msg=str(e.msg))
        if k in ("tcall", "call"):
            if k == "call" and models.PURE.match(e.path):
                return None
            return Tok(k, e, path=e.path, args=e.args, result=e.result)
        if k in ("memcpy",):
            return None
        if k == "rec":
            return Tok("rec", e, path=e.path, args=e.args)
        if k == "visit":
            return Tok("visit", e, method=e.method, visitor=e.visitor, gc=e.gc)
        if k == "upanic":
            return Tok("upanic", e, what=e.what)
        if k == "vec_push":
            return Tok("push", e, vec=canon(e.vec), obj=self.keyname(e.value), value=e.value)
        if k == "vec_next":
            return Tok("vnext", e, vec=canon(e.vec), value=e.value)
        if k == "vec_end":
            return Tok("vend", e, vec=canon(e.vec))
        if k == "clear":
            return Tok("clear", e, map=canon(e.map))
        return None

    def last_cond(self, e):
        return None

    def stat_ref(self, p):
        """A statistic reached through a reference stored in a visitor (named by the field's own type)."""
        return None

    def adelta(self, e):
        if e.op == "fetch_add":
            return e.operand.a[0] if e.operand.op == "c" else None
        if e.op == "fetch_sub":
            return -e.operand.a[0] if e.operand.op == "c" else None
        if e.op.startswith("compare_exchange"):
            ex = e.get("expected")
            if ex is not None and e.operand is not None:
                d = delta(e.operand, ex)
                return d
        return None


# ---------------------------------------------------------------- rules
RULES = []


class Rule:
    def __init__(self, id, props, text, floor, fn):
        self.id, self.props, self.text, self.floor, self.fn = id, props, text, floor, fn


def rule(id, props, text, floor=1):
    def dec(fn):
        RULES.append(Rule(id, props.split(), text, floor, fn))
        return fn
    return dec


class Out:
    """Findings of one rule in one configuration."""

    def __init__(self, rep, rule, cx):
        self.rep, self.rule, self.cx, self.n = rep, rule, cx, 0

    def inst(self, sample=None, n=1):
        self.n += n
        self.rep.inst(self.rule.id, n, ("[%s] %s" % (self.cx.cfg, sample)) if sample else None)

    def bad(self, key, msg):
        # what a type parameter is called does not matter
        key = re.sub(r"\b(%s)(?=>)" % "|".join(sorted(self.cx.params())), "T", key) if self.cx.params() else key
        self.rep.bad("%s:%s" % (self.rule.id, key), "[%s] %s (rule %s: %s)" % (
            self.cx.cfg, msg, self.rule.id, self.rule.text))


def run_rules(rep, ctxs, prop):
    for cx in ctxs:
        for r in RULES:
            if prop not in r.props:
                continue
            rep.rule(r.id, r.text)
            o = Out(rep, r, cx)
            try:
                cx.u, cx.s
                r.fn(cx, o)
            except Missing as e:
                o.bad("missing", "%s, which the rule is anchored on, no longer exists" % e)
                continue
            if o.n < r.floor:
                rep.bad("floor:%s" % r.id, "[%s] rule %s matched %d instances, expected at least %d: the analysed "
                        "construct is gone or no longer recognised (%s)" % (cx.cfg, r.id, o.n, r.floor, r.text))
