"""Obligations of the collection functions, followed along every path of their abstract graphs."""
from .core import *


class St:
    """Immutable monitor state."""
    __slots__ = ("d", "k")

    def __init__(self, d):
        self.d = d
        self.k = frozenset(d.items())

    def __eq__(self, o):
        return self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def set(self, **kw):
        d = dict(self.d)
        d.update(kw)
        return St(d)


def _subst(x, m, memo):
    if isinstance(x, Term):
        return subst(x, m, memo)
    if isinstance(x, tuple):
        return tuple(_subst(y, m, memo) for y in x)
    if isinstance(x, frozenset):
        return frozenset(_subst(y, m, memo) for y in x)
    return x


_noep = {}


def noep(t):
    """The term without load epochs."""
    if isinstance(t, tuple):
        return tuple(noep(x) if isinstance(x, (Term, tuple)) else x for x in t)
    if not isinstance(t, Term):
        return t
    r = _noep.get(t)
    if r is None:
        if t.op == "ld":
            r = T("ld", noep(t.a[0]))
        else:
            r = T(t.op, *[noep(x) if isinstance(x, (Term, tuple)) else x for x in t.a])
        _noep[t] = r
    return r


def run_monitor(g, mon, limit=400000):
    """Explore the product of the graph and the monitor."""
    s0 = mon.init()
    seen = {(0, s0)}
    work = [(0, s0)]
    while work:
        n, s = work.pop()
        for evs, dst in g.succ[n]:
            t = s
            end = None
            skip = False
            for e in evs:
                if e.kind == "panic" and any(i in str(e.get("msg")) for i in IGNORED_PANICS):
                    skip = True
                    break
                if e.kind == "rename":
                    memo = {}
                    if hasattr(mon, "renamed"):
                        t = mon.renamed(t, e)
                    t = St({a: _subst(b, e.map, memo) for a, b in t.d.items()})
                    continue
                t = mon.step(t, e)
                if t is None:       # cannot happen
                    skip = True
                    break
                if e.kind == "end":
                    end = e
            if skip:
                continue
            if dst in g.term:
                how, val = g.term[dst]
                if how == "stop":
                    how = val
                mon.end(t, how, end)
                continue
            k = (dst, t)
            if k not in seen:
                if len(seen) > limit and mon.out:
                    mon.states = len(seen)
                    return mon
                if len(seen) > limit:
                    raise ToolError("monitor explosion in %s" % g.entry.path)
                seen.add(k)
                work.append(k)
    mon.states = len(seen)
    return mon


def collector_graph(cx, m, unwind=False):
    b = m.func("%s::collect" % m.name)
    return cx.graph(b, opaque=False, unwind=unwind)


def mvroot(v):
    """(map, key) of the map value a term was read from."""
    x = v
    while x.op in ("pj", "bits"):
        x = x.a[0]
    if x.op == "ld" and x.a[0].op == "mv":
        return noep(x.a[0].a[0]), x.a[0].a[1]
    return None


def chain(t):
    """(root term, names of the projections) of a projected value."""
    els = []
    while t.op in ("pj", "bits"):
        if t.op == "pj":
            els.append(t.a[1][2] if t.a[1][0] in ("f", "v") else t.a[1][0])
        t = t.a[0]
    return t, els[::-1]


class Monitor:
    def __init__(self, cx, m, g, roles):
        self.cx, self.m, self.g, self.r = cx, m, g, roles
        self.out = {}
        self.counts = {}
        self.lens = {}
        self.lists = None

    def bad(self, group, key, msg, e=None):
        at = " at %s" % e.span if e is not None and e.span else ""
        self.out.setdefault((group, key), "%s%s %s" % (self.m.collector.path, at, msg))

    def hit(self, name):
        self.counts[name] = self.counts.get(name, 0) + 1

    # ---- iterations over the maps, and what they put off into vectors
    WS = "MG"
    DUTIES = {}
    ALWAYS = frozenset(("root", "unreach", "unknown"))     # of the elements of a map in which nothing was kept

    def base_init(self):
        z = frozenset()
        return dict(nil=z, later=z, filled=z, wait=z, lost=z, cv=z, kv=z, kept=z, keep=None)

    def unmet(self, w, f):
        """Duties of an iteration that an element with these facts leaves open."""
        return set()

    def premature(self, w, done):
        """Duties that an iteration cannot fulfil because of what was not done when it began."""
        return set()

    def lasting(self, s, w, f):
        """Facts about an element that still hold when it is taken from a vector later."""
        return frozenset()

    def close(self, s, w):
        """End of the work on one element of a map."""
        if s.d["k" + w] is None:
            return s
        f = s.d["f" + w]
        open_ = self.unmet(w, f)
        s = s.set(**{"k" + w: None, "f" + w: frozenset()})
        for kv in s.kv:
            if kv[0] == w:
                return s.set(kv=s.kv - {kv}, cv=frozenset(
                    x[:2] + (x[2] - open_,) + x[3:] if x[0] is kv[1] and x[1] == w else x for x in s.cv))
        o = frozenset(s.d["o" + w] or ())
        offs = [x[1] for x in f if isinstance(x, tuple)]
        if offs:
            later = set(s.later)
            for x in s.later:
                if x[0] in offs and x[1] == w:
                    later.discard(x)
                    later.add(x[:3] + (x[3] | open_,))
            return s.set(later=frozenset(later))
        if "removed" in f:
            s = s.set(lost=s.lost | open_)
        return s.set(**{"o" + w: o - open_})

    def begin(self, s, w):
        s = self.close(s, w)
        return s.set(**{"o" + w: frozenset(self.DUTIES[w]), "s" + w: s.done})

    def at(self, s, w, key, e):
        s = self.close(s, w)
        f = [x[1] for x in s.kept if x[0] == w]
        s = s.set(**{"k" + w: key, "f" + w: f[0] if f else frozenset()})
        return self.learn(s, e)

    def finish(self, s, w):
        s = self.close(s, w)
        o = set(s.d["o" + w] or ()) - self.premature(w, s.d["s" + w]) - s.lost
        wait = {x for x in o if any(x in l[3] for l in s.later)}
        if s.keep is not None and s.keep[0] == w:
            s = s.set(kept=frozenset(x for x in s.kept if x[0] != w) | {
                (w, self.ALWAYS if s.keep[1] is None else s.keep[1])}, keep=None)
        s = s.set(done=s.done | (o - wait), wait=s.wait | wait, **{"o" + w: None})
        # what this iteration cannot fulfil anyway is not owed by the elements it put off
        return s.set(later=frozenset(x[:3] + (x[3] & s.wait,) if x[1] == w else x for x in s.later))

    def elements(self, v, w):
        """Keys of the map that a value is about."""
        return [x.a[1] for x in subterms(v) if x.op in ("mv", "mk") and self.which(x.a[0]) == w]

    def as_list(self, s, e):
        """A set of allocations that is none of the collection's own is a list of things to do."""
        if self.lists is None:
            own = [getattr(self, x, None) for x in ("M", "G", "V", "I", "MK")]
            self.lists = {noep(x.set) for x in self.g.events() if x.kind == "set_insert" and x.get("place") is None} - set(own)
        kind, st = None, None
        if e.kind == "set_insert" and noep(e.set) in self.lists:
            kind, st = "vec_push", e.set
            s = s.set(filled=s.filled | {noep(st)})
        elif e.kind in ("iter_next", "iter_end") and noep(e.map) in self.lists:
            kind, st = e.kind.replace("iter", "vec"), e.map
            if noep(st) not in s.filled:
                return (None if kind == "vec_next" else s), e
        return s, e if kind is None else Event(kind, dict(e.d, vec=st, value=e.get("key")), e.span, e.fn, e.facts, e.ctx)

    def put_off(self, s, e):
        vec = noep(e.vec)
        for w in self.WS:
            k = s.d["k" + w]
            if k is None or not (e.value is k or k in self.elements(e.value, w)):
                continue
            f = s.d["f" + w]
            facts, owes = self.lasting(s, w, f), frozenset()
            for x in s.later:
                if x[0] is vec and x[1] == w:
                    facts, owes = facts & x[2], x[3]
                    s = s.set(later=s.later - {x})
            s = s.set(later=s.later | {(vec, w, facts, owes)}, **{"f" + w: f | {("off", vec)}})
        return s

    def taken_up(self, s, e):
        vec = noep(e.vec)
        for w, v in s.kv:
            if v is vec:
                s = self.close(s, w)
        for x in s.later:
            if x[0] is not vec:
                continue
            w = x[1]
            ks = self.elements(e.value, w) or ([e.value] if e.value.op == "s" else [])
            if not ks:
                continue
            s = self.close(s, w)
            if not any(y[:2] == (vec, w) for y in s.cv):
                s = s.set(cv=s.cv | {(vec, w, frozenset(self.DUTIES[w]), s.done)})
            s = s.set(kv=s.kv | {(w, vec)}, **{"k" + w: ks[0], "f" + w: x[2]})
            s = self.learn(s, e)
        return s

    def off_end(self, s, vec):
        vec = noep(vec)
        for x in s.later:
            if x[0] is not vec:
                continue
            w = x[1]
            vo, sv = frozenset(self.DUTIES[w]), s.done
            if (w, vec) in s.kv:
                s = self.close(s, w)
            for y in s.cv:
                if y[:2] == (vec, w):
                    vo, sv = y[2:]
                    s = s.set(cv=s.cv - {y})
            owes = x[3] - (vo - self.premature(w, sv))
            s = s.set(later=s.later - {x} | ({x[:3] + (owes,)} if owes else frozenset()))
        free = {d for d in s.wait if not any(d in l[3] for l in s.later)}
        return s.set(done=s.done | free, wait=s.wait - free)

    def cut(self, s, e):
        """Elements of a vector may be gone."""
        for x in s.later:
            if x[0] is noep(e.vec):
                s = s.set(lost=s.lost | set(self.DUTIES[x[1]]))
        return s

    def iteration(self, s, e):
        """Follow the iterations over the maps; None for other events."""
        k = e.kind
        if k in ("iter_new", "iter_next", "iter_end"):
            w = self.which(e.map)
            if w:
                s = self.begin(s, w) if k == "iter_new" else self.at(s, w, e.key, e) if k == "iter_next" else self.finish(s, w)
            elif k == "iter_end":
                s = self.off_end(s, e.map)
            return s
        if k == "empty" and self.which(e.map) and s.d["o" + self.which(e.map)] is None:
            return self.found_empty(s, self.which(e.map))
        if k == "retain":
            w = self.which(e.map)
            return s.set(keep=(w, None)) if w else s
        if k == "retained":
            w = self.which(e.map)
            if w and s.keep is not None and s.keep[0] == w:
                f = self.lasting(s, w, s.d["f" + w])
                s = s.set(keep=(w, f if s.keep[1] is None else f & s.keep[1]))
            return s
        if k == "map_remove" and self.which(e.map):
            w = self.which(e.map)
            if e.key is s.d["k" + w]:
                return s.set(**{"f" + w: s.d["f" + w] | {"removed"}})
            return s.set(lost=s.lost | set(self.DUTIES[w])) if e.had is not False else s
        return None

    def counted(self, s, e):
        """Maps that turn out to have no elements."""
        if e.kind == "len" and self.which(e.map):
            self.lens[e.result] = self.which(e.map)
        for t, w in self.lens.items():
            if e.facts.get(t, (0, None))[1] == 0 and s.d["o" + w] is None and t not in s.nil:
                s = self.found_empty(s.set(nil=s.nil | {t}), w)
        return s

    def found_empty(self, s, w):
        if w == "M" and not s.acted & {"marking", "sweeping"} and "trace" not in s.done:
            # there is nothing to do at all
            s = s.set(done=s.done | set(self.DUTIES["M"]) | set(self.DUTIES["G"]) | {"void"})
        return self.finish(self.begin(s, w), w)

    def forget_lasting(self, s, *facts):
        """What has happened invalidates facts about elements that were put off."""
        fs = frozenset(facts)
        return s.set(later=frozenset((a, b, c - fs, d) for a, b, c, d in s.later), kept=frozenset((a, b - fs) for a, b in s.kept),
                     keep=s.keep if s.keep is None or s.keep[1] is None else (s.keep[0], s.keep[1] - fs))

    # ---- the flag that marks a running collection
    def flag_step(self, s, e):
        if e.kind in ("store", "take") and e.place.a[0].op == "tls" and e.get("value") is not None:
            v = e.value
            if v is C(1) and (s.flag is None or s.flag[2] == "idle"):
                k = known(e.facts, e.old)
                return s.set(flag=(e.place, noep(e.old), {0: "mine", 1: "busy"}.get(k, "?")))
            if s.flag is not None and s.flag[0] is e.place:
                if v is C(0):
                    return s.set(flag=s.flag[:2] + (s.flag[2] + "-done" if s.flag[2] == "mine" else "reset",))
                if v is C(1) and s.flag[2].endswith("-done"):
                    return s.set(flag=None)
            return s
        if s.flag is None and e.kind == "end":
            for t, r in e.facts.items():
                if t.op == "ld" and t.a[0].op == "tls" and r[0] >= 1 and not s.acted:
                    return s.set(flag=(place(t.a[0]), noep(t), "busy"))
        if s.flag is not None and s.flag[2] == "?":
            for t, r in e.facts.items():
                if noep(t) is s.flag[1]:
                    if r[1] == 0:
                        return s.set(flag=s.flag[:2] + ("mine",))
                    if r[0] >= 1:
                        return s.set(flag=s.flag[:2] + ("busy",))
        return s

    def flag_at_icall(self, s, e):
        if s.flag is None or s.flag[2] in ("?", "mine-done"):
            self.bad("guard", "unguarded", "runs without having marked the thread as collecting: a destructor that requests "
                     "a collection would start a nested one", e)
        elif s.flag[2] in ("busy", "reset"):
            self.bad("guard", "nested", "runs although a collection is already running on this thread", e)

    def flag_at_end(self, s, how):
        if s.flag is not None and s.flag[2] == "mine":
            self.bad("guard" if how == "ret" else "unwind", "flag:" + how,
                     "leaves the thread marked as collecting forever%s" % (
                         "" if how == "ret" else " if user code panics"))


def role_fields(roles):
    """(owner, field) of a function pointer -> job."""
    cx = roles.cx
    out = {}
    jobs = {b.key: k for k, bs in roles.fns.items() for b in bs}
    def walk(g, v):
        if v.op == "adt":
            for n, x in zip(v.a[5], v.a[3]):
                if x.op == "fn":
                    j = jobs.get(g.engine.fns[x.a[0]].get("inst"))
                    out.setdefault((v.a[0], n), set()).add(j)
                else:
                    walk(g, x)
        elif v.op in ("tup",):
            for x in v.a[0]:
                walk(g, x)
    for b, g, e in roles.entries():
        walk(g, e.value)
    for b in roles.fns.get("tracefn", []):
        g = cx.graph(b)
        for e in g.events():
            if e.kind == "map_insert":
                walk(g, e.value)
    return out


def visitor_fields(roles):
    """Which field of which visitor is which set."""
    from .visitors import mapfield
    f = {}
    cx, m = roles.cx, roles.m
    def note(k, v):
        f.setdefault(k, set()).add(v)
    tk, ps = roles.paths("trace")
    for p in ps:
        acc = p.all("accept")
        for t in p.toks:
            if t.k in ("insert", "entry", "mvstore", "get"):
                note("G", mapfield(t))
            if t.k == "sinsert":
                note("I" if acc and p.idx(t) > p.idx(acc[0]) else "V", mapfield(t))
    if roles.mark:
        for p in roles.paths("mark")[1]:
            for t in p.toks:
                if t.k in ("sinsert", "contains"):
                    note("MK", mapfield(t))
    for p in roles.paths("sweep")[1]:
        for t in p.toks:
            if t.k in ("contains", "get"):
                note("R", mapfield(t))
            if t.k == "sinsert":
                note("D", mapfield(t))
    return f


def refadt(v, path):
    """The struct behind a reference argument."""
    if v.op == "refto" and v.a[1].op == "adt" and v.a[1].a[0] == path:
        return v.a[1]
    return None


def afield(a, names):
    for n, v in zip(a.a[5], a.a[3]):
        if n in names:
            return v
    return None


class UCollect(Monitor):
    def __init__(self, cx, m, g, roles, alias=()):
        """alias: (owner, field, _) under which the tracked allocations are also known in this graph."""
        Monitor.__init__(self, cx, m, g, roles)
        self.alias = {(o, f) for o, f, _ in alias}
        self.jobs = role_fields(roles)
        self.vf = visitor_fields(roles)
        self.node_counter = self.counter_fields()
        self.ids = {}
        tracked = set()
        b = m.trait("ops::drop::Drop", "drop")
        for e in cx.graph(b).events():
            if e.kind == "map_insert" and e.get("place") is not None and e.place.a[0].op == "tls":
                tracked.add(canon(e.place))
        self.tracked = tracked
        for e in g.events():
            if e.kind != "icall":
                continue
            j = self.job(e)
            if j == "tracefn":
                mk = mvroot(e.fn_value)
                if mk:
                    self.note("M", mk[0])
                a = refadt(e.vals[1], roles.trace) if len(e.vals) > 1 else None
                if a is not None:
                    for x in "GVI":
                        self.note(x, afield(a, self.vf.get(x, ())))
            elif j == "markfn":
                a = refadt(e.vals[1], roles.mark) if len(e.vals) > 1 else None
                if a is not None:
                    self.note("MK", afield(a, self.vf.get("MK", ())))
            elif j == "destroy":
                a = refadt(e.vals[1], roles.sweep) if len(e.vals) > 1 else None
                if a is not None:
                    self.note("D", afield(a, self.vf.get("D", ())))
                    rr = afield(a, self.vf.get("R", ()))
                    if rr is not None and rr.op == "refto":
                        rr = rr.a[1]
                    self.note("R", rr)
        for x in ("M", "G", "V", "I", "MK", "D", "R"):
            vs = self.ids.get(x) or set()
            if len(vs) != 1:
                raise Missing("the %s of the unsync collection (found %d)" % ({
                    "M": "tracked allocations", "G": "reference graph", "V": "visited set", "I": "inaccessible set",
                    "MK": "marked set", "D": "destroyed set", "R": "reachable set"}[x], len(vs)))
            setattr(self, x, next(iter(vs)))
        if not any(noep(T("ld", p.a[0])) is chain(self.M)[0] for p in tracked) and not any(
                x.op == "pj" and x.a[1][0] == "f" and (str(x.a[1][3]), x.a[1][2]) in self.alias for x in subterms(self.M)):
            self.bad("trace", "source", "does not start from the allocations tracked by dropped handles (%s)" % show(self.M))
        for x in ("V", "G", "I", "MK", "D"):
            i = getattr(self, x)
            if i.op == "map" and any(models.in_loop(g.eng, n) for n in i.syms) and not any(
                    e.kind == "clear" and noep(e.new) is i for e in g.events()):
                self.bad("safe", "afresh:" + x, "starts again with an empty set for every allocation it works on")
        if self.R is not self.MK:
            self.bad("safe", "reachable", "judges reachability by another set than the marked allocations")

    def note(self, x, v):
        if v is not None:
            self.ids.setdefault(x, set()).add(noep(v))

    def is_tracked(self, p):
        return canon(p) in self.tracked or any(x[0] == "f" and (str(x[3]), x[2]) in self.alias for x in p.a[1:])

    def counter_fields(self):
        fs = set()
        for p in self.r.paths("trace")[1]:
            for t in p.toks:
                if t.k == "mvstore" and t.delta == -1:
                    fs.add(t.field)
        return fs

    def job(self, e):
        js = self.jobs.get((e.owner, e.field)) or {None}
        return next(iter(js)) if len(js) == 1 else None

    def init(self):
        z = frozenset()
        return St(dict(self.base_init(), flag=None, kM=None, kG=None, fM=z, fG=z, oM=None, oG=None, done=z, dirty=z, used=z, acted=z,
                       taken=False, sM=z, sG=z))

    DUTIES = {"M": ("trace", "markM", "sweep"), "G": ("markG",)}

    def unmet(self, w, f):
        marked = "already" in f or {"minserted", "mcalled"} <= f
        if w == "G":
            return set() if {"zero", "notinI"} <= f or marked else {"markG"}
        o = set()
        if not f & {"traced", "visited"}:
            o.add("trace")
        if not ("inG" in f or marked):
            o.add("markM")
        if not f & {"reach", "destroyed"}:
            o.add("sweep")
        return o

    def premature(self, w, done):
        o = set()
        if "trace" not in done:
            o |= {"markM", "markG"}
        if not {"trace", "markM", "markG"} <= done:
            o |= {"sweep"}
        return o

    def lasting(self, s, w, f):
        o = set()
        if "trace" in s.done:
            if w == "G" and f & {"nonzero", "inI"} or w == "M" and "notinG" in f:
                o.add("root")
            if {"trace", "markM", "markG"} <= s.done and "unreach" in f:
                o.add("unreach")
        return frozenset(o)

    def learn(self, s, e):
        """What the facts say about the current element."""
        for w in "MG":
            k = s.d["k" + w]
            if k is None:
                continue
            f = set(s.d["f" + w])
            for t, r in e.facts.items():
                if t.op == "mem" and t.a[1] is k:
                    mp = noep(t.a[0])
                    yes = r[0] >= 1
                    no = r[1] == 0
                    if mp is self.G and w == "M":
                        f |= {"inG"} if yes else {"notinG"} if no else set()
                    if mp is self.I:
                        f |= {"inI"} if yes else {"notinI"} if no else set()
                    if mp is self.MK and (yes or no):
                        if "marking" not in s.acted or w == "M":
                            f |= {"unreach"} if no and "minserted" not in f else {"reach"} if yes and "minserted" not in f else set()
                elif t.op == "pj":
                    root, names = chain(t)
                    if root.op == "ld" and root.a[0].op == "mv" and root.a[0].a[1] is k and noep(root.a[0].a[0]) is self.G and \
                            any(tuple(names)[-len(c):] == tuple(c) for c in self.node_counter):
                        if r[1] == 0:
                            f.add("zero")
                        elif r[0] >= 1 or 0 in r[2]:
                            f.add("nonzero")
            if f != s.d["f" + w]:
                s = s.set(**{"f" + w: frozenset(f)})
        return s

    def which(self, mp):
        x = noep(mp)
        return "M" if x is self.M else "G" if x is self.G else None

    def step(self, s, e):
        s, e = self.as_list(s, e)
        if s is None:
            return None
        k = e.kind
        s = self.counted(self.flag_step(s, e), e)
        s = self.learn(s, e)
        if k == "map_remove" and noep(e.map) in (self.G, self.I, self.MK) and e.had is not False and "sweep" not in s.done:
            self.bad("safe", "forget", "removes an allocation from what tracing or marking found", e)
        if k in ("take", "drain", "clear") and self.emptied(s, e):
            self.bad("safe", "forget", "forgets what tracing or marking found", e)
        i = self.iteration(s, e)
        if i is not None:
            s = i
        elif k == "vec_push":
            s = self.put_off(s, e)
        elif k == "vec_next":
            s = self.taken_up(s, e)
        elif k == "vec_end":
            s = self.off_end(s, e.vec)
        elif k == "vec_cut":
            s = self.cut(s, e)
        elif k == "set_insert":
            st = noep(e.set)
            for w in "MG":
                if e.key is s.d["k" + w]:
                    if st is self.V:
                        s = s.set(**{"f" + w: s.d["f" + w] | {"new" if e.new else "visited"}})
                    if st is self.MK:
                        s = s.set(**{"f" + w: s.d["f" + w] | {"minserted" if e.new else "already"}})
        elif k == "contains" and noep(e.map) in (self.V, self.MK) and e.had:
            for w in "MG":
                if e.key is s.d["k" + w]:
                    s = s.set(**{"f" + w: s.d["f" + w] | {"visited" if noep(e.map) is self.V else "already"}})
        elif k in ("take", "drain", "clear") and e.get("place") is not None and self.is_tracked(e.place):
            s = s.set(taken=True)
        elif k == "store" and e.place is not None:
            if self.is_tracked(e.place):
                s = s.set(taken=True)
            st = Toker.stat(self.tk, e.place) if self.tk else None
            if st == (self.m.name, "drops") and e.value is C(0):
                s = s.set(acted=s.acted | {"drops"})
        elif k == "icall":
            s = self.icall(s, e)
        elif k == "condition":
            self.bad("safe", "condition", "evaluates the collect condition during a collection", e)
        return s

    def emptied(self, s, e):
        """Is a set emptied that is still needed?"""
        ids = {noep(x) for x in (e.get("map"), e.get("new"), e.get("old"), e.get("value")) if isinstance(x, Term)}
        rs = {x for x in ("V", "G", "I", "MK") if getattr(self, x) in ids and x in s.used}
        return "V" in rs and "trace" not in s.done or rs & {"G", "I", "MK"} and not {"markM", "markG"} <= s.done \
            or "MK" in rs and "sweep" not in s.done

    tk = None

    def icall(self, s, e):
        self.flag_at_icall(s, e)
        j = self.job(e)
        f, a = mvroot(e.fn_value), mvroot(e.args[0]) if e.args else None
        self.hit(j or "other")
        if j is None:
            self.bad("erase", "job", "calls %s.%s, whose purpose is not unique" % (e.owner, e.field), e)
            return s
        if f is None or a is None or f != a:
            self.bad("erase", "mix:" + j, "applies the %s of one allocation to another (%s to %s)" % (
                e.field, show(e.fn_value), show(e.args[0]) if e.args else "nothing"), e)
            return s
        w = self.which(f[0])
        k = f[1]
        cur = w and s.d["k" + w] is k
        fl = s.d["f" + w] if cur else frozenset()
        if j == "tracefn":
            if s.acted & {"marking", "sweeping"}:
                self.bad("order", "trace", "traces allocations after marking or sweeping began", e)
            if "new" not in fl:
                self.bad("safe", "revisit", "traces an allocation without recording it as visited: handles inside it would be "
                         "counted twice", e)
            if refadt(e.vals[1], self.r.trace) is None:
                self.bad("erase", "visitor:" + j, "traces with an unknown visitor", e)
            s = s.set(dirty=s.dirty | {self.V, self.G, self.I}, used=s.used | {"V", "G", "I"})
            if cur:
                s = s.set(**{"f" + w: s.d["f" + w] | {"traced"}})
        elif j == "markfn":
            if "sweeping" in s.acted:
                self.bad("order", "mark", "marks allocations after destroying others", e)
            if "trace" not in s.done:
                self.bad("order", "early", "marks roots before every tracked allocation was traced", e)
            if not (w == "G" and fl & {"nonzero", "inI", "root"} or w == "M" and fl & {"notinG", "root"}):
                self.bad("overmark", "root", "marks an allocation although all of its handles may have been found in the graph", e)
            s = self.forget_lasting(s, "unreach").set(dirty=s.dirty | {self.MK}, acted=s.acted | {"marking"},
                                                     used=s.used | {"MK"})
            if cur:
                s = s.set(**{"f" + w: s.d["f" + w] | {"mcalled"}})
        elif j == "destroy":
            for n, what in (("trace", "every tracked allocation was traced"),
                            ("markG", "every allocation with unaccounted handles or inaccessible contents was marked"),
                            ("markM", "every tracked allocation that no handle was found to was marked")):
                if n not in s.done:
                    self.bad("safe", n, "destroys allocations before %s" % what, e)
            if "unreach" not in fl or w != "M":
                self.bad("safe", "unmarked", "destroys an allocation without establishing that it was not marked", e)
            if not s.taken:
                self.bad("reent", "taken", "destroys allocations while they are still tracked: destructors that drop handles "
                         "would find them", e)
            if "drops" not in s.acted:
                self.bad("stat", "late", "destroys allocations before the number of dropped handles is reset: destructors that drop "
                         "handles would not be counted", e)
            if self.D in s.dirty:
                self.bad("safe2", "visited", "starts destroying with a set of destroyed allocations that is not empty", e)
            if refadt(e.vals[1], self.r.sweep) is None:
                self.bad("erase", "visitor:" + j, "destroys with an unknown visitor", e)
            s = s.set(acted=s.acted | {"sweeping"})
            if cur:
                s = s.set(**{"f" + w: s.d["f" + w] | {"destroyed"}})
        else:
            self.bad("erase", "job:" + j, "calls an erased function that does not belong here (%s)" % j, e)
        return s

    def end(self, s, how, e):
        if how not in ("ret", "unwind"):
            return
        self.flag_at_end(s, how)
        if how != "ret":
            return
        if s.flag is not None and s.flag[2] in ("mine", "mine-done", "reset"):
            self.hit("runs")
            if "sweep" not in s.done:
                miss = "trace" if "trace" not in s.done else "sweep"
                self.bad("complete", miss, "can end without having %s" % (
                    "traced every tracked allocation" if miss == "trace" else
                    "destroyed every tracked allocation that was not marked"), e)
            if "drops" not in s.acted:
                self.bad("stat", "reset", "does not reset the number of dropped handles", e)
            if not s.taken and "void" not in s.done:
                self.bad("stat", "taken", "leaves the collected allocations in the tracked ones", e)
        elif s.flag is None:
            self.bad("guard", "noflag", "can end without having looked whether a collection is running", e)
        else:
            self.hit("reentrant")
            if s.acted:
                self.bad("guard", "acted", "has effects although a collection is already running", e)


def u_monitor(cx):
    k = "umonitor"
    r = cx._g.get(k)
    if r is None:
        from .visitors import roles
        try:
            m = cx.u
            g = collector_graph(cx, m)
            mon = UCollect(cx, m, g, roles(cx, m))
            mon.tk = Toker(cx, m, g.entry)
            r = run_monitor(g, mon)
        except Missing as e:
            r = e
        cx._g[k] = r
    if isinstance(r, Missing):
        raise r
    return r


def report(o, mon, groups):
    for (g, k), msg in sorted(mon.out.items()):
        if g in groups:
            o.bad("%s:%s" % (g, k), msg)


def u_rule(id, props, text, groups, insts):
    @rule(id, props, text, 1)
    def f(cx, o):
        mon = u_monitor(cx)
        for i in insts:
            for _ in range(mon.counts.get(i, 0)):
                o.inst("%s: %s" % (mon.m.collector.path, i))
        report(o, mon, groups)
    return f


u_rule("U-COLL-ROOTS", "C01 C10", "unsync collection: nothing is destroyed before all tracked allocations were traced once and every "
       "allocation with unaccounted handles or inaccessible contents was marked; only unmarked allocations are destroyed",
       ("safe", "order"), ("destroy", "tracefn"))
u_rule("U-COLL-ONCE", "C06 C20", "unsync collection: the set of destroyed allocations starts empty and destroyed allocations are no longer "
       "tracked", ("safe2", "reent", "safe"), ("destroy",))
u_rule("U-COLL-ALL", "C03", "unsync collection: every tracked allocation is traced, only roots are marked and every unmarked one is "
       "destroyed", ("complete", "overmark", "trace", "stat"), ("tracefn", "markfn", "destroy"))
u_rule("U-COLL-REENT", "C12", "unsync collection: a request during a collection has no effect, and destructors do not find the "
       "allocations being destroyed", ("guard", "reent"), ("runs", "reentrant"))
u_rule("U-COLL-STAT", "C14 C22", "unsync collection: the number of dropped handles starts again at zero", ("stat", "guard"), ("runs",))
u_rule("U-COLL-ERASE", "C16 C01 C03 C06", "unsync collection: erased functions are applied to the allocation they were stored with",
       ("erase",), ("tracefn", "markfn", "destroy"))


# ---------------------------------------------------------------- sync
def box_field(place_, k):
    """Field of the header of the allocation identified by map key k that a place designates."""
    r = place_.a[0]
    if r.op != "*":
        return None
    x = r.a[0]
    while x.op in ("pj", "bits"):
        x = x.a[0]
    if x is k or k in (r.a[0],):
        for e in place_.a[1:]:
            if e[0] == "f":
                return e[2]
    return None


class SCollect(Monitor):
    def __init__(self, cx, m, g, roles):
        Monitor.__init__(self, cx, m, g, roles)
        self.jobs = role_fields(roles)
        self.counter = set()
        self.reach_path = set()
        self.reach_var = None
        self.tag = set()
        from .visitors import is_reach
        for tk, ps in (roles.paths("trace"),):
            for p in ps:
                for t in p.toks:
                    if t.k == "mvstore" and t.delta == -1:
                        self.counter.add(t.field)
                    elif t.k == "mvstore" and is_reach(t.value):
                        self.reach_path.add(t.field)
                        v = t.value
                        while not v.a[4]:
                            v = [x for x in v.a[3] if x.op == "adt" and is_reach(x)][0]
                        self.reach_var = v.a[1]
                    elif t.k == "gtag" and t.op == "load":
                        self.tag.add(t.name)
        for b in roles.fns.get("tracefn", ()):
            self.tag |= {t.name for p in cx.paths(m, b)[1] for t in p.toks if t.k == "gtag" and t.op == "load"}
        if self.reach_var is None or not self.counter:
            raise Missing("the node states of the sync reference graph")
        self.tls_m, self.truck = set(), set()
        for b in (m.trait("ops::drop::Drop", "drop"), m.func("sync::collect")):
            for e in cx.graph(b).events():
                if e.kind == "map_insert" and e.get("place") is not None:
                    (self.tls_m if e.place.a[0].op == "tls" else self.truck if e.place.a[0].op == "static" else set()).add(
                        canon(e.place))
        if not self.tls_m or not self.truck:
            raise Missing("the bookkeeping of the sync collector")
        self.Ms, self.Gs = set(), set()
        for e in g.events():
            if e.kind == "icall" and self.job(e) == "tracefn":
                mk = mvroot(e.fn_value)
                if mk:
                    self.Ms.add(mk[0])
                if len(e.vals) > 1 and e.vals[1].op == "refto":
                    self.Gs.add(noep(e.vals[1].a[1]))
        if len(self.Ms) != 1 or len(self.Gs) != 1:
            raise Missing("the traced allocations and the graph of the sync collection (%d, %d)" % (len(self.Ms), len(self.Gs)))
        self.M, self.G = next(iter(self.Ms)), next(iter(self.Gs))
        root, els = chain(self.M)
        if not any(root.op == "ld" and root.a[0] is p.a[0] for p in self.truck):
            self.bad("trace", "source", "does not start from the delivered allocations (%s)" % show(self.M))

    tk = None

    def job(self, e):
        js = self.jobs.get((e.owner, e.field)) or {None}
        return next(iter(js)) if len(js) == 1 else None

    def init(self):
        z = frozenset()
        return St(dict(self.base_init(), flag=None, kM=None, kG=None, kT=None, fM=z, fG=z, fT=z, oM=None, oG=None, oT=None, done=z,
                       sM=z, sG=z, sT=z, acted=z, held=z, tagged=False, pend=z, vecs=z, unappr=z, dvecs=z, dcur=None, rel=None, wl=None, sl=None,
                       fresh=True, last=None))

    def which(self, mp):
        x = noep(mp)
        if x is self.M:
            return "M"
        if x is self.G:
            return "G"
        root, els = chain(x)
        if root.op == "ld" and root.a[0].op == "tls" and any(root.a[0] is p.a[0] for p in self.tls_m):
            return "T"
        return None

    WS = "MGT"
    DUTIES = {"M": ("trace",), "G": ("markG", "garbage", "release"), "T": ("deliver",)}

    def unmet(self, w, f):
        if w == "M":
            return set() if "traced" in f else {"trace"}
        if w == "T":
            return set() if "delivered" in f and ("dup" in f) == ("undup" in f) else {"deliver"}
        o = set()
        if not ("reachable" in f or {"zero", "nopin"} <= f or "marked" in f):
            o.add("markG")
        if not ("reachable" in f or {"unknown", "destroyed"} <= f):
            o.add("garbage")
        if not ("unknown" in f or {"reachable", "released"} <= f and f & {"weakdropped", "notlast"}):
            o.add("release")
        return o

    def premature(self, w, done):
        o = set()
        if w == "G":
            if "trace" not in done:
                o |= {"markG"}
            if not {"trace", "markG"} <= done:
                o |= {"garbage", "release"}
        return o

    def lasting(self, s, w, f):
        if w == "T":
            return frozenset(f & {"delivered", "dup"})
        if w == "G" and {"trace", "markG"} <= s.done and not s.vecs and not s.pend:
            return frozenset(f & {"unknown"})
        return frozenset()

    def same(self, t, a, b):
        x, y = chain(t.a[0])[0], chain(t.a[1])[0]
        ra, rb = chain(a)[0], chain(b)[0]
        return ra is not rb and (x is ra and y is rb or x is rb and y is ra)

    def state_of(self, t, k):
        """Does the term denote the reachability state of node k?"""
        root, els = chain(t)
        return root.op == "ld" and root.a[0].op == "mv" and root.a[0].a[1] is k and noep(root.a[0].a[0]) is self.G and \
            tuple(els) in self.reach_path

    def learn(self, s, e):
        rv = self.reach_var
        if s.vecs:
            for v in s.vecs:
                if v[0] == "ch" and v[2] is not None:
                    r = e.facts.get(T("disc", v[2]))
                    if r is not None and (r[0] == r[1] == rv or r[0] > 0 and rv == 1):
                        s = s.set(vecs=s.vecs - {v})
        if s.pend:
            for k, v in s.pend:
                for t, r in e.facts.items():
                    if t.op == "disc" and r[0] == r[1] == rv and self.state_of(t.a[0], k) or \
                            t.op == "eq" and r[0] == 1 and s.last is not None and self.same(t, k, s.last):
                        s = s.set(pend=s.pend - {(k, v)})
        k = s.kG
        if k is None:
            return s
        f = set(s.fG)
        for t, r in e.facts.items():
            if t.op == "disc" and self.state_of(t.a[0], k) and "marked" not in f:
                if r[0] == r[1]:
                    f.add("reachable" if r[0] == rv else "unknown")
            elif t.op == "pj":
                root, names = chain(t)
                if root.op == "ld" and root.a[0].op == "mv" and root.a[0].a[1] is k and noep(root.a[0].a[0]) is self.G and \
                        any(tuple(names) == tuple(c) for c in self.counter):
                    if r[1] == 0:
                        f.add("zero")
                    elif r[0] >= 1 or 0 in r[2]:
                        f.add("nonzero")
            if t is s.wl:
                if r[1] is not None and r[1] <= 1:
                    f.add("nopin")
                elif r[0] >= 2 or 1 in r[2]:
                    # the collection itself holds one claim
                    f.add("pin")
            if t is s.rel:
                if r[0] == r[1] == 1:
                    f.add("rel1")
                elif r[0] >= 2 or 1 in r[2] or r[1] == 0:
                    f |= {"notlast", "checked"}
            if t is s.sl:
                if r[1] == 0:
                    f.add("strong0")
                elif r[0] >= 1 or 0 in r[2]:
                    f |= {"notlast", "checked"}
        if f != s.fG:
            s = s.set(fG=frozenset(f))
        return s

    def step(self, s, e):
        from .visitors import is_reach
        s, e = self.as_list(s, e)
        if s is None:
            return None
        k = e.kind
        s = self.counted(self.flag_step(s, e), e)
        s = self.learn(s, e)
        if k == "iter_next" and self.which(e.map) == "G":
            s = self.close(s, "G").set(wl=None, sl=None, rel=None)
        i = self.iteration(s, e)
        if i is not None:
            s = i
            if k == "iter_end":
                s = self.vec_end(s, e.map, e)
        elif k in ("lock", "borrow"):
            if k == "lock" and e.get("tried"):
                pass
            s = s.set(held=s.held | {(canon(e.lock), e.mode)})
        elif k == "unlock":
            s = s.set(held=s.held - {(canon(e.lock), e.mode)})
        elif k == "take" and canon(e.place) in self.truck:
            if "deliver" not in s.done:
                self.bad("deliver", "order", "takes over the delivered allocations before the calling thread's own were delivered", e)
            if not self.locked(s):
                self.bad("await", "take", "takes over the delivered allocations without holding the collection lock: a collection that "
                         "another thread has just begun would end without them", e)
            s = s.set(acted=s.acted | {"took"})
        elif k in ("contains", "map_get", "map_entry") and e.get("place") is not None and canon(e.place) in self.truck and \
                s.kT is not None and e.key is s.kT and e.had and "delivered" not in s.fT:
            s = s.set(fT=s.fT | {"delivered", "dup"})
        elif k == "map_insert" and e.get("place") is not None and canon(e.place) in self.truck and s.kT is not None:
            if e.key is s.kT:
                mr = mvroot(e.value) if e.value.op != "adt" else None
                if mr is None and e.value.op == "adt":
                    rs = {mvroot(x) for x in e.value.a[3]}
                    mr = rs.pop() if len(rs) == 1 else None
                if mr is None or mr[1] is not s.kT:
                    self.bad("deliver", "value", "delivers the entry of another allocation", e)
                s = s.set(fT=s.fT | {"delivered"} | ({"dup"} if e.existed else set()))
        elif k == "atomic":
            s = self.atomic(s, e)
        elif k == "store":
            r = e.place.a[0]
            if r.op == "mv" and noep(r.a[0]) is self.G and is_reach(e.value):
                s = self.marked(s, e, r.a[1])
            elif r.op == "mv" and noep(r.a[0]) is self.G and not (e.value.op == "vec" and ("ch", r.a[1], None) in s.vecs):
                self.bad("safe", "node", "changes a node of the graph outside of tracing", e)
        elif k == "rec":
            for a in e.args:
                s = s.set(pend=frozenset(x for x in s.pend if x[0] is not a))
        elif k == "vec_push":
            s = self.push(s, e)
        elif k == "vec_next":
            s = self.vnext(s, e)
        elif k == "vec_end":
            s = self.vec_end(self.off_end(s, e.vec), e.vec, e)
        elif k == "vec_cut":
            s = self.cut(s, e)
            if self.vec_in(s, e.vec) is not None:
                self.bad("closure", "element", "does not mark every allocation of a list of reachable ones", e)
            if noep(e.vec) in s.dvecs:
                self.bad("complete", "weakdrop", "does not destroy every allocation it released the last claim on", e)
        elif k == "take" and e.place.a[0].op == "mv" and noep(e.place.a[0].a[0]) is self.G:
            # the children of a node, which is going to be marked
            if mvroot(e.old) is not None and e.value.op == "vec":
                s = s.set(vecs=s.vecs | {("ch", e.place.a[0].a[1], None)})
        elif k == "icall":
            s = self.icall(s, e)
        return s

    def vec_end(self, s, vec, e):
        v = self.vec_in(s, vec)
        if v is not None:
            if any(x[1] == v for x in s.pend):
                self.bad("closure", "element", "does not mark every allocation of a list of reachable ones", e)
            s = s.set(vecs=s.vecs - {v}, pend=frozenset(x for x in s.pend if x[1] != v))
        if noep(vec) in s.dvecs:
            if s.dcur is not None:
                self.bad("complete", "weakdrop", "does not destroy every allocation it released the last claim on", e)
            s = s.set(dvecs=s.dvecs - {noep(vec)}, dcur=None)
        return s

    def vec_in(self, s, vec):
        v = ("v", noep(vec))
        if v in s.vecs:
            return v
        mr = mvroot(vec)
        if mr is not None:
            for x in s.vecs:
                if x[0] == "ch" and x[1] is mr[1] and mr[0] is self.G:
                    return x
        return None

    def marked(self, s, e, k):
        self.hit("mark")
        if k is s.kG:
            if not s.fG & {"reachable", "nonzero", "pin"}:
                self.bad("overmark", "root", "marks an allocation although all of its handles were found and nobody else claims it", e)
            s = s.set(fG=s.fG | {"marked"})
        src = [x[1] for x in s.pend if x[0] is k]
        for v in src:
            if v in s.unappr:
                self.bad("overmark", "list", "marks allocations that were not found to be roots", e)
        if not src and k is not s.kG:
            self.bad("overmark", "other", "marks an allocation that is neither a root nor reachable from one", e)
        s = s.set(pend=frozenset(x for x in s.pend if x[0] is not k), acted=s.acted | {"marking"}, last=k)
        old = e.old
        if "sweeping" in s.acted:
            self.bad("order", "mark", "marks allocations after destroying others", e)
        if old.op == "adt":
            vs = [x for x in subterms(old) if x.op == "vec"]
            if vs:
                s = s.set(vecs=s.vecs | {("v", noep(v)) for v in vs})
        else:
            r = e.facts.get(T("disc", self.to_state(old, e)))
            if any(x[:2] == ("ch", k) for x in s.vecs):
                pass
            elif r is None or not (r[0] == r[1] == self.reach_var):
                s = s.set(vecs=s.vecs | {("ch", k, self.to_state(old, e))})
        if len(s.vecs) > 6:
            self.bad("closure", "element", "goes on to further nodes without having marked every allocation of the lists of "
                     "reachable ones", e)
            s = s.set(vecs=frozenset(), pend=frozenset())
        return s

    def to_state(self, old, e):
        return old

    def push(self, s, e):
        v, vec = e.value, noep(e.vec)
        if v is s.kG and self.mark_vec(s, v):
            if not s.fG & {"reachable", "nonzero", "pin"}:
                s = s.set(unappr=s.unappr | {("v", vec)})
            return s.set(fG=s.fG | {"marked"}, vecs=s.vecs | {("v", vec)})
        if any(x[0] is v for x in s.pend):
            return s.set(pend=frozenset(x for x in s.pend if x[0] is not v), vecs=s.vecs | {("v", vec)})
        roots = {mvroot(x) for x in subterms(v) if x.op == "pj" and mvroot(x)}
        js = {j for x in subterms(v) if x.op == "pj" for j in self.fn_jobs(x)}
        if "weakdrop" in js or ("released" in s.fG and (v is s.kG or s.kG in self.elements(v, "G"))):
            s = self.weakdrop(s, e, v)
            return s.set(dvecs=s.dvecs | {vec})
        return self.put_off(s, e)

    def mark_vec(self, s, v):
        return "markG" not in s.done

    def fn_jobs(self, x):
        if x.a[1][0] != "f":
            return ()
        return self.jobs.get((x.a[1][3], x.a[1][2])) or ()

    def vnext(self, s, e):
        v = self.vec_in(s, e.vec)
        if v is not None:
            if any(x[1] == v for x in s.pend):
                self.bad("closure", "element", "does not mark every allocation of a list of reachable ones", e)
            s = s.set(pend=frozenset(x for x in s.pend if x[1] != v) | {(e.value, v)})
            s = self.learn(s, e)
        else:
            s = self.taken_up(s, e)
        if noep(e.vec) in s.dvecs:
            if s.dcur is not None:
                self.bad("complete", "weakdrop", "does not destroy every allocation it released the last claim on", e)
            ks = self.elements(e.value, "G")
            s = s.set(dcur=ks[0] if ks else e.value)
        return s

    def atomic(self, s, e):
        m = self.m
        if e.place.a[0].op == "static" and len(e.place.a) == 1 and e.place.a[0].a[0] in self.tag:
            if e.op in ("fetch_add", "store", "swap", "fetch_update"):
                if not (e.op == "fetch_add" and e.operand.op == "c" and e.operand.a[0] >= 1):
                    self.bad("tag", "bump", "does not advance the stamp of the current collection", e)
                if e.order not in ("Release", "AcqRel", "SeqCst"):
                    self.bad("tag", "order", "advances the stamp with %s ordering" % e.order, e)
                if not self.locked(s):
                    self.bad("tag", "lock", "advances the stamp without holding the collection lock: a running collection would "
                             "take current stamps for old ones", e)
                s = s.set(tagged=True)
            return s
        st = Toker.stat(self.tk, e.place) if self.tk else None
        if st == (m.name, "drops") and e.op in ("store", "swap") and e.operand is C(0):
            return s.set(acted=s.acted | {"drops"})
        if s.kT is not None and box_field(e.place, s.kT) == m.weak_f:
            if e.op == "fetch_sub" and e.operand is C(1):
                return s.set(fT=s.fT | {"undup"})
        if s.kG is not None:
            f = box_field(e.place, s.kG)
            if f is None:
                return s
            if s.rel is not None and "strong0" not in s.fG:
                self.bad("pin", {m.strong_f: "strong", m.weak_f: "weak"}.get(f, f), "reads the %s count of an allocation after releasing its claim on it: another thread may have "
                         "freed it" % f, e)
            if f == m.weak_f and e.op == "load":
                if e.order not in ("Acquire", "SeqCst"):
                    self.bad("order19", "weak", "reads the claims on an allocation with %s ordering" % e.order, e)
                return s.set(wl=e.result)
            if f == m.weak_f and e.op == "fetch_sub":
                if e.operand is not C(1) or "released" in s.fG:
                    self.bad("release", "amount", "releases its claim on an allocation more than once", e)
                if "reachable" not in s.fG:
                    self.bad("release", "garbage", "releases the claim on an allocation that is not reachable", e)
                return s.set(rel=e.result, fG=s.fG | {"released"})
            if f == m.strong_f and e.op == "load":
                return s.set(sl=e.result)
            if e.op != "load":
                self.bad("release", f + ":" + e.op, "changes the %s count of an allocation" % f, e)
        return s

    def locked(self, s):
        return any(md == "write" and lk.a[0].op == "static" for lk, md in s.held)

    def weakdrop(self, s, e, v):
        self.hit("weakdrop")
        if not {"rel1", "strong0"} <= s.fG:
            self.bad("safe", "weakdrop", "destroys a reachable allocation without establishing that its last handle and claim are "
                     "gone", e)
        return s.set(fG=s.fG | {"weakdropped"})

    def icall(self, s, e):
        self.flag_at_icall(s, e)
        j = self.job(e)
        f, a = mvroot(e.fn_value), mvroot(e.args[0]) if e.args else None
        self.hit(j or "other")
        if j is None:
            self.bad("erase", "job", "calls %s.%s, whose purpose is not unique" % (e.owner, e.field), e)
            return s
        if f is None or a is None or f != a:
            self.bad("erase", "mix:" + j, "applies the %s of one allocation to another (%s to %s)" % (
                e.field, show(e.fn_value), show(e.args[0]) if e.args else "nothing"), e)
            return s
        if not self.locked(s):
            self.bad("lock", j, "does not hold the collection lock while it works", e)
        w, k = self.which(f[0]), f[1]
        if j == "tracefn":
            if not s.tagged:
                self.bad("tag", "late", "traces allocations before advancing the stamp of the current collection", e)
            if s.acted & {"marking", "sweeping"}:
                self.bad("order", "trace", "traces allocations after marking or sweeping began", e)
            if w == "M" and k is s.kM:
                if "traced" in s.fM:
                    self.bad("release", "twice", "traces an allocation twice for one claim", e)
                s = s.set(fM=s.fM | {"traced"})
        elif j == "destroy":
            self.phase(s, e)
            if w != "G" or k is not s.kG or "unknown" not in s.fG or "marked" in s.fG:
                self.bad("safe", "unmarked", "destroys an allocation without establishing that it was not marked", e)
            if "destroyed" in s.fG:
                self.bad("safe", "twice", "destroys an allocation twice", e)
            g = e.vals[1] if len(e.vals) > 1 else None
            if g is None or g.op != "refto" or noep(g.a[1]) is not self.G:
                self.bad("safe", "graph", "destroys an allocation with another graph", e)
            s = s.set(acted=s.acted | {"sweeping"})
            if w == "G" and k is s.kG:
                s = s.set(fG=s.fG | {"destroyed"})
        elif j == "weakdrop":
            self.phase(s, e)
            if w == "G" and s.dcur is not None and k is s.dcur:
                s = s.set(dcur=None)
            elif w == "G" and k is s.kG:
                s = self.weakdrop(s, e, k)
            else:
                self.bad("safe", "weakdrop2", "destroys an allocation it did not release the last claim on", e)
            s = s.set(acted=s.acted | {"sweeping"})
        else:
            self.bad("erase", "job:" + j, "calls an erased function that does not belong here (%s)" % j, e)
        return s

    def phase(self, s, e):
        for n, what in (("trace", "every delivered allocation was traced"),
                        ("markG", "every allocation with unaccounted handles or other claims was marked")):
            if n not in s.done:
                self.bad("safe", n, "destroys allocations before %s" % what, e)
        if "drops" not in s.acted:
            self.bad("stat", "late", "destroys allocations before the number of dropped handles is reset: destructors that drop "
                     "handles would not be counted", e)
        if s.vecs or s.pend:
            self.bad("closure", "open", "destroys allocations before everything reachable from the roots was marked", e)

    def end(self, s, how, e):
        if how not in ("ret", "unwind"):
            return
        self.flag_at_end(s, how)
        if any(md == "write" for lk, md in s.held):
            self.bad("lock" if how == "ret" else "unwind", "held", "keeps the collection lock", e)
        if how != "ret":
            return
        if s.flag is not None and s.flag[2] in ("mine", "mine-done", "reset"):
            self.hit("runs")
            for n, what in (("trace", "traced every delivered allocation"), ("markG", "examined every node for being a root"),
                            ("garbage", "destroyed every node that was not marked"),
                            ("release", "released the claim on every marked node and destroyed those it was the last to hold")):
                if n not in s.done:
                    self.bad("complete", n, "can end without having %s" % what, e)
                    break
            if s.vecs or s.pend:
                self.bad("closure", "open", "ends before everything reachable from the roots was marked", e)
            if s.dvecs or s.dcur is not None:
                self.bad("complete", "weakdrop", "does not destroy every allocation it released the last claim on", e)
            if "deliver" not in s.done:
                self.bad("deliver", "all", "can end without having delivered the calling thread's allocations", e)
            if "drops" not in s.acted:
                self.bad("stat", "reset", "does not reset the number of dropped handles", e)
        elif s.flag is None:
            self.bad("guard", "noflag", "can end without having looked whether a collection is running", e)
        else:
            self.hit("reentrant")
            if s.acted:
                self.bad("guard", "acted", "has effects although a collection is already running", e)


def s_monitor(cx):
    k = "smonitor"
    r = cx._g.get(k)
    if r is None:
        from .visitors import roles
        try:
            m = cx.s
            g = collector_graph(cx, m)
            mon = SCollect(cx, m, g, roles(cx, m))
            mon.tk = Toker(cx, m, g.entry)
            r = run_monitor(g, mon)
        except Missing as e:
            r = e
        cx._g[k] = r
    if isinstance(r, Missing):
        raise r
    return r


def s_rule(id, props, text, groups, insts):
    @rule(id, props, text, 1)
    def f(cx, o):
        mon = s_monitor(cx)
        for i in insts:
            for _ in range(mon.counts.get(i, 0)):
                o.inst("%s: %s" % (mon.m.collector.path, i))
        report(o, mon, groups)
    return f


s_rule("S-COLL-ROOTS", "C02 C10 C18", "sync collection: nothing is destroyed before all delivered allocations were traced and every "
       "root with everything reachable from it was marked; only unmarked allocations are destroyed",
       ("safe", "order", "closure", "lock", "release"), ("destroy", "tracefn", "mark"))
s_rule("S-COLL-TAG", "C18 C02", "sync collection: the stamp of the current collection is advanced before anything is traced", ("tag",),
       ("tracefn",))
s_rule("S-COLL-ONCE", "C06", "sync collection: allocations are destroyed once, and only if unmarked or without handles and claims",
       ("safe", "release", "lock"), ("destroy", "weakdrop"))
s_rule("S-COLL-ALL", "C04", "sync collection: every delivered allocation is traced, only roots are marked, every unmarked node is "
       "destroyed and the claims on all others are released", ("complete", "overmark", "trace", "stat"),
       ("tracefn", "mark", "destroy", "weakdrop"))
s_rule("S-COLL-PIN", "C19 C02 C06", "sync collection: an allocation is not touched after the claim on it was released",
       ("pin", "order19"), ("weakdrop",))
s_rule("S-COLL-REENT", "C12", "sync collection: a request during a collection by the same thread has no effect", ("guard",),
       ("runs", "reentrant"))
s_rule("S-COLL-AWAIT", "C13", "sync collect(): the calling thread's allocations are delivered first and a complete collection runs "
       "under the collection lock", ("deliver", "await", "complete", "trace", "lock", "guard"), ("runs", "tracefn"))
s_rule("S-COLL-STAT", "C14 C22", "sync collection: the number of dropped handles starts again at zero", ("stat",), ("runs",))
s_rule("S-COLL-ERASE", "C16 C02 C04 C06", "sync collection: erased functions are applied to the allocation they were stored with",
       ("erase",), ("tracefn", "destroy", "weakdrop"))
