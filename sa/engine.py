"""Path-sensitive abstract interpretation of MIR.

The analysis explores the interprocedural control-flow graph of an entry point, inlining every callee
whose MIR was extracted, over a finite abstract domain: hash-consed value terms for places, range facts
about terms and membership facts about sets and maps. The result is a finite graph whose edges carry the
events (reads and writes of counters, atomics, traversals, destructions, lock operations, ...) that the
rules of the individual properties are checked on. Nothing is executed and no solver is involved; states
are joined only if equal, symbols created in loops are recycled, and counters are widened."""
import re
from collections import namedtuple
from .term import *
from .base import ToolError

Frame = namedtuple("Frame", "body block ctx dest target unwind cont")

TRANSPARENT = {
    "core::ptr::non_null::NonNull", "core::ptr::unique::Unique", "alloc::boxed::Box",
    "core::num::nonzero::NonZero", "core::mem::manually_drop::ManuallyDrop",
    "core::mem::maybe_uninit::MaybeUninit", "core::mem::maybe_dangling::MaybeDangling",
    "core::cell::UnsafeCell", "core::cell::Cell", "core::cell::SyncUnsafeCell",
    "core::sync::atomic::Atomic", "core::sync::atomic::AtomicUsize", "core::sync::atomic::AtomicPtr",
    "core::sync::atomic::AtomicBool", "core::pin::Pin",
}


def transparent(owner):
    return owner in TRANSPARENT or owner.startswith("core::num::niche_types::") or \
        owner.startswith("core::ptr::non_null::pattern")


def F(i, name, owner):
    return ("f", i, name, owner)


def V(i, name):
    return ("v", i, name)


SOME, NONE_V = V(1, "Some"), V(0, "None")
OPT = "core::option::Option"
RES = "core::result::Result"


def some(v):
    return adt(OPT, 1, "Some", (v,), True, ("0",))


NONE = adt(OPT, 0, "None", (), True)


def ok(v):
    return adt(RES, 0, "Ok", (v,), True, ("0",))


def err(v):
    return adt(RES, 1, "Err", (v,), True, ("0",))


class Event:
    __slots__ = ("kind", "d", "span", "fn", "facts", "ctx")

    def __init__(self, kind, d, span, fn, facts, ctx):
        self.kind, self.d, self.span, self.fn, self.facts, self.ctx = kind, d, span, fn, facts, ctx

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def get(self, n, default=None):
        return self.d.get(n, default)

    def __repr__(self):
        return "%s(%s) @%s" % (self.kind, ", ".join("%s=%s" % kv for kv in self.d.items()), self.span)


E0 = sym("e0")


INT_BITS = {p + n: int(n) for p in "iu" for n in ("8", "16", "32", "64", "128")}
INT_BITS.update(usize=64, isize=64)


class State:
    __slots__ = ("stack", "mem", "facts", "epoch")

    def __init__(self, stack, mem, facts, epoch):
        self.stack, self.mem, self.facts, self.epoch = stack, mem, facts, epoch

    def copy(self):
        return State(self.stack, dict(self.mem), dict(self.facts), self.epoch)

    def key(self):
        return (self.stack, frozenset(self.mem.items()), frozenset(self.facts.items()), self.epoch)


# ---------------------------------------------------------------- range facts
INF = None
BOOL = ("eq", "lt", "not", "and", "or", "mem", "isnull")
ANY = (0, INF, frozenset())


def rng(facts, t):
    """(lo, hi, excluded) of an unsigned term."""
    if t.op == "c":
        return (t.a[0], t.a[0], frozenset())
    r = facts.get(t)
    if r is not None:
        return r
    if t.op == "lin":
        lo, hi, ex = rng(facts, t.a[0])
        c = t.a[1]
        lo2 = lo + c
        return (lo2, None if hi is None else hi + c, frozenset(x + c for x in ex))
    if t.op in BOOL:
        v = evalb(facts, t)
        if v is not None:
            return (v, v, frozenset())
        return (0, 1, frozenset())
    return ANY


def known(facts, t):
    lo, hi, ex = rng(facts, t)
    if hi is not None and lo == hi:
        return lo
    return None


def possible(facts, t, v):
    lo, hi, ex = rng(facts, t)
    return lo <= v and (hi is None or v <= hi) and v not in ex


def norm(r):
    lo, hi, ex = r
    while lo in ex:
        lo += 1
    while hi is not None and hi in ex and hi >= lo:
        hi -= 1
    ex = frozenset(x for x in ex if x > lo and (hi is None or x < hi))
    if hi is not None and lo > hi:
        return None
    return (lo, hi, ex)


def evalb(facts, t):
    """Value of a boolean term under the facts, or None."""
    if t.op == "c":
        return t.a[0]
    r = facts.get(t)
    if r is not None and r[1] is not None and r[0] == r[1]:
        return r[0]
    if t.op == "not":
        v = evalb(facts, t.a[0])
        return None if v is None else 1 - v
    if t.op == "and":
        x, y = evalb(facts, t.a[0]), evalb(facts, t.a[1])
        if x == 0 or y == 0:
            return 0
        return 1 if x == 1 and y == 1 else None
    if t.op == "or":
        x, y = evalb(facts, t.a[0]), evalb(facts, t.a[1])
        if x == 1 or y == 1:
            return 1
        return 0 if x == 0 and y == 0 else None
    if t.op == "eq":
        a, b = t.a
        if a is b:
            return 1
        ra, rb = rng(facts, a), rng(facts, b)
        if ra[1] is not None and ra[0] == ra[1] and rb[1] is not None and rb[0] == rb[1]:
            return int(ra[0] == rb[0])
        if ra[1] is not None and rb[0] > ra[1] or rb[1] is not None and ra[0] > rb[1]:
            return 0
        if b.op == "c" and b.a[0] in ra[2] or a.op == "c" and a.a[0] in rb[2]:
            return 0
        if a.op == "lin" and a.a[0] is b or b.op == "lin" and b.a[0] is a:
            return 0
        return None
    if t.op == "lt":
        a, b = t.a
        if a is b:
            return 0
        ra, rb = rng(facts, a), rng(facts, b)
        if ra[1] is not None and ra[1] < rb[0]:
            return 1
        if rb[1] is not None and ra[0] >= rb[1]:
            return 0
        return ordered(facts, a, b)
    return None


def ordered(facts, a, b):
    """What the comparisons made so far say about a < b."""
    up = {}
    for t, r in facts.items():
        if t.op == "lt" and r[0] == r[1]:
            x, y = t.a if r[0] else t.a[::-1]
            up.setdefault(x, []).append((y, r[0] == 1))
        elif t.op == "eq" and r[0] == 1:
            up.setdefault(t.a[0], []).append((t.a[1], False))
            up.setdefault(t.a[1], []).append((t.a[0], False))
    if not up:
        return None
    for x, y, strict, res in ((a, b, True, 1), (b, a, False, 0)):
        work, seen = [(x, False)], set()
        while work:
            n = work.pop()
            if n in seen:
                continue
            seen.add(n)
            if n[0] is y and (n[1] or not strict):
                return res
            work += [(z, n[1] or st) for z, st in up.get(n[0], ())]
    return None


def setrng(facts, t, r):
    r = norm(r)
    if r is None:
        return False
    if t.op == "c":
        return r[0] <= t.a[0] and (r[1] is None or t.a[0] <= r[1]) and t.a[0] not in r[2]
    if t.op == "lin":
        c = t.a[1]
        return setrng(facts, t.a[0], (max(0, r[0] - c), None if r[1] is None else r[1] - c,
                                      frozenset(x - c for x in r[2])))
    facts[t] = r
    return True


def meet(facts, t, lo=0, hi=None, ex=()):
    a = rng(facts, t)
    nlo = max(a[0], lo)
    nhi = a[1] if hi is None else (hi if a[1] is None else min(a[1], hi))
    return setrng(facts, t, (nlo, nhi, a[2] | frozenset(ex)))


def assume(facts, t, v):
    """Refine facts with t == v (v int). Returns False if infeasible."""
    if not possible(facts, t, v):
        return False
    if t.op == "c":
        return t.a[0] == v
    if t.op == "not":
        return assume(facts, t.a[0], 1 - v)
    if t.op == "and" and v == 1 or t.op == "or" and v == 0:
        return assume(facts, t.a[0], v) and assume(facts, t.a[1], v)
    if t.op == "and" and v == 0:
        for i in (0, 1):
            if evalb(facts, t.a[i]) == 1:
                return assume(facts, t.a[1 - i], 0)
    if t.op == "or" and v == 1:
        for i in (0, 1):
            if evalb(facts, t.a[i]) == 0:
                return assume(facts, t.a[1 - i], 1)
    if t.op == "eq":
        a, b = t.a
        if a.op == "c":
            a, b = b, a
        if b.op == "c":
            if v == 1:
                return assume(facts, a, b.a[0])
            return meet(facts, a, ex=(b.a[0],))
        kb = known(facts, b)
        ka = known(facts, a)
        if v == 1 and kb is not None:
            return assume(facts, a, kb)
        if v == 1 and ka is not None:
            return assume(facts, b, ka)
    if t.op == "lt":
        a, b = t.a
        if v == 1:
            if b.op == "c" and not meet(facts, a, hi=b.a[0] - 1):
                return False
            if a.op == "c" and not meet(facts, b, lo=a.a[0] + 1):
                return False
            if b.op != "c" and a.op != "c":
                if not meet(facts, b, lo=rng(facts, a)[0] + 1):
                    return False
        else:
            if b.op == "c" and not meet(facts, a, lo=b.a[0]):
                return False
            if a.op == "c" and not meet(facts, b, hi=a.a[0]):
                return False
        if a.op == "c" or b.op == "c":
            return True
    return setrng(facts, t, (v, v, frozenset()))


def assume_not(facts, t, vals):
    if t.op in BOOL:
        rest = [x for x in (0, 1) if x not in vals]
        if not rest:
            return False
        if len(rest) == 1:
            return assume(facts, t, rest[0])
        return True
    return meet(facts, t, ex=vals)


# ---------------------------------------------------------------- the graph
class Graph:
    def __init__(self, entry):
        self.entry = entry
        self.succ = []       # node -> [(events, dst)]
        self.term = {}       # node -> (kind, value)
        self.info = []       # node -> (fn path, block)
        self.unmodelled = {}
        self.steps = 0
        self.states = {}
        self.eng = None

    def events(self):
        for n in range(len(self.succ)):
            for evs, _ in self.succ[n]:
                for e in evs:
                    yield e


class Explosion(ToolError):
    pass


class Restart(Exception):
    """The analysis has to begin again with less precise values."""


class Engine:
    MAXNODES = 60000
    LINCAP = 6

    def __init__(self, prog, unwind=False, preserved=None, keep_states=False, opaque=(), noinline=None):
        self.prog = prog
        self.unwind = unwind
        self.preserved = preserved or {}
        self.keep_states = keep_states
        self.ctxs = [(None, None, None)]
        self.ctxid = {}
        self.fns = []
        self.fnid = {}
        self.synth = {}
        self.discn = {}
        self.heads = {}
        self.entry = {}             # (context, parameter) -> number it was called with
        self.varying = set()        # (function, parameter) with numbers that change from one recursive call to the next
        self.opaque = opaque        # predicate list: callee -> event name
        self.noinline = noinline
        from . import models
        self.models = models
        self.cands = None

    # ---- contexts and symbols
    def ctx_child(self, ctx, block, key):
        k = (ctx, block, key)
        i = self.ctxid.get(k)
        if i is None:
            i = len(self.ctxs)
            self.ctxid[k] = i
            self.ctxs.append(k)
        return i

    def ctx_chain(self, ctx):
        out = []
        while ctx:
            p, b, k = self.ctxs[ctx]
            out.append((k, p, b))
            ctx = p
        return out

    def in_chain(self, ctx, key):
        while ctx:
            p, b, k = self.ctxs[ctx]
            if k == key:
                return True
            ctx = p
        return False

    def fn_term(self, callee):
        k = (callee.get("path"), callee.get("inst"), tuple(callee.get("targs") or ()), callee.get("rpath"))
        i = self.fnid.get(k)
        if i is None:
            i = len(self.fns)
            self.fns.append(callee)
            self.fnid[k] = i
        return T("fn", i, callee.get("rpath") or callee.get("path"))

    def site(self, st, kind=""):
        f = st.stack[-1]
        return "%d.%s%s" % (f.ctx, f.block, (":" + kind) if kind else "")

    def fresh(self, st, kind, events=None, name=None):
        """A symbol for a new unknown value created at the current location."""
        name = name or self.site(st, kind)
        self.recycle(st, (name,), events)
        return sym(name)

    def recycle(self, st, names, events=None):
        m = {}
        for name in names:
            used = any(name in k.syms or name in v.syms for k, v in st.mem.items()) or \
                any(name in k.syms for k in st.facts) or name in st.epoch.syms
            if used:
                m[name] = sym(name + "'")
                if any(name + "'" in v.syms or name + "'" in k.syms for k, v in st.mem.items()):
                    m[name + "'"] = sym(name + "''")
        if not m:
            return
        self.rename(st, m, events)

    def rename(self, st, m, events):
        memo = {}
        st.mem = {subst(k, m, memo): subst(v, m, memo) for k, v in st.mem.items()}
        live = set()
        for k, v in st.mem.items():
            live |= k.syms
            live |= v.syms
        nf = {}
        for k, v in st.facts.items():
            k2 = subst(k, m, memo) if any(s in m for s in k.syms) else k
            if k2 is not k and not (k2.syms <= live):
                continue
            if any(s.endswith("''") for s in k2.syms):
                continue
            nf[k2] = v
        if events is not None and len(nf) != len(st.facts):
            events.append(Event("purge", {}, "", "", st.facts, 0))
        st.facts = nf
        st.epoch = subst(st.epoch, m, memo)
        if events is not None:
            events.append(Event("rename", {"map": m}, "", "", st.facts, 0))

    # ---- memory
    def read(self, st, p):
        a = p.a
        root = a[0]
        if root.op == "val":
            t = root.a[0]
            for e in a[1:]:
                t = proj(t, e)
            return t
        if root.op == "mk" and len(a) == 1:
            return root.a[1]
        mem = st.mem
        n = len(a)
        best = None
        for i in range(n, 0, -1):
            q = p if i == n else T("P", *a[:i])
            v = mem.get(q)
            if v is not None:
                best = (i, v)
                break
        if best is None:
            t = self.initial(st, root)
            i = 1
        else:
            i, t = best
        for e in a[i:]:
            t = proj(t, e)
        ups = []
        for q, v in mem.items():
            qa = q.a
            if len(qa) > n and qa[0] is root and qa[:n] == a:
                ups.append((qa[n:], v))
        if ups:
            t = upd(t, tuple(sorted(ups, key=lambda x: (len(x[0]), repr(x[0])))))
        return t

    def initial(self, st, root):
        if root.op == "L":
            return T("undef", root)
        if root.op == "mv" and root.a[0].op in ("map", "vec"):
            # contents of a collection owned by the analysed function
            return T("ld", root, st.mem.get(place(T("mep", root.a[0])), E0))
        if root.op == "mk":
            return root.a[1]
        return T("ld", root, st.epoch)

    def write(self, st, p, v):
        if v.size > 400:
            v = self.fresh(st, "deep%d" % (hash(p) % 1000 if False else len(p.a)))
        a = p.a
        n = len(a)
        mem = st.mem
        root = a[0]
        dead = [q for q in mem if len(q.a) > n and q.a[0] is root and q.a[:n] == a]
        for q in dead:
            del mem[q]
        for i in range(n - 1, 0, -1):
            q = T("P", *a[:i])
            w = mem.get(q)
            if w is not None:
                if w.op in ("adt", "tup", "clos", "upd", "cellbox") and w.size < 300:
                    mem[q] = upd(w, ((a[i:], v),))
                    return
                break
        mem[p] = v

    def kill_root(self, st, root):
        for q in [q for q in st.mem if q.a[0] is root]:
            del st.mem[q]

    def kill_place(self, st, p):
        a, n = p.a, len(p.a)
        for q in [q for q in st.mem if q.a[0] is a[0] and q.a[:n] == a]:
            del st.mem[q]

    def deref(self, t):
        """The place a pointer value points to."""
        if t.op == "ref":
            return t.a[0]
        return place(T("*", t))

    def lroot(self, ctx, i):
        return T("L", ctx, i)

    def eval_place(self, st, pj):
        f = st.stack[-1]
        p = place(self.lroot(f.ctx, pj[0]))
        for e in pj[1:]:
            k = e[0]
            if k == "d":
                p = self.deref(self.read(st, p))
            elif k == "f":
                if transparent(e[3]):
                    continue
                p = sub(p, F(e[1], e[2], e[3]))
            elif k == "v":
                p = sub(p, V(e[1], e[2]))
            elif k == "i":
                ix = self.read(st, place(self.lroot(f.ctx, e[1])))
                p = sub(p, ("ix", ix))
            elif k == "ci":
                p = sub(p, ("ci", e[1], e[2]))
            elif k == "ss":
                p = sub(p, ("ss", e[1], e[2], e[3]))
            else:
                p = sub(p, ("o",))
        return p

    def eval_const(self, st, c):
        if "fn" in c:
            return self.fn_term(c["fn"])
        if "static" in c:
            return ref(place(T("static", c["static"])))
        if "int" in c:
            return C(c["int"])
        if "pkey" in c:
            b = self.prog.bodies.get(c["pkey"])
            if b is not None:
                return self.eval_promoted(st, b)
        if c.get("zst"):
            ty = self.prog.types[c["ty"]]
            if ty["k"] == "tuple":
                return UNIT
            if ty["k"] == "closure":
                return T("clos", self.closure_key(ty), ())
            return T("zst", ty["s"])
        if "uneval" in c:
            return T("const", c["uneval"])
        if re.match(r"\{transmute\(0x0+\): core::option::Option<", c.get("txt") or ""):
            # a niche-encoded None
            return adt("core::option::Option", 0, "None", (), True, ())
        return T("const", c.get("str") if "str" in c else c.get("txt", ""))

    def closure_key(self, ty):
        for k, b in self.prog.bodies.items():
            if b.kind == "Closure" and b.dpath == ty["path"]:
                return k
        return ty["path"]

    def eval_promoted(self, st, b):
        """Constant-fold a promoted body; references point to immutable value places."""
        env = {}

        def op(o):
            if "c" in o:
                return self.eval_const(st, o["c"])
            pl = o["p"]
            v = env.get(pl[0], T("const", "?"))
            for e in pl[1:]:
                if e[0] == "d":
                    v = v.a[0].a[0].a[0] if v.op == "ref" and v.a[0].a[0].op == "val" and len(v.a[0].a) == 1 \
                        else self.read(st, self.deref(v))
                elif e[0] == "f":
                    if not transparent(e[3]):
                        v = proj(v, F(e[1], e[2], e[3]))
                elif e[0] == "v":
                    v = proj(v, V(e[1], e[2]))
                else:
                    v = T("pj", v, tuple(e))
            return v
        for stt in b.blocks[0][0]:
            if stt[0] != "=":
                continue
            pl, rv = stt[1], stt[2]
            if rv[0] == "use":
                v = op(rv[1])
            elif rv[0] == "ref":
                v = ref(place(T("val", op({"p": rv[1]}))))
            elif rv[0] == "agg":
                v = self.aggregate(rv[1], [op(o) for o in rv[2]])
            elif rv[0] == "cast":
                v = op(rv[2])
            else:
                v = T("const", b.key)
            if len(pl) == 1:
                env[pl[0]] = v
        return env.get(0, T("const", b.key))

    def operand(self, st, o):
        if "p" in o:
            p = self.eval_place(st, o["p"])
            v = self.read(st, p)
            if o.get("mv") and p.a[0].op == "L" and len(p.a) == 1:
                pass
            return v
        if "c" in o:
            return self.eval_const(st, o["c"])
        return T("const", str(o))

    def aggregate(self, k, vals):
        if k[0] == "adt":
            if transparent(k[1]):
                return vals[0] if vals else T("zst", k[1])
            return adt(k[1], k[2], k[3], vals, k[5], tuple(k[4]))
        if k[0] == "tuple":
            return T("tup", tuple(vals))
        if k[0] == "closure":
            return T("clos", k[2], tuple(vals))
        if k[0] == "array":
            return T("arr", tuple(vals))
        if k[0] == "rawptr":
            return vals[0]
        return T("agg", str(k[0]), tuple(vals))

    def cap(self, st, t, kind):
        if t.op == "lin" and t.a[0].op == "bound":
            return T("bound", self.fresh(st, "bound"))
        if t.op == "lin" and abs(t.a[1]) > self.LINCAP:
            return self.fresh(st, "wide" + kind)
        return t

    def binop(self, st, op, a, b):
        if op in ("Add", "AddUnchecked", "AddWithOverflow", "Sub", "SubUnchecked", "SubWithOverflow"):
            add = op.startswith("Add")
            if b.op == "c":
                r = lin(a, b.a[0] if add else -b.a[0])
            elif a.op == "c" and add:
                r = lin(b, a.a[0])
            elif not add and a is b:
                r = C(0)
            elif not add and a.op == "lin" and a.a[0] is b:
                r = C(a.a[1])
            else:
                r = T("add" if add else "sub", a, b)
            r = self.cap(st, r, op)
            if op.endswith("Overflow"):
                return T("tup", (r, T("ovf", r)))
            return r
        if op == "Eq":
            return self.mk_eq(a, b)
        if op == "Ne":
            return self.mk_not(self.mk_eq(a, b))
        if op == "Lt":
            return self.mk_lt(a, b)
        if op == "Gt":
            return self.mk_lt(b, a)
        if op == "Ge":
            return self.mk_not(self.mk_lt(a, b))
        if op == "Le":
            return self.mk_not(self.mk_lt(b, a))
        if op == "BitAnd":
            if a.op == "c" and b.op == "c":
                return C(a.a[0] & b.a[0])
            return T("and", a, b)
        if op == "BitOr":
            if a.op == "c" and b.op == "c":
                return C(a.a[0] | b.a[0])
            return T("or", a, b)
        if op == "BitXor" and a.op == "c" and b.op == "c":
            return C(a.a[0] ^ b.a[0])
        if op == "Offset" and b.op == "c" and b.a[0] == 0:
            return a
        return T("bin", op, a, b)

    def mk_not(self, x):
        if x.op == "c":
            return C(1 - x.a[0])
        if x.op == "not":
            return x.a[0]
        return T("not", x)

    def mk_eq(self, a, b):
        if a is b:
            return TRUE
        if a.op == "c" and b.op == "c":
            return C(a.a[0] == b.a[0])
        if a.op == "c":
            a, b = b, a
        if b.op == "c":
            if a.op == "lin":
                return self.mk_eq(a.a[0], C(b.a[0] - a.a[1]))
            if a.op in BOOL:
                return a if b.a[0] == 1 else self.mk_not(a)
            if b.a[0] == 0 and a.op == "ref" and a.a[0].a[0].op in ("heap", "L", "tmp", "static", "tls"):
                return FALSE
        else:
            if b.uid < a.uid:
                a, b = b, a
        return T("eq", a, b)

    def mk_lt(self, a, b):
        if a is b:
            return FALSE
        if a.op == "c" and b.op == "c":
            return C(a.a[0] < b.a[0])
        if a.op == "lin" and b.op == "c":
            return self.mk_lt(a.a[0], C(b.a[0] - a.a[1]))
        if b.op == "lin" and a.op == "c":
            return self.mk_lt(C(a.a[0] - b.a[1]), b.a[0])
        # canonical forms for comparisons with constants: x < 1 is x == 0, 0 < x is x != 0
        if b.op == "c" and b.a[0] == 1:
            return self.mk_eq(a, C(0))
        if a.op == "c" and a.a[0] == 0:
            return self.mk_not(self.mk_eq(b, C(0)))
        if b.op == "c" and b.a[0] <= 0:
            return FALSE
        return T("lt", a, b)

    def rvalue(self, st, rv, events, span):
        k = rv[0]
        if k == "use":
            return self.operand(st, rv[1])
        if k == "ref":
            return ref(self.eval_place(st, rv[1]))
        if k == "cast":
            return self.cast(st, rv, events)
        if k == "bin":
            return self.binop(st, rv[1], self.operand(st, rv[2]), self.operand(st, rv[3]))
        if k == "un":
            x = self.operand(st, rv[2])
            if rv[1] == "Not":
                return self.mk_not(x)
            return T("un", rv[1], x)
        if k == "disc":
            p = self.eval_place(st, rv[1])
            return self.disc(self.read(st, p), self.prog.types[rv[2]])
        if k == "agg":
            return self.aggregate(rv[1], [self.operand(st, o) for o in rv[2]])
        if k == "tls":
            return ref(place(T("tls", rv[1])))
        if k == "repeat":
            return T("rep", self.operand(st, rv[1]), rv[2])
        if k == "other":
            txt = str(rv[1])
            if "UbChecks" in txt or "ContractChecks" in txt or "OverflowChecks" in txt:
                return C(0)
            return T("const", txt)
        return T("const", str(rv))

    def disc(self, t, ty):
        if t.op == "adt":
            vs = ty.get("variants")
            if vs and t.a[1] < len(vs):
                return C(vs[t.a[1]][1])
            return C(t.a[1])
        if t.op == "upd":
            return self.disc(t.a[0], ty)
        r = T("disc", t)
        vs = ty.get("variants")
        if vs:
            self.discn[r] = max(v[1] for v in vs) + 1
        return r

    def cast(self, st, rv, events):
        kind, o, ty, extra, frm = rv[1], rv[2], rv[3], rv[4], rv[5]
        if extra:
            if extra.get("rk") == "closure":
                return T("clos", extra["inst"], ())
            return self.fn_term(extra)
        v = self.operand(st, o)
        if "PtrToPtr" in kind or "Transmute" in kind:
            return self.ptr_cast(st, v, frm, ty)
        if kind.startswith("IntToInt"):
            return self.int_cast(v, self.prog.types[frm]["s"], self.prog.types[ty]["s"])
        if kind.startswith(("IntToFloat", "FloatToInt", "FloatToFloat")):
            return T("conv", v, self.prog.types[ty]["s"])
        return v

    def int_cast(self, v, a, b):
        """A cast to fewer bits keeps only the low ones."""
        wa, wb = INT_BITS.get(a), INT_BITS.get(b)
        if wa is None or wb is None or wb >= wa or v.op in BOOL:
            return v
        if v.op == "c":
            return C(v.a[0] & ((1 << wb) - 1))
        if v.op == "trunc" and v.a[1] <= wb:
            return v
        return T("trunc", v, wb)

    def pointee(self, tid):
        t = self.prog.types[tid]
        if t["k"] in ("ref", "ptr"):
            return t["to"]
        if t["k"] == "adt" and transparent(t["path"]) and t.get("args"):
            a = self.prog.types[t["args"][0]]
            if t["path"].endswith("NonNull") or t["path"].endswith("Unique") or t["path"].endswith("Box"):
                return t["args"][0]
            return self.pointee(t["args"][0]) if a["k"] == "adt" else None
        return None

    def ptr_cast(self, st, v, frm, to):
        """Casting a pointer to a #[repr(C)] struct into a pointer to its first field's type."""
        a, b = self.pointee(frm), self.pointee(to)
        if a is None or b is None:
            return v
        return self.pointee_cast(st, v, a, b)

    def pointee_cast(self, st, v, a, b):
        ta, tb = self.prog.types[a], self.prog.types[b]
        if ta["k"] == "adt" and ta.get("local") and ta["path"] in self.prog.adts:
            ad = self.prog.adts[ta["path"]]
            if ad["kind"] == "struct" and ad["repr_c"] and ad["variants"][0][1]:
                f0 = ad["variants"][0][1][0]
                if f0[3] == tb["s"]:
                    return ref(sub(self.deref(v), F(0, f0[0], ta["path"])))
        return v

    # ---- running
    def run(self, body, args=None, mem=None, facts=None):
        st = State((), {}, {}, E0)
        if mem:
            st.mem.update(mem)
        if facts:
            st.facts.update(facts)
        ctx = self.ctx_child(0, 0, body.key)
        for i in range(body.argc):
            v = args[i] if args and i < len(args) and args[i] is not None else T("s", "arg%d" % (i + 1))
            st.mem[place(self.lroot(ctx, i + 1))] = v
        st.stack = (Frame(body, 0, ctx, None, None, "cont", None),)
        while True:
            try:
                return self.explore(body, st.copy())
            except Restart:
                self.heads.clear()
                self.entry.clear()

    def explore(self, body, st):
        g = Graph(body)
        ids = {}
        work = []

        def node(s):
            k = s.key()
            n = ids.get(k)
            if n is None:
                n = len(g.succ)
                ids[k] = n
                g.succ.append([])
                f = s.stack[-1]
                g.info.append((f.body.path if f.body else "glue", f.block, f.ctx))
                if self.keep_states:
                    g.states[n] = s
                work.append((n, s))
            return n
        node(st)
        while work:
            n, s = work.pop()
            if len(g.succ) > self.MAXNODES:
                raise Explosion("state explosion in %s (last in %s)" % (body.path, s.stack[-1].body))
            self.g = g
            g.eng = self
            for evs, out in self.step(s):
                g.steps += 1
                if isinstance(out, State):
                    g.succ[n].append((evs, node(out)))
                else:
                    t = len(g.succ)
                    g.succ.append([])
                    g.info.append(("end", 0, 0))
                    g.term[t] = out
                    g.succ[n].append((evs, t))
        return g

    def ev(self, st, events, kind, span=None, **d):
        f = st.stack[-1]
        fn = f.body.path if f.body else "glue"
        ctx = f.ctx
        # attribute events inside std or synthetic bodies to the innermost function of the analysed crate
        if not (f.body and f.body.local):
            for fr in reversed(st.stack):
                if fr.body is not None and fr.body.local:
                    fn = fr.body.path
                    span = self.block_span(fr) or span
                    break
        events.append(Event(kind, d, span or "", fn, dict(st.facts), ctx))

    def block_span(self, fr):
        t = fr.body.blocks[fr.block][1]
        if t[0] == "call":
            return t[6]
        if t[0] in ("drop", "switch"):
            return t[5]
        return fr.body.span

    def step(self, st0):
        st = st0.copy()
        events = []
        guard = 0
        while True:
            guard += 1
            if guard > 400:
                return [(events, st)]
            f = st.stack[-1]
            if f.cont is not None:
                return self.models.resume(self, st, events)
            body, blk = f.body, f.block
            self.kill_dead(st, f)
            stmts, term, cleanup = body.blocks[blk]
            for s in stmts:
                if s[0] == "=":
                    v = self.rvalue(st, s[2], events, s[3])
                    if s[2][0] == "bin" and v.op == "tup" and False:
                        pass
                    p = self.eval_place(st, s[1])
                    if p.a[0].op != "L" and p.a[0].op != "tmp":
                        self.ev(st, events, "store", s[3], place=p, value=v, old=self.read(st, p))
                    self.write(st, p, v)
                elif s[0] == "setd":
                    p = self.eval_place(st, s[1])
                    self.write(st, p, T("setd", self.read(st, p), s[2]))
                elif s[0] == "dead":
                    self.kill_root(st, self.lroot(f.ctx, s[1]))
            k = term[0]
            if k == "goto":
                if not self.goto(st, term[1], events):
                    return [(events, st)]
                if self.loop_head(body, term[1]):
                    return [(events, st)]
                continue
            return self.terminator(st, events, term)

    def goto(self, st, b, events=None):
        f = st.stack[-1]
        self.leave_loops(st, f, b, events)
        st.stack = st.stack[:-1] + (f._replace(block=b),)
        return True

    def leave_loops(self, st, f, b, events=None):
        """At the end of a loop iteration or on loop exit, forget what is known about values created in the
        loop that nothing refers to any more."""
        loops = loops_of(f.body)
        left = [l for h, l in loops if f.block in l and (b not in l or b == h)]
        if left:
            self.purge(st, f.ctx, set().union(*left), events)
            for h, l in loops:
                if b == h and f.block in l:
                    self.widen(st, f, h, l, events)

    def widen(self, st, f, h, l, events):
        """Forget the exact value of integer variables that a loop counts up or down."""
        for n in counters(f.body, h, l):
            p = place(self.lroot(f.ctx, n))
            v = st.mem.get(p)
            if v is not None and v.op in ("c", "lin", "s"):
                name = "%d.%d:w%d" % (f.ctx, h, n)
                how = self.models.counting(st, v)
                self.recycle(st, (name,), events)
                st.mem[p] = sym(name)
                st.mem.pop(place(T("cnt", sym(name))), None)
                if how is not None:
                    st.mem[place(T("cnt", sym(name)))] = how
        # a number kept in a structure (the position of an iterator, ...) that takes ever new values
        for p, v in list(st.mem.items()):
            if p.a[0].op == "L" and p.a[0].a[0] == f.ctx and v.op in ("adt", "tup", "c", "lin"):
                base = "%d.%d:u%s" % (f.ctx, h, p.a[0].a[1])
                names = []
                self.settle((f.ctx, h, p), base, v, names)
                if names:
                    self.recycle(st, names, events)
                    v = st.mem.get(p)
                    if v is not None:
                        st.mem[p] = self.settle((f.ctx, h, p), base, v, [])

        # a variable that names ever longer chains of elements of elements
        for p, v in list(st.mem.items()):
            if p.a[0].op == "L" and p.a[0].a[0] == f.ctx and v.syms and element_depth(v) > 2:
                name = "%d.%d:v%d" % (f.ctx, h, p.a[0].a[1])
                self.recycle(st, (name,), events)
                st.mem[p] = sym(name)

    def settle(self, at, name, v, names):
        """The value with the numbers replaced that have had too many values at this loop head."""
        if v.op == "adt" and v.a[3] or v.op == "tup":
            old = v.a[3] if v.op == "adt" else v.a[0]
            new = tuple(self.settle(at, "%s_%d" % (name, n), x, names) for n, x in enumerate(old))
            if all(a is b for a, b in zip(old, new)):
                return v
            return T("adt", *(v.a[:3] + (new,) + v.a[4:])) if v.op == "adt" else T("tup", new)
        if v.op == "lin" or v.op == "c" and isinstance(v.a[0], int) and not isinstance(v.a[0], bool):
            seen = self.heads.setdefault(at + (name,), set())
            seen.add(v)
            if len(seen) > 8:
                names.append(name)
                return sym(name)
        return v

    def purge(self, st, fctx, inside, events=None):
        cache = {}
        old = st.facts

        def created_inside(name):
            r = cache.get(name)
            if r is None:
                r = cache[name] = self._inside(name, fctx, inside)
            return r
        # memory reachable without going through such symbols
        live = set()
        pend = []
        for k, v in st.mem.items():
            if any(created_inside(s) for s in k.syms):
                pend.append((k, v))
            else:
                live |= v.syms
        live |= st.epoch.syms
        ch = True
        while ch and pend:
            ch = False
            rest = []
            for k, v in pend:
                if all(s in live or not created_inside(s) for s in k.syms):
                    live |= v.syms
                    ch = True
                else:
                    rest.append((k, v))
            pend = rest
        for k, v in pend:
            del st.mem[k]
        if any(k.syms for k in st.facts):
            st.facts = {k: v for k, v in st.facts.items()
                        if not any(s not in live and created_inside(s) for s in k.syms)}
            if events is not None and len(old) != len(st.facts):
                events.append(Event("purge", {}, "", "", old, fctx))

    def _inside(self, name, fctx, inside):
        base = name.rstrip("'")
        ctx, _, rest = base.partition(".")
        if not ctx.isdigit():
            return False
        ctx = int(ctx)
        blk = rest.split(":", 1)[0]
        if ctx == fctx:
            return inside is None or blk.isdigit() and int(blk) in inside
        c = ctx
        while c:
            p, pb, _ = self.ctxs[c]
            if p == fctx:
                return inside is None or pb in inside
            c = p
        return False

    def loop_head(self, body, b):
        return b in join_blocks(body)

    def kill_dead(self, st, f):
        live = live_in(f.body)[f.block]
        dead = []
        for q in st.mem:
            r = q.a[0]
            if r.op == "L" and r.a[0] == f.ctx and r.a[1] not in live:
                dead.append(q)
        for q in dead:
            del st.mem[q]

    def split(self, st, events, cases):
        """cases: [(term, value or ('not', vals), builder)] -> outcomes"""
        out = []
        for t, v in cases:
            s2 = st.copy()
            okf = assume_not(s2.facts, t, v[1]) if isinstance(v, tuple) else assume(s2.facts, t, v)
            if okf:
                out.append(s2)
            else:
                out.append(None)
        return out

    def terminator(self, st, events, t):
        k = t[0]
        if k == "switch":
            v = self.operand(st, t[1])
            ty = self.prog.types[t[4]]
            outs = []
            vals = [x[0] for x in t[2]]
            if v.op == "c":
                tgt = t[3]
                for val, b in t[2]:
                    if val == v.a[0]:
                        tgt = b
                s2 = st
                self.goto(s2, tgt, events)
                return [(events, s2)]
            if v.op == "bot":
                return [(events, ("stop", "infeasible"))]
            for val, b in t[2]:
                s2 = st.copy()
                if ty["k"] == "bool" and v.op not in BOOL and not meet(s2.facts, v, hi=1):
                    continue
                if assume(s2.facts, v, val):
                    for s3, e3 in self.models.index_guard(self, s2, list(events), v, val):
                        self.goto(s3, b, e3)
                        outs.append((e3, s3))
            s2 = st.copy()
            okk = True
            if ty["k"] == "bool" and v.op not in BOOL:
                okk = meet(s2.facts, v, hi=1)
            elif v.op == "disc":
                n = self.nvariants(v)
                if n is not None:
                    okk = meet(s2.facts, v, hi=n - 1)
            if okk and assume_not(s2.facts, v, tuple(vals)):
                kn = known(s2.facts, v)
                if kn is not None:
                    assume(s2.facts, v, kn)
                if s2.stack[-1].body.blocks[t[3]][1][0] != "unreachable" or s2.stack[-1].body.blocks[t[3]][0]:
                    for s3, e3 in self.models.index_guard(self, s2, list(events), v, kn) if ty["k"] == "bool" and kn is not None \
                            else [(s2, list(events))]:
                        self.goto(s3, t[3], e3)
                        outs.append((e3, s3))
            return outs
        if k == "ret":
            return self.do_return(st, events)
        if k == "call":
            return self.models.call(self, st, events, t)
        if k == "drop":
            p = self.eval_place(st, t[1])
            st.stack = st.stack[:-1] + (st.stack[-1]._replace(),)
            return self.models.drop_terminator(self, st, events, p, t)
        if k == "assert":
            # a failing assertion panics; the continuing path knows the condition
            c = self.operand(st, t[1])
            outs = []
            s2 = st.copy()
            if c.op == "ovf":
                r = c.a[0]
                if r.op == "lin" and r.a[1] < 0:
                    meet(s2.facts, r.a[0], lo=-r.a[1])
                okk = True
            else:
                okk = assume(s2.facts, c, 1 if t[2] else 0)
            if okk:
                e2 = list(events)
                self.goto(s2, t[3], e2)
                outs.append((e2, s2))
            if c.op != "ovf":
                s3 = st.copy()
                if assume(s3.facts, c, 0 if t[2] else 1):
                    outs += self.panic(s3, list(events), t[5], t[6], t[4])
            return outs
        if k == "unreachable":
            return [(events, ("stop", "unreachable"))]
        if k in ("resume", "abort"):
            if k == "abort":
                self.ev(st, events, "abort", "")
                return [(events, ("stop", "abort"))]
            return self.unwind_from(st, events, pop=True)
        return [(events, ("stop", str(t[:2])))]

    def nvariants(self, v):
        return self.discn.get(v)

    def do_return(self, st, events):
        f = st.stack[-1]
        v = self.read(st, place(self.lroot(f.ctx, 0)))
        if v.op == "undef":
            v = UNIT
        return self.finish_call(st, events, v)

    def finish_call(self, st, events, v):
        f = st.stack[-1]
        for q in [q for q in st.mem if q.a[0].op in ("L", "tmp") and q.a[0].a[0] == f.ctx]:
            del st.mem[q]
        if f.cont is not None and f.cont[0] in self.models.LOOPING:
            keep = place(T("L", 0, 0))
            st.mem[keep] = v
            self.purge(st, f.ctx, None, events)
            del st.mem[keep]
        if len(st.stack) == 1:
            events.append(Event("end", {"how": "ret", "value": v}, "", "", dict(st.facts), f.ctx))
            return [(events, ("ret", v))]
        st.stack = st.stack[:-1]
        if f.target is None:
            return [(events, ("stop", "diverge"))]
        if st.stack[-1].cont is not None:
            # returning into a glue frame
            if f.dest is not None:
                self.write(st, f.dest, v)
            return [(events, st)]
        if f.dest is not None:
            self.store_dest(st, events, f.dest, v)
        self.goto(st, f.target, events)
        return [(events, st)]

    def store_dest(self, st, events, dest, v):
        if dest.a[0].op not in ("L", "tmp"):
            self.ev(st, events, "store", None, place=dest, value=v, old=self.read(st, dest))
        self.write(st, dest, v)

    def value(self, st, events, t, v):
        """Finish a modelled call with result v. t is the call terminator."""
        if t[4] is None:
            return [(events, ("stop", "diverge"))]
        self.store_dest(st, events, self.eval_place(st, t[3]), v)
        self.goto(st, t[4], events)
        return [(events, st)]

    def push(self, st, events, body, args, t=None, dest=None, target=None, unwind="cont"):
        """Inline a call."""
        f = st.stack[-1]
        if t is not None:
            dest = self.eval_place(st, t[3])
            target, unwind = t[4], t[5]
        ctx = self.ctx_child(f.ctx, f.block, body.key)
        for q in [q for q in st.mem if q.a[0].op == "L" and q.a[0].a[0] == ctx]:
            del st.mem[q]
        for i, a in enumerate(args):
            if a.op == "c":
                if (body.key, i) in self.varying:
                    a = self.fresh(st, "par%d" % i, events)
                else:
                    self.entry[ctx, i] = a
            st.mem[place(self.lroot(ctx, i + 1))] = a
        st.stack = st.stack + (Frame(body, 0, ctx, dest, target if target is not None else None, unwind, None),)
        return [(events, st)]

    def panic(self, st, events, msg, span, unwind):
        self.ev(st, events, "panic", span, msg=msg)
        return self.raise_(st, events, unwind)

    def raise_(self, st, events, unwind):
        """Unwind out of the current location whose cleanup is `unwind`."""
        if not self.unwind:
            return [(events, ("stop", "panic"))]
        if isinstance(unwind, int):
            self.goto(st, unwind, events)
            return [(events, st)]
        if unwind in ("unreach", "term"):
            return [(events, ("stop", unwind))]
        return self.unwind_from(st, events, pop=True)

    def unwind_from(self, st, events, pop):
        while True:
            f = st.stack[-1]
            for q in [q for q in st.mem if q.a[0].op in ("L", "tmp") and q.a[0].a[0] == f.ctx]:
                del st.mem[q]
            if len(st.stack) == 1:
                events.append(Event("end", {"how": "unwind", "value": UNIT}, "", "", dict(st.facts), f.ctx))
                return [(events, ("unwind", None))]
            uw = f.unwind
            st.stack = st.stack[:-1]
            if st.stack[-1].cont is not None:
                g = st.stack[-1]
                return self.models.glue_unwind(self, st, events)
            if isinstance(uw, int):
                self.goto(st, uw, events)
                return [(events, st)]
            if uw in ("unreach", "term"):
                return [(events, ("stop", uw))]


# ---------------------------------------------------------------- per-body facts
_live = {}
_joins = {}
_loops = {}


def succs(term):
    k = term[0]
    if k == "goto":
        return [term[1]]
    if k == "switch":
        return [b for _, b in term[2]] + [term[3]]
    out = []
    if k == "drop":
        out = [term[3]]
        if isinstance(term[4], int):
            out.append(term[4])
    elif k == "call":
        if term[4] is not None:
            out.append(term[4])
        if isinstance(term[5], int):
            out.append(term[5])
    elif k == "assert":
        out = [term[3]]
        if isinstance(term[4], int):
            out.append(term[4])
    return out


def join_blocks(body):
    r = _joins.get(body)
    if r is None:
        cnt = {}
        for st, t, c in body.blocks:
            for s in succs(t):
                cnt[s] = cnt.get(s, 0) + 1
        r = {b for b, n in cnt.items() if n > 1}
        _joins[body] = r
    return r


_counters = {}


_depth = {}


def element_depth(t):
    """How many elements of sequences a value is nested in."""
    if isinstance(t, tuple):
        return max((element_depth(x) for x in t if isinstance(x, (Term, tuple))), default=0)
    if not t.syms:
        return 0
    r = _depth.get(t)
    if r is None:
        r = max((element_depth(x) for x in t.a if isinstance(x, (Term, tuple))), default=0)
        r = _depth[t] = r + (t.op in ("vel", "el"))
    return r


def counters(body, h, l):
    """Integer locals that are assigned in a loop and live at its head."""
    k = (body, h)
    r = _counters.get(k)
    if r is None:
        live = live_in(body)[h]
        r = []
        for n in sorted(live):
            if body.prog.types[body.locals[n][0]]["k"] in ("int", "uint"):
                for b in l:
                    st, t, _ = body.blocks[b]
                    if any(s[0] == "=" and s[1] == [n] for s in st) or t[0] == "call" and t[3] == [n]:
                        r.append(n)
                        break
        _counters[k] = r
    return r


def loops_of(body):
    """Natural loops as sets of blocks."""
    r = _loops.get(body)
    if r is not None:
        return r
    n = len(body.blocks)
    pred = [[] for _ in range(n)]
    for i, (st, t, c) in enumerate(body.blocks):
        for s in succs(t):
            pred[s].append(i)
    dom = [None] * n
    order, seen = [], set()

    def dfs(x):
        stack = [(x, iter(succs(body.blocks[x][1])))]
        seen.add(x)
        while stack:
            y, it = stack[-1]
            for z in it:
                if z not in seen:
                    seen.add(z)
                    stack.append((z, iter(succs(body.blocks[z][1]))))
                    break
            else:
                order.append(y)
                stack.pop()
    dfs(0)
    order.reverse()
    allb = frozenset(order)
    dom = {b: allb for b in order}
    dom[0] = frozenset([0])
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == 0:
                continue
            ps = [dom[p] for p in pred[b] if p in dom]
            nd = frozenset.intersection(*ps) | {b} if ps else frozenset([b])
            if nd != dom[b]:
                dom[b] = nd
                ch = True
    loops = {}
    for b in order:
        for s in succs(body.blocks[b][1]):
            if s in dom[b]:
                l = loops.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in l:
                        l.add(x)
                        work += [p for p in pred[x] if p in dom]
    r = list(loops.items())
    _loops[body] = r
    return r


def _locals_in(x, out):
    """Locals read by a JSON operand/place structure."""
    if isinstance(x, dict):
        if "p" in x:
            pl = x["p"]
            out.add(pl[0])
            for e in pl[1:]:
                if e[0] == "i":
                    out.add(e[1])
        else:
            for v in x.values():
                _locals_in(v, out)
    elif isinstance(x, list):
        for v in x:
            _locals_in(v, out)


def live_in(body):
    r = _live.get(body)
    if r is not None:
        return r
    n = len(body.blocks)
    taken = set()
    use, defs = [], []
    for st, t, c in body.blocks:
        u, d = set(), set()

        def rd(ls):
            for l in ls:
                if l not in d:
                    u.add(l)
        for s in st:
            if s[0] == "=":
                pl, rv = s[1], s[2]
                o = set()
                if rv[0] in ("ref", "disc"):
                    o.add(rv[1][0])
                    for e in rv[1][1:]:
                        if e[0] == "i":
                            o.add(e[1])
                    if rv[0] == "ref" and not any(e[0] == "d" for e in rv[1][1:]):
                        taken.add(rv[1][0])
                else:
                    _locals_in(rv, o)
                rd(o)
                if len(pl) == 1:
                    d.add(pl[0])
                else:
                    rd([pl[0]] + [e[1] for e in pl[1:] if e[0] == "i"])
            elif s[0] == "setd":
                rd([s[1][0]])
        o = set()
        if t[0] == "call":
            _locals_in(t[1], o)
            _locals_in(t[2], o)
            rd(o)
            if len(t[3]) > 1:
                rd([t[3][0]])
        elif t[0] == "drop":
            rd([t[1][0]])
        elif t[0] in ("switch", "assert"):
            _locals_in(t[1], o)
            rd(o)
        elif t[0] == "ret":
            rd([0])
        use.append(u)
        defs.append(d)
    live = [set(u) for u in use]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            x = set()
            for s in succs(body.blocks[i][1]):
                x |= live[s]
            t = body.blocks[i][1]
            if t[0] == "call" and len(t[3]) == 1:
                x.discard(t[3][0])
            x -= defs[i]
            x |= use[i]
            if x != live[i]:
                live[i] = x
                ch = True
    r = [frozenset(l | taken) for l in live]
    _live[body] = r
    return r
