"""Models of the standard library (and of user code) for the dataflow analysis."""
import re
from .term import *
from .engine import (F, V, Restart, Frame, Event, OPT, RES, NONE, some, ok, err, assume, meet, assume_not, evalb, known, possible,
                     transparent, loops_of, counters, State)

OPEN_TRAITS = ("Collectable", "Visitor")


# ---------------------------------------------------------------- helpers
def tmp_root(eng, st, what):
    f = st.stack[-1]
    return T("tmp", f.ctx, f.block, what)


def fork_bool(eng, st, t):
    """[(state, bool)] for a boolean term."""
    if t.op == "c":
        return [(st, bool(t.a[0]))]
    out = []
    for v in (1, 0):
        s2 = st.copy()
        if assume(s2.facts, t, v):
            out.append((s2, bool(v)))
    return out


def payload(v, vi, vname, owner, i=0, name="0"):
    return proj(proj(v, V(vi, vname)), F(i, name, owner))


def fork_opt(eng, st, v):
    """[(state, payload or None)] for an Option value."""
    if v.op == "adt":
        return [(st, v.a[3][0] if v.a[1] == 1 else None)]
    d = T("disc", v)
    out = []
    for val in (1, 0):
        s2 = st.copy()
        if assume(s2.facts, d, val):
            out.append((s2, payload(v, 1, "Some", OPT) if val else None))
    return out


def coll_id(eng, st, arg):
    """Identity of the collection behind a reference."""
    p = eng.deref(arg)
    while p.a[-1:] == (("slice",),):
        p = T("P", *p.a[:-1])
    return eng.read(st, p), p


def local_id(t):
    return t.op in ("map", "vec")


def set_member(st, mid, key, val):
    m = T("mem", mid, key)
    dead = []
    for k in st.facts:
        if k.op == "mem" and k.a[0] is mid and k is not m:
            r = st.facts[k]
            if r[0] == r[1] and r[0] != val:
                dead.append(k)
    for k in dead:
        del st.facts[k]
    st.facts[m] = (val, val, frozenset())


def fork_member(eng, st, mid, key):
    return fork_bool(eng, st, T("mem", mid, key))


def forget_map(eng, st, events, mid, keep_true=True):
    for k in list(st.facts):
        if k.op == "mem" and k.a[0] is mid:
            r = st.facts[k]
            if not (keep_true and r[0] == 1):
                del st.facts[k]
    for q in [q for q in st.mem if q.a[0].op == "mv" and q.a[0].a[0] is mid]:
        del st.mem[q]
    if local_id(mid):
        st.mem[place(T("mep", mid))] = eng.fresh(st, "mep_" + "_".join(sorted(mid.syms)).replace("'", ""), events)


def mv(mid, key):
    return place(T("mv", mid, key))


def mk(mid, key):
    return place(T("mk", mid, key))


def in_loop(eng, name):
    """Was this symbol created inside a loop (of any frame on its call string)?"""
    base = name.rstrip("'")
    if "." not in base:
        return False
    ctx, rest = base.split(".", 1)
    if not ctx.isdigit():
        return False
    ctx, blk = int(ctx), rest.split(":", 1)[0]
    blk = int(blk) if blk.lstrip("-").isdigit() else None
    while ctx:
        parent, pb, key = eng.ctxs[ctx]
        if isinstance(key, str) and key.startswith("glue:"):
            if key.split(":")[1] in LOOPING:
                return True
        else:
            b = eng.prog.bodies.get(key)
            if b is not None and blk is not None and any(blk in l for _, l in loops_of(b)):
                return True
        ctx, blk = parent, pb
    return False


def fresh_map(eng, st, events, kind="map"):
    s = eng.fresh(st, kind, events)
    return T("map", s)


def fresh_vec(eng, st, events):
    return T("vec", eng.fresh(st, "vec", events))


def vec_templates(st, vid):
    t = st.mem.get(place(T("ve", vid)))
    return t.a[0] if t is not None and t.op == "ts" else None


def vec_exact(st, vid):
    """The elements of a local vector whose whole history is known, or None."""
    t = st.mem.get(place(T("vx", vid)))
    return t.a[0] if t is not None else None


def vec_new(eng, st, events, elems=()):
    v = fresh_vec(eng, st, events)
    eng.kill_root(st, T("ve", v))
    st.mem[place(T("vx", v))] = T("arr", tuple(elems))
    if elems:
        vec_retemplate(eng, st, v, elems)
    return v


def vec_retemplate(eng, st, vid, elems):
    st.mem.pop(place(T("ve", vid)), None)
    for v in elems:
        vec_template(eng, st, vid, v)


def same_loops(eng, st, vid):
    """Is the current call in the body, and in the loops, that created this vector?"""
    f = st.stack[-1]
    if f.body is None or vid.op != "vec" or vid.a[0].op != "s":
        return False
    ctx, rest = vid.a[0].a[0].rstrip("'").split(".", 1)
    blk = rest.split(":", 1)[0]
    if not blk.isdigit() or ctx != str(f.ctx):
        return False
    return all((int(blk) in l) == (f.block in l) for _, l in loops_of(f.body))


def vec_push(eng, st, events, vid, v, span):
    eng.ev(st, events, "vec_push", span, vec=vid, value=v)
    vec_changed(st, vid)
    ex = vec_exact(st, vid)
    if ex is not None:
        if same_loops(eng, st, vid):
            st.mem[place(T("vx", vid))] = T("arr", ex + (v,))
        else:
            del st.mem[place(T("vx", vid))]
    vec_template(eng, st, vid, v)


def vec_template(eng, st, vid, v):
    m = {}
    v = anonymous(v, m)
    names = sorted(n for n in v.syms if n not in m.values() and in_loop(eng, n))
    tpl = subst(v, {n: sym("~%d" % (i + len(m))) for i, n in enumerate(names)})
    old = vec_templates(st, vid) or ()
    if tpl not in old:
        old = tuple(sorted(old + (tpl,), key=lambda x: x.uid))
    st.mem[place(T("ve", vid))] = T("ts", old)


def anonymous(t, m):
    """Elements of other vectors become anonymous, or a worklist would name ever longer chains of them."""
    if isinstance(t, tuple):
        return tuple(anonymous(x, m) if isinstance(x, (Term, tuple)) else x for x in t)
    if t.op == "ld" and t.a[0].op in ("vel", "el"):
        n = m.get(t)
        if n is None:
            n = m[t] = "~%d" % len(m)
        return sym(n)
    if not t.syms or t.op == "s":
        return t
    a = tuple(anonymous(x, m) if isinstance(x, (Term, tuple)) else x for x in t.a)
    if a == t.a:
        return t
    return lin(*a) if t.op == "lin" else proj(*a) if t.op == "pj" else T(t.op, *a)


def vec_element(eng, st, events, vid):
    """States with one element taken out of a vector: [(state, events, value)]."""
    tpls = vec_templates(st, vid)
    if tpls is None:
        if vid.op == "vec":
            return []
        k = eng.fresh(st, "el", events)
        return [(st, events, eng.read(st, place(T("vel", vid, k))))]
    out = []
    for i, tpl in enumerate(tpls):
        s2, e2 = st.copy(), list(events)
        names = sorted(n for n in tpl.syms if n.startswith("~"))
        m = {}
        for n in names:
            m[n] = eng.fresh(s2, "el%d%s" % (i, n), e2)
        out.append((s2, e2, subst(tpl, m)))
    return out


# ---------------------------------------------------------------- user code
def user_code(eng, st, events, args, tys=(), visitor=None):
    """Forget what arbitrary code behind a user-implemented operation may change."""
    keep = {}
    for a in args:
        if a.op != "ref" and a.op not in ("s", "pj"):
            continue
    pres = eng.preserved
    if visitor is not None and visitor[0] is not None:
        p = eng.deref(visitor[0])
        ad = eng.prog.adts.get(visitor[1])
        if ad is not None:
            for i, f in enumerate(ad["variants"][0][1]):
                fp = sub(p, F(i, f[0], visitor[1]))
                if (visitor[1], i) in pres:
                    keep[fp] = eng.read(st, fp)
    st.epoch = eng.fresh(st, "ep", events)
    dead = []
    for q in st.mem:
        r = q.a[0]
        if r.op in ("static", "tls", "*", "lazy") or r.op in ("mv", "ve") and not local_id(r.a[0]):
            dead.append(q)
    for q in dead:
        del st.mem[q]
    for k in list(st.facts):
        if k.op == "mem" and not local_id(k.a[0]) and st.facts[k][0] == 0:
            del st.facts[k]
    seen = set()
    for a in args:
        if a.op == "ref":
            havoc_place(eng, st, events, a.a[0], seen, 0)
    for q, v in keep.items():
        if q.a[0].op != "L":
            st.mem[q] = v
        else:
            eng.write(st, q, v)


def havoc_place(eng, st, events, p, seen, d):
    if p in seen or d > 4:
        return
    seen.add(p)
    if p.a[0].op not in ("L", "tmp", "heap"):
        v = eng.read(st, p)
        havoc_inner(eng, st, events, v, seen, d)
        eng.kill_place(st, p)
        return
    v = eng.read(st, p)
    nv = havoc_value(eng, st, events, v, "p%d" % len(p.a), seen, d)
    if nv is not v:
        eng.write(st, p, nv)


def havoc_inner(eng, st, events, v, seen, d):
    for x in subterms(v):
        if local_id(x):
            forget_map(eng, st, events, x)


def havoc_value(eng, st, events, v, tag, seen, d):
    if local_id(v) or v.op in ("ld", "pj") or v.op == "s":
        forget_map(eng, st, events, v)
        if v.op in ("map", "vec", "ld", "pj"):
            return v
        return eng.fresh(st, "hv" + tag, events)
    if v.op == "adt" and v.a[4]:
        havoc_inner(eng, st, events, v, seen, d)
        for x in v.a[3]:
            havoc_value(eng, st, events, x, tag + "e", seen, d + 1)
        return eng.fresh(st, "hv" + tag, events)
    if v.op == "adt":
        ad = eng.prog.adts.get(v.a[0])
        vals = list(v.a[3])
        ch = False
        for i, x in enumerate(vals):
            if ad is not None and (v.a[0], i) in eng.preserved:
                if x.op == "ref":
                    havoc_place(eng, st, events, x.a[0], seen, d + 1)
                continue
            fty = None
            if ad is not None and v.a[1] < len(ad["variants"]) and i < len(ad["variants"][v.a[1]][1]):
                fty = eng.prog.types[ad["variants"][v.a[1]][1][i][1]]
            if x.op == "ref":
                if fty is None or fty.get("mut", True):
                    havoc_place(eng, st, events, x.a[0], seen, d + 1)
                continue
            nx = havoc_value(eng, st, events, x, tag + "f%d" % i, seen, d + 1)
            if nx is not x:
                vals[i] = nx
                ch = True
        if ch:
            return adt(v.a[0], v.a[1], v.a[2], vals, v.a[4], v.a[5])
        return v
    if v.op in ("c", "lin", "eq", "lt", "not", "and", "or"):
        return eng.fresh(st, "hv" + tag, events)
    return v


def may_user(eng, tid, seen=None):
    """May dropping a value of this type run code outside the crate?"""
    seen = seen if seen is not None else set()
    if tid in seen:
        return False
    seen.add(tid)
    ty = eng.prog.types[tid]
    if not ty.get("nd", True):
        return False
    if ty["k"] in ("param", "dyn", "other", "alias"):
        return True
    if ty["k"] == "adt":
        if ty.get("local") and ty["path"] in eng.prog.adts:
            for v in eng.prog.adts[ty["path"]]["variants"]:
                for f in v[1]:
                    if may_user(eng, f[1], seen):
                        return True
        return any(may_user(eng, a, seen) for a in ty.get("args", []))
    if ty["k"] in ("tuple", "array", "slice"):
        return any(may_user(eng, a, seen) for a in ty.get("args", []) or ([ty["to"]] if "to" in ty else []))
    return False


# ---------------------------------------------------------------- glue frames
LOOPING = {"find", "try_fold", "fold", "for_each", "any", "all", "collect", "extend", "retain", "find_map", "count",
           "position", "anycall", "partition"}


def push_glue(eng, st, name, data, dest, target, unwind):
    f = st.stack[-1]
    ctx = eng.ctx_child(f.ctx, f.block, "glue:" + name)
    st.stack = st.stack + (Frame(None, 0, ctx, dest, target, unwind, (name, data)),)


def glue_step(eng, st, step, data=None, events=None):
    f = st.stack[-1]
    if step == 0 and f.cont[0] in LOOPING:
        eng.purge(st, f.ctx, None, events)
    name, d = f.cont
    st.stack = st.stack[:-1] + (f._replace(block=step, cont=(name, data if data is not None else d)),)


def glue_tmp(st, i):
    return place(T("L", st.stack[-1].ctx, 900 + i))


def resume(eng, st, events):
    f = st.stack[-1]
    return GLUE[f.cont[0]](eng, st, events, f.block, f.cont[1])


def glue_unwind(eng, st, events):
    """A callee of a glue frame unwound: remaining destructors of a drop sequence still run."""
    f = st.stack[-1]
    if f.cont[0] == "drops":
        steps, unw = f.cont[1]
        st.stack = st.stack[:-1] + (f._replace(cont=("drops", (steps, True))),)
        return [(events, st)]
    if f.cont[0] == "catch":
        return glue_return(eng, st, events, err(eng.fresh(st, "payload", events)))
    return eng.unwind_from(st, events, True)


def glue_return(eng, st, events, v):
    return eng.finish_call(st, events, v)


def call_callee(eng, st, events, callee, args, dest, unwind="cont", argtys=None, destty=None, span=None):
    """Call with given argument values from a glue frame (the frame resumes when it returns)."""
    t = ["call", callee, None, None, 0, unwind, span or "", argtys or [], destty]
    return dispatch(eng, st, events, t, callee, args, dest)


def push_call(eng, st, events, b, args, dest, unwind):
    f = st.stack[-1]
    if f.cont is None:
        return eng.push(st, events, b, args, f.body.blocks[f.block][1])
    return eng.push(st, events, b, args, None, dest, 0, unwind)


def call_value(eng, st, events, f, args, dest, unwind="cont", span=None, pty=None, tys=None):
    """Call a function value with untupled arguments."""
    holder = None
    while f.op == "ref":
        holder = f
        f = eng.read(st, f.a[0])
    if f.op == "clos":
        b = eng.prog.bodies.get(f.a[0])
        if b is not None:
            if eng.in_chain(st.stack[-1].ctx, b.key):
                return recursion(eng, st, events, b, args, dest, span)
            envty = eng.prog.types[b.locals[1][0]] if b.argc >= 1 else None
            if envty is not None and envty["k"] == "ref":
                if holder is None:
                    tmp = place(tmp_root(eng, st, "clos-env"))
                    st.mem[tmp] = f
                    holder = ref(tmp)
                env = holder
            else:
                env = f
            return push_call(eng, st, events, b, [env] + list(args), dest, unwind)
    if f.op == "fn":
        c = eng.fns[f.a[0]]
        return call_callee(eng, st, events, c, args, dest, unwind, span=span)
    return indirect(eng, st, events, f, args, dest, unwind, span, pty, tys)


def indirect(eng, st, events, f, args, dest, unwind, span, pty, tys=None):
    """Call through a function pointer that the analysis does not know."""
    owner = field = None
    x = f
    while x.op in ("pj",):
        e = x.a[1]
        if e[0] == "f":
            owner, field = e[3], e[2]
            break
        x = x.a[0]
    ps = tystr(eng, pty)
    if ps in open_fn_types(eng):
        kind = "condition"
    else:
        kind = "icall"
    r = eng.fresh(st, "ic", events)
    eng.ev(st, events, kind, span, fn_value=f, owner=owner, field=field, args=tuple(args), pty=ps, result=r,
           vals=tuple(arg_value(eng, st, a) for a in args))
    outs = []
    muts = [a for i, a in enumerate(args) if not (tys and i < len(tys) and eng.prog.types[tys[i]]["k"] == "ref"
                                                  and not eng.prog.types[tys[i]].get("mut"))]
    if eng.unwind:
        s2 = st.copy()
        e2 = list(events)
        user_code(eng, s2, e2, muts)
        eng.ev(s2, e2, "upanic", span, what=kind)
        outs += raise_any(eng, s2, e2, unwind)
    user_code(eng, st, events, muts)
    return outs + finish(eng, st, events, dest, r)


def arg_value(eng, st, a):
    """What an argument points to, with references inside resolved one level (for the rules)."""
    if a.op != "ref":
        return a
    v = eng.read(st, a.a[0])
    if v.op == "adt":
        vals = tuple(T("refto", y.a[0], eng.read(st, y.a[0])) if y.op == "ref" else y for y in v.a[3])
        v = T("adt", *(v.a[:3] + (vals,) + v.a[4:]))
    return T("refto", a.a[0], v)


def tystr(eng, t):
    if t is None:
        return ""
    return t if isinstance(t, str) else eng.prog.types[t]["s"]


def open_fn_types(eng):
    if not hasattr(eng.prog, "_openfns"):
        s = set()
        for b in eng.prog.local_fns:
            if b.reach:
                for i in range(1, b.argc + 1):
                    ty = eng.prog.types[b.locals[i][0]]
                    if ty["k"] == "fnptr":
                        s.add(ty["s"])
        eng.prog._openfns = s
    return eng.prog._openfns


def finish(eng, st, events, dest, v, t=None):
    """Finish a modelled call: MIR frame (t given via CUR) or glue frame."""
    f = st.stack[-1]
    if f.cont is not None:
        if dest is not None:
            eng.write(st, dest, v)
        return [(events, st)]
    t = f.body.blocks[f.block][1]
    return eng.value(st, events, t, v)


def recursion(eng, st, events, b, args, dest, span):
    ctx = next((f.ctx for f in reversed(st.stack) if f.body is not None and f.body.key == b.key), None)
    for i, a in enumerate(args):
        old = eng.entry.get((ctx, i))
        if old is not None and a is not old:
            eng.varying.add((b.key, i))
            raise Restart()
    r = eng.fresh(st, "rec", events)
    eng.ev(st, events, "rec", span, callee=b.key, path=b.path, args=tuple(args), result=r)
    user_code(eng, st, events, args)
    return finish(eng, st, events, dest, r)


# ---------------------------------------------------------------- calls
def call(eng, st, events, t):
    c = t[1]
    args = [eng.operand(st, a) for a in t[2]]
    if "ptr" in c:
        f = eng.operand(st, c["ptr"])
        return call_value(eng, st, events, f, args, None, t[5], t[6], c.get("pty"), t[7])
    return dispatch(eng, st, events, t, c, args, None)


def dispatch(eng, st, events, t, c, args, dest):
    if c.get("ctor"):
        ad = c["adt"]
        ty = eng.prog.types[t[8]] if t[8] is not None else None
        if transparent(ad):
            return finish(eng, st, events, dest, args[0])
        names = tuple(str(i) for i in range(len(args)))
        is_enum, vname = False, ad.split("::")[-1]
        a = eng.prog.adts.get(ad)
        if a is not None:
            is_enum = a["kind"] == "enum"
            vname = a["variants"][c["variant"]][0]
        elif ad == OPT:
            is_enum, vname = True, ("None", "Some")[c["variant"]]
        elif ad == RES:
            is_enum, vname = True, ("Ok", "Err")[c["variant"]]
        return finish(eng, st, events, dest, adt(ad, c["variant"], vname, args, is_enum, names))
    path = c.get("rpath") or c["path"]
    x = Call(eng, st, events, t, c, args, dest, path)
    for op in eng.opaque:
        r = op(x)
        if r is not None:
            return r
    m = MODELS.get(path)
    if m is None:
        for rx, fn in PATTERNS:
            if rx.match(path):
                m = fn
                break
    if m is not None:
        r = m(x)
        if r is not None:
            return r
    # calls of closures and function items through the Fn traits
    if c["path"] in ("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut",
                     "core::ops::function::FnOnce::call_once"):
        tup = args[1]
        n = len(tup.a[0]) if tup.op == "tup" else None
        if n is None:
            aty = eng.prog.types[t[7][1]] if t[7] and len(t[7]) > 1 else None
            n = len(aty.get("args", [])) if aty and aty["k"] == "tuple" else 1
        vals = [proj(tup, F(i, str(i), "tuple")) for i in range(n)]
        return call_value(eng, st, events, args[0], vals, dest, t[5], t[6])
    if c.get("rk") == "unresolved":
        return trait_call(x)
    inst = c.get("inst")
    b = eng.prog.bodies.get(inst) if inst else None
    if b is not None and not (eng.noinline and eng.noinline(b, x)):
        if eng.in_chain(st.stack[-1].ctx, b.key):
            return recursion(eng, st, events, b, args, dest, t[6])
        if b.kind == "Closure":
            return call_value(eng, st, events, args[0], args[1:], dest, t[5], t[6])
        return push_call(eng, st, events, b, args, dest, t[5])
    return unknown_call(x)


class Call:
    """A call being modelled."""

    def __init__(self, eng, st, events, t, c, args, dest, path):
        self.eng, self.st, self.events, self.t, self.c, self.args, self.dest, self.path = \
            eng, st, events, t, c, args, dest, path
        self.span, self.unwind = t[6], t[5]

    def ret(self, v, st=None, events=None):
        return finish(self.eng, st or self.st, self.events if events is None else events, self.dest, v)

    def ev(self, kind, st=None, events=None, **d):
        self.eng.ev(st or self.st, self.events if events is None else events, kind, self.span, **d)

    def fresh(self, kind, st=None, events=None):
        return self.eng.fresh(st or self.st, kind, self.events if events is None else events)

    def obj(self, i=0):
        return self.eng.read(self.st, self.eng.deref(self.args[i]))

    def at(self, i=0):
        return self.eng.deref(self.args[i])

    def targ(self, i):
        a = self.c.get("targs") or []
        return self.eng.prog.types[a[i]] if i < len(a) else None

    def argty(self, i):
        a = self.t[7]
        return a[i] if a and i < len(a) else None

    def forks(self):
        return self.events

    def panic(self, msg, st=None, events=None):
        st, events = st or self.st, self.events if events is None else events
        self.eng.ev(st, events, "panic", self.span, msg=msg)
        return raise_any(self.eng, st, events, self.unwind)

    def glue(self, name, data):
        f = self.st.stack[-1]
        if f.cont is not None:
            dest, target = self.dest, 0
        else:
            dest = self.eng.eval_place(self.st, self.t[3])
            target = self.t[4]
        push_glue(self.eng, self.st, name, data, dest, target, self.unwind)
        return [(self.events, self.st)]

    def user(self, args=None, visitor=None, what="user"):
        """Run user code; returns the extra outcomes where it panics."""
        outs = []
        args = self.args if args is None else args
        if self.eng.unwind:
            s2, e2 = self.st.copy(), list(self.events)
            user_code(self.eng, s2, e2, args, visitor=visitor)
            self.eng.ev(s2, e2, "upanic", self.span, what=what)
            outs = raise_any(self.eng, s2, e2, self.unwind)
        user_code(self.eng, self.st, self.events, args, visitor=visitor)
        return outs


def raise_any(eng, st, events, unwind):
    if st.stack[-1].cont is not None:
        if not eng.unwind:
            return [(events, ("stop", "panic"))]
        return glue_unwind(eng, st, events)
    return eng.raise_(st, events, unwind)


def trait_call(x):
    """A trait method whose implementation is chosen by the user's types."""
    c = x.c
    p = c["path"]
    eng, st = x.eng, x.st
    if p.endswith("Collectable::accept"):
        vty = x.targ(1)
        vt = None
        if vty is not None:
            vt = vty.get("path") if vty["k"] == "adt" else vty["s"]
        r = x.fresh("acc")
        at = x.at(0)
        x.ev("accept", value=at, visitor=x.args[1], vty=vt, result=r, selfty=eng.prog.tys(c["self"]),
             content=eng.read(st, at) if at.a[0].op in ("L", "tmp") else None)
        ev = x.events[-1]
        vp = eng.deref(x.args[1])
        ev.d["vval"] = eng.read(st, vp) if vp.a[0].op == "L" else None
        outs = x.user(args=x.args[1:], visitor=(x.args[1], vt), what="accept")
        ev.d["after"] = arg_value(eng, st, x.args[1])
        return outs + x.ret(r)
    if "Visitor::visit_" in p:
        r = UNIT
        x.ev("visit", method=p.split("::")[-1], visitor=x.args[0], gc=x.at(1))
        outs = x.user(what="visit")
        return outs + x.ret(r)
    r = x.fresh("tc")
    x.ev("tcall", path=p, args=tuple(x.args), result=r, selfty=eng.prog.tys(c["self"]) if "self" in c else "")
    outs = x.user(what="tcall")
    return outs + x.ret(r)


def unknown_call(x):
    eng, st = x.eng, x.st
    g = eng.g
    pure = PURE.match(x.path)
    if not pure:
        g.unmodelled[x.path] = g.unmodelled.get(x.path, 0) + 1
    r = x.fresh("call")
    x.ev("call", path=x.path, args=tuple(x.args), result=r, vals=tuple(arg_value(eng, st, a) for a in x.args))
    tys = x.t[7] or []
    for i, a in enumerate(x.args):
        ty = eng.prog.types[tys[i]] if i < len(tys) else None
        if a.op == "ref" and (ty is None or ty.get("mut")):
            if pure:
                continue
            havoc_place(eng, st, x.events, a.a[0], set(), 0)
    clos = [a for a in x.args if is_callable(eng, st, a)]
    if clos and not pure:
        x.st.facts[T("anyres", r)] = (1, 1, frozenset())
        return x.glue("anycall", (tuple(clos), r))
    return x.ret(r)


def is_callable(eng, st, a):
    if a.op == "ref":
        a = st.mem.get(a.a[0], a)
    return a.op in ("clos", "fn")


PURE = re.compile(r"core::fmt::|<.* as core::fmt::|alloc::fmt::|core::panicking::|core::mem::size_of|core::mem::align_of|"
                  r"core::intrinsics::|core::ub_checks|core::hint::|<.* as core::hash::|core::hash::|core::any::|"
                  r"core::alloc::layout::")


def g_anycall(eng, st, events, step, data):
    """An unknown library function calls its closures any number of times."""
    clos, r = data
    outs = []
    s2 = st.copy()
    outs += glue_return(eng, s2, list(events), r)
    if step < 2:
        for i, f in enumerate(clos):
            s3, e3 = st.copy(), list(events)
            glue_step(eng, s3, step + 1)
            n = callable_arity(eng, s3, f)
            args = [eng.fresh(s3, "ca%d" % j, e3) for j in range(n)]
            outs += call_value(eng, s3, e3, f, args, glue_tmp(s3, 0))
    return outs


def callable_arity(eng, st, f):
    while f.op == "ref":
        f = eng.read(st, f.a[0])
    if f.op == "clos":
        b = eng.prog.bodies.get(f.a[0])
        return b.argc - 1 if b else 0
    c = eng.fns[f.a[0]]
    b = eng.prog.bodies.get(c.get("inst"))
    return b.argc if b else 1


# ---------------------------------------------------------------- drops
GUARDS = re.compile(r"core::cell::(Ref|RefMut|BorrowRef|BorrowRefMut)$|lock_api::(mutex|rwlock)::.*Guard$|"
                    r"std::sync::poison::(mutex|rwlock)::.*Guard$")


def drop_steps(eng, st, p, tid, depth=0):
    ty = eng.prog.types[tid]
    if not ty.get("nd", True):
        return []
    v = eng.read(st, p)
    if v.op in ("undef", "bot"):
        return []
    k = ty["k"]
    if k == "adt":
        path = ty["path"]
        if GUARDS.match(path):
            return [("guard", p)]
        if path == "alloc::boxed::Box":
            return [("box", p, ty["args"][0])]
        if path in (OPT, RES):
            if v.op == "adt":
                if path == OPT and v.a[1] == 0:
                    return []
                a = ty["args"][0 if path == OPT else v.a[1]]
                return drop_steps(eng, st, sub(sub(p, V(v.a[1], v.a[2])), F(0, "0", path)), a, depth + 1)
            subs = []
            names = [(1, "Some")] if path == OPT else [(0, "Ok"), (1, "Err")]
            for vi, vn in names:
                a = ty["args"][0 if path == OPT else vi]
                if eng.prog.types[a].get("nd", True):
                    subs.append((vi, vn, a))
            if subs and (may_user(eng, tid) or any(True for _ in ())):
                return [("enum", p, tid, tuple(subs))]
            return [("std", p, tid)]
        if ty.get("local"):
            out = []
            if ty.get("has_drop"):
                out.append(("call", p, ty.get("drop_inst"), tid))
            ad = eng.prog.adts.get(path)
            if ad is not None and ad["kind"] == "struct":
                for i, f in enumerate(ad["variants"][0][1]):
                    out += drop_steps(eng, st, sub(p, F(i, f[0], path)), f[1], depth + 1)
            elif ad is not None:
                out.append(("std", p, tid))
            return out
        return [("std", p, tid)]
    if k == "tuple":
        out = []
        for i, a in enumerate(ty.get("args", [])):
            out += drop_steps(eng, st, sub(p, F(i, str(i), "tuple")), a, depth + 1)
        return out
    if k == "closure":
        return [("std", p, tid)]
    if k in ("param", "dyn", "other", "alias"):
        return [("user", p, tid)]
    return [("std", p, tid)]


def drop_terminator(eng, st, events, p, t):
    steps = drop_steps(eng, st, p, t[2])
    if not steps:
        eng.goto(st, t[3], events)
        return [(events, st)]
    push_glue(eng, st, "drops", (tuple(steps), False), None, t[3], t[4])
    return [(events, st)]


def emit_unlock(eng, st, events, g):
    """g: guard term."""
    eng.ev(st, events, "unlock", None, lock=g.a[1], mode=g.a[0])


def guards_in(v):
    return [x for x in subterms(v) if x.op == "guard"]


def g_drops(eng, st, events, step, data):
    steps, unwinding = data
    while steps:
        s = steps[0]
        steps = steps[1:]
        glue_step(eng, st, step + 1 if step < 50 else 50, (steps, unwinding))
        step += 1
        k = s[0]
        if k == "guard":
            v = eng.read(st, s[1])
            gs = guards_in(v)
            for g in gs:
                emit_unlock(eng, st, events, g)
            if not gs:
                eng.ev(st, events, "unlock", None, lock=place(T("unk", v)), mode="?")
            eng.kill_place(st, s[1]) if s[1].a[0].op == "L" else None
        elif k == "std":
            v = eng.read(st, s[1])
            for g in guards_in(v):
                emit_unlock(eng, st, events, g)
            ty = eng.prog.types[s[2]]
            u = may_user(eng, s[2])
            eng.ev(st, events, "stddrop", None, place=s[1], value=v, ty=ty["s"], user=u)
            if u:
                return user_drop(eng, st, events, ty["s"])
        elif k == "enum":
            outs = []
            v = eng.read(st, s[1])
            d = T("disc", v)
            vals = [0, 1]
            for vi in vals:
                s2 = st.copy()
                if assume(s2.facts, d, vi):
                    sel = [z for z in s[3] if z[0] == vi]
                    extra = []
                    for _, vn, a in sel:
                        extra += drop_steps(eng, s2, sub(sub(s[1], V(vi, vn)),
                                                         F(0, "0", eng.prog.types[s[2]]["path"])), a)
                    glue_step(eng, s2, step, (tuple(extra) + steps, unwinding))
                    outs.append((list(events), s2))
            return outs
        elif k == "user":
            ty = eng.prog.types[s[2]]
            eng.ev(st, events, "userdrop", None, place=s[1], ty=ty["s"])
            return user_drop(eng, st, events, ty["s"])
        elif k == "box":
            v = eng.read(st, s[1])
            p = eng.deref(v)
            ty = eng.prog.types[s[2]]
            eng.ev(st, events, "drop_in_place", None, place=p, ty=ty["s"])
            eng.ev(st, events, "dealloc", None, place=p, layout=T("layout", p), boxed=True)
            if may_user(eng, s[2]):
                return user_drop(eng, st, events, ty["s"])
        elif k == "call":
            b = eng.prog.bodies.get(s[2]) if s[2] else None
            if b is None:
                eng.ev(st, events, "localdrop", None, place=s[1], ty=eng.prog.types[s[3]]["s"])
                return user_drop(eng, st, events, eng.prog.types[s[3]]["s"])
            if eng.in_chain(st.stack[-1].ctx, b.key):
                eng.ev(st, events, "rec", None, callee=b.key, path=b.path, args=(ref(s[1]),), result=UNIT)
                user_code(eng, st, events, [])
                return [(events, st)]
            return eng.push(st, events, b, [ref(s[1])], None, None, 0, "cont")
    # finished
    f = st.stack[-1]
    if unwinding:
        return eng.unwind_from(st, events, True)
    return eng.finish_call(st, events, UNIT)


def user_drop(eng, st, events, ty):
    outs = []
    if eng.unwind and not st.stack[-1].cont[1][1]:
        s2, e2 = st.copy(), list(events)
        user_code(eng, s2, e2, [])
        eng.ev(s2, e2, "upanic", None, what="drop")
        outs = glue_unwind(eng, s2, e2)
    user_code(eng, st, events, [])
    return outs + [(events, st)]


# ---------------------------------------------------------------- iterator glue
def next_callee(x):
    aux = x.c.get("aux_next") or []
    selfty = x.targ(0)
    for a in aux:
        if selfty is not None and a["ty"] == selfty["s"]:
            return freeze(a)
    return freeze(aux[0]) if aux else None


_frozen = {}


def freeze(a):
    k = (a["rpath"], a.get("inst"))
    return k


def thaw(eng, k, selfarg=None):
    return {"path": "core::iter::traits::iterator::Iterator::next", "rpath": k[0], "inst": k[1], "rk": "item",
            "local": False, "targs": []}


def g_iter(kind):
    def run(eng, st, events, step, data):
        nxt, it, f, acc = data
        # step 0: call next; 1: inspect; 2: inspect the closure's result
        if step == 0:
            glue_step(eng, st, 1)
            return call_callee(eng, st, events, thaw(eng, nxt), [it], glue_tmp(st, 0))
        if step == 1:
            v = eng.read(st, glue_tmp(st, 0))
            outs = []
            for s2, pv in fork_opt(eng, st, v):
                e2 = list(events)
                if pv is None:
                    end = ITER_END[kind](eng, s2, acc)
                    if kind == "collect" and f is not None:
                        end = ok(end) if f == RES else some(end)
                    outs += glue_return(eng, s2, e2, end)
                    continue
                if kind == "count":
                    glue_step(eng, s2, 0, events=e2)
                    outs.append((e2, s2))
                    continue
                if kind in ("collect", "extend"):
                    tries = fork_try(eng, s2, pv, f) if f is not None else [(s2, True, pv)]
                    for s3, cont, val in tries:
                        e3 = list(e2)
                        if not cont:
                            outs += glue_return(eng, s3, e3, err(payload(pv, 1, "Err", RES)) if f == RES else NONE)
                            continue
                        if acc is not UNIT:
                            collect_one(eng, s3, e3, acc, val)
                        glue_step(eng, s3, 0, events=e3)
                        outs.append((e3, s3))
                    continue
                eng.write(s2, glue_tmp(s2, 1), pv)
                glue_step(eng, s2, 2)
                if kind in ("find", "partition"):
                    args = [ref(glue_tmp(s2, 1))]
                elif kind in ("fold", "try_fold"):
                    args = [eng.read(s2, glue_tmp(s2, 3)), pv]
                else:
                    args = [pv]
                outs += call_value(eng, s2, e2, f, args, glue_tmp(s2, 2))
            return outs
        r = eng.read(st, glue_tmp(st, 2))
        outs = []
        if kind in ("for_each",):
            glue_step(eng, st, 0, events=events)
            return [(events, st)]
        if kind == "fold":
            eng.write(st, glue_tmp(st, 3), r)
            glue_step(eng, st, 0, events=events)
            return [(events, st)]
        if kind == "find_map":
            for s2, pv in fork_opt(eng, st, r):
                if pv is not None:
                    outs += glue_return(eng, s2, list(events), some(pv))
                else:
                    e2 = list(events)
                    glue_step(eng, s2, 0, events=e2)
                    outs.append((e2, s2))
            return outs
        if kind == "try_fold":
            # the accumulator is some Try type: ControlFlow, Result or Option
            for s2, cont, val in fork_try(eng, st, r):
                if cont:
                    eng.write(s2, glue_tmp(s2, 3), val)
                    e2 = list(events)
                    glue_step(eng, s2, 0, events=e2)
                    outs.append((e2, s2))
                else:
                    outs += glue_return(eng, s2, list(events), val)
            return outs
        for s2, b in fork_bool(eng, st, r):
            e2 = list(events)
            if kind == "find":
                if b:
                    outs += glue_return(eng, s2, e2, some(eng.read(s2, glue_tmp(s2, 1))))
                    continue
            elif kind == "any":
                if b:
                    outs += glue_return(eng, s2, e2, TRUE)
                    continue
            elif kind == "all":
                if not b:
                    outs += glue_return(eng, s2, e2, FALSE)
                    continue
            elif kind == "partition":
                collect_one(eng, s2, e2, acc.a[0][0 if b else 1], eng.read(s2, glue_tmp(s2, 1)))
            elif kind == "position":
                if b:
                    outs += glue_return(eng, s2, e2, some(eng.fresh(s2, "pos", e2)))
                    continue
            glue_step(eng, s2, 0, events=e2)
            outs.append((e2, s2))
        return outs
    return run


CF = "core::ops::control_flow::ControlFlow"


def fork_try(eng, st, r, kind=CF):
    """[(state, continues, value)]: value is the output if it continues, else the whole residual value."""
    if r.op == "adt":
        if r.a[0] == OPT:
            return [(st, r.a[1] == 1, r.a[3][0] if r.a[1] == 1 else r)]
        return [(st, r.a[1] == 0, r.a[3][0] if r.a[1] == 0 else r)]
    out = []
    d = T("disc", r)
    n, name = {OPT: (1, "Some"), RES: (0, "Ok")}.get(kind, (0, "Continue"))
    for v in (0, 1):
        s2 = st.copy()
        if assume(s2.facts, d, v):
            out.append((s2, v == n, payload(r, n, name, kind) if v == n else r))
    return out


def _try_end(eng, st, acc):
    v = eng.read(st, glue_tmp(st, 3))
    if acc == RES:
        return ok(v)
    if acc == OPT:
        return some(v)
    return adt(CF, 0, "Continue", (v,), True, ("0",))


ITER_END = {
    "find": lambda e, s, a: NONE, "for_each": lambda e, s, a: UNIT, "any": lambda e, s, a: FALSE,
    "all": lambda e, s, a: TRUE, "fold": lambda e, s, a: e.read(s, glue_tmp(s, 3)), "find_map": lambda e, s, a: NONE,
    "try_fold": _try_end, "collect": lambda e, s, a: a if isinstance(a, Term) and a.op in ("vec", "map") else UNIT,
    "extend": lambda e, s, a: UNIT, "count": lambda e, s, a: e.fresh(s, "cnt"), "position": lambda e, s, a: NONE,
    "partition": lambda e, s, a: a,
}


def collect_one(eng, st, events, tgt, v):
    if tgt.op == "map":
        if v.op == "tup" and len(v.a[0]) == 2:
            k, val = v.a[0]
            set_member(st, tgt, k, 1)
            st.mem[mv(tgt, k)] = val
            eng.ev(st, events, "map_insert", None, map=tgt, key=k, value=val, existed=None, place=None)
        else:
            set_member(st, tgt, v, 1)
            eng.ev(st, events, "set_insert", None, set=tgt, key=v, new=None, place=None)
    else:
        vec_push(eng, st, events, tgt, v, None)


GLUE = {"drops": g_drops, "anycall": g_anycall}
for _k in ("find", "for_each", "any", "all", "fold", "find_map", "try_fold", "collect", "extend", "count", "position",
           "partition"):
    GLUE[_k] = g_iter(_k)


# ---------------------------------------------------------------- the model table
MODELS = {}
PATTERNS = []


def model(*paths):
    def d(f):
        for p in paths:
            MODELS[p] = f
        return f
    return d


def pattern(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


IDENT = ["core::ptr::from_mut", "core::ptr::from_ref", "core::ptr::non_null::NonNull::<T>::as_ptr",
         "core::ptr::non_null::NonNull::<T>::new_unchecked", "core::cell::UnsafeCell::<T>::get",
         "core::cell::UnsafeCell::<T>::new", "core::cell::UnsafeCell::<T>::into_inner",
         "core::cell::Cell::<T>::new", "core::cell::Cell::<T>::as_ptr", "core::cell::Cell::<T>::into_inner",
         "core::cell::UnsafeCell::<T>::get_mut", "core::cell::Cell::<T>::get_mut", "core::cell::UnsafeCell::<T>::raw_get",
         "core::num::nonzero::NonZero::<T>::new_unchecked",
         "core::mem::maybe_uninit::MaybeUninit::<T>::assume_init", "core::mem::maybe_uninit::MaybeUninit::<T>::new",
         "core::mem::maybe_uninit::MaybeUninit::<T>::as_mut_ptr", "core::mem::maybe_uninit::MaybeUninit::<T>::as_ptr",
         "core::mem::manually_drop::ManuallyDrop::<T>::new", "core::mem::manually_drop::ManuallyDrop::<T>::into_inner",
         "alloc::boxed::Box::<T, A>::leak", "alloc::boxed::Box::<T, A>::into_raw", "alloc::boxed::Box::<T>::into_raw",
         "alloc::boxed::Box::<T>::from_raw",
         "alloc::boxed::Box::<T, A>::into_non_null", "alloc::boxed::Box::<T>::into_non_null",
         "core::ptr::mut_ptr::<impl *mut T>::cast_const", "core::ptr::const_ptr::<impl *const T>::cast_mut",
         "core::sync::atomic::Atomic::<usize>::new", "core::sync::atomic::Atomic::<*mut T>::new",
         "core::sync::atomic::Atomic::<bool>::new",
         "core::sync::atomic::Atomic::<usize>::into_inner", "core::sync::atomic::Atomic::<usize>::get_mut",
         "core::ptr::non_null::NonNull::<T>::as_ref", "core::ptr::non_null::NonNull::<T>::as_mut",
         "core::pin::Pin::<Ptr>::new_unchecked",
         "<core::ptr::non_null::NonNull<T> as core::convert::From<&T>>::from",
         "<core::ptr::non_null::NonNull<T> as core::convert::From<&mut T>>::from"]


@model(*IDENT)
def m_ident(x):
    if x.path.endswith("::as_ref") or x.path.endswith("::as_mut"):
        return x.ret(x.obj())       # &NonNull -> the pointer it holds, as a reference
    if x.path.endswith("::from_raw"):
        return x.ret(x.args[0])
    return x.ret(x.args[0])


@model("<core::mem::manually_drop::ManuallyDrop<T> as core::ops::deref::Deref>::deref",
       "<core::mem::manually_drop::ManuallyDrop<T> as core::ops::deref::DerefMut>::deref_mut",
       "core::ptr::const_ptr::<impl *const T>::as_ref_unchecked")
def m_ident2(x):
    return x.ret(x.args[0])


@model("core::ptr::mut_ptr::<impl *mut T>::as_ref", "core::ptr::const_ptr::<impl *const T>::as_ref",
       "core::ptr::mut_ptr::<impl *mut T>::as_mut", "core::ptr::non_null::NonNull::<T>::new")
def m_ptr_opt(x):
    p = x.args[0]
    out = []
    for s2, b in fork_bool(x.eng, x.st, isnull(p)):
        out += x.ret(NONE if b else some(p), s2, list(x.events))
    return out


def isnull(p):
    if p.op == "ref":
        return FALSE
    if p.op == "c":
        return C(p.a[0] == 0)
    if p.op == "withaddr":
        return C(p.a[1].op == "c" and p.a[1].a[0] == 0) if p.a[1].op == "c" else T("isnull", p)
    return T("isnull", p)


@model("core::ptr::mut_ptr::<impl *mut T>::is_null", "core::ptr::const_ptr::<impl *const T>::is_null")
def m_is_null(x):
    return x.ret(isnull(x.args[0]))


@model("core::ptr::mut_ptr::<impl *mut T>::with_addr", "core::ptr::const_ptr::<impl *const T>::with_addr")
def m_with_addr(x):
    return x.ret(T("withaddr", x.args[0], x.args[1]))


@model("core::ptr::mut_ptr::<impl *mut T>::map_addr", "core::ptr::const_ptr::<impl *const T>::map_addr")
def m_map_addr(x):
    r = x.glue("map_addr", (x.args[0], x.args[1]))
    return r


def g_map_addr(eng, st, events, step, data):
    p, f = data
    if step == 0:
        glue_step(eng, st, 1)
        return call_value(eng, st, events, f, [T("addr", p)], glue_tmp(st, 0))
    return glue_return(eng, st, events, T("withaddr", p, eng.read(st, glue_tmp(st, 0))))


GLUE["map_addr"] = g_map_addr


@model("core::ptr::null_mut", "core::ptr::null")
def m_null(x):
    return x.ret(C(0))


@model("core::ptr::mut_ptr::<impl *mut T>::cast", "core::ptr::const_ptr::<impl *const T>::cast",
       "core::ptr::non_null::NonNull::<T>::cast")
def m_cast(x):
    ts = x.c.get("targs") or []
    if len(ts) == 2:
        return x.ret(x.eng.pointee_cast(x.st, x.args[0], ts[0], ts[1]))
    return x.ret(x.args[0])


@model("core::ptr::mut_ptr::<impl *mut T>::write", "core::ptr::write", "core::ptr::non_null::NonNull::<T>::write",
       "core::mem::maybe_uninit::MaybeUninit::<T>::write")
def m_ptr_write(x):
    p = x.at(0)
    if p.a[0].op not in ("L", "tmp"):
        x.ev("store", place=p, value=x.args[1], old=x.eng.read(x.st, p))
    x.eng.write(x.st, p, x.args[1])
    return x.ret(UNIT)


@model("core::ptr::read", "core::ptr::mut_ptr::<impl *mut T>::read", "core::ptr::const_ptr::<impl *const T>::read",
       "core::ptr::non_null::NonNull::<T>::read", "core::cell::Cell::<T>::get",
       "<core::cell::Cell<T> as core::clone::Clone>::clone")
def m_read(x):
    return x.ret(x.obj())


@model("core::mem::transmute_copy")
def m_transmute_copy(x):
    return x.ret(x.obj())


@pattern(r"core::slice::<impl \[T\]>::as_(mut_)?ptr$|core::array::<impl \[T; N\]>::as_(mut_)?ptr$")
def m_slice_ptr(x):
    p = x.at(0)
    return None if p.a[-1:] == (("slice",),) else x.ret(ref(p))


@model("core::cell::Cell::<T>::set")
def m_cell_set(x):
    p = x.at(0)
    x.ev("store", place=p, value=x.args[1], old=x.eng.read(x.st, p), cell=True)
    x.eng.write(x.st, p, x.args[1])
    return x.ret(UNIT)


@model("core::cell::Cell::<T>::replace", "core::mem::replace", "core::ptr::replace",
       "core::ptr::mut_ptr::<impl *mut T>::replace")
def m_cell_replace(x):
    p = x.at(0)
    old = x.eng.read(x.st, p)
    if p.a[0].op not in ("L", "tmp"):
        x.ev("store", place=p, value=x.args[1], old=old, cell=True)
    x.eng.write(x.st, p, x.args[1])
    return x.ret(old)


@model("core::mem::swap", "core::cell::Cell::<T>::swap", "core::ptr::swap")
def m_swap(x):
    p, q = x.at(0), x.at(1)
    a, b = x.eng.read(x.st, p), x.eng.read(x.st, q)
    for pl, v, o in ((p, b, a), (q, a, b)):
        if pl.a[0].op not in ("L", "tmp"):
            x.ev("store", place=pl, value=v, old=o)
        x.eng.write(x.st, pl, v)
    return x.ret(UNIT)


def default_of(x, ty):
    if ty is None:
        return x.fresh("default")
    if ty["k"] == "adt":
        p = ty["path"]
        if re.search(r"(HashMap|HashSet|BTreeMap|BTreeSet)$", p):
            return fresh_map(x.eng, x.st, x.events)
        if p == "alloc::vec::Vec":
            return fresh_vec(x.eng, x.st, x.events)
        if p == OPT:
            return NONE
    if ty["k"] in ("int", "uint", "bool") or ty["s"] in ("usize", "u8", "u16", "u32", "u64", "isize", "bool", "i32"):
        return C(0)
    if ty["s"] == "()":
        return UNIT
    return None


@model("core::mem::take", "core::cell::Cell::<T>::take", "core::cell::RefCell::<T>::take")
def m_take(x):
    ty = x.targ(0)
    d = default_of(x, ty)
    if d is None:
        if x.c.get("inst") in x.eng.prog.bodies:
            return None
        d = x.fresh("default")
    p = x.at(0)
    if "RefCell" in x.path:
        x.ev("borrow", lock=p, mode="mut")
        x.ev("unlock", lock=p, mode="mut")
        p = sub(p, ("in",))
    old = x.eng.read(x.st, p)
    x.ev("take", place=p, old=old, value=d)
    if p.a[0].op not in ("L", "tmp"):
        x.ev("store", place=p, value=d, old=old)
    x.eng.write(x.st, p, d)
    return x.ret(old)


@model("core::option::Option::<T>::take")
def m_opt_take(x):
    p = x.at(0)
    old = x.eng.read(x.st, p)
    if p.a[0].op not in ("L", "tmp"):
        x.ev("store", place=p, value=NONE, old=old)
    x.eng.write(x.st, p, NONE)
    return x.ret(old)


@model("core::cell::Cell::<T>::update")
def m_cell_update(x):
    return x.glue("cellupdate", (x.args[0], x.args[1]))


def g_cellupdate(eng, st, events, step, data):
    p = eng.deref(data[0])
    if step == 0:
        glue_step(eng, st, 1)
        return call_value(eng, st, events, data[1], [eng.read(st, p)], glue_tmp(st, 0))
    v = eng.read(st, glue_tmp(st, 0))
    eng.ev(st, events, "store", None, place=p, value=v, old=eng.read(st, p), cell=True)
    eng.write(st, p, v)
    return glue_return(eng, st, events, UNIT)


GLUE["cellupdate"] = g_cellupdate


@model("core::num::nonzero::NonZero::<T>::get")
def m_nz_get(x):
    v = x.args[0]
    if v.op == "pj":
        s2 = x.st.copy()
        if meet(s2.facts, v, 1):
            return x.ret(v, s2, list(x.events))
    return x.ret(v)


@model("core::num::nonzero::NonZero::<T>::new")
def m_nz_new(x):
    out = []
    e = x.eng.mk_eq(x.args[0], C(0))
    for s2, b in fork_bool(x.eng, x.st, e):
        out += x.ret(NONE if b else some(x.args[0]), s2, list(x.events))
    return out


@pattern(r"core::num::nonzero::NonZero::<\w+>::(saturating_add|unchecked_add)$")
def m_nz_sat(x):
    if x.args[1].op == "c":
        return x.ret(x.eng.cap(x.st, lin(x.args[0], x.args[1].a[0]), "sat"))
    return x.ret(T("add", x.args[0], x.args[1]))


@pattern(r"core::num::nonzero::NonZero::<\w+>::(checked_add)$")
def m_nz_chk(x):
    v = lin(x.args[0], x.args[1].a[0]) if x.args[1].op == "c" else T("add", x.args[0], x.args[1])
    return x.ret(some(x.eng.cap(x.st, v, "sat")))


@pattern(r"core::num::<impl (usize|u64|u32|u8|u16)>::(saturating|wrapping|unchecked|strict)_(add|sub)$")
def m_arith(x):
    op = "Add" if x.path.endswith("add") else "Sub"
    if op == "Sub" and "saturating" in x.path and x.args[1].op == "c" and x.args[0].op != "c":
        r = T("satsub", x.args[0], x.args[1])
        if known(x.st.facts, x.args[0]) is None and not possible(x.st.facts, x.args[0], 0) and x.args[1].a[0] == 1:
            r = x.eng.binop(x.st, op, x.args[0], x.args[1])
        return x.ret(r)
    return x.ret(x.eng.binop(x.st, op, x.args[0], x.args[1]))


@pattern(r"core::num::<impl (usize|u64|u32|u8|u16)>::checked_(add|sub)$")
def m_checked(x):
    add = x.path.endswith("add")
    v = x.eng.binop(x.st, "Add" if add else "Sub", x.args[0], x.args[1])
    if add:
        return x.ret(some(v))
    out = []
    for s2, b in fork_bool(x.eng, x.st, x.eng.mk_lt(x.args[0], x.args[1])):
        out += x.ret(NONE if b else some(v), s2, list(x.events))
    return out


ORD = "core::cmp::Ordering"
ORDS = {-1: adt(ORD, 0, "Less", (), True, ()), 0: adt(ORD, 1, "Equal", (), True, ()), 1: adt(ORD, 2, "Greater", (), True, ())}


def fork_cmp(eng, st, a, b):
    """[(state, -1 | 0 | 1)] for the order of two unsigned numbers."""
    out = []
    for s2, less in fork_bool(eng, st, eng.mk_lt(a, b)):
        if less:
            out.append((s2, -1))
            continue
        for s3, more in fork_bool(eng, s2, eng.mk_lt(b, a)):
            out.append((s3, 1 if more else 0))
    return out


@pattern(r"core::cmp::impls::<impl core::cmp::(Partial)?Ord(<(usize|u64|u32|u16|u8)>)? for (usize|u64|u32|u16|u8)>::(cmp|partial_cmp)$")
def m_cmp(x):
    a, b = (x.eng.read(x.st, x.at(i)) for i in (0, 1))
    out = []
    for s2, c in fork_cmp(x.eng, x.st, a, b):
        out += x.ret(some(ORDS[c]) if x.path.endswith("partial_cmp") else ORDS[c], s2, list(x.events))
    return out


@pattern(r"core::cmp::Ordering::is_(lt|le|gt|ge|eq|ne)$")
def m_ordering_is(x):
    v = x.args[0]
    if v.op != "adt":
        return None
    c = v.a[1] - 1
    return x.ret(TRUE if {"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0, "eq": c == 0, "ne": c != 0}[x.path[-2:]] else FALSE)


@pattern(r"core::cmp::impls::<impl core::cmp::Ord for (usize|u64|u32|u16|u8)>::(max|min)$|core::cmp::Ord::(max|min)$|core::cmp::(max|min)$")
def m_minmax(x):
    tid = x.argty(0)
    if tid is None or x.eng.prog.types[tid]["s"] not in ("usize", "u64", "u32", "u16", "u8"):
        return None
    a, b = x.args
    out = []
    for s2, less in fork_bool(x.eng, x.st, x.eng.mk_lt(a, b)):
        out += x.ret((b if less else a) if x.path.endswith("max") else (a if less else b), s2, list(x.events))
    return out


# ---- allocation
@model("alloc::boxed::Box::<T>::new")
def m_box_new(x):
    s = x.fresh("box")
    root = T("heap", s)
    x.eng.kill_root(x.st, root)
    x.st.mem[place(root)] = x.args[0]
    x.ev("alloc", place=place(root), value=x.args[0], boxed=True)
    return x.ret(ref(place(root)))


@model("core::alloc::layout::Layout::for_value", "core::alloc::layout::Layout::for_value_raw")
def m_layout(x):
    return x.ret(T("layout", x.at(0)))


@model("core::alloc::layout::Layout::from_size_align_unchecked", "core::alloc::layout::Layout::from_size_align")
def m_layout_parts(x):
    a, b = x.args[0], x.args[1]
    v = T("layout", a.a[0]) if a.op == "sizeofval" and b.op == "alignofval" and a.a[0] is b.a[0] else T("layoutof", show(a) + ", " + show(b))
    return x.ret(v if x.path.endswith("unchecked") else ok(v))


@model("core::alloc::layout::Layout::new")
def m_layout_new(x):
    ty = x.targ(0)
    return x.ret(T("layoutof", ty["s"] if ty else "?"))


@model("alloc::alloc::dealloc")
def m_dealloc(x):
    p = x.at(0)
    x.ev("dealloc", place=p, layout=x.args[1], boxed=False)
    return x.ret(UNIT)


@model("alloc::alloc::alloc")
def m_alloc(x):
    s = x.fresh("alloc")
    root = T("heap", s)
    x.ev("alloc", place=place(root), value=T("undef", root), layout=x.args[0], boxed=False)
    return x.ret(ref(place(root)))


@model("core::ptr::drop_in_place", "core::ptr::mut_ptr::<impl *mut T>::drop_in_place",
       "core::ptr::non_null::NonNull::<T>::drop_in_place", "core::mem::manually_drop::ManuallyDrop::<T>::drop")
def m_drop_in_place(x):
    ty = x.targ(0)
    p = x.at(0)
    x.ev("drop_in_place", place=p, ty=ty["s"] if ty else "?")
    outs = x.user(args=[], what="drop")
    return outs + x.ret(UNIT)


@model("core::mem::forget")
def m_forget(x):
    x.ev("forget", value=x.args[0], ty=x.targ(0)["s"] if x.targ(0) else "?")
    return x.ret(UNIT)


@model("core::mem::size_of", "core::mem::size_of_val", "core::mem::align_of_val")
def m_size_of(x):
    ty = x.targ(0)
    if x.path.endswith("_val") and (x.path.endswith("align_of_val") or ty is None or ty["k"] in ("param", "dyn", "slice") or
                                     ty["k"] == "adt" and not ty["path"].startswith(("core::", "alloc::", "std::"))):
        return x.ret(T("sizeofval" if "size_of" in x.path else "alignofval", x.at(0)))
    return x.ret(T("sizeof", ty["s"] if ty else "?"))


@model("core::ptr::copy_nonoverlapping", "core::ptr::copy", "core::ptr::mut_ptr::<impl *mut T>::copy_to_nonoverlapping",
       "core::ptr::const_ptr::<impl *const T>::copy_to_nonoverlapping",
       "core::ptr::mut_ptr::<impl *mut T>::copy_from_nonoverlapping")
def m_copy(x):
    s, d = x.at(0), x.at(1)
    if "copy_from" in x.path:
        s, d = d, s
    n = x.args[2]
    v = x.eng.read(x.st, s)
    x.ev("memcpy", src=s, dst=d, n=n, value=v, elem=x.targ(0)["s"] if x.targ(0) else "?")
    if v.op == "bits":
        v = v.a[0]
    else:
        v = T("bits", v, n)
    x.eng.write(x.st, d, v)
    return x.ret(UNIT)


@model("core::mem::maybe_uninit::MaybeUninit::<T>::zeroed", "core::mem::maybe_uninit::MaybeUninit::<T>::uninit",
       "core::mem::zeroed")
def m_uninit(x):
    return x.ret(T("uninit", x.targ(0)["s"] if x.targ(0) else "?"))


# ---- RefCell, locks
@model("core::cell::RefCell::<T>::new")
def m_refcell_new(x):
    return x.ret(T("cellbox", x.args[0]))


def guard(kind, p):
    return T("guard", kind, p)


@model("core::cell::RefCell::<T>::borrow", "core::cell::RefCell::<T>::borrow_mut")
def m_borrow(x):
    mode = "mut" if x.path.endswith("mut") else "shr"
    x.ev("borrow", lock=x.at(0), mode=mode)
    return x.ret(guard(mode, x.at(0)))


@model("core::cell::RefCell::<T>::try_borrow", "core::cell::RefCell::<T>::try_borrow_mut")
def m_try_borrow(x):
    mode = "mut" if x.path.endswith("mut") else "shr"
    out = []
    r = x.fresh("tb")
    for s2, b in fork_bool(x.eng, x.st, T("eq", r, C(1))):
        e2 = list(x.events)
        if b:
            x.ev("borrow", s2, e2, lock=x.at(0), mode=mode, tried=True)
            out += x.ret(ok(guard(mode, x.at(0))), s2, e2)
        else:
            x.ev("tryfail", s2, e2, lock=x.at(0))
            out += x.ret(err(T("zst", "BorrowError")), s2, e2)
    return out


@model("core::cell::RefCell::<T>::try_borrow_unguarded")
def m_try_borrow_unguarded(x):
    p = x.at(0)
    s2, e2 = x.st.copy(), list(x.events)
    x.ev("borrow", s2, e2, lock=p, mode="shr", tried=True)
    x.ev("unlock", s2, e2, lock=p, mode="shr")
    out = x.ret(adt(RES, 0, "Ok", (ref(sub(p, ("in",))),), True, ("0",)), s2, e2)
    s3, e3 = x.st.copy(), list(x.events)
    x.ev("tryfail", s3, e3, lock=p)
    return out + x.ret(adt(RES, 1, "Err", (T("zst", "core::cell::BorrowError"),), True, ("0",)), s3, e3)


@model("core::cell::RefCell::<T>::as_ptr", "core::cell::RefCell::<T>::get_mut", "lock_api::mutex::Mutex::<R, T>::get_mut",
       "lock_api::mutex::Mutex::<R, T>::data_ptr", "lock_api::rwlock::RwLock::<R, T>::get_mut")
def m_cell_in(x):
    return x.ret(ref(sub(x.at(0), ("in",))))


@model("core::cell::RefCell::<T>::replace")
def m_refcell_replace(x):
    p = x.at(0)
    x.ev("borrow", lock=p, mode="mut")
    x.ev("unlock", lock=p, mode="mut")
    p = sub(p, ("in",))
    old = x.eng.read(x.st, p)
    x.ev("store", place=p, value=x.args[1], old=old)
    x.eng.write(x.st, p, x.args[1])
    return x.ret(old)


@pattern(r"<(core::cell::Ref(Mut)?|lock_api::\w+::\w+Guard|std::sync::poison::\w+::\w+Guard)<.*> as "
         r"core::ops::deref::Deref(Mut)?>::deref(_mut)?$")
def m_guard_deref(x):
    g = x.obj()
    gs = [g] if g.op == "guard" else guards_in(g)
    if gs:
        return x.ret(ref(sub(gs[0].a[1], ("in",))))
    return x.ret(ref(place(T("gd", g))))


@model("lock_api::mutex::Mutex::<R, T>::lock", "lock_api::rwlock::RwLock::<R, T>::read",
       "lock_api::rwlock::RwLock::<R, T>::write", "lock_api::rwlock::RwLock::<R, T>::read_recursive")
def m_lock(x):
    mode = x.path.split("::")[-1]
    mode = {"lock": "mutex"}.get(mode, mode)
    x.ev("lock", lock=x.at(0), mode=mode)
    return x.ret(guard(mode, x.at(0)))


@model("lock_api::mutex::Mutex::<R, T>::try_lock", "lock_api::rwlock::RwLock::<R, T>::try_read",
       "lock_api::rwlock::RwLock::<R, T>::try_write")
def m_pl_try(x):
    mode = {"try_lock": "mutex", "try_read": "read", "try_write": "write"}[x.path.split("::")[-1]]
    out = []
    r = x.fresh("tl")
    for s2, b in fork_bool(x.eng, x.st, T("eq", r, C(1))):
        e2 = list(x.events)
        if b:
            x.ev("lock", s2, e2, lock=x.at(0), mode=mode, tried=True)
            out += x.ret(some(guard(mode, x.at(0))), s2, e2)
        else:
            x.ev("tryfail", s2, e2, lock=x.at(0))
            out += x.ret(NONE, s2, e2)
    return out


PE = "std::sync::poison::PoisonError"
TLE = "std::sync::poison::TryLockError"


@pattern(r"std::sync::poison::(mutex|rwlock)::\w+::<T>::(try_)?(lock|read|write)$")
def m_std_lock(x):
    op = x.path.split("::")[-1]
    tried = op.startswith("try_")
    mode = {"lock": "mutex"}.get(op.replace("try_", ""), op.replace("try_", ""))
    g = guard(mode, x.at(0))
    pe = adt(PE, 0, "PoisonError", (g,), False, ("data",))
    r = x.fresh("sl")
    cases = [(0, ok(g)), (1, err(adt(TLE, 0, "Poisoned", (pe,), True, ("0",)) if tried else pe))]
    if tried:
        cases.append((2, err(adt(TLE, 1, "WouldBlock", (), True))))
    out = []
    for v, res in cases:
        s2, e2 = x.st.copy(), list(x.events)
        if assume(s2.facts, r, v):
            if v < 2:
                x.ev("lock", s2, e2, lock=x.at(0), mode=mode, tried=tried, poisoned=v == 1)
            else:
                x.ev("tryfail", s2, e2, lock=x.at(0))
            out += x.ret(res, s2, e2)
    return out


@model("std::sync::poison::PoisonError::<T>::get_ref", "std::sync::poison::PoisonError::<T>::get_mut")
def m_pe_ref(x):
    x.ev("unpoison")
    return x.ret(ref(sub(x.at(0), F(0, "data", PE))))


@model("std::sync::poison::PoisonError::<T>::into_inner")
def m_pe_into(x):
    x.ev("unpoison")
    return x.ret(proj(x.args[0], F(0, "data", PE)))


@model("lock_api::mutex::Mutex::<R, T>::new", "lock_api::rwlock::RwLock::<R, T>::new")
def m_lock_new(x):
    return x.ret(T("cellbox", x.args[0]))


@pattern(r"<once_cell::sync::Lazy<T, F> as core::ops::deref::Deref>::deref|once_cell::sync::Lazy::<T, F>::force|"
         r"<std::sync::lazy_lock::LazyLock<T, F> as core::ops::deref::Deref>::deref|"
         r"once_cell::sync::OnceCell::<T>::get_or_init|std::sync::once_lock::OnceLock::<T>::get_or_init")
def m_lazy(x):
    return x.ret(ref(sub(x.at(0), ("in",))))


# ---- thread locals
@model("std::thread::local::LocalKey::<T>::with", "std::thread::local::LocalKey::<T>::try_with")
def m_tls(x):
    k = x.obj()
    name = k.a[0] if k.op in ("const", "static") else str(k)
    p = place(T("tls", name))
    tried = x.path.endswith("try_with")
    ty = x.targ(0)
    nd = bool(ty is None or ty.get("nd", True))
    if not tried:
        x.ev("tls", key=name, tried=False, nd=nd)
        return x.glue("tlscall", (x.args[1], ref(p), False))
    out = []
    r = x.fresh("tls")
    for s2, b in fork_bool(x.eng, x.st, T("eq", r, C(1))):
        y = Call(x.eng, s2, list(x.events), x.t, x.c, x.args, x.dest, x.path)
        if b:
            y.ev("tls", key=name, tried=True, ok=True, nd=nd)
            out += y.glue("tlscall", (x.args[1], ref(p), True))
        else:
            y.ev("tls", key=name, tried=True, ok=False, nd=nd)
            out += y.ret(err(T("zst", "AccessError")))
    return out


@pattern(r"std::thread::local::LocalKey::<core::cell::(Cell|RefCell)<T>>::\w+$")
def m_tls_direct(x):
    k = x.obj()
    name = k.a[0] if k.op in ("const", "static") else str(k)
    p = place(T("tls", name))
    x.ev("tls", key=name, tried=False, nd="RefCell" in x.path)
    op = x.path.split("::")[-1]
    cell = "core::cell::Cell" in x.path
    if cell and op in ("get", "set", "replace", "take"):
        old = x.eng.read(x.st, p)
        if op == "get":
            return x.ret(old)
        v = x.args[1] if op != "take" else (default_of(x, x.targ(0)) or x.fresh("default"))
        x.ev("store", place=p, value=v, old=old, cell=True)
        x.eng.write(x.st, p, v)
        return x.ret(UNIT if op == "set" else old)
    if op in ("with_borrow", "with_borrow_mut"):
        mode = "mut" if op.endswith("mut") else "shr"
        x.ev("borrow", lock=p, mode=mode)
        return x.glue("borrowcall", (x.args[1], p, mode))
    if op in ("take", "replace", "set"):
        x.ev("borrow", lock=p, mode="mut")
        x.ev("unlock", lock=p, mode="mut")
        pp = sub(p, ("in",))
        old = x.eng.read(x.st, pp)
        v = x.args[1] if op != "take" else (default_of(x, x.targ(0)) or x.fresh("default"))
        x.ev("store", place=pp, value=v, old=old)
        x.eng.write(x.st, pp, v)
        return x.ret(UNIT if op == "set" else old)
    return None


def g_borrowcall(eng, st, events, step, data):
    if step == 0:
        glue_step(eng, st, 1)
        return call_value(eng, st, events, data[0], [ref(sub(data[1], ("in",)))], glue_tmp(st, 0))
    eng.ev(st, events, "unlock", None, lock=data[1], mode=data[2])
    return glue_return(eng, st, events, eng.read(st, glue_tmp(st, 0)))


def g_tlscall(eng, st, events, step, data):
    f, p, wrap = data
    if step == 0:
        glue_step(eng, st, 1)
        return call_value(eng, st, events, f, [p], glue_tmp(st, 0))
    v = eng.read(st, glue_tmp(st, 0))
    return glue_return(eng, st, events, ok(v) if wrap else v)


GLUE["tlscall"] = g_tlscall
GLUE["borrowcall"] = g_borrowcall


# ---- atomics
def ordering(t):
    if t.op == "adt":
        return t.a[2]
    if t.op in ("const",):
        return str(t.a[0]).split("::")[-1]
    if t.op == "c":
        return ["Relaxed", "Release", "Acquire", "AcqRel", "SeqCst"][t.a[0]] if t.a[0] < 5 else "?"
    return "?"


def exchange(eng, st, events, span, p, old, new, order):
    """A successful exchange; if it adds or subtracts a constant it is what the instructions for that do."""
    op, operand, d = "cas", new, None
    if new.op == "lin" and new.a[0] is old:
        d = new.a[1]
    elif old.op == "lin" and old.a[0] is new:
        d = -old.a[1]
    elif old.op == "lin" and new.op == "lin" and old.a[0] is new.a[0]:
        d = new.a[1] - old.a[1]
    elif old.op == "c" and new.op == "c":
        d = new.a[0] - old.a[0]
    if d:
        op, operand = ("fetch_add", C(d)) if d > 0 else ("fetch_sub", C(-d))
    eng.ev(st, events, "atomic", span, op=op, place=p, operand=operand, expected=old, order=order, result=old)


def g_update(eng, st, events, step, data):
    p, f, so, lo, plain, span = data
    if step == 0:
        r = eng.fresh(st, "cx", events)
        eng.write(st, glue_tmp(st, 1), r)
        glue_step(eng, st, 1)
        return call_value(eng, st, events, f, [r], glue_tmp(st, 0))
    r, v = eng.read(st, glue_tmp(st, 1)), eng.read(st, glue_tmp(st, 0))
    outs = []
    for s2, pv in [(st, v)] if plain else fork_opt(eng, st, v):
        e2 = list(events)
        if pv is None:
            eng.ev(s2, e2, "atomic", span, op="load", place=p, operand=None, order=lo, result=r)
            outs += glue_return(eng, s2, e2, err(r))
            continue
        exchange(eng, s2, e2, span, p, r, pv, so)
        outs += glue_return(eng, s2, e2, r if plain else ok(r))
    return outs


GLUE["update"] = g_update


@pattern(r"core::sync::atomic::Atomic::<.*>::(load|store|swap|fetch_\w+|try_update|update|compare_exchange(_weak)?|"
         r"compare_and_swap)$")
def m_atomic(x):
    op = x.path.split("::")[-1]
    p = x.at(0)
    if op == "load":
        r = x.fresh("ld")
        x.ev("atomic", op=op, place=p, operand=None, order=ordering(x.args[1]), result=r)
        return x.ret(r)
    if op == "store":
        x.ev("atomic", op=op, place=p, operand=x.args[1], order=ordering(x.args[2]), result=None)
        return x.ret(UNIT)
    if op.startswith("compare_exchange"):
        r = x.fresh("cx")
        out = []
        for s2, b in fork_bool(x.eng, x.st, T("eq", T("cxok", r), C(1))):
            e2 = list(x.events)
            if b:
                exchange(x.eng, s2, e2, x.span, p, x.args[1], x.args[2], ordering(x.args[3]))
                out += x.ret(ok(x.args[1]), s2, e2)
            else:
                x.ev("atomic", s2, e2, op="load", place=p, operand=None, order=ordering(x.args[4]), result=r)
                out += x.ret(err(r), s2, e2)
        return out
    if op in ("fetch_update", "try_update", "update"):
        return x.glue("update", (p, x.args[3], ordering(x.args[1]), ordering(x.args[2]), op == "update", x.span))
    r = x.fresh("rmw")
    x.ev("atomic", op=op, place=p, operand=x.args[1], order=ordering(x.args[2]), result=r)
    return x.ret(r)


@model("core::sync::atomic::fence", "core::sync::atomic::compiler_fence")
def m_fence(x):
    if "compiler" not in x.path:
        x.ev("fence", order=ordering(x.args[0]))
    return x.ret(UNIT)


# ---- panics
@pattern(r"core::panicking::|core::option::(expect|unwrap)_failed|core::result::unwrap_failed|core::cell::panic_|"
         r"std::rt::begin_panic|std::panicking::begin_panic|core::slice::index::slice_.*fail|alloc::alloc::handle_alloc_error")
def m_panic(x):
    msg = ""
    for a in x.args:
        for s in subterms(a):
            if s.op == "const":
                msg = str(s.a[0])
                break
    return x.panic(msg or x.path)


def g_catch(eng, st, events, step, data):
    f, span = data
    if step == 0:
        glue_step(eng, st, 1)
        return call_value(eng, st, events, f, [], glue_tmp(st, 0), span=span)
    return glue_return(eng, st, events, ok(eng.read(st, glue_tmp(st, 0))))


GLUE["catch"] = g_catch


@model("std::panic::catch_unwind", "std::panicking::catch_unwind")
def m_catch(x):
    f = x.args[0]
    while f.op == "adt" and str(f.a[0]).endswith("AssertUnwindSafe"):
        f = f.a[3][0]
    return x.glue("catch", (f, x.span))


@model("std::panic::resume_unwind", "std::panicking::resume_unwind")
def m_resume(x):
    return x.panic("resumed")


@model("std::process::abort", "core::intrinsics::abort")
def m_abort(x):
    x.ev("abort")
    return [(x.events, ("stop", "abort"))]


# ---- maps and sets
COLL = r"(std::collections::hash::(map|set)::Hash(Map|Set)|alloc::collections::btree::(map|set)::BTree(Map|Set))"


@pattern(COLL + r"::<.*>::(new|with_capacity|with_hasher|with_capacity_and_hasher|new_in|default)$")
def m_map_new(x):
    m = fresh_map(x.eng, x.st, x.events)
    for k in list(x.st.facts):
        if k.op == "mem" and k.a[0] is m:
            del x.st.facts[k]
    x.ev("map_new", map=m)
    return x.ret(m)


@pattern(r"<" + COLL + r"<.*> as core::default::Default>::default$")
def m_map_default(x):
    return m_map_new(x)


def key_of(x, i):
    """Key argument: by value or behind a reference."""
    a = x.args[i]
    tid = x.argty(i)
    if tid is not None and x.eng.prog.types[tid]["k"] != "ref":
        return a
    return x.eng.read(x.st, x.eng.deref(a))


@pattern(COLL + r"::<.*>::(insert|replace)$")
def m_coll_insert(x):
    mid, p = coll_id(x.eng, x.st, x.args[0])
    key = x.args[1]
    is_map = len(x.args) == 3
    out = []
    for s2, had in fork_member(x.eng, x.st, mid, key):
        e2 = list(x.events)
        if is_map:
            old = x.eng.read(s2, mv(mid, key))
            x.ev("map_insert", s2, e2, map=mid, key=key, value=x.args[2], existed=had, place=p)
            set_member(s2, mid, key, 1)
            drop_other_values(s2, mid, key)
            x.eng.write(s2, mv(mid, key), x.args[2])
            out += x.ret(some(old) if had else NONE, s2, e2)
        else:
            x.ev("set_insert", s2, e2, set=mid, key=key, new=not had, place=p)
            set_member(s2, mid, key, 1)
            out += x.ret(C(not had), s2, e2)
    return out


def drop_other_values(st, mid, key):
    for q in [q for q in st.mem if q.a[0].op == "mv" and q.a[0].a[0] is mid and q.a[0].a[1] is not key]:
        del st.mem[q]


@pattern(COLL + r"::<.*>::(contains|contains_key)$")
def m_coll_contains(x):
    mid, p = coll_id(x.eng, x.st, x.args[0])
    key = key_of(x, 1)
    out = []
    for s2, had in fork_member(x.eng, x.st, mid, key):
        e2 = list(x.events)
        x.ev("contains", s2, e2, map=mid, key=key, place=p, had=had)
        out += x.ret(C(had), s2, e2)
    return out


@pattern(COLL + r"::<.*>::(get|get_mut|get_key_value)$")
def m_coll_get(x):
    mid, p = coll_id(x.eng, x.st, x.args[0])
    key = key_of(x, 1)
    out = []
    for s2, had in fork_member(x.eng, x.st, mid, key):
        e2 = list(x.events)
        x.ev("map_get", s2, e2, map=mid, key=key, place=p, had=had)
        v = ref(mv(mid, key)) if "set::" not in x.path else ref(mk(mid, key))
        if x.path.endswith("key_value"):
            v = T("tup", (ref(mk(mid, key)), v))
        out += x.ret(some(v) if had else NONE, s2, e2)
    return out


@pattern(r"<" + COLL + r"<.*> as core::ops::index::Index(Mut)?<.*>>::index(_mut)?$")
def m_coll_index(x):
    mid, p = coll_id(x.eng, x.st, x.args[0])
    key = key_of(x, 1)
    out = []
    for s2, had in fork_member(x.eng, x.st, mid, key):
        e2 = list(x.events)
        x.ev("map_get", s2, e2, map=mid, key=key, place=p, had=had)
        if had:
            out += x.ret(ref(mv(mid, key)), s2, e2)
        else:
            out += x.panic("key not found", s2, e2)
    return out


@pattern(COLL + r"::<.*>::(remove|take|remove_entry)$")
def m_coll_remove(x):
    mid, p = coll_id(x.eng, x.st, x.args[0])
    key = key_of(x, 1)
    is_set = "set::" in x.path
    out = []
    for s2, had in fork_member(x.eng, x.st, mid, key):
        e2 = list(x.events)
        old = x.eng.read(s2, mv(mid, key))
        x.ev("map_remove", s2, e2, map=mid, key=key, had=had, place=p)
        set_member(s2, mid, key, 0)
        x.eng.kill_place(s2, mv(mid, key))
        if is_set and x.path.endswith("remove"):
            out += x.ret(C(had), s2, e2)
        elif x.path.endswith("remove_entry"):
            out += x.ret(some(T("tup", (key, old))) if had else NONE, s2, e2)
        else:
            out += x.ret(some(key if is_set else old) if had else NONE, s2, e2)
    return out


ENTRY = "std::collections::hash::map::Entry"


@pattern(r"(std::collections::hash::map::HashMap|alloc::collections::btree::map::BTreeMap)::<.*>::entry$")
def m_entry(x):
    mid, p = coll_id(x.eng, x.st, x.args[0])
    key = x.args[1]
    bt = "btree" in x.path
    ent = "alloc::collections::btree::map::entry::Entry" if bt else ENTRY
    out = []
    for s2, had in fork_member(x.eng, x.st, mid, key):
        e2 = list(x.events)
        x.ev("map_entry", s2, e2, map=mid, key=key, had=had, place=p)
        if had:
            v = adt(ent, 1 if bt else 0, "Occupied", (T("occ", mid, key, p),), True, ("0",))
        else:
            v = adt(ent, 0 if bt else 1, "Vacant", (T("vac", mid, key, p),), True, ("0",))
        out += x.ret(v, s2, e2)
    return out


ENT = r"(std::collections::hash::map::|alloc::collections::btree::map::entry::)"


def ent_of(x):
    v = x.args[0]
    if v.op == "ref":
        v = x.obj()
    return v


@pattern(ENT + r"OccupiedEntry::<.*>::(get|get_mut|into_mut)$")
def m_occ_get(x):
    o = ent_of(x)
    if o.op != "occ":
        return None
    return x.ret(ref(mv(o.a[0], o.a[1])))


@pattern(ENT + r"(OccupiedEntry|VacantEntry|Entry)::<.*>::key$")
def m_ent_key(x):
    o = ent_of(x)
    if o.op == "adt":
        o = o.a[3][0]
    if o.op not in ("occ", "vac"):
        return None
    return x.ret(ref(mk(o.a[0], o.a[1])))


@pattern(ENT + r"VacantEntry::<.*>::(insert|insert_entry)$")
def m_vac_insert(x):
    o = ent_of(x)
    if o.op != "vac":
        return None
    vacant_insert(x.eng, x.st, x.events, o, x.args[1], x.span)
    if x.path.endswith("_entry"):
        return x.ret(T("occ", *o.a))
    return x.ret(ref(mv(o.a[0], o.a[1])))


def vacant_insert(eng, st, events, o, v, span):
    mid, key, p = o.a
    eng.ev(st, events, "map_insert", span, map=mid, key=key, value=v, existed=False, place=p)
    set_member(st, mid, key, 1)
    drop_other_values(st, mid, key)
    eng.write(st, mv(mid, key), v)


@pattern(ENT + r"OccupiedEntry::<.*>::(insert|remove|remove_entry)$")
def m_occ_mod(x):
    o = ent_of(x)
    if o.op != "occ":
        return None
    mid, key, p = o.a
    old = x.eng.read(x.st, mv(mid, key))
    if x.path.endswith("insert"):
        x.ev("map_insert", map=mid, key=key, value=x.args[1], existed=True, place=p)
        x.eng.write(x.st, mv(mid, key), x.args[1])
        return x.ret(old)
    x.ev("map_remove", map=mid, key=key, had=True, place=p)
    set_member(x.st, mid, key, 0)
    x.eng.kill_place(x.st, mv(mid, key))
    return x.ret(old if not x.path.endswith("entry") else T("tup", (key, old)))


@pattern(ENT + r"Entry::<.*>::(or_insert|or_insert_with|or_default|or_insert_with_key)$")
def m_or_insert(x):
    e = x.args[0]
    if e.op != "adt":
        return None
    o = e.a[3][0]
    if o.op == "occ":
        return x.ret(ref(mv(o.a[0], o.a[1])))
    if o.op != "vac":
        return None
    op = x.path.split("::")[-1]
    if op == "or_insert":
        vacant_insert(x.eng, x.st, x.events, o, x.args[1], x.span)
        return x.ret(ref(mv(o.a[0], o.a[1])))
    if op == "or_default":
        v = default_of(x, x.targ(1)) or x.fresh("default")
        vacant_insert(x.eng, x.st, x.events, o, v, x.span)
        return x.ret(ref(mv(o.a[0], o.a[1])))
    return x.glue("orinsert", (o, x.args[1], op.endswith("key")))


def g_orinsert(eng, st, events, step, data):
    o, f, withkey = data
    if step == 0:
        glue_step(eng, st, 1)
        return call_value(eng, st, events, f, [ref(mk(o.a[0], o.a[1]))] if withkey else [], glue_tmp(st, 0))
    v = eng.read(st, glue_tmp(st, 0))
    vacant_insert(eng, st, events, o, v, None)
    return glue_return(eng, st, events, ref(mv(o.a[0], o.a[1])))


GLUE["orinsert"] = g_orinsert


@pattern(ENT + r"Entry::<.*>::and_modify$")
def m_and_modify(x):
    e = x.args[0]
    if e.op != "adt":
        return None
    o = e.a[3][0]
    if o.op == "occ":
        return x.glue("andmodify", (e, o, x.args[1]))
    return x.ret(e)


def g_andmodify(eng, st, events, step, data):
    e, o, f = data
    if step == 0:
        glue_step(eng, st, 1)
        return call_value(eng, st, events, f, [ref(mv(o.a[0], o.a[1]))], glue_tmp(st, 0))
    return glue_return(eng, st, events, e)


GLUE["andmodify"] = g_andmodify


@pattern(COLL + r"::<.*>::(len|capacity)$|alloc::vec::Vec::<.*>::(len|capacity)$|"
         r"alloc::collections::.*::<.*>::len$|core::slice::<impl \[T\]>::len$")
def m_len(x):
    mid, p = coll_id(x.eng, x.st, x.args[0])
    r = x.fresh("len")
    x.ev("len", map=mid, result=r, place=p)
    if x.path.endswith("len"):
        x.st.mem[place(T("lenof", r))] = mid
        ex = vec_exact(x.st, mid)
        if ex is not None:
            assume(x.st.facts, r, len(ex))
    return x.ret(r)


@pattern(COLL + r"::<.*>::is_empty$|alloc::vec::Vec::<.*>::is_empty$|alloc::collections::.*::<.*>::is_empty$|"
         r"core::slice::<impl \[T\]>::is_empty$")
def m_is_empty(x):
    mid, p = coll_id(x.eng, x.st, x.args[0])
    if mid.op == "vec":
        # a worklist that is found empty has been worked off
        ex = vec_exact(x.st, mid)
        out = []
        if not ex:
            s2, e2 = x.st.copy(), list(x.events)
            x.ev("vec_end", s2, e2, vec=mid)
            out += x.ret(TRUE, s2, e2)
        if ex or ex is None and vec_templates(x.st, mid) is not None:
            out += x.ret(FALSE)
        return out
    r = x.fresh("empty")
    x.ev("is_empty", map=mid, result=r, place=p)
    out = []
    for s2, b in fork_bool(x.eng, x.st, T("eq", r, C(1))):
        e2 = list(x.events)
        if b:
            x.ev("empty", s2, e2, map=mid)
        out += x.ret(TRUE if b else FALSE, s2, e2)
    return out


@pattern(COLL + r"::<.*>::(clear)$|alloc::vec::Vec::<.*>::clear$")
def m_clear(x):
    mid, p = coll_id(x.eng, x.st, x.args[0])
    nid = fresh_map(x.eng, x.st, x.events) if "vec" not in x.path else fresh_vec(x.eng, x.st, x.events)
    x.ev("clear", map=mid, place=p, new=nid)
    x.eng.write(x.st, p, nid)
    return x.ret(UNIT)


@pattern(COLL + r"::<.*>::(reserve|shrink_to_fit|shrink_to|hasher)$|alloc::vec::Vec::<.*>::(reserve|shrink_to_fit|reserve_exact)$")
def m_noop(x):
    if "shrink" in x.path:
        mid, p = coll_id(x.eng, x.st, x.args[0])
        x.ev("shrink", map=mid, place=p)
    return x.ret(UNIT if not x.path.endswith("hasher") else ref(place(T("hasher"))))


# ---- iterators over collections: it(kind, id, base place)
@pattern(COLL + r"::<.*>::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain)$|"
         r"<&?('a )?(mut )?" + COLL + r"<.*> as core::iter::traits::collect::IntoIterator>::into_iter$")
def m_iter(x):
    op = x.path.split("::")[-1]
    a0 = x.args[0]
    byval = op in ("into_keys", "into_values") or op == "into_iter" and not re.match(r"<&", x.path)
    is_set = "set::" in x.path
    if byval:
        mid, p = a0, None
    else:
        mid, p = coll_id(x.eng, x.st, a0)
    kind = {"keys": "k", "values": "v", "values_mut": "v", "into_keys": "K", "into_values": "Vv"}.get(op)
    if kind is None:
        if is_set:
            kind = "K" if byval or op == "drain" else "k"
        else:
            kind = "KV" if byval or op == "drain" else "kv"
    x.ev("iter_new", map=mid, place=p, op=op)
    if op == "drain":
        nid = fresh_map(x.eng, x.st, x.events)
        x.ev("drain", map=mid, place=p, new=nid)
        x.eng.write(x.st, p, nid)
    return x.ret(T("it", kind, mid))


ITNEXT = r"<(std::collections::hash::(map|set)|alloc::collections::btree::(map|set))::\w+<.*> as core::iter::traits::(iterator::Iterator>::next|double_ended::DoubleEndedIterator>::next_back)$"


@pattern(ITNEXT)
def m_map_next(x):
    return iter_next(x, x.obj())


def iter_next(x, it):
    eng = x.eng
    if it.op != "it":
        it = T("it", "kv" if "map" in x.path else "k", it)
    kind, mid = it.a[0], it.a[1]
    out = []
    # exhausted
    s2, e2 = x.st.copy(), list(x.events)
    x.ev("iter_end", s2, e2, map=mid, it=it)
    out += x.ret(NONE, s2, e2)
    # one more element
    s2, e2 = x.st.copy(), list(x.events)
    k = eng.fresh(s2, "k", e2)
    if kind in ("kv", "k", "v"):
        if not assume(s2.facts, T("mem", mid, k), 1):
            return out
    x.ev("iter_next", s2, e2, map=mid, key=k, it=it)
    kr, vr = ref(mk(mid, k)), ref(mv(mid, k))
    if kind == "kv":
        v = T("tup", (kr, vr))
    elif kind == "k":
        v = kr
    elif kind == "v":
        v = vr
    elif kind == "KV":
        v = T("tup", (k, eng.read(s2, mv(mid, k))))
    elif kind == "K":
        v = k
    else:
        v = eng.read(s2, mv(mid, k))
    out += x.ret(some(v), s2, e2)
    return out


@pattern(COLL + r"::<.*>::retain$")
def m_retain(x):
    mid, p = coll_id(x.eng, x.st, x.args[0])
    x.ev("iter_new", map=mid, place=p, op="retain")
    x.ev("retain", map=mid)
    return x.glue("retain", (mid, p, x.args[1], "set::" in x.path))


def g_retain(eng, st, events, step, data):
    mid, p, f, is_set = data
    outs = []
    if step == 0:
        s2, e2 = st.copy(), list(events)
        eng.ev(s2, e2, "iter_end", None, map=mid, it=T("it", "kv", mid))
        outs += glue_return(eng, s2, e2, UNIT)
        s2, e2 = st.copy(), list(events)
        k = eng.fresh(s2, "k", e2)
        eng.write(s2, glue_tmp(s2, 1), k)
        eng.ev(s2, e2, "iter_next", None, map=mid, key=k, it=T("it", "kv", mid))
        assume(s2.facts, T("mem", mid, k), 1)
        glue_step(eng, s2, 1)
        args = [ref(mk(mid, k))] + ([] if is_set else [ref(mv(mid, k))])
        outs += call_value(eng, s2, e2, f, args, glue_tmp(s2, 0))
        return outs
    k = eng.read(st, glue_tmp(st, 1))
    for s2, b in fork_bool(eng, st, eng.read(st, glue_tmp(st, 0))):
        e2 = list(events)
        if not b:
            eng.ev(s2, e2, "map_remove", None, map=mid, key=k, had=True, place=p)
            set_member(s2, mid, k, 0)
        else:
            eng.ev(s2, e2, "retained", None, map=mid, key=k)
        glue_step(eng, s2, 0, events=e2)
        outs.append((e2, s2))
    return outs


GLUE["retain"] = g_retain


# ---- vectors, slices and other sequences
# lenof(r): the sequence whose length is r; cnt(w): a loop counter that went up by one from zero (1) or down by one from
# the length of a sequence (that sequence)
def counting(st, v):
    """How a loop counter with this new value counts."""
    if v is C(1):
        return C(1)
    if v.op == "lin" and v.a[1] == 1 and st.mem.get(place(T("cnt", v.a[0]))) is C(1):
        return C(1)
    if v.op == "lin" and v.a[1] == -1:
        return seq_below(st, v.a[0])
    return None


def seq_below(st, v):
    """The sequence that v counts down from the length of."""
    r = st.mem.get(place(T("lenof", v)))
    if r is None:
        r = st.mem.get(place(T("cnt", v)))
    return r if r is not C(1) else None


def looping_on(eng, st, v):
    """Is v the value of a counter of a loop around the current block?"""
    f = st.stack[-1]
    if f.body is None:
        return False
    return any(st.mem.get(place(eng.lroot(f.ctx, n))) is v
               for h, l in loops_of(f.body) if f.block in l for n in counters(f.body, h, l))


def index_guard(eng, st, events, t, val):
    """Comparing a loop's counter with the length of a sequence moves the loop to the next element or ends it."""
    while t.op == "not":
        t, val = t.a[0], 1 - val
    if t.op not in ("lt", "eq"):
        return [(st, events)]
    more = val == 1 if t.op == "lt" else val == 0
    for a, b in ((t.a[0], t.a[1]), (t.a[1], t.a[0]))[:1 if t.op == "lt" else 2]:
        vid = st.mem.get(place(T("lenof", b)))
        if vid is not None and (a is C(0) or st.mem.get(place(T("cnt", a))) is C(1)) and looping_on(eng, st, a):
            return seq_index_step(eng, st, events, vid, a, more)
        if a is C(0):
            vid = seq_below(st, b)
            if vid is not None and looping_on(eng, st, b):
                return seq_index_step(eng, st, events, vid, lin(b, -1), more)
    return [(st, events)]


def seq_index_step(eng, st, events, vid, idx, more):
    span = eng.block_span(st.stack[-1])
    if not more:
        st.mem.pop(place(T("drawn", idx)), None)
        if vid.op == "vec":
            eng.ev(st, events, "vec_end", span, vec=vid)
        else:
            eng.ev(st, events, "iter_end", span, map=vid, it=T("it", "seq", vid))
        return [(st, events)]
    if st.mem.get(place(T("drawn", idx))) is vid:
        return [(st, events)]
    return [(s, e) for s, e, _ in seq_draw(eng, st, events, vid, idx, span)]


def seq_draw(eng, st, events, vid, idx, span, first=True):
    """The element at an index is looked at for the first time: [(state, events, place)]."""
    st.mem[place(T("drawn", idx))] = vid
    q = place(T("el", vid, idx))
    if vid.op == "vec":
        out = []
        for s2, e2, v in vec_element(eng, st, events, vid):
            s2.mem[q] = v
            eng.ev(s2, e2, "vec_next", span, vec=vid, value=v, pop=False)
            out.append((s2, e2, q))
        return out
    eng.ev(st, events, "iter_next", span, map=vid, key=idx, it=T("it", "seq", vid))
    return [(st, events, q)]


def seq_peek(eng, st, events, vid, idx):
    """Some element, without the loop around having moved to it."""
    q = place(T("el", vid, idx))
    if vid.op != "vec" or q in st.mem:
        return [(st, events, q)]
    out = []
    for s2, e2, v in vec_element(eng, st, events, vid):
        out.append((s2, e2, place(T("val", v))))
    return out


def vec_changed(st, vid):
    """The vector was given elements, or elements were taken out: former lengths are out of date."""
    for q in [q for q, v in st.mem.items() if q.a[0].op == "lenof" and v is vid]:
        del st.mem[q]


def vec_cut(x, vid):
    """Elements may be gone."""
    x.st.mem.pop(place(T("vx", vid)), None)
    vec_changed(x.st, vid)
    x.ev("vec_cut", vec=vid)


DEQ = r"alloc::collections::(vec_deque|linked_list|binary_heap)::\w+::<.*>"


@pattern(DEQ + r"::(new|with_capacity)$|<alloc::collections::(vec_deque|linked_list|binary_heap)::\w+<.*> as core::default::Default>::default$")
def m_deq_new(x):
    return x.ret(vec_new(x.eng, x.st, x.events))


@pattern(r"<(alloc::collections::(vec_deque|linked_list|binary_heap)::\w+|alloc::vec::Vec)<.*> as core::convert::From<.*>>::from$|"
         r"(alloc::slice::<impl \[T\]>|core::slice::<impl \[T\]>)::(into_vec|to_vec)$")
def m_seq_from(x):
    a = x.args[0]
    tid = x.argty(0)
    ty = x.eng.prog.types[tid] if tid is not None else {}
    if a.op == "arr":
        v = vec_new(x.eng, x.st, x.events, a.a[0])
        for e in a.a[0]:
            x.ev("vec_push", vec=v, value=e)
        return x.ret(v)
    if a.op == "vec" or re.match(r"alloc::(vec::Vec|collections::vec_deque::VecDeque|collections::linked_list::LinkedList)", str(ty.get("path"))):
        return x.ret(a)
    return None


@pattern(DEQ + r"::(push|push_back|push_front)$")
def m_deq_push(x):
    vid, p = coll_id(x.eng, x.st, x.args[0])
    vec_push(x.eng, x.st, x.events, vid, x.args[1], x.span)
    return x.ret(UNIT)


@pattern(r"(alloc::vec::Vec::<.*>|" + DEQ + r")::insert$")
def m_seq_insert(x):
    vid, p = coll_id(x.eng, x.st, x.args[0])
    vec_push(x.eng, x.st, x.events, vid, x.args[2], x.span)
    x.st.mem.pop(place(T("vx", vid)), None)
    return x.ret(UNIT)


@pattern(r"(alloc::vec::Vec::<.*>|" + DEQ + r")::(truncate|dedup|dedup_by|dedup_by_key|split_off|resize|resize_with|retain|retain_mut|set_len)$")
def m_seq_cut(x):
    vid, p = coll_id(x.eng, x.st, x.args[0])
    vec_cut(x, vid)
    if not x.path.endswith("split_off"):
        return x.ret(UNIT)
    v = fresh_vec(x.eng, x.st, x.events)
    t = vec_templates(x.st, vid)
    x.st.mem.pop(place(T("ve", v)), None)
    if t is not None:
        x.st.mem[place(T("ve", v))] = T("ts", t)
    return x.ret(v if vid.op == "vec" else x.fresh("call"))


@pattern(r"(alloc::vec::Vec::<.*>|" + DEQ + r")::(remove|swap_remove|swap_remove_back|swap_remove_front)$")
def m_seq_remove(x):
    vid, p = coll_id(x.eng, x.st, x.args[0])
    x.st.mem.pop(place(T("vx", vid)), None)
    vec_changed(x.st, vid)
    out = []
    deq = "collections" in x.path
    if deq:
        out += x.ret(NONE, x.st.copy(), list(x.events))
    for s2, e2, v in vec_element(x.eng, x.st, x.events, vid):
        x.ev("vec_next", s2, e2, vec=vid, value=v, pop=True)
        out += x.ret(some(v) if deq else v, s2, e2)
    return out


@pattern(r"(alloc::slice::<impl \[T\]>|core::slice::<impl \[T\]>|" + DEQ + r")::"
         r"(reverse|sort|sort_unstable|sort_by|sort_by_key|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key|swap|rotate_left|rotate_right|make_contiguous)$")
def m_seq_reorder(x):
    vid, p = coll_id(x.eng, x.st, x.args[0])
    x.st.mem.pop(place(T("vx", vid)), None)
    for q in [q for q in x.st.mem if q.a[0].op == "el" and q.a[0].a[0] is vid]:
        del x.st.mem[q]
    return x.ret(x.args[0] if x.path.endswith("make_contiguous") else UNIT)


@pattern(r"(alloc::vec::Vec::<.*>|" + DEQ + r")::append$")
def m_seq_append(x):
    mid, p = coll_id(x.eng, x.st, x.args[0])
    src, sp = coll_id(x.eng, x.st, x.args[1])
    x.eng.write(x.st, sp, vec_new(x.eng, x.st, x.events))
    tmp = place(tmp_root(x.eng, x.st, "iter"))
    x.st.mem[tmp] = T("it", "vec", src)
    return x.glue("extend", (("<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::next", None),
                             ref(tmp), None, mid))


@pattern(r"(core::slice::<impl \[T\]>|" + DEQ + r")::(first|last|first_mut|last_mut|front|back|front_mut|back_mut|peek|get|get_mut)$")
def m_seq_get(x):
    op = x.path.split("::")[-1]
    vid, p = coll_id(x.eng, x.st, x.args[0])
    idx = None
    if op.startswith("get"):
        tid = x.argty(1)
        if tid is None or x.eng.prog.types[tid]["s"] != "usize":
            return None
        idx = x.args[1]
    moves = idx is not None and looping_on(x.eng, x.st, idx) and (
        idx is C(0) or x.st.mem.get(place(T("cnt", idx))) is C(1))
    s2, e2 = x.st.copy(), list(x.events)
    if moves:
        seq_index_step(x.eng, s2, e2, vid, idx, False)
    out = x.ret(NONE, s2, e2)
    if vid.op == "vec" and vec_templates(x.st, vid) is None:
        return out
    if idx is None:
        idx = C(0) if op in ("first", "front", "first_mut", "front_mut") else x.fresh("k")
    if moves and x.st.mem.get(place(T("drawn", idx))) is not vid:
        rs = seq_draw(x.eng, x.st, x.events, vid, idx, x.span)
    else:
        rs = seq_peek(x.eng, x.st, x.events, vid, idx)
    for s3, e3, q in rs:
        out += x.ret(some(ref(q)), s3, e3)
    return out


@model("alloc::vec::Vec::<T>::new", "alloc::vec::Vec::<T>::with_capacity",
       "<alloc::vec::Vec<T> as core::default::Default>::default")
def m_vec_new(x):
    return x.ret(vec_new(x.eng, x.st, x.events))


@model("alloc::boxed::Box::<T>::new_uninit")
def m_box_new_uninit(x):
    root = T("heap", x.fresh("box"))
    x.eng.kill_root(x.st, root)
    return x.ret(ref(place(root)))


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def m_box_into_vec(x):
    """The end of vec![..]: the elements were written into a new box before."""
    root = x.at(0).a[0]
    arr = [v for q, v in x.st.mem.items() if q.a[0] is root and v.op == "arr"]
    if len(arr) != 1:
        return None
    x.eng.kill_root(x.st, root)
    v = vec_new(x.eng, x.st, x.events, arr[0].a[0])
    for e in arr[0].a[0]:
        x.ev("vec_push", vec=v, value=e)
    return x.ret(v)


@model("alloc::vec::Vec::<T, A>::push")
def m_vec_push(x):
    vid, p = coll_id(x.eng, x.st, x.args[0])
    vec_push(x.eng, x.st, x.events, vid, x.args[1], x.span)
    return x.ret(UNIT)


@pattern(r"alloc::vec::Vec::<T, A>::pop$|" + DEQ + r"::(pop|pop_front|pop_back)$")
def m_vec_pop(x):
    vid, p = coll_id(x.eng, x.st, x.args[0])
    ex = vec_exact(x.st, vid)
    vec_changed(x.st, vid)
    if ex and x.path.endswith("pop_front"):
        x.st.mem[place(T("vx", vid))] = T("arr", ex[1:])
        vec_retemplate(x.eng, x.st, vid, ex[1:])
        x.ev("vec_next", vec=vid, value=ex[0], pop=True)
        return x.ret(some(ex[0]))
    if ex:
        x.st.mem[place(T("vx", vid))] = T("arr", ex[:-1])
        vec_retemplate(x.eng, x.st, vid, ex[:-1])
        x.ev("vec_next", vec=vid, value=ex[-1], pop=True)
        return x.ret(some(ex[-1]))
    s2, e2 = x.st.copy(), list(x.events)
    x.ev("vec_end", s2, e2, vec=vid)
    out = x.ret(NONE, s2, e2)
    if ex is not None:
        return out
    s3, e3 = x.st.copy(), list(x.events)
    for s4, e4, v in vec_element(x.eng, s3, e3, vid):
        x.ev("vec_next", s4, e4, vec=vid, value=v, pop=True)
        out += x.ret(some(v), s4, e4)
    return out


SEQ = r"(alloc::vec::Vec|alloc::collections::(vec_deque|linked_list|binary_heap)::\w+|core::slice::<impl \[T\]>|\[T\])"


@pattern(r"<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter$|"
         r"(alloc::vec::Vec::<T, A>|" + DEQ + r")::drain$|"
         r"<alloc::collections::(vec_deque|linked_list|binary_heap)::\w+<.*> as core::iter::traits::collect::IntoIterator>::into_iter$")
def m_vec_into_iter(x):
    if x.path.endswith("drain"):
        vid, p = coll_id(x.eng, x.st, x.args[0])
        tid = x.argty(1)
        if tid is None or "RangeFull" not in x.eng.prog.types[tid]["s"]:
            vec_cut(x, vid)
            return x.ret(T("it", "vec", vid))
        x.eng.write(x.st, p, vec_new(x.eng, x.st, x.events))
        return x.ret(T("it", "vec", vid))
    return x.ret(T("it", "vec", x.args[0]))


@pattern(r"core::array::iter::<impl core::iter::traits::collect::IntoIterator for \[T; N\]>::into_iter$")
def m_array_into_iter(x):
    if x.args[0].op != "arr":
        return None
    return x.ret(T("it", "xs", x.args[0].a[0]))


@pattern(r"<core::array::iter::IntoIter<.*> as core::iter::traits::(iterator::Iterator>::next|double_ended::DoubleEndedIterator>::next_back)$")
def m_array_next(x):
    it = x.obj()
    if it.op != "it" or it.a[0] != "xs":
        return None
    return known_next(x, it)


def known_next(x, it):
    """One step of an iterator over known values."""
    xs = it.a[1]
    if not xs:
        return x.ret(NONE)
    back = x.path.endswith("next_back")
    x.eng.write(x.st, x.at(0), T("it", "xs", xs[:-1] if back else xs[1:]))
    return x.ret(some(xs[-1] if back else xs[0]))


@pattern(r"<alloc::(vec|collections::vec_deque|collections::linked_list|collections::binary_heap)::(\w+::)?(IntoIter|Drain)<.*> as "
         r"core::iter::traits::(iterator::Iterator>::next|double_ended::DoubleEndedIterator>::next_back)$")
def m_vec_next(x):
    it = x.obj()
    vid = it.a[1] if it.op == "it" else it
    s2, e2 = x.st.copy(), list(x.events)
    x.ev("vec_end", s2, e2, vec=vid)
    out = x.ret(NONE, s2, e2)
    s3, e3 = x.st.copy(), list(x.events)
    for s4, e4, v in vec_element(x.eng, s3, e3, vid):
        x.ev("vec_next", s4, e4, vec=vid, value=v, pop=False)
        out += x.ret(some(v), s4, e4)
    return out


@pattern(r"<(alloc::vec::Vec<T, A>|alloc::string::String|alloc::vec::Vec<T>) as core::ops::deref::Deref(Mut)?>::deref(_mut)?$|"
         r"alloc::vec::Vec::<.*>::as_(mut_)?slice$|<alloc::vec::Vec<T, A> as core::convert::AsRef<\[T\]>>::as_ref$|"
         r"core::array::<impl .*\[T; N\].*>::as_slice$|core::array::<impl \[T; N\]>::as_slice$")
def m_as_slice(x):
    return x.ret(ref(sub(x.at(0), ("slice",))))


@pattern(r"(core::slice::<impl \[T\]>|alloc::vec::Vec::<.*>|alloc::collections::(vec_deque|linked_list|binary_heap)::\w+::<.*>)::"
         r"(iter|iter_mut)$|core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a (mut )?\[T\]>::into_iter$|"
         r"core::array::<impl core::iter::traits::collect::IntoIterator for &'a (mut )?\[T; N\]>::into_iter$|"
         r"<&'a (mut )?(alloc::vec::Vec|alloc::collections::(vec_deque|linked_list|binary_heap)::\w+)<.*> as "
         r"core::iter::traits::collect::IntoIterator>::into_iter$")
def m_seq_iter(x):
    vid, p = coll_id(x.eng, x.st, x.args[0])
    if vid.op == "arr":
        return x.ret(T("it", "xs", tuple(ref(place(T("val", v))) for v in vid.a[0])))
    x.ev("iter_new", map=vid, place=p, op="iter")
    return x.ret(T("it", "seq", vid, p))


@pattern(r"<(core::slice::iter::Iter(Mut)?|alloc::collections::(vec_deque|linked_list|binary_heap)::(iter::)?Iter(Mut)?)<.*> as "
         r"core::iter::traits::(iterator::Iterator>::next|double_ended::DoubleEndedIterator>::next_back)$")
def m_seq_next(x):
    it = x.obj()
    if it.op == "it" and it.a[0] == "xs":
        return known_next(x, it)
    if it.op != "it" or it.a[0] != "seq":
        return None
    vid = it.a[1]
    s2, e2 = x.st.copy(), list(x.events)
    x.ev("iter_end", s2, e2, map=vid, it=it)
    out = x.ret(NONE, s2, e2)
    s2, e2 = x.st.copy(), list(x.events)
    if vid.op == "vec" and vec_templates(s2, vid) is not None:
        for s4, e4, v in vec_element(x.eng, s2, e2, vid):
            x.ev("vec_next", s4, e4, vec=vid, value=v, pop=False)
            out += x.ret(some(ref(place(T("val", v)))), s4, e4)
        return out
    if vid.op == "vec":
        return out
    k = x.eng.fresh(s2, "k", e2)
    x.ev("iter_next", s2, e2, map=vid, key=k, it=it)
    out += x.ret(some(ref(place(T("el", vid, k)))), s2, e2)
    return out


@pattern(r"core::iter::range::<impl core::iter::traits::(iterator::Iterator|double_ended::DoubleEndedIterator) for "
         r"core::ops::range::Range<A>>::next(_back)?$")
def m_range_next(x):
    v = x.obj()
    if v.op != "adt" or len(v.a[3]) != 2:
        return None
    rid = T("range", *v.a[3])
    it = T("it", "range", rid)
    vid = x.st.mem.get(place(T("lenof", v.a[3][1]))) if v.a[3][0] is C(0) else None
    if vid is not None:
        s2, e2 = x.st.copy(), list(x.events)
        seq_index_step(x.eng, s2, e2, vid, v.a[3][0], False)
        out = x.ret(NONE, s2, e2)
        s2, e2 = x.st.copy(), list(x.events)
        k = x.eng.fresh(s2, "k", e2)
        for s3, e3, _ in seq_draw(x.eng, s2, e2, vid, k, x.span):
            out += x.ret(some(k), s3, e3)
        return out
    s2, e2 = x.st.copy(), list(x.events)
    x.ev("iter_end", s2, e2, map=rid, it=it)
    out = x.ret(NONE, s2, e2)
    s2, e2 = x.st.copy(), list(x.events)
    k = x.eng.fresh(s2, "k", e2)
    x.ev("iter_next", s2, e2, map=rid, key=k, it=it)
    return out + x.ret(some(k), s2, e2)


@pattern(r"<(alloc::vec::Vec<T, A>|alloc::collections::vec_deque::VecDeque<T, A>) as core::ops::index::Index(Mut)?<.*>>::index(_mut)?$|"
         r"core::slice::index::<impl core::ops::index::Index(Mut)?<I> for \[T\]>::index(_mut)?$")
def m_seq_index(x):
    tid = x.argty(1)
    if tid is None or x.eng.prog.types[tid]["s"] != "usize":
        return None
    vid, p = coll_id(x.eng, x.st, x.args[0])
    out = []
    for s2, e2, q in seq_peek(x.eng, x.st, x.events, vid, x.args[1]):
        out += x.ret(ref(q), s2, e2)
    return out


@pattern(r"<I as core::iter::traits::collect::IntoIterator>::into_iter$|core::iter::traits::iterator::Iterator::by_ref$")
def m_into_iter_id(x):
    return x.ret(x.args[0])


@pattern(r"core::iter::traits::iterator::Iterator::take$")
def m_iter_take(x):
    # the bound of the number of elements is not tracked
    x.args[1] = T("bound", x.fresh("bound"))
    return None


def _consumer(kind):
    def m(x):
        nxt = next_callee(x)
        if nxt is None:
            return None
        it = x.args[0]
        acc = None
        # consumers taking self by value own the iterator: give it a place
        tid = x.argty(0)
        byref = tid is not None and x.eng.prog.types[tid]["k"] == "ref"
        if not byref and it.op != "ref":
            tmp = place(tmp_root(x.eng, x.st, "iter"))
            x.st.mem[tmp] = it
            it = ref(tmp)
        elif not byref:
            tmp = place(tmp_root(x.eng, x.st, "iter"))
            x.st.mem[tmp] = it
            it = ref(tmp)
        if kind in ("fold", "try_fold"):
            init, f = x.args[1], x.args[2]
            if kind == "try_fold":
                rt = x.t[8]
                acc = x.eng.prog.types[rt].get("path") if rt is not None else CF
                if acc not in (OPT, RES):
                    acc = CF
            r = x.glue(kind, (nxt, it, f, acc))
            x.eng.write(x.st, glue_tmp(x.st, 3), init)
            return r
        return x.glue(kind, (nxt, it, x.args[1] if len(x.args) > 1 else None, acc))
    return m


for _k in ("find", "for_each", "any", "all", "fold", "find_map", "try_fold", "count", "position"):
    PATTERNS.append((re.compile(r"(core::iter::traits::iterator::Iterator::%s|<.* as core::iter::traits::iterator::Iterator>::%s)$"
                                % (_k, _k)), _consumer(_k)))


@pattern(r"core::iter::traits::iterator::Iterator::collect$|<.* as core::iter::traits::collect::FromIterator<.*>>::from_iter$")
def m_collect(x):
    nxt = next_callee(x)
    if nxt is None:
        return None
    rt = x.eng.prog.types[x.t[8]] if x.t[8] is not None else None
    if rt is None or rt["k"] != "adt":
        return None
    how = rt["path"] if rt["path"] in (OPT, RES) else None
    if how:
        # collecting into a Result or an Option stops at the first failure
        rt = x.eng.prog.types[rt["args"][0]]
    if how and rt["s"] == "()":
        acc = UNIT
    elif rt["k"] != "adt":
        return None
    elif rt["path"] in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque", "alloc::collections::linked_list::LinkedList"):
        acc = fresh_vec(x.eng, x.st, x.events)
        x.eng.kill_root(x.st, T("ve", acc))
    elif re.search(r"(HashMap|HashSet|BTreeMap|BTreeSet)$", rt["path"]):
        acc = fresh_map(x.eng, x.st, x.events)
    else:
        return None
    tmp = place(tmp_root(x.eng, x.st, "iter"))
    x.st.mem[tmp] = x.args[0]
    return x.glue("collect", (nxt, ref(tmp), how, acc))


@pattern(r"core::iter::traits::iterator::Iterator::partition$")
def m_partition(x):
    nxt = next_callee(x)
    rt = x.eng.prog.types[x.t[8]] if x.t[8] is not None else None
    if nxt is None or rt is None or rt["k"] != "tuple":
        return None
    acc = []
    for a in rt.get("args") or []:
        ty = x.eng.prog.types[a]
        if ty.get("path") == "alloc::vec::Vec":
            acc.append(T("vec", x.fresh("vec%d" % len(acc))))
            x.eng.kill_root(x.st, T("ve", acc[-1]))
        elif re.search(r"(HashMap|HashSet|BTreeMap|BTreeSet)$", str(ty.get("path"))):
            acc.append(T("map", x.fresh("map%d" % len(acc))))
    if len(acc) != 2:
        return None
    tmp = place(tmp_root(x.eng, x.st, "iter"))
    x.st.mem[tmp] = x.args[0]
    return x.glue("partition", (nxt, ref(tmp), x.args[1], T("tup", tuple(acc))))


@pattern(r"<.* as core::iter::traits::collect::Extend<.*>>::extend$|alloc::vec::Vec::<.*>::extend$")
def m_extend(x):
    mid, p = coll_id(x.eng, x.st, x.args[0])
    src = x.args[1]
    ty = x.eng.prog.types[x.argty(1)] if x.argty(1) is not None else {}
    if src.op in ("vec", "map"):
        src = T("it", "vec" if src.op == "vec" else "KV", src)
    elif src.op != "it" and ty.get("path") == "alloc::vec::Vec":
        src = T("it", "vec", src)
    if src.op == "it":
        nxt = ("<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::next", None) \
            if src.a[0] == "vec" else \
            ("<std::collections::hash::map::Iter<'a, K, V> as core::iter::traits::iterator::Iterator>::next", None)
    else:
        nxt = None
        for a in x.c.get("aux_next") or []:
            nxt = freeze(a)
        if nxt is None:
            return None
    tmp = place(tmp_root(x.eng, x.st, "iter"))
    x.st.mem[tmp] = src
    return x.glue("extend", (nxt, ref(tmp), None, mid))


@model("core::mem::drop")
def m_mem_drop(x):
    steps_place = place(tmp_root(x.eng, x.st, "dropped"))
    x.st.mem[steps_place] = x.args[0]
    ts = x.c.get("targs") or []
    steps = drop_steps(x.eng, x.st, steps_place, ts[0]) if ts else []
    if not steps:
        return x.ret(UNIT)
    return x.glue("drops", (tuple(steps), False))
