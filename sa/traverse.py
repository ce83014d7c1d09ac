"""Rules over the implementations of Collectable::accept: every owned component is visited."""
import glob, os
from .base import VERIF, ToolError, Lock, cargo_env, driver, extract, file_hash, run
from .core import *
from .collector import St, run_monitor, noep

ARG = T("*", sym("arg1"))
SEQS = ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque", "alloc::collections::linked_list::LinkedList",
        "alloc::collections::binary_heap::BinaryHeap")
SETS = ("std::collections::hash::set::HashSet", "alloc::collections::btree::set::BTreeSet")
MAPS = ("std::collections::hash::map::HashMap", "alloc::collections::btree::map::BTreeMap")
CELLS = ("core::cell::RefCell", "std::sync::poison::mutex::Mutex", "std::sync::poison::rwlock::RwLock",
         "lock_api::mutex::Mutex", "lock_api::rwlock::RwLock")
# generic types of the standard library which hold no value of their parameters
HOLLOW = ("core::marker::PhantomData", "std::sync::poison::mutex::MutexGuard", "core::hash::BuildHasherDefault",
          "std::sync::poison::rwlock::RwLockReadGuard", "std::sync::poison::rwlock::RwLockWriteGuard",
          "core::cell::Ref", "core::cell::RefMut", "alloc::rc::Weak", "alloc::sync::Weak", "alloc::rcs::rc::Weak",
          "alloc::rcs::arc::Weak", "core::mem::Discriminant",
          "core::mem::discriminant::Discriminant")
# several of these may own one value, so that it would be visited once for each
SHARED = ("alloc::rcs::rc::Rc", "alloc::rcs::arc::Arc", "alloc::rc::Rc", "alloc::sync::Arc")
STD = ("core::", "alloc::", "std::")


def can_own(P, i, depth=0):
    """Could a value of this type own a Gc?"""
    t = P.types[i]
    k = t["k"]
    if k in ("int", "uint", "float", "bool", "char", "str", "never", "fnptr", "fndef", "ref", "ptr"):
        return False
    if k in ("tuple",):
        return any(can_own(P, a, depth + 1) for a in t["args"])
    if k in ("slice", "array"):
        return can_own(P, t["to"], depth + 1)
    if k == "adt":
        p = t["path"]
        if p in HOLLOW:
            return False
        if not t.get("local") and p.startswith(STD):
            return any(can_own(P, a, depth + 1) for a in t.get("args") or [])
        if t.get("local") and p in P.adts and depth < 8:
            return any(len(f) < 2 or can_own(P, f[1], depth + 1) for v in P.adts[p]["variants"] for f in v[1])
        return True
    return t["s"] not in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32",
                          "f64", "f16", "f128", "char", "str", "bool")


class Shape:
    """What a type owns: {variant: set of component names}; loops: components visited once per element."""

    def __init__(self, variants, loops=(), known=True):
        self.variants, self.loops, self.known = variants, frozenset(loops), known


def shape(P, i, every):
    t = P.types[i]
    k = t["k"]
    if k in ("slice", "array"):
        return Shape({None: frozenset()}, ["el"] if every or can_own(P, t["to"]) else [])
    if k == "tuple":
        return Shape({None: frozenset("f:%d" % n for n, a in enumerate(t["args"]) if every or can_own(P, a))})
    if k == "adt":
        p, args = t["path"], t.get("args") or []
        own = [a for a in args if can_own(P, a)]
        if t.get("local") and p in P.adts:
            vs = P.adts[p]["variants"]
            if P.adts[p]["kind"] == "struct":
                return Shape({None: frozenset("f:" + f[0] for f in vs[0][1] if every or can_own(P, f[1]))})
            ds = [v[1] for v in t.get("variants") or [[None, n] for n in range(len(vs))]]
            return Shape({d: frozenset("v:%s.%s" % (v[0], f[0]) for f in v[1] if every or can_own(P, f[1]))
                          for d, v in zip(ds, vs)})
        if p == "core::option::Option":
            return Shape({0: frozenset(), 1: frozenset(["v:Some.0"] if own else [])})
        if p == "core::result::Result":
            return Shape({n: frozenset(["v:%s.0" % x] if can_own(P, a) else []) for n, (x, a) in
                          enumerate(zip(("Ok", "Err"), args))})
        if p == "alloc::borrow::Cow":
            return Shape({0: frozenset(), 1: frozenset(["v:Owned.0"] if own else [])})
        if p == "core::cell::once::OnceCell":
            return Shape({0: frozenset(), 1: frozenset(["once"] if own else [])})
        if p in ("alloc::boxed::Box",):
            return Shape({None: frozenset(["box"] if own else [])})
        if p in ("core::cell::Cell",):
            return Shape({None: frozenset(["copy"] if own else [])})
        if p in CELLS:
            return Shape({None: frozenset(["in"] if own else [])})
        if p in SEQS:
            return Shape({None: frozenset()}, ["el"] if own else [])
        if p in SETS:
            return Shape({None: frozenset(["hasher"] if len(args) > 1 and p.endswith("HashSet") and can_own(P, args[1]) else [])},
                         ["mk"] if can_own(P, args[0]) else [])
        if p in MAPS:
            return Shape({None: frozenset(["hasher"] if len(args) > 2 and p.endswith("HashMap") and can_own(P, args[2]) else [])},
                         [c for c, a in zip(("mk", "mv"), args) if can_own(P, a)])
        if p not in HOLLOW and own:
            return Shape({None: frozenset()}, known=False)
    if not can_own(P, i):
        return Shape({None: frozenset()})
    return Shape({None: frozenset()}, known=False)


def component(v, content=None):
    """Name of the component of *self at place v."""
    a = v.a
    root = a[0]
    els = [e for e in a[1:] if e[0] not in ("slice", "o")]
    if root.op in ("el", "mk", "mv"):
        m = noep(root.a[0])
        m = strip(m)
        base = m.a[0] if m.op == "ld" else m
        if base.op == "P":
            base = base if base.a[1:] else base.a[0]
        if base is ARG and not els:
            return root.op, root.a[1]
        return None, None
    if root.op == "hasher":
        return "hasher", None
    if root.op == "*" and root is not ARG:
        x = noep(root.a[0])
        while x.op in ("pj", "bits", "tup") and x.op != "tup":
            x = x.a[0]
        if x.op == "ld" and x.a[0].op == "P" and x.a[0].a[0] is ARG or x.op == "ld" and x.a[0] is ARG:
            if not els:
                return "box", None
        return None, None
    if root is ARG:
        if len(els) == 1 and els[0][0] == "in":
            return "in", None
        if len(els) == 1 and els[0][0] == "f":
            return "f:" + str(els[0][2]), None
        if len(els) == 2 and els[0][0] == "v" and els[1][0] == "f":
            return "v:%s.%s" % (els[0][2], els[1][2]), None
        if len(els) >= 2 and els[-1][0] == "f" and els[-2][0] == "v" and els[-2][2] == "Some":
            return "once", None
        if len(els) == 1 and els[0][0] == "ix":
            return "el", els[0][1] if len(els[0]) > 1 else None
        return None, None
    if content is not None:
        x = noep(content)
        if x.op == "ld" and (x.a[0] is ARG or x.a[0].op == "P" and x.a[0].a[0] is ARG and
                             all(e[0] in ("in", "f") for e in x.a[0].a[1:])):
            return "copy", None
    return None, None


class Accept:
    """Follows one implementation of accept: what was visited and what became of the results."""

    def __init__(self, cx, b, sh, out, first, g):
        self.cx, self.b, self.sh, self.out, self.first = cx, b, sh, out, first
        self.accepts = 0
        # are elements put off into a vector first? (then only single visits are judged)
        off = {e.value for e in g.events() if e.kind == "vec_next"}
        self.deferred = any(ref(e.value) in off for e in g.events() if e.kind == "accept")

    def bad(self, key, msg, e=None):
        at = " at %s" % e.span if e is not None and e.get("span") else ""
        at = " at %s" % e.span if e is not None and getattr(e, "span", None) else ""
        self.out.setdefault(key, "%s%s %s" % (self.b.path, at, msg))

    def init(self):
        # pass_: the parts visited in every iteration of the current pass; full: in all iterations of some pass
        return St({"seen": frozenset(), "res": (), "err": False, "variant": frozenset(self.sh.variants),
                   "it": frozenset(), "key": None, "pass_": None, "full": frozenset(), "empty": False,
                   "held": frozenset(), "lens": frozenset(), "bound": False})

    def learn(self, s, facts):
        res, err = s.res, s.err
        if res:
            new = []
            for r in res:
                st = status(facts, r)
                if st == "err":
                    err = True
                elif st is None:
                    new.append(r)
            if len(new) != len(res) or err != s.err:
                s = s.set(res=tuple(new), err=err)
        if len(s.variant) > 1:
            for t, (lo, hi, ex) in facts.items():
                if t.op == "disc" and about_self(t.a[0]):
                    v = frozenset(x for x in s.variant if lo <= x <= hi and x not in ex)
                    if v and v != s.variant:
                        s = s.set(variant=v)
        return s

    def step(self, s, e):
        s = self.learn(s, e.facts)
        k = e.kind
        if k == "accept":
            self.accepts += 1
            if self.first and s.err:
                self.bad("continues", "goes on after a component failed", e)
            if strip(e.visitor) is not sym("arg2") and e.visitor is not ref(place(T("*", sym("arg2")))):
                self.bad("visitor", "does not pass on the caller's visitor but %s" % show(e.visitor), e)
            c, key = component(e.value, e.get("content"))
            if c == "v:Some.0" and c not in set().union(*self.sh.variants.values()) and "once" in set().union(*self.sh.variants.values()):
                c = "once"
            if c is None:
                if self.sh.known:
                    self.bad("stranger", "visits %s, which is not a component of the value" % show(e.value), e)
                c = "?" + str(e.selfty)
            if c in self.sh.loops:
                if c in s.it or c in s.full:
                    self.bad("twice:" + c, "visits the %s of an element twice" % NAMES[c], e)
                if key is not None and key is s.key:
                    s = s.set(it=s.it | {c})
            else:
                if c in s.seen and not c.startswith("?"):
                    self.bad("twice:" + c, "visits component %s twice" % c, e)
                s = s.set(seen=s.seen | {c})
            if e.result in s.res:
                self.ignored(e)
                return s
            return s.set(res=s.res + (e.result,))
        if k == "panic" and re.search("BoundsCheck|index out of bounds", str(e.msg)):
            return s.set(bound=True)
        if k == "len":
            return s.set(lens=s.lens | {e.result})
        if k == "iter_new" and self.own(s, e):
            return s.set(pass_=None, key=None, it=frozenset())
        if k == "iter_next" and self.own(s, e):
            s = self.left(s)
            return s.set(it=frozenset(), key=e.key)
        if k == "iter_end" and self.own(s, e):
            s = self.left(s)
            if s.pass_ != "over":
                s = s.set(full=s.full | (s.pass_ or frozenset()), empty=s.empty or s.pass_ is None)
            return s.set(pass_="over", key=None, it=frozenset())
        if k == "empty" and self.own(s, e):
            return s.set(empty=True)
        if k == "tryfail":
            return s.set(err=True, held=frozenset(x for x in s.held if x is not canon(e.lock)))
        if k in ("borrow", "lock"):
            if not e.get("tried"):
                self.bad("block", "waits for a lock or panics on an existing borrow instead of reporting an error", e)
            return s.set(held=s.held | {canon(e.lock)})
        if k == "unlock":
            return s.set(held=s.held - {canon(e.lock)})
        return s

    def own(self, s, e):
        m = strip(noep(e.map))
        if m.op == "range":
            return m.a[0] is C(0) and (e.map.a[1] in s.lens or m.a[1].op in ("const", "len"))
        return m.op == "ld" and (m.a[0] is ARG or m.a[0].op == "P" and m.a[0].a[0] is ARG)

    def left(self, s):
        """An iteration is over."""
        if s.key is not None and not s.err:
            return s.set(pass_=s.it if s.pass_ in (None, "over") else s.pass_ & s.it)
        return s

    def ignored(self, e):
        self.bad("ignored", "goes on without looking at a component's result", e)

    def renamed(self, s, e):
        """A result of an earlier round that nothing refers to any more can no longer be looked at."""
        lost = {v for k, v in e.map.items()} - {sym(k) for k in e.map}
        gone = [r for r in s.res if r in lost or any(n.endswith("''") for n in r.syms)]
        if gone:
            self.ignored(e)
            s = s.set(res=tuple(r for r in s.res if r not in gone))
        return s

    def end(self, s, how, e):
        if e is not None:
            s = self.learn(s, e.facts)
        if how != "ret":
            if how == "panic" and not s.bound:
                self.bad("panics", "can panic", e)
            return
        if s.held:
            self.bad("held", "returns while holding a lock or borrow of the value", e)
        v = e.value
        st = status(e.facts, v)
        if v in s.res:
            # the last result is passed on: if it is Ok the rest must have been complete
            s = s.set(res=tuple(r for r in s.res if r is not v))
            if s.err:
                self.bad("lost", "may report success although a component failed", e)
            st = "ok"
        elif st is None:
            self.bad("value", "returns %s, which is no component's result" % show(v), e)
            return
        if st == "err":
            if not s.err and not s.res:
                self.bad("spurious", "reports an error although every component it visited succeeded", e)
            return
        if s.err:
            self.bad("lost", "reports success although a component failed or is inaccessible", e)
            return
        if s.res:
            self.bad("ignored", "reports success without looking at a component's result", e)
        for x in s.variant:
            for c in self.sh.variants[x] - s.seen:
                self.bad("skips:" + c, "does not visit component %s" % c, e)
        if not s.empty and not self.deferred:
            for c in self.sh.loops - s.full:
                self.bad("skips:" + c, "may report success without having visited the %s of every element" % NAMES[c], e)


NAMES = {"el": "value", "mk": "key", "mv": "value"}


def about_self(t):
    t = noep(t)
    while t.op == "pj":
        t = t.a[0]
    if t.op == "ld":
        p = t.a[0]
        return p is ARG or p.op == "P" and p.a[0] is ARG and all(e[0] in ("in", "f", "o") for e in p.a[1:])
    return False


def status(facts, r):
    if r.op == "adt":
        return {"Ok": "ok", "Err": "err"}.get(r.a[2])
    d = T("disc", r)
    f = facts.get(d)
    if f is None:
        return None
    if f[1] == 0 or 1 in f[2]:
        return "ok"
    if f[0] >= 1 or 0 in f[2]:
        return "err"
    return None


def impls(cx):
    """accept bodies of all Collectable impls except the handles' own."""
    gcs = {cx.u.trait("Collectable", "accept").key, cx.s.trait("Collectable", "accept").key}
    out = []
    for i in cx.P.impls:
        if i.get("trait") != "Collectable" or i.get("neg"):
            continue
        keys = [k for k in i["items"] if k.endswith("::accept")]
        bs = [b for b in cx.P.bodies.values() if b.local and b.impl == i["id"] and b.path.endswith("::accept")]
        for b in bs:
            if b.key not in gcs:
                out.append((i, b))
    return out


def check_accept(cx, i, b, every=False, first=False, opaque=False):
    sh = shape(cx.P, i["self_ty"], every)
    g = cx.graph(b, opaque=opaque)
    res = {}
    mon = Accept(cx, b, sh, res, first, g)
    run_monitor(g, mon)
    if not sh.known:
        t = cx.P.types[i["self_ty"]]
        if t.get("path") in SHARED:
            res["shared"] = "%s is implemented for %s: handles in a value with several owners would be found several times" % (
                b.path, t["s"])
        for a in t.get("args") or []:
            if can_own(cx.P, a):
                s = cx.P.tys(a)
                if not any(e.kind == "accept" and s in (e.selfty,) for e in g.events()):
                    res.setdefault("skips:" + s, "%s never visits a %s although %s may own one" % (b.path, s, t["s"]))
    for e in g.events():
        if e.kind == "call" and any(contains(a, sym("arg2")) for a in e.args):
            res.setdefault("opaque", "%s hands the visitor to %s, whose effect on the traversal is unknown" % (b.path, e.path))
    return sh, g, mon, res


def all_impls(cx):
    c = getattr(cx, "_acc", None)
    if c is None:
        c = cx._acc = [(i, b) + check_accept(cx, i, b) for i, b in impls(cx)]
    return c


LOCKS = ("block", "held", "panics", "lost", "spurious")


@rule("ACCEPT-ALL", "C08 C01 C02 C03 C04", "an implementation of Collectable for a library type visits each owned component exactly once with "
      "the caller's visitor and returns a failing component's error", 90)
def accept_all(cx, o):
    for i, b, sh, g, mon, res in all_impls(cx):
        o.inst("%s: %s" % (i["self"], "components %s" % sorted(set().union(*sh.variants.values()) | sh.loops)
                           if sh.loops or any(sh.variants.values()) else "owns nothing"))
        for k, m in res.items():
            if k not in ("block", "held", "panics"):
                o.bad(i["self"] + ":" + k, m)


@rule("ACCEPT-OWNERS", "C08", "implementations for types that can own handles visit something", 29)
def accept_owners(cx, o):
    for i, b, sh, g, mon, res in all_impls(cx):
        if sh.loops or any(sh.variants.values()) or not sh.known:
            o.inst("%s: %d visits" % (i["self"], mon.accepts))
            if not mon.accepts:
                o.bad(i["self"], "%s visits nothing although %s can own handles" % (b.path, i["self"]))


@rule("ACCEPT-TRY", "C10 C12", "traversals only try to get at borrowed or locked contents, report an error exactly if that fails, never panic "
      "and let go of the contents again; contents of a poisoned lock are visited", 3)
def accept_try(cx, o):
    for i, b, sh, g, mon, res in all_impls(cx):
        evs = [e for e in g.events() if e.kind in ("lock", "borrow", "tryfail")]
        if evs:
            o.inst("%s: %d acquisitions" % (i["self"], len(evs)))
        for k, m in res.items():
            if k in ("block", "held", "panics") or k in LOCKS and evs or k.startswith("skips") and evs:
                o.bad(i["self"] + ":" + k, m)


# ---------------------------------------------------------------- derived implementations
def corpus(cfg):
    """Compile the derive corpus against the analysed crate; (program path or None, compiler output)."""
    src = os.path.join(VERIF, "corpus", "derive.rs")
    lib = extract()[cfg]
    out = os.path.join(os.path.dirname(lib), "corpus-" + file_hash([src]))
    with Lock():
        js = os.path.join(out, "corpus.%s.json" % cfg)
        log = os.path.join(out, "corpus.%s.log" % cfg)
        if not os.path.exists(js) and not os.path.exists(log):
            os.makedirs(out, exist_ok=True)
            deps, rmeta = libpaths_of(lib, cfg)
            r = run([driver(), "rustc", "--crate-name", "corpus", "--edition", "2021", "--crate-type=lib", "--emit=metadata",
                     "--out-dir", out, "-L", "dependency=" + deps, "--extern", "dumpster=" + rmeta, src],
                    env=cargo_env({"VP_CRATES": "corpus", "VP_OUT": out, "VP_TAG": cfg}))
            if r.returncode or not os.path.exists(js):
                if os.path.exists(js):
                    os.unlink(js)
                with open(log, "w") as f:
                    f.write(r.stdout)
        if os.path.exists(log):
            return None, open(log).read()
        return js, ""


def libpaths_of(lib, cfg):
    deps = os.path.join(os.path.dirname(lib), "libs-" + cfg)
    cand = glob.glob(os.path.join(deps, "libdumpster-*.rmeta"))
    if len(cand) != 1:
        raise ToolError("expected one rmeta of dumpster in %s, found %s" % (deps, cand))
    return deps, cand[0]


def derived(cx):
    c = getattr(cx, "_derived", None)
    if c is None:
        js, log = corpus(cx.cfg)
        if js is None:
            c = cx._derived = (None, log)
        else:
            dx = cx.corpus = Ctx(cx.cfg, js)
            out = []
            for i in dx.P.impls:
                if str(i.get("trait")).endswith("Collectable"):
                    for b in dx.P.bodies.values():
                        if b.local and b.impl == i["id"] and b.path.endswith("::accept"):
                            out.append((i, b) + check_accept(dx, i, b, every=True, first=True, opaque="accept"))
            c = cx._derived = (out, "")
    return c


@rule("DERIVE-ACCEPTS", "C09", "Collectable can be derived on every struct and enum whose field types are collectable", 1)
def derive_accepts(cx, o):
    ds, log = derived(cx)
    if ds is None:
        errs = re.findall(r"^error.*(?:\n.*){0,6}", log, re.M)
        o.inst("corpus")
        o.bad("corpus", "the derive no longer accepts all types of corpus/derive.rs: %s" % " | ".join(
            " ".join(x.split()) for x in errs)[:1500])
        return
    o.inst("corpus of %d types" % len(ds), len(ds))


@rule("DERIVE-ALL", "C09", "a derived traversal visits each field of the active variant exactly once with the caller's visitor, stops at "
      "the first error and returns it, and succeeds otherwise", 90)
def derive_all(cx, o):
    ds, log = derived(cx)
    if ds is None:
        o.inst("none", 90)
        return
    for i, b, sh, g, mon, res in ds:
        o.inst("%s: %s" % (i["self"], {str(k): sorted(v) for k, v in sh.variants.items()}))
        for k, m in res.items():
            o.bad(i["self"] + ":" + k, "derive on %s (%s): %s" % (i["self"], i["span"].split("/")[-1], m))
