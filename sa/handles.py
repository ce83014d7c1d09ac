"""Rules about the operations of the handles: creation, cloning, dropping, access."""
from .core import *

BOX_EFFECTS = ("cnt", "boxstore", "dropval", "partdrop", "dealloc", "accept", "setptr", "hstore")
EFFECTS = BOX_EFFECTS + ("stat", "insert", "remove", "cond", "collect", "icall", "alloc", "otherdrop")
REL = ("Release", "AcqRel", "SeqCst")
ACQ = ("Acquire", "AcqRel", "SeqCst")


def mods(cx):
    return (cx.u, cx.s)


def effects(p, kinds=EFFECTS):
    return [t for t in p.toks if t.k in kinds or t.k == "atom" and t.op != "load" or t.k == "tag" and t.op != "load"]


def loc(p):
    return p.toks[-1].span if p.toks else ""


def nm(body):
    return body.path


def where(body, t=None):
    return "%s at %s" % (body.path, t.span if t is not None else body.span)


def counts(p, m, obj):
    """Changes of the strong count of an allocation on a path: (token, delta)."""
    out = []
    for t in p.toks:
        if t.get("obj") == obj and t.get("field") == m.strong_f and (
                t.k == "cnt" or t.k == "atom" and t.op not in ("load",)):
            if t.k == "atom" and t.op.startswith("compare_exchange") and not cas_ok(p, t):
                continue
            out.append((t, t.delta))
    return out


def cas_ok(p, t):
    return t.ev.get("ok", True)


def weaks(p, m, obj):
    return [t for t in p.toks if t.k == "atom" and t.obj == obj and t.field == m.weak_f and t.op != "load"]


def tls_all(p, ok):
    ts = [t for t in p.toks if t.k == "tls" and t.nd]
    return all((not t.tried) or t.ok == ok for t in ts)


def stats(p, m, which):
    return [t for t in p.toks if t.k == "stat" and t.mod == m.name and t.which == which]


def foreign_stats(p, m):
    return [t for t in p.toks if t.k == "stat" and t.mod != m.name]


def ret_handle(v):
    """The pointer value inside a returned handle."""
    if v.op == "adt" and v.a[0].endswith("::Gc"):
        return v.a[3][0]
    return None


def ptr_payload(v):
    """Pointer inside a non-null Nullable value."""
    while v.op == "adt":
        if v.a[0] == "core::option::Option" and v.a[1] == 0:
            return None
        if len(v.a[3]) != 1:
            return None
        v = v.a[3][0]
    return v


def is_self_ptr(tk, v, i=1):
    """Is this the pointer value stored in handle argument i?"""
    v2 = v
    while v2.op == "adt" and len(v2.a[3]) == 1 and v2.a[2] != "None":
        v2 = v2.a[3][0]
    if tk.boxname(v2) == "h%d" % i:
        return True
    x = v
    els = []
    while x.op == "pj":
        els.append(x.a[1])
        x = x.a[0]
    return x.op == "ld" and x.a[0].op == "*" and x.a[0].a[0] is sym("arg%d" % i) and bool(els) and \
        els[-1][2] == tk.cx.mod(tk.argkind["arg%d" % i][2]).ptr_f[1]


def points_to_value(tk, m, v, i=1):
    if v.op != "ref":
        return False
    n, rest = tk.objplace(v.a[0])
    return n == "h%d" % i and len(rest) == 1 and rest[0][2] == m.value_f


# ---------------------------------------------------------------- creation
@rule("NEW-BOX", "C01 C02 C05 C06 C17 C19", "Gc::new allocates exactly one box holding the given value with one strong "
      "and no other claim, and returns a handle to that box", 2)
def new_box(cx, o):
    for m in mods(cx):
        bodies = [m.method("new")]
        for b in bodies:
            tk, ps = cx.paths(m, b)
            rets = [p for p in ps if p.how == "ret"]
            if not rets:
                o.bad(nm(b), "%s never returns" % where(b))
            for p in rets:
                o.inst(where(b))
                al = p.all("alloc")
                if len(al) != 1:
                    o.bad(nm(b), "%s allocates %d boxes on a path (%s)" % (where(b), len(al), p.show()))
                    continue
                v = al[0].value
                if v.op != "adt" or v.a[0] != m.box:
                    o.bad(nm(b), "%s allocates %s instead of a %s" % (where(b, al[0]), show(v)[:80], m.box))
                    continue
                f = dict(zip(v.a[5], v.a[3]))
                if f.get(m.value_f) is not sym("arg1"):
                    o.bad(nm(b), "%s does not store the given value" % where(b, al[0]))
                if f.get(m.strong_f) is not C(1):
                    o.bad(nm(b), "%s initialises %s with %s instead of 1" % (where(b, al[0]), m.strong_f,
                                                                         f.get(m.strong_f)))
                if m.weak_f and f.get(m.weak_f) is not C(0):
                    o.bad(nm(b), "%s initialises %s with %s instead of 0" % (where(b, al[0]), m.weak_f, f.get(m.weak_f)))
                h = ret_handle(p.value)
                pp = ptr_payload(h) if h is not None else None
                if pp is None or pp.op != "ref" or pp.a[0] is not al[0].place:
                    o.bad(nm(b), "%s returns a handle that does not point to the new box: %s" % (
                        where(b, al[0]), show(p.value)[:120]))
                if p.all("dealloc") or p.all("dropval"):
                    o.bad(nm(b), "%s destroys something" % where(b))


@rule("NEW-STAMP", "C18 C02", "a new sync allocation carries the current collection number", 1)
def new_stamp(cx, o):
    m = cx.s
    b = m.method("new")
    tk, ps = cx.paths(m, b)
    for p in ps:
        if p.how != "ret":
            continue
        for al in p.all("alloc"):
            if al.value.op != "adt":
                continue
            f = dict(zip(al.value.a[5], al.value.a[3]))
            g = f.get(m.gen_f)
            o.inst(where(b, al))
            if not any(t.k == "gtag" and t.op == "load" and t.result is g for t in p.toks):
                o.bad(nm(b), "%s initialises %s with %s, not with the current collection number" % (
                    where(b, al), m.gen_f, g))


@rule("NEW-STAT", "C14 C15 C22", "creating or cloning a handle adds exactly one to the number of existing handles and changes "
      "no other statistic", 4)
def new_stat(cx, o):
    for m in mods(cx):
        for b in (m.method("new"), m.trait("clone::Clone", "clone"), m.method("try_clone"),
                  m.trait("default::Default", "default", False)):
            if b is None:
                continue
            tk, ps = cx.paths(m, b)
            for p in ps:
                if p.how != "ret":
                    continue
                if p.value.op == "adt" and p.value.a[2] == "None":
                    if stats(p, m, "living") or stats(p, m, "drops"):
                        o.bad(nm(b) + ":none", "%s counts a handle it does not create" % where(b))
                    continue
                o.inst(where(b))
                ok = tls_all(p, True)
                ds = [t.delta for t in stats(p, m, "living")]
                if ok and ds != [1] or not ok and ds not in ([1], []):
                    o.bad(nm(b), "%s changes the number of existing handles by %s instead of [1] (%s)" % (
                        where(b), ds, p.show()))
                if not ok and not ds and not any(t.k == "tls" and t.tried and not t.ok for t in p.toks):
                    o.bad(nm(b), "%s does not count the new handle" % where(b))
                if stats(p, m, "drops") or foreign_stats(p, m):
                    o.bad(nm(b) + ":other", "%s changes another statistic" % where(b))


# ---------------------------------------------------------------- clone
@rule("CLONE", "C01 C02 C05 C06 C07 C16 C17 C21", "cloning a live handle adds exactly one strong count to its allocation and "
      "returns a handle with the same pointer; cloning a dead one panics (or returns None) without any effect", 4)
def clone(cx, o):
    for m in mods(cx):
        for b in (m.trait("clone::Clone", "clone"), m.method("try_clone")):
            fall = b.path.endswith("try_clone")
            tk, ps = cx.paths(m, b)
            seen = set()
            for p in ps:
                lv = tk.liveness(p.facts)
                if p.how == "panic":
                    if lv != "dead":
                        o.bad(nm(b) + ":panic", "%s panics on a handle that is not known to be dead (%s)" % (
                            where(b), p.show()))
                    if effects(p):
                        o.bad(nm(b) + ":effect", "%s has effects before panicking on a dead handle: %s" % (
                            where(b), p.show()))
                    seen.add("dead")
                    if fall:
                        o.bad(nm(b) + ":panics", "%s panics" % where(b))
                    o.inst(where(b))
                    continue
                if p.how != "ret":
                    continue
                o.inst(where(b))
                v = p.value
                if fall:
                    if v.op == "adt" and v.a[2] == "None":
                        if lv == "live":
                            o.bad(nm(b) + ":none", "%s returns None for a live handle" % where(b))
                        if effects(p):
                            o.bad(nm(b) + ":effect", "%s has effects on a dead handle: %s" % (where(b), p.show()))
                        seen.add("dead")
                        continue
                    v = v.a[3][0] if v.op == "adt" and v.a[3] else v
                if lv != "live":
                    o.bad(nm(b) + ":dead", "%s returns a clone of a handle not known to be live (%s)" % (
                        where(b), p.show()))
                seen.add("live")
                cs = [d for _, d in counts(p, m, "h1")]
                if cs != [1]:
                    o.bad(nm(b), "%s changes the strong count by %s instead of [1] (%s)" % (where(b), cs, p.show()))
                h = ret_handle(v)
                if h is None or not is_self_ptr(tk, h):
                    o.bad(nm(b) + ":ptr", "%s returns %s, not a handle to the same allocation" % (
                        where(b), show(v)[:100]))
                if p.all("dealloc") or p.all("dropval") or p.all("setptr") or p.all("alloc"):
                    o.bad(nm(b) + ":other", "%s allocates, destroys or clears something: %s" % (where(b), p.show()))
            if seen != {"live", "dead"}:
                o.bad(nm(b) + ":cases", "%s does not distinguish live from dead handles" % where(b))


@rule("CLONE-STAMP", "C18 C02", "cloning a sync handle stamps the allocation (and the new handle) with the current collection "
      "number", 1)
def clone_stamp(cx, o):
    m = cx.s
    for b in (m.trait("clone::Clone", "clone"), m.method("try_clone")):
        tk, ps = cx.paths(m, b)
        for p in ps:
            if p.how != "ret" or not counts(p, m, "h1"):
                continue
            o.inst(where(b))
            good = stamp_ok(o, b, m, p, "h1")
            inc = [t for t in p.toks if t.k == "atom" and t.obj == "h1" and t.field == m.strong_f and t.op != "load"]
            if good and inc and not any(p.idx(t) > p.idx(inc[0]) for t in good):
                o.bad(nm(b) + ":order", "%s stamps the allocation only before adding its count: a collection that begins in "
                      "between sees neither the stamp nor the handle (%s)" % (where(b, good[0]), p.show()))
            v = p.value
            if v.op == "adt" and v.a[2] == "Some":
                v = v.a[3][0]
            tg = v.a[3][m.tag_f[0]] if v.op == "adt" and len(v.a[3]) > m.tag_f[0] else None
            if not any(t.k == "gtag" and t.op == "load" and t.result is tg for t in p.toks):
                o.bad(nm(b) + ":tag", "%s gives the new handle the tag %s, not the current collection number" % (
                    where(b), tg))


def stamp_ok(o, b, m, p, obj, before=None, key=""):
    """The path stores the current collection number into the allocation (before a given token)."""
    st = [t for t in p.toks if t.k == "atom" and t.obj == obj and t.field == m.gen_f and t.op in ("store", "swap",
                                                                                            "fetch_max")]
    good = []
    for t in st:
        src = [u for u in p.toks if u.k == "gtag" and u.op == "load" and u.result is t.operand]
        if not src:
            o.bad(nm(b) + key + ":stampvalue", "%s stores %s, not the current collection number, into %s" % (
                where(b, t), t.operand, m.gen_f))
            continue
        if t.order not in REL:
            o.bad(nm(b) + key + ":stamporder", "%s stores the stamp with %s ordering: what precedes it is not visible to a "
                  "collection that sees the stamp" % (where(b, t), t.order))
        if before is not None and p.idx(t) > p.idx(before):
            continue
        good.append(t)
    if not good:
        # the stamp may have been found to be current already
        for t in p.toks:
            if t.k == "atom" and t.obj == obj and t.field == m.gen_f and t.op == "load" and t.order in ("Acquire", "SeqCst") and (
                    before is None or p.idx(t) <= p.idx(before)) and any(
                    u.k == "gtag" and u.op == "load" and evalb(p.facts, T("lt", t.result, u.result)) == 0 for u in p.toks):
                good.append(t)
    if not good:
        o.bad(nm(b) + key + ":stamp", "%s does not stamp the allocation with the current collection number%s (%s)" % (
            where(b, before), " before giving up its count" if before is not None else "", p.show()))
    return good


# ---------------------------------------------------------------- access
@rule("ACCESS", "C17 C07 C16 C01 C02", "every accessor of a live handle designates the value in the allocation the handle "
      "points to, dead handles panic or give None without any effect", 10)
def access(cx, o):
    for m in mods(cx):
        for b, kind in ((m.trait("deref::Deref", "deref"), "ref"), (m.trait("convert::AsRef", "as_ref"), "ref"),
                        (m.trait("borrow::Borrow", "borrow"), "ref"), (m.method("as_ptr"), "ref"),
                        (m.method("try_deref"), "opt")):
            tk, ps = cx.paths(m, b)
            seen = set()
            for p in ps:
                lv = tk.liveness(p.facts)
                bad = [t for t in effects(p) if t.k not in ("atom", "tag") or t.k == "atom" and t.get("field") != m.gen_f]
                if bad:
                    o.bad(nm(b) + ":effect", "%s changes the handle, the allocation or the statistics: %s" % (
                        where(b, bad[0]), p.show()))
                if p.how == "panic":
                    o.inst(where(b))
                    if lv != "dead":
                        o.bad(nm(b) + ":panic", "%s panics on a handle not known to be dead (%s)" % (where(b), p.show()))
                    if kind == "opt":
                        o.bad(nm(b) + ":panics", "%s panics" % where(b))
                    if effects(p):
                        o.bad(nm(b) + ":dead-effect", "%s has effects on a dead handle" % where(b))
                    seen.add("dead")
                    continue
                if p.how != "ret":
                    continue
                o.inst(where(b))
                v = p.value
                if kind == "opt" and v.op == "adt" and v.a[2] == "None":
                    if lv == "live":
                        o.bad(nm(b) + ":none", "%s returns None for a live handle" % where(b))
                    if effects(p):
                        o.bad(nm(b) + ":dead-effect", "%s has effects on a dead handle" % where(b))
                    seen.add("dead")
                    continue
                if kind == "opt":
                    v = v.a[3][0] if v.op == "adt" and v.a[3] else v
                seen.add("live")
                if lv != "live":
                    o.bad(nm(b) + ":dead", "%s follows a handle not known to be live (%s)" % (where(b), p.show()))
                if not points_to_value(tk, m, v):
                    o.bad(nm(b), "%s returns %s, not the value of the allocation its handle points to" % (
                        where(b), show(v)[:120]))
            if seen != {"live", "dead"}:
                o.bad(nm(b) + ":cases", "%s does not distinguish live from dead handles" % where(b))


@rule("DEREF-STAMP", "C18 C02", "handing out a reference to a sync value first stamps the allocation and the handle with the "
      "current collection number", 4)
def deref_stamp(cx, o):
    m = cx.s
    for b in (m.trait("deref::Deref", "deref"), m.trait("convert::AsRef", "as_ref"), m.trait("borrow::Borrow", "borrow"),
              m.method("try_deref"), m.trait("cmp::PartialEq", "eq")):
        tk, ps = cx.paths(m, b)
        for p in ps:
            if p.how != "ret" or p.value.op == "adt" and p.value.a[2] == "None":
                continue
            o.inst(where(b))
            for h in ("h1", "h2") if b.path.endswith("::eq") else ("h1",):
                use = [t for t in p.toks if t.k == "tcall"]
                stamp_ok(o, b, m, p, h, use[0] if use else None)
                tg = [t for t in p.toks if t.k == "tag" and t.obj == h and t.op in ("store", "swap")]
                good = [t for t in tg if any(u.k == "gtag" and u.op == "load" and u.result is t.operand for u in p.toks)]
                if not good:
                    o.bad(nm(b) + ":tag", "%s does not tag the handle with the current collection number" % where(b))
                for t in good:
                    if t.order not in REL:
                        o.bad(nm(b) + ":tagorder", "%s tags the handle with %s ordering" % (where(b, t), t.order))


@rule("PTR-EQ", "C17 C07", "handles are identical exactly if their pointers are equal; comparing dead ones touches nothing", 2)
def ptr_eq(cx, o):
    for m in mods(cx):
        b = m.method("ptr_eq")
        tk, ps = cx.paths(m, b)
        for p in ps:
            o.inst(where(b))
            if p.how != "ret":
                o.bad(nm(b) + ":panic", "%s can panic (%s)" % (where(b), p.show()))
                continue
            if effects(p) or p.all("tcall"):
                o.bad(nm(b) + ":effect", "%s has effects: %s" % (where(b), p.show()))
            l1, l2 = tk.liveness(p.facts, 1), tk.liveness(p.facts, 2)
            v = p.value
            truth = evalb(p.facts, v)
            if v.op == "eq" and {tk.boxname(x) for x in v.a} == {"h1", "h2"}:
                continue
            if v.op == "eq" and all(is_self_ptr_any(tk, x) for x in v.a):
                continue
            if l1 == "dead" and l2 == "dead" and truth == 1 or {l1, l2} == {"live", "dead"} and truth == 0:
                continue
            if l1 == "dead" and v.op in ("eq", "not") and _null_test(tk, v, 2) or \
                    l2 == "dead" and _null_test(tk, v, 1):
                continue
            if truth is not None and any(t.op == "eq" and {tk.boxname(x) for x in t.a} == {"h1", "h2"} and
                                         evalb(p.facts, t) == truth for t in p.facts):
                continue
            o.bad(nm(b), "%s returns %s for a %s and a %s handle" % (where(b), show(v)[:100], l1, l2))


def is_self_ptr_any(tk, v):
    return any("arg%d" % i in tk.argkind and is_self_ptr(tk, v, i) for i in (1, 2))


def _null_test(tk, v, i):
    """Is v true exactly if handle i is dead?"""
    f = dict()
    from .engine import assume
    a, b = {}, {}
    return assume(a, v, 1) and tk.liveness(a, i) == "dead" and assume(b, v, 0) and tk.liveness(b, i) == "live"


@rule("EQ", "C17", "handle equality is the equality of the two values, claimed total only for types whose equality is", 4)
def eq(cx, o):
    for m in mods(cx):
        b = m.trait("cmp::PartialEq", "eq")
        tk, ps = cx.paths(m, b)
        for p in ps:
            if p.how != "ret":
                continue
            o.inst(where(b))
            cmps = [t for t in p.toks if t.k == "tcall" and t.path.split("::")[-1] in ("eq", "ne")]
            if len(cmps) != 1:
                o.bad(nm(b), "%s compares values %d times on a path (%s)" % (where(b), len(cmps), p.show()))
                continue
            c = cmps[0]
            objs = []
            for a in c.args[:2]:
                objs.append("h1" if points_to_value(tk, m, a, 1) else "h2" if points_to_value(tk, m, a, 2) else None)
            if set(objs) != {"h1", "h2"}:
                o.bad(nm(b), "%s compares %s instead of the two handles' values" % (where(b, c), objs))
            v = p.value
            neg = c.path.endswith("ne")
            want = c.result
            tv, tw = evalb(p.facts, v), known(p.facts, want)
            same = v is want if not neg else v.op == "not" and v.a[0] is want
            if not same and not (tv is not None and tw is not None and tv == (1 - tw if neg else tw)):
                o.bad(nm(b), "%s does not return the result of comparing the values but %s" % (where(b, c), show(v)[:80]))
        for im in cx.P.impls:
            t = im.get("trait") or ""
            if im["self"].startswith(m.gc + "<") and t.split("<")[0] in ("core::cmp::Eq", "core::cmp::PartialEq",
                                                                     "core::hash::Hash", "core::cmp::Ord",
                                                                     "core::cmp::PartialOrd"):
                o.inst("impl %s for %s" % (t, im["self"]))
                short = t.split("<")[0]
                if not any("<%s as %s" % (im["self"][len(m.gc) + 1:-1], short) in x for x in im["preds"]):
                    o.bad("impl-%s-%s" % (short, m.name), "impl %s for %s at %s does not require it of the value" % (
                        short, im["self"], im["span"]))


@rule("POINTER-FMT", "C17", "the formatted address of a live handle is the address of its value", 2)
def pointer_fmt(cx, o):
    for m in mods(cx):
        b = m.trait("fmt::Pointer", "fmt")
        g = cx.graph(b)
        tk = Toker(cx, m, b)
        hit = False
        for e in g.events():
            if e.kind == "call" and "fmt" in e.path and e.args:
                for a in tuple(e.args) + tuple(x.a[1] for x in e.vals if x.op == "refto"):
                    hit = hit or points_to_value(tk, m, a)
        o.inst(where(b))
        if not hit:
            o.bad(nm(b), "%s does not format the address of the handle's value" % where(b))


@rule("FMT-INERT", "C07", "formatting a handle does not touch its value or change anything", 2)
def fmt_inert(cx, o):
    for m in mods(cx):
        b = m.trait("fmt::Debug", "fmt", False)
        if b is None:
            continue
        tk, ps = cx.paths(m, b)
        for p in ps:
            o.inst(where(b))
            if p.how == "panic":
                o.bad(nm(b) + ":panic", "%s panics (%s)" % (where(b), p.show()))
            if effects(p):
                o.bad(nm(b), "%s has effects: %s" % (where(b), p.show()))
            for t in p.toks:
                if t.k == "atom":
                    o.bad(nm(b) + ":touch", "%s reads the allocation of a possibly dead handle" % where(b, t))


@rule("GC-ACCEPT", "C21 C08 C03 C04", "traversing a handle reports it to the visitor exactly once with the method of its kind "
      "and always succeeds", 2)
def gc_accept(cx, o):
    for m in mods(cx):
        b = m.trait("Collectable", "accept")
        tk, ps = cx.paths(m, b)
        want = "visit_sync" if m.name == "sync" else "visit_unsync"
        for p in ps:
            o.inst(where(b))
            vs = p.all("visit")
            if p.how != "ret":
                o.bad(nm(b) + ":panic", "%s can panic" % where(b))
                continue
            if [v.method for v in vs] != [want]:
                o.bad(nm(b), "%s calls %s instead of %s once" % (where(b), [v.method for v in vs], want))
                continue
            if vs[0].gc is not place(T("*", sym("arg1"))):
                o.bad(nm(b) + ":self", "%s reports another handle" % where(b, vs[0]))
            if strip(vs[0].visitor) is not sym("arg2"):
                o.bad(nm(b) + ":visitor", "%s does not use the caller's visitor" % where(b, vs[0]))
            if not (p.value.op == "adt" and p.value.a[2] == "Ok"):
                o.bad(nm(b) + ":ok", "%s returns %s" % (where(b), show(p.value)))
            if effects(p):
                o.bad(nm(b) + ":effect", "%s has further effects: %s" % (where(b), p.show()))


# ---------------------------------------------------------------- drop
def drop_paths(cx, m, ends=("ret",)):
    b = m.trait("ops::drop::Drop", "drop")
    tk, ps = cx.paths(m, b)
    return b, tk, [p for p in ps if p.how in ends]


def last_status(tk, m, p):
    """"last"/"more"/None: does the path know whether the dropped handle was the last one?"""
    if m.name == "sync":
        cs = counts(p, m, "h1")
        if len(cs) != 1:
            return None
        r = cs[0][0].result if cs[0][0].get("result") is not None else None
        if r is None:
            return None
        lo, hi, ex = rng(p.facts, r)
        if lo == hi == 1:
            return "last"
        if lo > 1 or 1 in ex:
            return "more"
        return None
    for t, r in p.facts.items():
        x = t
        if x.op == "pj" and x.a[0].op == "ld" and x.a[1][2] == m.strong_f:
            if tk.objplace(place(x.a[0].a[0]))[0] == "h1":
                lo, hi, ex = r
                if lo == hi == 1:
                    return "last"
                if lo > 1 or 1 in ex:
                    return "more"
    return None


def visits_of(cx, ty):
    """[(method, body, {path of a field: value after a visit}, facts)] of a visitor of the crate."""
    c = cx._g.setdefault("visits", {})
    if ty not in c:
        out = []
        for k in ("visit_sync", "visit_unsync"):
            bs = [b for b in cx.P.local_fns if b.impl_trait and b.impl_trait.split("<")[0].endswith("Visitor") and
                  (b.impl_self or "").split("<")[0] == ty and b.path.endswith("::" + k)]
            if not bs:
                raise Missing("<%s as Visitor>::%s" % (ty, k))
            for p in cx.paths(cx.u, bs[0])[1]:
                post = {}
                for t in p.toks:
                    if t.k == "vstore" and t.place.a[0].a[0] is sym("arg1"):
                        post[tuple(e[1] for e in t.place.a[1:] if e[0] == "f")] = t.value
                out.append((k, bs[0], post, p))
        c[ty] = out
    return c[ty]


WIDE = ("usize", "u64", "u128", "i64", "i128", "isize")


def excludes(cx, facts, v, ty, post, vf, path=()):
    """Is it established that the visitor's state v is not one a visit leaves behind?"""
    if v.op == "adt" and not v.a[4]:
        ad = cx.P.adts.get(v.a[0])
        fs = ad["variants"][0][1] if ad else ()
        return any(excludes(cx, facts, x, fs[i][1] if i < len(fs) else None, post, vf, path + (i,)) for i, x in enumerate(v.a[3]))
    w = post.get(path)
    if w is None:
        for q, x in post.items():
            if q == path[:len(q)] and x.op == "adt" and not x.a[4] and len(path) == len(q) + 1:
                w = x.a[3][path[-1]]
    if w is None:
        return False
    if w.op == "adt" and w.a[4]:
        return not possible(facts, T("disc", v), w.a[1])
    if w.op == "lin" and (ty is None or cx.P.tys(ty) not in WIDE):
        return False
    k = evalb(vf, w) if w.op in ("or", "and", "not", "eq", "lt") else None
    lo, hi, ex = (k, k, ()) if k is not None else rng(vf, w)
    a = rng(facts, v)
    if v.op not in ("s", "c") and evalb(facts, v) is not None:
        a = (evalb(facts, v),) * 2 + ((),)
    return a[1] is not None and a[1] < lo or hi is not None and hi < a[0] or lo == hi and lo in a[2] or a[0] == a[1] and a[0] in ex


def contains_status(cx, p):
    """What the contents check said: "err", "gcs", "none" or None if it was not made or not examined."""
    acc = [t for t in p.toks if t.k == "accept" and t.obj == "h1"]
    if not acc:
        return None
    t = acc[-1]
    d = T("disc", t.result)
    lo, hi, ex = rng(p.facts, d)
    if lo >= 1 or 0 in ex:
        return "err"
    if (hi == 0 or 1 in ex) and t.after is not None and t.after.op == "refto":
        v = t.after.a[1]
        vs = visits_of(cx, t.vty)
        if any(excludes(cx, p.facts, v, None, post, q.facts) for k, b, post, q in vs):
            return "none"
        if all(f.op in ("s", "c") for f in v.a[3]) if v.op == "adt" else False:
            return "gcs"
    return None


def tracked(p, obj):
    for t in p.toks:
        if t.get("obj") == obj and t.get("region") in ("tls", "static"):
            if t.k in ("insert", "sinsert"):
                return t
            if t.k in ("entry", "get", "contains") and (t.had is True or evalb(p.facts, t.mem) == 1):
                return t
    return None


def untracked(p, obj):
    for t in p.toks:
        if t.get("obj") == obj and t.get("region") == "tls":
            if t.k == "remove":
                return t
            if t.k in ("entry", "get", "contains") and (t.had is False or evalb(p.facts, t.mem) == 0):
                return t
    return None


@rule("DROP-DEAD", "C07 C06 C14 C15", "dropping a dead handle does nothing at all", 2)
def drop_dead(cx, o):
    for m in mods(cx):
        b, tk, ps = drop_paths(cx, m, ("ret", "panic"))
        n = 0
        for p in ps:
            if tk.liveness(p.facts) == "live":
                continue
            n += 1
            o.inst(where(b))
            bad = [t for t in p.toks if t.k in EFFECTS + ("atom", "tag", "panic")]
            if bad or p.how != "ret":
                o.bad(nm(b), "%s acts on a handle that may be dead: %s" % (where(b, bad[0] if bad else None), p.show()))
        if not n:
            o.bad(nm(b) + ":cases", "%s has no path for dead handles" % where(b))


@rule("DROP-COUNT", "C01 C02 C03 C04 C05 C06", "dropping a live handle gives up exactly one strong count: the counter is "
      "reduced by one unless it was the last handle", 2)
def drop_count(cx, o):
    for m in mods(cx):
        b, tk, ps = drop_paths(cx, m)
        for p in ps:
            if tk.liveness(p.facts) != "live":
                continue
            o.inst(where(b))
            st = last_status(tk, m, p)
            cs = [d for _, d in counts(p, m, "h1")]
            if m.name == "sync":
                if cs != [-1]:
                    o.bad(nm(b), "%s changes the strong count by %s instead of [-1] (%s)" % (where(b), cs, p.show()))
            elif st == "more":
                if cs != [-1]:
                    o.bad(nm(b), "%s changes the count by %s instead of [-1] (%s)" % (where(b), cs, p.show()))
            elif st == "last":
                if cs not in ([], [-1]):
                    o.bad(nm(b), "%s changes the count of a dying allocation by %s" % (where(b), cs))
            else:
                o.bad(nm(b) + ":test", "%s does not examine whether the handle was the last one (%s)" % (
                    where(b), p.show()))


@rule("DROP-DESTROY", "C01 C02 C05 C06", "dropping a handle destroys the value (destructor once, then its memory once with the "
      "allocation's layout) exactly if the handle was the last one and nothing else refers to the allocation", 4)
def drop_destroy(cx, o):
    for m in mods(cx):
        b, tk, ps = drop_paths(cx, m)
        kinds = set()
        for p in ps:
            if tk.liveness(p.facts) != "live":
                continue
            o.inst(where(b))
            st = last_status(tk, m, p)
            free = st == "last"
            if m.name == "sync":
                ws = [t for t in weaks(p, m, "h1") if t.delta == -1]
                lastw = ws[-1] if ws else None
                if st == "last":
                    if lastw is None or lastw.result is None:
                        o.bad(nm(b) + ":weak", "%s does not release its own claim on the allocation" % where(b))
                        continue
                    lo, hi, ex = rng(p.facts, lastw.result)
                    if lo == hi == 1:
                        free = True
                    elif lo > 1 or 1 in ex or hi == 0:
                        free = False
                    else:
                        o.bad(nm(b) + ":weaktest", "%s does not examine whether bookkeeping still refers to the allocation "
                              "after its last handle is gone (%s)" % (where(b, lastw), p.show()))
                        continue
            dv, de = p.all("dropval", obj="h1"), p.all("dealloc", obj="h1")
            kinds.add(free)
            if p.all("partdrop") or [t for t in p.toks if t.k in ("dealloc", "dropval") and t.obj != "h1"]:
                o.bad(nm(b) + ":other", "%s destroys something else: %s" % (where(b), p.show()))
            if free:
                if len(dv) != 1:
                    o.bad(nm(b) + ":drop", "%s runs the destructor %d times when the last handle is dropped (%s)" % (
                        where(b), len(dv), p.show()))
                if len(de) != 1:
                    o.bad(nm(b) + ":free", "%s frees the memory %d times when the last handle is dropped (%s)" % (
                        where(b), len(de), p.show()))
                if len(dv) == 1 and len(de) == 1:
                    if p.idx(dv[0]) > p.idx(de[0]):
                        o.bad(nm(b) + ":order", "%s frees the memory before running the destructor" % where(b, de[0]))
                    if not de[0].layout:
                        o.bad(nm(b) + ":layout", "%s frees the memory with a layout other than the allocation's" % where(
                            b, de[0]))
                    after = [t for t in p.toks[p.idx(de[0]) + 1:] if t.get("obj") == "h1" and t.k not in ("tls",)]
                    if after:
                        o.bad(nm(b) + ":after", "%s uses the allocation after freeing it (%s)" % (where(b, after[0]), p.show()))
            elif dv or de:
                o.bad(nm(b) + ":early", "%s destroys a value although %s (%s)" % (
                    where(b, (dv + de)[0]), "other handles exist" if st == "more" else "it is still referred to", p.show()))
        if True not in kinds:
            o.bad(nm(b) + ":never", "%s never destroys a value" % where(b))


@rule("DROP-TRACK", "C03 C04 C05 C10", "dropping a handle that is not the last one registers the allocation as possible garbage "
      "unless its contents were traversed and found to hold no handles", 2)
def drop_track(cx, o):
    for m in mods(cx):
        b, tk, ps = drop_paths(cx, m)
        seen = set()
        for p in ps:
            if tk.liveness(p.facts) != "live" or last_status(tk, m, p) != "more":
                continue
            o.inst(where(b))
            cs = contains_status(cx, p)
            seen.add(cs)
            t = tracked(p, "h1")
            if t is None and cs != "none":
                if m.name == "unsync" and not tls_all(p, True):
                    continue
                o.bad(nm(b), "%s forgets an allocation %s (%s)" % (where(b), {
                    "err": "whose contents could not be examined", "gcs": "that contains handles",
                    None: "without examining its contents"}[cs], p.show()))
            dec = counts(p, m, "h1")
            if m.name == "sync" and t is not None:
                pin = [x for x in weaks(p, m, "h1") if x.delta == -1]
                if pin and p.idx(t) > p.idx(pin[-1]):
                    o.bad(nm(b) + ":late", "%s registers the allocation after giving up its claim on it" % where(b, t))
            cond = p.all("cond")
            if t is not None and cond and p.idx(t) > p.idx(cond[0]):
                o.bad(nm(b) + ":order", "%s registers the allocation only after a collection may have run" % where(b, t))
        if not {"err"} & seen and None not in seen:
            o.bad(nm(b) + ":err", "%s has no path for values whose contents are inaccessible" % where(b))


@rule("S-DROP-TRACKONLY", "C05", "dropping a sync handle registers the allocation only if a traversal of its contents reported a "
      "handle or failed: values without handles never wait for a collection", 1)
def drop_trackonly(cx, o):
    m = cx.s
    b, tk, ps = drop_paths(cx, m)
    for p in ps:
        if tk.liveness(p.facts) != "live" or last_status(tk, m, p) != "more":
            continue
        ins = [t for t in p.toks if t.k in ("insert", "sinsert") and t.get("obj") == "h1" and t.get("region") in ("tls", "static")]
        if not ins:
            continue
        o.inst(where(b))
        acc = [t for t in p.toks if t.k == "accept" and t.obj == "h1"]
        cs = contains_status(cx, p)
        if not acc or cs == "none":
            o.bad(nm(b), "%s registers an allocation %s (%s)" % (where(b, ins[0]), "whose contents hold no handles" if acc else
                                                                "without examining its contents", p.show()))
            continue
        t = acc[-1]
        if cs == "err" or t.vval is None or t.after is None or t.after.op != "refto":
            continue
        if not excludes(cx, p.facts, t.after.a[1], None, leaves(t.vval), p.facts):
            o.bad(nm(b) + ":start", "%s registers an allocation although the visitor is as it was before the traversal (%s)" % (
                where(b, ins[0]), p.show()))


def leaves(v, path=()):
    if v.op == "adt" and not v.a[4]:
        out = {}
        for i, x in enumerate(v.a[3]):
            out.update(leaves(x, path + (i,)))
        return out
    return {path: v}


@rule("DROP-TOTAL", "C05 C12 C15", "dropping a handle completes whatever the counts of its allocation are, as long as they include "
      "the handle's own", 2)
def drop_total(cx, o):
    for m in mods(cx):
        b, tk, ps = drop_paths(cx, m, ("ret", "panic"))
        ps = [p for p in ps if tk.liveness(p.facts) == "live"]
        fields = {}
        for p in ps:
            for t in p.toks:
                if t.k == "atom" and t.get("obj") == "h1" and t.get("delta") is not None and t.get("result") is not None:
                    fields.setdefault((t.get("field"), t.delta), {}).setdefault(t.result, []).append(p)
            for t in p.facts:
                if m.name == "unsync" and t.op == "pj" and t.a[0].op == "ld" and t.a[1][2] == m.strong_f and \
                        tk.objplace(place(t.a[0].a[0]))[0] == "h1":
                    fields.setdefault((m.strong_f, 0), {}).setdefault(t, []).append(p)
        for (f, d), terms in sorted(fields.items(), key=str):
            if d > 0:
                continue
            o.inst("%s %s" % (where(b), f))
            rs = [(p, rng(p.facts, t)) for t, qs in terms.items() for p in qs]
            probe = {1, 2}
            for _, (lo, hi, ex) in rs:
                for x in (lo, hi) + tuple(ex):
                    if x is not None:
                        probe |= {x - 1, x, x + 1}
            for v in sorted(x for x in probe if 1 <= x < 1 << 32):
                if not any(p.how == "ret" and lo <= v and (hi is None or v <= hi) and v not in ex for p, (lo, hi, ex) in rs):
                    o.bad("%s:%s" % (nm(b), f), "%s never completes if %s is %d" % (where(b), f, v))


@rule("DROP-UNTRACK", "C01 C02 C05 C06 C20", "when the last handle is dropped the thread's bookkeeping forgets the allocation before "
      "the value is destroyed", 2)
def drop_untrack(cx, o):
    for m in mods(cx):
        b, tk, ps = drop_paths(cx, m)
        for p in ps:
            if tk.liveness(p.facts) != "live" or last_status(tk, m, p) != "last":
                continue
            o.inst(where(b))
            if tracked(p, "h1") and [t for t in p.toks if t.k == "insert" and t.obj == "h1"]:
                o.bad(nm(b) + ":insert", "%s registers an allocation whose last handle is gone" % where(b))
            if any(t.k == "tls" and t.tried and not t.ok for t in p.toks):
                continue
            u = untracked(p, "h1")
            if u is None:
                o.bad(nm(b), "%s leaves the allocation in the thread's bookkeeping when its last handle is dropped (%s)" % (
                    where(b), p.show()))
                continue
            fin = p.all("dropval", obj="h1") + p.all("dealloc", obj="h1")
            if m.name == "sync":
                fin += [x for x in weaks(p, m, "h1") if x.delta == -1][-1:]
            for d in fin:
                if p.idx(d) < p.idx(u):
                    o.bad(nm(b) + ":order", "%s destroys or releases the allocation before the bookkeeping forgets it" % where(
                        b, d))


@rule("DROP-STAT", "C14 C22", "dropping a live handle takes one from the existing handles and adds one to the dropped ones, exactly "
      "once each", 2)
def drop_stat(cx, o):
    for m in mods(cx):
        b, tk, ps = drop_paths(cx, m)
        for p in ps:
            if tk.liveness(p.facts) != "live":
                continue
            o.inst(where(b))
            lv, dr = [t.delta for t in stats(p, m, "living")], [t.delta for t in stats(p, m, "drops")]
            okk = tls_all(p, True)
            failed = any(t.k == "tls" and t.tried and not t.ok for t in p.toks)
            if (lv, dr) != ([-1], [1]) and not (failed and m.name == "unsync" and lv == [] and dr == []):
                o.bad(nm(b), "%s changes the existing handles by %s and the dropped ones by %s (%s)" % (
                    where(b), lv, dr, p.show()))
            if foreign_stats(p, m):
                o.bad(nm(b) + ":other", "%s changes the other collector's statistics" % where(b))


def busy(cx, m, facts):
    """Is it known that this thread is collecting already?"""
    from .collector import collector_graph, noep
    flags = {e.place for e in collector_graph(cx, m).events() if e.kind in ("store", "take") and e.place.a[0].op == "tls"
             and e.get("value") is C(1)}
    return any(t.op in ("ld", "pj") and r[0] >= 1 and cx.load_place(noep(t)) in flags for t, r in facts.items())


@rule("DROP-COND", "C14 C12 C22", "each drop of a live handle consults the installed condition exactly once, after all its other "
      "effects, and collects exactly if it returns true", 2)
def drop_cond(cx, o):
    for m in mods(cx):
        b, tk, ps = drop_paths(cx, m)
        for p in ps:
            cond, col = p.all("cond"), p.all("collect")
            if tk.liveness(p.facts) != "live":
                continue
            o.inst(where(b))
            failed = any(t.k == "tls" and t.tried and not t.ok for t in p.toks)
            if len(cond) != 1 and not (failed and m.name == "unsync" and not cond):
                o.bad(nm(b), "%s consults the condition %d times (%s)" % (where(b), len(cond), p.show()))
                continue
            if not cond:
                if col:
                    o.bad(nm(b) + ":uncond", "%s collects without consulting the condition" % where(b, col[0]))
                continue
            c = cond[0]
            r = known(p.facts, c.result)
            if r is None:
                lo, hi, ex = rng(p.facts, c.result)
                r = 1 if 0 in ex or lo > 0 else None
            if r is None:
                o.bad(nm(b) + ":ignored", "%s ignores the condition's answer" % where(b, c))
            elif r and not col and busy(cx, m, p.facts):
                pass
            elif r and [t.mod for t in col] != [m.name]:
                o.bad(nm(b) + ":collect", "%s runs %d collections although the condition returned true (%s)" % (
                    where(b, c), len(col), p.show()))
            elif not r and col:
                o.bad(nm(b) + ":nocollect", "%s collects although the condition returned false" % where(b, col[0]))
            for t in p.toks[p.idx(c) + 1:]:
                # (what happens to the rest of the bookkeeping is no part of this drop)
                if t.k == "stat" or t.get("obj") == "h1" and (
                        t.k in ("cnt", "insert", "remove", "dropval", "dealloc", "setptr") or t.k == "atom" and t.op != "load"):
                    o.bad(nm(b) + ":order", "%s still has effects after consulting the condition: %s" % (where(b, t), p.show()))
            if col and p.idx(col[0]) < p.idx(c):
                o.bad(nm(b) + ":corder", "%s collects before consulting the condition" % where(b, col[0]))


@rule("COND-INSTALLED", "C14 C22", "drops consult the condition that set_collect_condition stores", 2)
def cond_installed(cx, o):
    for m in mods(cx):
        b, tk, ps = drop_paths(cx, m)
        srcs = set()
        for p in ps:
            for c in p.all("cond"):
                v = c.ev.fn_value
                pl = cx.load_place(v)
                if pl is None:
                    for t in p.toks:
                        if t.k in ("gatom", "gtag") and t.op == "load" and t.result is not None and \
                                any(x is t.result for x in subterms(v)):
                            pl = t.get("place") if t.k == "gatom" else None
                srcs.add(canon(pl) if pl is not None else None)
        setters = [x for x in cx.P.local_fns if x.path.startswith(m.name + "::") and x.path.endswith(
            "::set_collect_condition")]
        if not setters:
            raise Missing("%s::set_collect_condition" % m.name)
        s = setters[0]
        tk2, sp = cx.paths(m, s)
        for p in sp:
            if p.how != "ret":
                continue
            o.inst(where(s))
            st = set()
            for t in p.toks:
                if t.k == "gstore" and any(x is sym("arg1") for x in subterms(t.value)):
                    st.add(t.place)
                if t.k == "gatom" and t.op in ("store", "swap") and any(
                        x is sym("arg1") for x in subterms(t.ev.operand)):
                    st.add(t.place)
            if not st:
                o.bad(nm(s), "%s does not install the given condition (%s)" % (where(s), p.show()))
            elif srcs != st:
                o.bad(nm(b), "%s consults %s but %s installs %s" % (where(b), [show(x) if x else x for x in srcs], s.path,
                                                                  [show(x) for x in st]))


@rule("DEFAULT-COND", "C14 C22", "the default condition is true exactly if more handles were dropped than exist", 2)
def default_cond(cx, o):
    for m in mods(cx):
        b = m.func("%s::default_collect_condition" % m.name)
        g = cx.graph(b)
        tk = Toker(cx, m, b)
        loads = {}
        for e in g.events():
            if e.kind == "atomic" and e.op == "load":
                s = tk.stat(e.place)
                if s:
                    loads.setdefault(s[1], set()).add(e.result)

        def which(t):
            for k, v in loads.items():
                if t in v:
                    return k
            pl = cx.load_place(t)
            s = tk.stat(pl) if pl is not None else None
            return s[1] if s else None
        tk, ps = cx.paths(m, b)
        for p in ps:
            o.inst(where(b))
            if p.how != "ret":
                o.bad(nm(b) + ":panic", "%s can panic" % where(b))
                continue
            v = p.value

            def spec(t):
                return t.op == "lt" and which(t.a[0]) == "living" and which(t.a[1]) == "drops"
            if spec(v):
                continue
            tv = evalb(p.facts, v)
            got = [evalb(p.facts, t) for t in p.facts if spec(t)]
            if any(t.op == "lt" and which(t.a[0]) == "drops" and which(t.a[1]) == "living" and evalb(p.facts, t) for t in p.facts):
                got.append(0)
            if tv is None or tv not in got:
                o.bad(nm(b), "%s returns %s" % (where(b), show(v)))


@rule("INFO", "C14 C22", "the two statistics handed to conditions are different counters which both start at zero, and the default "
      "condition is installed initially", 2)
def info_init(cx, o):
    for m in mods(cx):
        if m.living == m.drops:
            o.bad(m.name, "both statistics of %s::CollectInfo read %s" % (m.name, m.living))
        path = {k: [x for x in getattr(m, k + "_at").a[1:] if x[0] == "f"] for k in ("living", "drops")}
        owner = path["living"][0][3] if path["living"] else None
        inits = [b for b in cx.P.bodies.values() if b.local and b.kind in ("Fn", "AssocFn", "Closure") and
                 cx.P.types[b.locals[0][0]].get("path") == owner]
        for b in inits:
            g = cx.graph(b)
            for how, v in g.term.values():
                if how != "ret" or v.op != "adt":
                    continue
                o.inst(where(b))
                for k, fs in path.items():
                    w = v
                    for x in fs:
                        w = dict(zip(w.a[5], w.a[3])).get(x[2]) if w is not None and w.op == "adt" else w
                    if w is not C(0) or not fs or fs[0][3] != owner:
                        o.bad(m.name + ":" + getattr(m, k)[1], "%s starts %s at %s" % (where(b), getattr(m, k)[1], w and show(w)))
                if "default_collect_condition" not in show(v):
                    o.bad(m.name + ":default", "%s does not install the default condition" % where(b))


@rule("TLS-TRY", "C15", "creating, cloning and dropping handles never insists on thread-locals that may already be destroyed, "
      "and does not panic without them", 6)
def tls_try(cx, o):
    for m in mods(cx):
        for b in (m.method("new"), m.trait("clone::Clone", "clone"), m.trait("ops::drop::Drop", "drop"),
                  m.trait("deref::Deref", "deref")):
            tk, ps = cx.paths(m, b)
            o.inst(where(b))
            for p in ps:
                for t in p.toks:
                    if t.k == "tls" and t.nd and not t.tried:
                        o.bad(nm(b), "%s requires the thread-local %s, which may be destroyed already" % (where(b, t), t.key))
                if p.how in ("panic", "abort") and tls_all(p, False) and any(t.k == "tls" for t in p.toks) and \
                        not _size_assert(cx, p):
                    o.bad(nm(b) + ":panic", "%s panics when the thread-locals are gone (%s)" % (where(b), p.show()))


def _size_assert(cx, p):
    """The assertion of the pointer erasure, which is a constant per type (checked by ERASE)."""
    t = [x for x in p.toks if x.k == "panic"]
    return bool(t) and any(x in t[-1].fn for x in cx.erased())


@rule("DROP-TLS", "C15", "without thread-locals dropping a handle still destroys the value or gives up the count; sync handles "
      "are handed to the global collector", 2)
def drop_tls(cx, o):
    for m in mods(cx):
        b, tk, ps = drop_paths(cx, m)
        for p in ps:
            if tk.liveness(p.facts) != "live":
                continue
            if not any(t.k == "tls" and t.tried and not t.ok for t in p.toks):
                continue
            o.inst(where(b))
            st = last_status(tk, m, p)
            if m.name == "unsync" and st == "last" and len(p.all("dealloc", obj="h1")) != 1:
                o.bad(nm(b), "%s leaks the value when the thread-locals are gone (%s)" % (where(b), p.show()))
            if m.name == "sync" and st == "more" and contains_status(cx, p) in ("err", "gcs"):
                t = tracked(p, "h1")
                if t is None:
                    o.bad(nm(b) + ":track", "%s loses possible garbage when the thread-locals are gone (%s)" % (
                        where(b), p.show()))


# ---------------------------------------------------------------- sync drop protocol
@rule("S-DROP-STAMP", "C18 C02", "dropping a sync handle stamps the allocation with the current collection number before it gives "
      "up its strong count", 2)
def s_drop_stamp(cx, o):
    m = cx.s
    b, tk, ps = drop_paths(cx, m)
    for p in ps:
        if tk.liveness(p.facts) != "live":
            continue
        cs = counts(p, m, "h1")
        if not cs:
            continue
        o.inst(where(b))
        stamp_ok(o, b, m, p, "h1", cs[0][0])


@rule("S-DROP-PIN", "C02 C04 C05 C06 C19", "a sync drop holds a claim (weak count) on the allocation from before it gives up its strong "
      "count until its last use; registering adds one claim, unregistering removes one, nothing else remains", 2)
def s_drop_pin(cx, o):
    m = cx.s
    b, tk, ps = drop_paths(cx, m)
    for p in ps:
        if tk.liveness(p.facts) != "live":
            continue
        o.inst(where(b))
        cs = counts(p, m, "h1")
        ws = weaks(p, m, "h1")
        if not cs:
            continue
        ups = [t for t in ws if t.delta == 1]
        if not ups or p.idx(ups[0]) > p.idx(cs[0][0]):
            o.bad(nm(b) + ":pin", "%s gives up its strong count without holding another claim on the allocation (%s)" % (
                where(b, cs[0][0]), p.show()))
        if any(t.delta not in (1, -1) for t in ws):
            o.bad(nm(b) + ":delta", "%s changes the weak count by something other than one (%s)" % (where(b), p.show()))
            continue
        total = sum(t.delta for t in ws)
        newt = len([t for t in p.toks if t.k == "insert" and t.obj == "h1" and t.region and t.had is False])
        rem = len([t for t in p.toks if t.k == "remove" and t.obj == "h1" and t.region and t.had is True])
        if total != newt - rem:
            o.bad(nm(b) + ":balance", "%s changes the number of claims by %d although bookkeeping entries changed by %d (%s)" % (
                where(b), total, newt - rem, p.show()))
        # no use after the last claim was given up (on any prefix)
        claims = 1      # the handle itself
        gone = None
        for t in p.toks:
            if t.get("obj") != "h1":
                continue
            if gone is not None and t.k in ("atom", "cnt", "accept", "boxstore", "dropval", "dealloc"):
                if not (p.all("dealloc", obj="h1") and known(p.facts, gone.result) == 1):
                    o.bad(nm(b) + ":use", "%s uses the allocation after giving up its last claim at %s (%s)" % (
                        where(b, t), gone.span, p.show()))
                    break
            if t.k == "atom" and t.op != "load":
                if t.field == m.strong_f and t.delta == -1:
                    claims -= 1
                elif t.field == m.weak_f:
                    # entries in the bookkeeping can be consumed by a collection of another thread at any time
                    is_entry = any(u.k in ("insert", "remove") and u.obj == "h1" and abs(p.idx(u) - p.idx(t)) <= 3 and
                                   u.had is (False if u.k == "insert" else True) for u in p.toks[
                                       max(0, p.idx(t) - 3):p.idx(t) + 1])
                    if not is_entry:
                        claims += t.delta
                if claims == 0:
                    gone = t


@rule("S-DROP-LASTCLAIM", "C04 C05", "whoever gives up the last claim on an allocation without handles destroys it: the result of "
      "each final release is examined", 2)
def s_drop_lastclaim(cx, o):
    m = cx.s
    b, tk, ps = drop_paths(cx, m)
    for p in ps:
        if tk.liveness(p.facts) != "live":
            continue
        ws = [t for t in weaks(p, m, "h1") if t.delta == -1]
        if not ws:
            continue
        o.inst(where(b))
        t = ws[-1]
        lo, hi, ex = rng(p.facts, t.result)
        if (lo, hi, ex) == (0, None, frozenset()):
            o.bad(nm(b) + ":" + str(last_status(tk, m, p)), "%s ignores the result of releasing its claim: if another thread "
                  "dropped the last handle meanwhile nobody destroys the value (%s)" % (where(b, t), p.show()))


@rule("S-ORDER", "C19", "giving up a count releases, and destroying a value first acquires, all earlier accesses to it", 4)
def s_order(cx, o):
    m = cx.s
    b, tk, ps = drop_paths(cx, m)
    for p in ps:
        if tk.liveness(p.facts) != "live":
            continue
        o.inst(where(b))
        for t, d in counts(p, m, "h1"):
            if t.order not in REL:
                o.bad(nm(b) + ":strong", "%s gives up the strong count with %s ordering: earlier accesses are not released" % (
                    where(b, t), t.order))
        ws = [t for t in weaks(p, m, "h1") if t.delta == -1]
        for t in ws:
            if t.order not in REL:
                o.bad(nm(b) + ":weak", "%s releases a claim with %s ordering" % (where(b, t), t.order))
        for d in p.all("dropval", obj="h1"):
            last = ws[-1] if ws else None
            seg = p.toks[p.idx(last):p.idx(d)] if last is not None else []
            acq = [t for t in seg if t.k == "fence" and t.order in ACQ] + ([last] if last is not None and
                                                                         last.order in ("AcqRel", "SeqCst") else [])
            acq += [t for t in seg if t.k == "atom" and t.obj == "h1" and t.order in ACQ and t.field == m.weak_f and
                    t.op == "load"]
            if not acq:
                o.bad(nm(b) + ":acquire", "%s destroys the value without acquiring the accesses of the threads that released "
                      "their claims (%s)" % (where(b, d), p.show()))


@rule("S-TRUCK-ORDER", "C19 C02", "claims taken for the bookkeeping are at least acquiring where they protect later use, and all "
      "releases of claims outside of drops are releasing", 1)
def s_truck_order(cx, o):
    m = cx.s
    seen = set()
    for b in cx.P.local_fns:
        if not b.path.lstrip("<").startswith("sync::"):
            continue
        g = cx.graph(b) if b.key not in seen else None
        for e in g.events():
            if e.kind != "atomic" or e.op != "fetch_sub":
                continue
            el = [x for x in e.place.a[1:] if x[0] == "f"]
            if not el or el[-1][3] != m.box:
                continue
            if (e.span, el[-1][2]) in seen:
                continue
            seen.add((e.span, el[-1][2]))
            o.inst("%s %s %s at %s" % (e.fn, e.op, el[-1][2], e.span))
            if e.order not in REL:
                o.bad("%s:%s" % (e.fn, el[-1][2]), "%s at %s gives up a count of an allocation with %s ordering" % (
                    e.fn, e.span, e.order))
