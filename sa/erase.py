"""Rules about pointers that are stored without their type and the layout they are recovered with."""
import re
from .core import *
from .handles import mods, nm, where
from .visitors import roles

def size(P, s, word):
    """Size of a type if pointers to generic types take `word` bytes; None if unknown."""
    m = PTR.match(s)
    if m:
        to = [x for x in m.groups() if x is not None][0]
        return word if P.generic(to) else 16 if to == "str" or to.startswith(("[", "dyn ")) and not re.match(r"\[.*; ", to) else 8
    if s in ("usize", "isize", "u64", "i64", "f64"):
        return 8
    if s in ("u8", "i8", "bool"):
        return 1
    if s in ("u16", "i16"):
        return 2
    if s in ("u32", "i32", "f32", "char"):
        return 4
    if s in ("u128", "i128"):
        return 16
    if s == "()":
        return 0
    m = re.match(r"\[(.*); (\d+)\]$", s)
    if m:
        n = size(P, m.group(1), word)
        return None if n is None else n * int(m.group(2))
    m = re.match(r"core::mem::maybe_uninit::MaybeUninit<(.*)>$", s)
    if m:
        return size(P, m.group(1), word)
    ad = P.adts.get(s)
    if ad is not None and ad["kind"] == "struct":
        ns = [size(P, f[3], word) for f in ad["variants"][0][1]]
        return None if None in ns else sum(ns)
    return None


def value(P, t, word):
    """Value of a size expression."""
    if t.op == "c":
        return t.a[0]
    if t.op == "sizeof":
        return size(P, t.a[0], word)
    if t.op == "lin":
        v = value(P, t.a[0], word)
        return None if v is None else v + t.a[1]
    if t.op == "not":
        v = value(P, t.a[0], word)
        return None if v is None else 1 - v
    if len(t.a) >= 2 and all(isinstance(x, Term) for x in t.a[-2:]):
        a, b = value(P, t.a[-2], word), value(P, t.a[-1], word)
        if a is None or b is None:
            return None
        name = (t.a[0] if t.op == "bin" and isinstance(t.a[0], str) else t.op).lower()
        f = {"eq": lambda: int(a == b), "ne": lambda: int(a != b), "lt": lambda: int(a < b), "le": lambda: int(a <= b),
             "gt": lambda: int(a > b), "ge": lambda: int(a >= b), "mul": lambda: a * b, "div": lambda: a // b if b else None,
             "add": lambda: a + b, "sub": lambda: a - b, "and": lambda: a & b, "or": lambda: a | b, "rem": lambda: a % b if b else None,
             "min": lambda: min(a, b), "max": lambda: max(a, b)}.get(name)
        return f() if f else None
    return None


def feasible(P, facts, word):
    for t, (lo, hi, ex) in facts.items():
        v = value(P, t, word)
        if v is not None and (v < lo or hi is not None and v > hi or v in ex):
            return False
    return True


def erased_type(cx):
    """The type of the untyped pointers the erased functions are given."""
    tys = set()
    for m in mods(cx):
        for bs in roles(cx, m).fns.values():
            for b in bs:
                s = cx.P.tys(b.locals[1][0])
                if s in cx.P.adts:
                    tys.add(s)
    if len(tys) != 1:
        raise Missing("the type of erased pointers (found %s)" % sorted(tys))
    return tys.pop()


@rule("ERASE", "C16 C01 C02 C06", "erasing the type of a pointer and recovering it copies the whole pointer, thin or wide, and cannot fail", 4)
def erase(cx, o):
    P = cx.P
    P.generic = cx.generic
    E = erased_type(cx)
    kinds = set()
    for b in P.local_fns:
        if b.impl_trait or b.argc < 1:
            continue
        ret = P.tys(b.locals[0][0])
        args = [P.tys(b.locals[i][0]) for i in range(1, b.argc + 1)]
        if ret == E and PTR.match(args[0]) and cx.generic(args[0]):
            kind = "new"
        elif PTR.match(ret) and cx.generic(ret) and re.sub(r"^&(?:'\w+ )?(?:mut )?", "", args[0]) == E:
            kind = "get"
        else:
            continue
        kinds.add(kind)
        o.inst("%s (%s)" % (b.key, kind))
        g = cx.graph(b)
        whole = {}
        for e in g.events():
            if e.kind == "memcpy":
                for word in (8, 16):
                    el = size(P, e.elem, word)
                    n = value(P, e.n, word)
                    if el is None or n is None or el * n != word:
                        o.bad(nm(b) + ":size", "%s at %s copies %s elements of type %s of a pointer of %d bytes" % (
                            b.path, e.span, n if n is not None else show(e.n), e.elem, word))
            if e.kind == "panic" and not any(i in str(e.get("msg")) for i in IGNORED_PANICS):
                for word in (8, 16):
                    if feasible(P, e.facts, word):
                        o.bad(nm(b) + ":panic", "%s at %s panics for pointers of %d bytes" % (b.path, e.span, word))
            if e.kind == "end" and e.how == "ret":
                v = e.value
                if kind == "new":
                    vs = [x for x in v.a[3] if not (x.op in ("c", "uninit"))] if v.op == "adt" and v.a[0] == E else [v]
                    ok = len(vs) == 1 and base_is(vs[0], sym("arg1"))
                else:
                    ok = base_is(v, sym("arg1"))
                for word in (8, 16):
                    if feasible(P, e.facts, word) and not ok:
                        o.bad(nm(b) + ":value", "%s does not return the pointer it was given for pointers of %d bytes (%s)" % (
                            b.path, word, show(v)))
        es = size(P, E, 16)
        if es is None or es < 16:
            o.bad("room", "%s has no room for wide pointers" % E)
    for k in ("new", "get"):
        if k not in kinds:
            o.bad("missing:" + k, "no function %s pointers of type %s" % ("creates" if k == "new" else "recovers", E))


def base_is(v, a):
    while True:
        v = strip(v)
        if v.op == "ref" and len(v.a[0].a) == 1 and v.a[0].a[0].op == "*":
            v = v.a[0].a[0].a[0]
        elif v.op == "pj":
            v = v.a[0]
        elif v.op == "ld" and v.a[0].op == "*":
            v = v.a[0].a[0]
        elif v.op == "adt" and len(v.a[3]) == 1:
            v = v.a[3][0]
        else:
            return v is a


@rule("LAYOUT", "C16 C01 C02 C03 C04", "the header of an allocation is where the collector, which only knows its address, looks for it", 2)
def layout(cx, o):
    P = cx.P
    for m in mods(cx):
        ids = set()
        for e in cx.graph(m.trait("ops::drop::Drop", "drop")).events():
            if e.kind in ("map_insert", "map_entry", "map_remove") and e.key.op == "adt":
                ids.add(e.key.a[0])
        if not ids:
            raise Missing("the identity of %s allocations" % m.name)
        fs = m.boxad["variants"][0][1]
        for i in ids:
            for f in P.adts[i]["variants"][0][1]:
                mt = PTR.match(f[3])
                if not mt:
                    continue
                to = [x for x in mt.groups() if x is not None][0]
                o.inst("%s.%s: pointer to %s" % (i, f[0], to))
                if to.split("<")[0] == m.box:
                    if not m.boxad["repr_c"] and len(fs) > 1:
                        o.bad(m.box + ":repr", "the collector reads headers of %s through pointers to %s, but the order of its "
                              "fields is unspecified" % (m.box, to))
                    if fs[-1][0] != m.value_f:
                        o.bad(m.box + ":value", "the offset of %s.%s depends on the value type" % (m.box, fs[-1][0]))
                elif any(to == x[3] for x in fs):
                    if not m.boxad["repr_c"]:
                        o.bad(m.box + ":repr", "the collector takes the address of %s for that of its first field, but the order "
                              "of its fields is unspecified" % m.box)
                    if fs[0][3] != to or fs[0][0] == m.value_f:
                        o.bad(m.box + ":first", "the collector takes the address of %s for that of a %s, but that is not its first "
                              "field" % (m.box, to))
                elif to not in ("()", "u8"):
                    o.bad(i + ":type", "%s takes allocations for %s" % (i, to))


@rule("NULL-META", "C16 C07", "making a handle dead keeps the metadata of its own pointer where the pointer has any", 2)
def null_meta(cx, o):
    for m in mods(cx):
        r = roles(cx, m)
        b = r.method("sweep")
        tk = Toker(cx, m, b)
        for e in cx.graph(b, preserved=r.preserved).events():
            t = tk(e)
            if not isinstance(t, Tok) or t.k != "setptr":
                continue
            o.inst(where(b, t))
            v = t.value
            x = v.a[3][0] if v.op == "adt" and len(v.a[3]) == 1 else v
            if x.op == "withaddr":
                src = x.a[0]
                while src.op in ("pj", "bits"):
                    src = src.a[0]
                if not (src.op == "ld" and src.a[0].op == "*" and src.a[0].a[0] is sym("arg2")):
                    o.bad(nm(b), "%s gives a dead handle the metadata of another pointer (%s)" % (where(b, t), show(v)))
