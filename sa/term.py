"""Hash-consed terms: the abstract values and places of the dataflow analysis."""

_tab = {}


class Term:
    __slots__ = ("op", "a", "syms", "size", "uid")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.uid < o.uid


_NOS = frozenset()


def _collect(a):
    s, n = _NOS, 1
    for x in a:
        if isinstance(x, Term):
            if x.syms:
                s = s | x.syms
            n += x.size
        elif isinstance(x, tuple):
            s2, n2 = _collect(x)
            s = s | s2
            n += n2
    return s, n


def T(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = Term.__new__(Term)
        t.op, t.a = op, a
        if op == "s":
            t.syms, t.size = frozenset((a[0],)), 1
        else:
            t.syms, t.size = _collect(a)
        t.uid = len(_tab)
        _tab[k] = t
    return t


def C(n):
    return T("c", int(n))


UNIT = T("tup", ())
BOT = T("bot")
TRUE, FALSE = C(1), C(0)


def sym(name):
    return T("s", name)


def lin(x, c):
    """x + c with integer constant c."""
    if c == 0:
        return x
    if x.op == "c":
        return C(x.a[0] + c)
    if x.op == "lin":
        return lin(x.a[0], x.a[1] + c)
    return T("lin", x, c)


def place(root, *el):
    return T("P", root, *el)


def ref(p):
    return T("ref", p)


def sub(p, e):
    return T("P", *(p.a + (e,)))


def adt(path, vi, vname, vals, is_enum=False, names=()):
    return T("adt", path, vi, vname, tuple(vals), is_enum, tuple(names))


def proj(t, e):
    """Project one projection element out of a value."""
    op = t.op
    if op == "bot":
        return t
    if op == "adt":
        if e[0] == "v":
            return t if t.a[1] == e[1] else BOT
        if e[0] == "f":
            vs = t.a[3]
            return vs[e[1]] if e[1] < len(vs) else BOT
    elif op == "tup" and e[0] == "f":
        vs = t.a[0]
        return vs[e[1]] if e[1] < len(vs) else BOT
    elif op == "clos" and e[0] == "f":
        vs = t.a[1]
        return vs[e[1]] if e[1] < len(vs) else BOT
    elif op == "arr" and e[0] == "ix" and isinstance(e[1], Term) and e[1].op == "c" and e[1].a[0] < len(t.a[0]):
        return t.a[0][e[1].a[0]]
    elif op == "arr" and e[0] == "ci" and not e[2] and e[1] < len(t.a[0]):
        return t.a[0][e[1]]
    elif op == "cellbox" and e[0] == "in":
        return t.a[0]
    elif op == "upd":
        best = None
        ups = []
        for path, v in t.a[1]:
            if path[0] == e:
                if len(path) == 1:
                    best = v
                else:
                    ups.append((path[1:], v))
        if best is not None:
            return best
        b = proj(t.a[0], e)
        if ups:
            return upd(b, tuple(ups))
        return b
    return T("pj", t, e)


def upd(base, ups):
    """Value `base` with the sub-values at the given paths replaced."""
    for path, v in sorted(ups, key=lambda x: len(x[0])):
        base = _upd1(base, path, v)
    return base


def _upd1(base, path, v):
    if not path:
        return v
    e = path[0]
    op = base.op
    if op == "adt":
        if e[0] == "v":
            return _upd1(base, path[1:], v) if base.a[1] == e[1] else base
        if e[0] == "f" and e[1] < len(base.a[3]):
            vs = list(base.a[3])
            vs[e[1]] = _upd1(vs[e[1]], path[1:], v)
            return T("adt", base.a[0], base.a[1], base.a[2], tuple(vs), base.a[4], base.a[5])
    elif op == "tup" and e[0] == "f" and e[1] < len(base.a[0]):
        vs = list(base.a[0])
        vs[e[1]] = _upd1(vs[e[1]], path[1:], v)
        return T("tup", tuple(vs))
    elif op == "clos" and e[0] == "f" and e[1] < len(base.a[1]):
        vs = list(base.a[1])
        vs[e[1]] = _upd1(vs[e[1]], path[1:], v)
        return T("clos", base.a[0], tuple(vs))
    elif op == "cellbox" and e[0] == "in":
        return T("cellbox", _upd1(base.a[0], path[1:], v))
    if op == "upd":
        ups = [(p, w) for p, w in base.a[1] if p[:len(path)] != path]
        ups.append((path, v))
        return T("upd", base.a[0], tuple(sorted(ups, key=lambda x: repr(x[0]))))
    return T("upd", base, ((path, v),))


def subst(t, m, memo=None):
    """Replace symbols: m maps symbol names to terms."""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(subst(x, m, memo) if isinstance(x, (Term, tuple)) else x for x in t)
    if not any(s in m for s in t.syms):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "s":
        r = m[t.a[0]]
    else:
        a = tuple(subst(x, m, memo) if isinstance(x, (Term, tuple)) else x for x in t.a)
        if t.op == "lin":
            r = lin(a[0], a[1])
        elif t.op == "pj":
            r = proj(a[0], a[1])
        else:
            r = T(t.op, *a)
    memo[t] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if isinstance(t, tuple):
        for x in t:
            yield from subterms(x, seen)
        return
    if not isinstance(t, Term) or t in seen:
        return
    seen.add(t)
    yield t
    for x in t.a:
        if isinstance(x, (Term, tuple)):
            yield from subterms(x, seen)


def contains(t, u):
    return any(x is u for x in subterms(t))


def _el(e):
    if e[0] == "f":
        return "." + str(e[2])
    if e[0] == "v":
        return "@" + str(e[2])
    return "[%s]" % ",".join(str(x) for x in e)


def show(t, d=0):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
    if not isinstance(t, Term):
        return str(t)
    if d > 12:
        return "…"
    o, a = t.op, t.a
    if o == "c":
        return str(a[0])
    if o == "s":
        return "$" + a[0]
    if o == "P":
        return show(a[0], d + 1) + "".join(_el(e) for e in a[1:])
    if o == "ref":
        return "&" + show(a[0], d + 1)
    if o == "*":
        return "*(%s)" % show(a[0], d + 1)
    if o == "adt":
        return "%s{%s}" % (a[0].split("::")[-1] + ("::" + a[2] if a[4] else ""), ", ".join(show(x, d + 1) for x in a[3]))
    if o == "tup":
        return "(" + ", ".join(show(x, d + 1) for x in a[0]) + ")"
    if o == "pj":
        return show(a[0], d + 1) + _el(a[1])
    if o == "ld":
        return "ld<%s>" % show(a[0], d + 1)
    if o == "lin":
        return "(%s%+d)" % (show(a[0], d + 1), a[1])
    return "%s(%s)" % (o, ", ".join(show(x, d + 1) for x in a))
