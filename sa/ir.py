"""Loading of the extracted program."""
import json


class Body:
    __slots__ = ("key", "path", "dpath", "local", "kind", "span", "argc", "spread", "impl_self", "impl_trait",
                 "impl", "parent", "vis", "reach", "unsafe", "locals", "blocks", "prog", "_live")

    def __init__(self, d, prog):
        for k in ("key", "path", "dpath", "local", "kind", "span", "argc", "spread", "impl_self", "impl_trait",
                  "impl", "parent", "vis", "reach", "unsafe", "locals", "blocks"):
            setattr(self, k, d.get(k))
        self.prog = prog
        self._live = None

    def __repr__(self):
        return "<Body %s>" % self.key


class Program:
    def __init__(self, path, cfg):
        with open(path) as f:
            d = json.load(f)
        self.cfg = cfg
        self.types = d["types"]
        self.bodies = {}
        for b in d["bodies"]:
            self.bodies[b["key"]] = Body(b, self)
        self.consts = {b["key"]: Body(b, self) for b in d["consts"]}
        self.adts = {a["path"]: a for a in d["adts"]}
        self.impls = d["impls"]
        self.local_fns = [b for b in self.bodies.values() if b.local and b.kind in ("Fn", "AssocFn")]

    def ty(self, i):
        return self.types[i]

    def tys(self, i):
        return self.types[i]["s"]


def pplace(p):
    s = "_%d" % p[0]
    for e in p[1:]:
        if e[0] == "d":
            s = "(*%s)" % s
        elif e[0] == "f":
            s += "." + e[2]
        elif e[0] == "v":
            s += "@" + e[2]
        else:
            s += "[%s]" % (e,)
    return s


def pop(o):
    if "p" in o:
        return ("mv " if o.get("mv") else "") + pplace(o["p"])
    if "c" in o:
        c = o["c"]
        if "fn" in c:
            return "fn " + c["fn"]["path"]
        if "int" in c:
            return str(c["int"])
        if "static" in c:
            return "static " + c["static"]
        return "const " + str(c.get("txt"))[:60]
    return str(o)


def prv(r):
    k = r[0]
    if k == "use":
        return pop(r[1])
    if k == "ref":
        return "&%s%s" % ("mut " if r[2] else "", pplace(r[1]))
    if k == "cast":
        return "%s as %s" % (pop(r[2]), r[1])
    if k == "bin":
        return "%s(%s, %s)" % (r[1], pop(r[2]), pop(r[3]))
    if k == "un":
        return "%s(%s)" % (r[1], pop(r[2]))
    if k == "disc":
        return "disc(%s)" % pplace(r[1])
    if k == "agg":
        return "%s{%s}" % (":".join(str(x) for x in r[1][:4]), ", ".join(pop(o) for o in r[2]))
    return str(r)


def dump(b):
    P = b.prog
    out = ["fn %s  [%s] argc=%s spread=%s" % (b.key, b.span, b.argc, b.spread)]
    for i, l in enumerate(b.locals):
        out.append("  let _%d: %s %s" % (i, P.tys(l[0]), l[1] if len(l) > 1 else ""))
    for i, (st, t, c) in enumerate(b.blocks):
        out.append(" bb%d%s:" % (i, " (cleanup)" if c else ""))
        for s in st:
            if s[0] == "=":
                out.append("    %s = %s   // %s" % (pplace(s[1]), prv(s[2]), s[3]))
            elif s[0] != "dead":
                out.append("    %s" % s)
        if t[0] == "call":
            c = t[1]
            if "ptr" in c:
                n = "*(%s)" % pop(c["ptr"])
            else:
                n = c["path"] + ("" if c.get("inst") else " !noinst") + " [%s %s]" % (c.get("rk"), c.get("rpath"))
            out.append("    %s = %s(%s) -> %s unw %s   // %s" % (pplace(t[3]), n, ", ".join(pop(a) for a in t[2]),
                                                            t[4], t[5], t[6]))
        elif t[0] == "switch":
            out.append("    switch %s %s else %s" % (pop(t[1]), t[2], t[3]))
        elif t[0] == "drop":
            out.append("    drop %s : %s -> %s unw %s" % (pplace(t[1]), P.tys(t[2]), t[3], t[4]))
        elif t[0] == "assert":
            out.append("    assert %s == %s -> %s  (%s)" % (pop(t[1]), t[2], t[3], t[5][:50]))
        else:
            out.append("    %s" % t)
    return "\n".join(out)
