"""Rules about signatures."""
import re
from .core import *
from .handles import where, nm, mods


@rule("SHARED-ONLY", "C11", "no safe function users can call turns a handle into an exclusive reference", 20)
def shared_only(cx, o):
    ts = cx.P.types
    for b in cx.P.local_fns:
        if not b.reach or b.unsafe:
            continue
        args = [ts[b.locals[i + 1][0]]["s"] for i in range(b.argc)]
        if not any(re.search(r"\b(un)?sync::Gc<", a) for a in args):
            continue
        o.inst(where(b))
        if re.search(r"&('\w+ )?mut |\b(RefMut|MutexGuard)<", ts[b.locals[0][0]]["s"]):
            o.bad(nm(b), "%s hands out %s" % (where(b), ts[b.locals[0][0]]["s"]))


@rule("INFO-SEALED", "C11", "no function users can call makes up collection information", 40)
def info_sealed(cx, o):
    ts = cx.P.types
    for b in cx.P.local_fns:
        if not b.reach:
            continue
        o.inst(where(b))
        if any(owns(cx.P, b.locals[i + 1][0]) for i in range(b.argc)):
            continue
        if owns(cx.P, b.locals[0][0]):
            o.bad(nm(b), "%s hands out %s" % (where(b), ts[b.locals[0][0]]["s"]))


def owns(P, i, depth=0):
    """Does a value of this type give access to a CollectInfo?"""
    t = P.types[i]
    if t["k"] == "adt" and t.get("local") and str(t["path"]).endswith("::CollectInfo"):
        return True
    subs = list(t.get("args") or []) + ([t["to"]] if t.get("to") is not None else [])
    return depth < 8 and t["k"] not in ("fnptr", "fndef", "closure") and any(owns(P, a, depth + 1) for a in subs if isinstance(a, int))
