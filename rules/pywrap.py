"""What the Python wrappers hand to the compiled module and make of its answers."""
from engine.pyeval import PyProg, PyInterp, Cls, refs, has_unknown, show
from .common import *

CORE = "cliquematch.core."
SELF = ("self",)


class Py:
    def __init__(self, w):
        self.w = w
        self.P = PyProg()
        self.names = {}           # Python name of a bound class -> C++ class
        for b in w.binds:
            pass
        self.graph = CORE + "Graph"
        self.cls = [c for c in self.P.classes() if self.graph in self.P.mro(c)]
        self.cpp = None
        for c in w.pyg:
            if "time_limit" in [a[0] for a in w.graphs[c]["methods"]["get_max_clique"]["args"] if a]:
                self.cpp = c
        self.cpp = self.cpp or (w.pyg[0] if w.pyg else None)

    def methods(self, c):
        """names of the methods of a class defined in the package"""
        out = []
        for k in self.P.mro(c):
            if isinstance(k, Cls):
                out += [m for m in k.methods if m not in out]
        return out

    def bound(self, f, args, kw):
        """(bound method name, {argument name: value}) of a call into the compiled graph class"""
        ms = self.w.graphs[self.cpp]["methods"]
        name = None
        if f[0] == "glob" and f[1].startswith(self.graph + ".") and args and args[0] in (SELF,):
            name, args = f[1][len(self.graph) + 1:], args[1:]
        elif f[0] == "attr" and f[1] == SELF and f[2] in ms:
            name = f[2]
        if name not in ms:
            return None, None
        names = [a[0] for a in ms[name]["args"] if a]
        out = dict(zip(names, args))
        out.update(kw)
        return name, out

    def builder(self, f, args, kw):
        """({role: value}, iso) of a call of an edge builder"""
        if f[0] != "glob" or not f[1].startswith(CORE):
            return None
        n = f[1][len(CORE):]
        bs = [b for b in self.w.module if b["name"] == n and params_of(self.w, b) is not None and
              any(strip(p["t"]) in self.w.pyg for p in params_of(self.w, b))]
        bs = [b for b in bs if len(params_of(self.w, b)) == len(args) + len(kw)]
        if not bs:
            return None
        rs = {roles(self.w, b) for b in bs}
        if len(rs) != 1:
            return None
        r = rs.pop()
        out = dict(zip(r, args))
        names = [a[0] for a in bs[0]["args"] if a]
        for k, v in kw.items():
            if k in names and len(names) == len(r):
                out[r[names.index(k)]] = v
        return out


def roles(w, b):
    """role of each parameter of an edge builder, told from the types"""
    ps = params_of(w, b)
    I = Interp(w.prog)
    out = ["graph"]
    g = [p for p in ps[1:] if strip(p["t"]) in w.pyg]
    if len(g) == 2 and len(ps) == 3:
        return ("graph", "set1", "set2")
    nl = nd = ns = nf = 0
    for i, p in enumerate(ps[1:]):
        t = strip(p["t"])
        k = I.kind(t)
        if t.startswith("std::function"):
            if t[len("std::function<"):].split("(")[0].strip() == "bool":
                out.append("cond")
            else:
                nd += 1
                out.append("d%d" % nd)
        elif k == "b":
            ns += 1
            out.append("sym%d" % ns)
        elif t.replace("unsigned ", "") in ("int", "long", "short", "long long", "unsigned") and nl < 2:
            nl += 1
            out[-1] = "set%d" % nl
            out.append("len%d" % nl)
        elif k == "f":
            nf += 1
            out.append("eps" if nf == 1 else "limit")
        else:
            out.append("other%d" % i)
    return tuple(out)


def calls(c, py, pick):
    """events of calls into the compiled module over all methods: (method, interp, state, event, picked)"""
    for m in py.methods(c):
        I = PyInterp(py.P)
        for s, v in I.run(c, m):
            for e in s.events:
                if e[0] == "call":
                    r = pick(e)
                    if r is not None:
                        yield m, I, s, e, r


SIZES = {}


def size_of(v, k):
    """the value is the number of elements of set k: True, False, or None if not understood"""
    me, other = ("attr", SELF, "S%d" % k), ("attr", SELF, "S%d" % (3 - k))
    ok = {("len", me), ("attr", me, "n_vertices"), ("sub", ("attr", me, "shape"), ("c", 0))}
    if v in ok:
        return True
    r = refs(v)
    if other in r and me not in r:
        return False
    if v in {("off", x, d) for x in ok for d in (-1, 1)}:
        return False
    return None


def lengths(ctx, w):
    """C07: sizes handed over by the wrappers, to the builder and to the decoder"""
    ctx.rule("wrapper-lengths", "the wrappers pass the sizes of the first and the second set in this order wherever pairs are "
             "encoded or decoded")
    py = Py(w)
    for c in py.cls:
        seen = set()

        def pick(e):
            b = py.builder(*e[1:3], dict(e[3]))
            if b is not None and "len1" in b:
                return ("build", {1: b["len1"], 2: b.get("len2")})
            n, a = py.bound(e[1], e[2], dict(e[3]))
            if n in ("_get_correspondence", "_all_correspondences"):
                return (n, {1: a.get("len1"), 2: a.get("len2")})
            return None
        for m, I, s, e, (kind, ls) in calls(c, py, pick):
            site = "%s:%d" % e[4]
            for k in (1, 2):
                v = ls[k]
                key = (kind, site, k, v)
                if key in seen or v is None:
                    continue
                seen.add(key)
                r = size_of(v, k)
                what = "%s.%s: size of set %d is %s" % (c.name, m, k, show(v))
                if r:
                    ctx.ok("wrapper-lengths", site, what)
                elif r is False:
                    ctx.bad("wrapper-lengths", c.name + "." + m, site, what)
                else:
                    ctx.skip("wrapper-lengths", site, what)
        ctx.count("wrapper classes")
