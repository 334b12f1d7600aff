"""Correspondence builders: which pair of elements a vertex number stands for, and what is known when an edge is stored."""
from .front import *


class Corr:
    """roles of a builder's parameters"""

    def __init__(self, w, B):
        self.B, self.I, self.w = B, B.I, w
        ps = params_of(w, B.b)
        st = empty_state()
        I = B.I
        self.graphs = [p for p in ps[1:] if strip(p["t"]) in w.pyg]
        self.iso = len(self.graphs) == 2 and len(ps) == 3
        self.sets, self.lens, self.metrics, self.syms, self.cond, self.eps = [], [], [], [], None, None
        if self.iso:
            for p in self.graphs:
                h, nat = w.handle(strip(p["t"]))
                self.sets.append(("g", p["n"]))
            return
        prev = None
        for i, p in enumerate(ps[1:]):
            t = strip(p["t"])
            k = I.kind(t)
            if t.startswith("std::function"):
                n = t.count("unsigned long") + t.count("uint64_t") + t.count("u64")
                ret = t[len("std::function<"):].split("(")[0].strip()
                if ret == "bool":
                    self.cond = p
                else:
                    self.metrics.append(p)
            elif k == "b":
                self.syms.append(I.rd(st, gl(p["n"]), p["t"]))
            elif k in ("u", "i") and len(self.lens) < 2:
                self.lens.append(I.rd(st, gl(p["n"]), p["t"]))
                self.sets.append(("g", prev["n"]))
            elif k == "f" and self.eps is None:
                self.eps = I.rd(st, gl(p["n"]), p["t"])
            prev = p

    @property
    def ok(self):
        return self.iso or (len(self.lens) == 2 and all(isinstance(x, Poly) for x in self.lens))

    def sizes(self, h):
        """(M, D) number of elements of the two sets as terms"""
        if not self.iso:
            return self.lens[0], self.lens[1]
        out = []
        for s in self.sets:
            c = [a for a in deep_atoms(h.n) if tm.info(a)[0][0] == "init" and tm.info(a)[0][1][0] == s]
            if len(c) != 1:
                return None
            # vertices without the sentinel, or the number the wrapper keeps
            a = tm.Poly((((c[0],), 1),))
            out.append(sub(a, ONE) if len(tm.info(c[0])[0][1]) > 2 else a)
        return tuple(out)


def coef_in(p, a):
    """(coefficient polynomial of atom a, rest), None if a occurs with a higher power or inside another atom"""
    c, r = {}, {}
    for m, k in p.m:
        n = m.count(a)
        if n == 0:
            if any(x != a and a in deep_atoms(Poly((((x,), 1),))) for x in m):
                return None
            r[m] = k
        elif n == 1:
            m2 = list(m)
            m2.remove(a)
            c[tuple(m2)] = k
        else:
            return None
    return tm._mk(c), tm._mk(r)


def decode(v, D):
    """(x, y) with v - 1 == x*D + y"""
    at = [a for a in D.atoms()]
    if len(at) != 1 or not isinstance(v, Poly):
        return None
    cr = coef_in(v, at[0])
    if cr is None:
        return None
    x = cr[0]
    y = sub(sub(v, ONE), mul(x, D))
    return x, y


def table_sel(I, p):
    """(table path, field, position) when the term is a field of an entry of a sorted table"""
    a = p.single() if isinstance(p, Poly) else None
    if a is None:
        return None
    t = tm.info(a)[0]
    if t[0] != "sel" or not t[1] or t[1][0] != "as":
        return None
    src = I.arr_src.get(t[1][2])
    if src is None or len(src) < 2 or "[]" not in src:
        return None
    k = len(src) - 1 - src[::-1].index("[]")
    return src[:k], src[k + 1:], t[2][-1]


class Table:
    """distance table: how entries are filled"""

    def __init__(self, path):
        self.path = path
        self.rows = []      # (stores by field, idx, call args, around, trace event)


def obj_root(I, v):
    if isinstance(v, tuple) and v and v[0] in ("obj", "loc", "ref", "alias"):
        return v[1][0][0]
    return None


def tables(C, lv):
    """path -> Table of all vectors of records that are filled in a loop with results of a pairwise function"""
    out = {}
    I = C.I
    for around, kind, tr, s in lv:
        rows = {}
        for n, e in enumerate(tr):
            if e.k == "store" and e.d.get("buf") is not None and "[]" in e.d["loc"][0]:
                p = e.d["loc"][0]
                k = len(p) - 1 - p[::-1].index("[]")
                if k + 1 >= len(p):
                    continue
                key = (p[:k], e.d["loc"][1])
                rows.setdefault(key, []).append((n, p[k + 1:], e))
        for (path, idx), ss in rows.items():
            fields = {}
            for n, fld, e in ss:
                fields[fld] = (n, e)
            last = max(n for n, _ in fields.values())
            call = None
            for e in tr[:last + 1]:
                args = None
                if e.k in ("fncall", "lamcall", "enter"):
                    args = e.d["args"]
                if args and len(args) == 3 and obj_root(I, args[0]) is not None and \
                        all(isinstance(x, Poly) for x in args[1:]):
                    call = e
            t = out.setdefault(path, Table(path))
            t.rows.append(({f: e.d["val"] for f, (n, e) in fields.items()}, idx, call, around, ss[-1][2], s))
    return out
