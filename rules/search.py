"""The search classes: which there are, how they are entered."""
from .front import *


class Searcher:
    def __init__(self, w, cls, native, entry, kind):
        self.w, self.cls, self.native, self.entry, self.kind = w, cls, native, entry, kind
        self.name = cls.split("::")[-1]

    @property
    def weighted(self):
        return any(f["n"] == "weight" for f in self.w.recs.get(self.vertex, {}).get("fields", ()))

    @property
    def vertex(self):
        for f in self.w.recs[self.native]["fields"]:
            t = strip(f["t"])
            if is_vec(t) and strip(targs(t)[0]) in self.w.recs:
                return strip(targs(t)[0])
        return None


def callees(n, out):
    """ids of functions named in an expression or statement"""
    if isinstance(n, dict):
        if n.get("e") in ("call", "mcall", "ctor", "new") and isinstance(n.get("id"), str):
            out.add(n["id"])
        for v in n.values():
            if isinstance(v, (dict, list, tuple)):
                callees(v, out)
    elif isinstance(n, (list, tuple)):
        for v in n:
            callees(v, out)
    return out


def reach(w, f, seen=None):
    """functions reachable through calls (virtual calls by name)"""
    seen = set() if seen is None else seen
    if f["id"] in seen:
        return seen
    seen.add(f["id"])
    for c in callees([f.get("body"), f.get("inits")], set()):
        if c in w.fns:
            reach(w, w.fns[c], seen)
    return seen


def searchers(w):
    out = []
    for pc in w.pyg:
        nat = w.native(pc)
        by = {}
        for f in w.fns.values():
            c = f.get("class")
            if c and c != nat and c not in w.pyg and not f.get("ctor") and f.get("body") and \
                    any(strip(p["t"]) == nat and p.get("ref") for p in f["params"]):
                by.setdefault(c, []).append(f)
        for c, fs in sorted(by.items()):
            inner = set()
            for f in fs:
                inner |= {x for x in callees(f.get("body"), set()) if x != f["id"]}
            ent = [f for f in fs if f["id"] not in inner and len(f["params"]) == 1]
            if len(ent) != 1:
                ent = [f for f in fs if f["q"].endswith("::process_graph")]
            if len(ent) != 1:
                continue
            n = c.lower()
            kind = "heuristic" if "heur" in n else "enum" if "enum" in n else "dfs"
            if kind == "dfs" and clocked(w, ent[0]):
                kind = "timed"
            out.append(Searcher(w, c, nat, ent[0], kind))
    return out


def clocked(w, f):
    return any(is_clock(w, x) for x in reach(w, f))


def is_clock(w, fid):
    return any("chrono" in c and "::now(" in c for c in callees([w.fns[fid].get("body"), w.fns[fid].get("inits")], set()))
