"""What the graph constructors and edge builders hand to the native graph."""
from .common import *


class Handoff:
    """one call of a native graph constructor"""

    def __init__(self, ev):
        self.ev = ev
        self.n = ev.d["args"][0]
        self.first, self.second = ev.d.get("bufs") or (None, None)
        self.weights = ev.d.get("wbuf")
        self.facts = ev.facts


class Build:
    pass


def native_stop(w, extra=None):
    nat = {w.native(c) for c in w.pyg}

    def stop(f):
        if extra is not None:
            r = extra(f)
            if r:
                return r
        if f.get("class") in nat:
            if f.get("ctor") and len(f["params"]) >= 3:
                return handoff
            return True
        return False
    return stop


def handoff(I, f, this, vals, st, node):
    d = {}
    for p, v in zip(f["params"], vals):
        t = strip(p["t"])
        if not (isinstance(v, tuple) and v and v[0] in ("ref", "obj")):
            continue
        l = I.resolve(st, v[1])
        if t.startswith("std::pair<std::vector"):
            d["bufs"] = tuple(I.vbuf(st, (l[0] + (k,), l[1])) for k in (".first", ".second"))
            d["sizes"] = tuple(I.vsize(st, (l[0] + (k,), l[1])) for k in (".first", ".second"))
        elif is_vec(t):
            d["wbuf"] = I.vbuf(st, l)
            d["wloc"] = l
            d["wsize"] = I.vsize(st, l)
    I.event(st, "icall", node, fn=f["id"], q=f["q"], this=this, args=vals, **d)
    return [(st, ("obj", this))]


def targets(w):
    """(label, class or None, binding) of everything that builds a graph; one per source definition"""
    out = []
    for c in w.pyg:
        for n, b in sorted(w.graphs[c]["statics"].items()):
            if params_of(w, b) is not None:
                out.append(("%s.%s" % (c.split("::")[-1], n), c, b))
    for b in w.module:
        if params_of(w, b) is not None and any(strip(p["t"]) in w.pyg for p in params_of(w, b)):
            out.append((b["name"], None, b))
    return out


def one_per_source(w, ts, thorough=False):
    """instances of one template come from the same lines: keep one of each unless thorough"""
    if thorough:
        return ts
    seen, out = set(), []
    for t in ts:
        b = t[2]
        L = w.fns[b["target"][1]]["L"] if b["target"][0] == "fn" else b["target"][1].get("L")
        k = (t[0], tuple(L))
        if k not in seen:
            seen.add(k)
            out.append(t)
    return out


def run_build(w, label, b, extra=None):
    B = Build()
    B.label = label
    B.b = b
    I = B.I = interp(w, native_stop(w, extra))
    B.res, B.thr = run_target(I, w, b, empty_state())
    B.events = all_events(I, B.res, B.thr)
    B.hand = [Handoff(e) for e in B.events if e.k == "icall" and e.d.get("bufs")]
    t = b["target"]
    B.site = I.where(w.fns[t[1]]["L"] if t[0] == "fn" else t[1].get("L"))
    return B


class Pair:
    def __init__(self, a, b, ev, facts, idx=None):
        self.a, self.b, self.ev, self.facts, self.idx = a, b, ev, facts, idx


def later(e1, e2):
    return e2 if len(e2.facts.all()) >= len(e1.facts.all()) else e1


def pairs_of(evs, h):
    """(pairs, unmatched events) among the events of one trace, not descending into loops"""
    F, S = [], []
    for e in evs:
        if e.k == "push" and e.d["buf"] == h.first:
            F.append((e, e.d["idx"], e.d["val"]))
        elif e.k == "push" and e.d["buf"] == h.second:
            S.append((e, e.d["idx"], e.d["val"]))
        elif e.k == "store" and e.d.get("buf") is not None and e.d["buf"] == h.first:
            F.append((e, e.d["loc"][1][-1], e.d["val"]))
        elif e.k == "store" and e.d.get("buf") is not None and e.d["buf"] == h.second:
            S.append((e, e.d["loc"][1][-1], e.d["val"]))
    out, rest = [], []
    pf = [x for x in F if x[0].k == "push"]
    ps = [x for x in S if x[0].k == "push"]
    for x, y in zip(pf, ps):
        out.append(mk(x, y))
    rest += [x[0] for x in pf[len(ps):]] + [y[0] for y in ps[len(pf):]]
    sf = [x for x in F if x[0].k == "store"]
    ss = [x for x in S if x[0].k == "store"]
    used = set()
    # the last store to a position counts
    for x in reversed(sf):
        for k in range(len(ss) - 1, -1, -1):
            y = ss[k]
            if k not in used and y[1] == x[1]:
                used.add(k)
                out.append(mk(x, y))
                break
        else:
            if not any(x2 is not x and x2[1] == x[1] for x2 in sf):
                rest.append(x[0])
    for k, y in enumerate(ss):
        if k not in used and not any(k2 in used and ss[k2][1] == y[1] for k2 in range(len(ss))):
            rest.append(y[0])
    return out, rest


def mk(x, y):
    e = later(x[0], y[0])
    return Pair(x[2], y[2], e, e.facts, x[1])


def levels(B):
    """(loops around it, kind, trace, end state) of every straight piece: the results and all loop iterations"""
    seen = set()

    def rec(evs, around):
        for e in evs:
            if e.k == "loop" and id(e) not in seen:
                seen.add(id(e))
                for kind, tr, s in e.d["iters"]:
                    yield (around + (e,), kind, tr, s)
                    yield from rec(tr, around + (e,))
    for s, v in B.res:
        tr = trace(s.ev)
        yield ((), "end", tr, s)
        yield from rec(tr, ())
    for t in B.thr:
        tr = trace(t.st.ev)
        yield ((), "throw", tr, t.st)
        yield from rec(tr, ())


def scalar_steps(lev):
    """paths of scalars that change by a constant on every completed iteration: path -> (head atom, start, step)"""
    H, st0 = lev.d["head"], lev.d["pre"]
    out = {}
    ends = [s for kind, tr, s in lev.d["iters"] if kind == "end"]
    for p in lev.d["mod"]:
        h = H.mem.get(p)
        if not isinstance(h, Poly) or h.single() is None:
            continue
        step = None
        for s in ends:
            v = s.mem.get(p)
            if not isinstance(v, Poly):
                step = None
                break
            d = sub(v, h).const()
            if d is None or (step is not None and d != step):
                step = None
                break
            step = d
        if step:
            v0 = st0.mem.get(p)
            out[p] = (h, v0 if isinstance(v0, Poly) else None, step)
    return out


def loop_range(lev):
    """[(head value, first, last exclusive)] for unit-step counters bounded by the loop condition; complete loops only"""
    out = []
    if any(kind in ("break", "return") for kind, _, _ in lev.d["iters"]):
        complete = False
    else:
        complete = True
    steps = scalar_steps(lev)
    base = lev.d["head"].facts.all()
    for p, (h, v0, step) in steps.items():
        if abs(step) != 1 or v0 is None:
            continue
        a = h.single()
        hi = None
        conds = set()
        for hs in lev.d["heads"]:
            conds |= hs.facts.all() - base
        if step == 1 and not any(c[0] in ("ge", "ne") and c[1].coef((a,)) for c in conds):
            # the first test is known to hold: the condition is part of what holds at the head
            up = [c for c in base if c[0] == "ge" and c[1].coef((a,)) == -1]
            conds = set(up) if len(up) == 1 else set()
        for c in conds:
            if c[0] in ("ge", "ne") and c[1].coef((a,)):
                k = c[1].coef((a,))
                rest = add(c[1], scale_atom(a, -k))
                if a in rest.atoms():
                    continue
                if step == 1 and c[0] == "ge" and k == -1:
                    hi = add(rest, ONE)          # rest - h >= 0
                elif step == 1 and c[0] == "ne" and abs(k) == 1:
                    hi = neg(rest) if k == 1 else rest
                elif step == -1 and c[0] == "ge" and k == 1:
                    # h + rest >= 0 : runs down to -rest
                    out.append((h, neg(rest), add(v0, ONE), complete, p))
        if step == 1 and hi is not None:
            out.append((h, v0, hi, complete, p))
    return out


def scale_atom(a, k):
    return Poly((((a,), k),)) if k else ZERO
