from .front import *

EXPLAIN = ("Every constructor that takes vertex numbers (edge list, adjacency list, matrix, file) is interpreted "
           "abstractly up to the native graph constructor. Every pair of end points written to the edge lists that "
           "reach it must be provably inside 1..n on its path, or be a self entry inside 0..n; input that is not "
           "stored must end in std::runtime_error except when reading a file.")


def run(ctx, prog):
    w = World(prog)
    ctx.rule("range", "both ends of every stored edge lie in 1..n on the path that stores it (self entries in 0..n)")
    ctx.rule("rejects", "an edge or neighbour given by the caller is stored or std::runtime_error is thrown")
    ts = [t for t in targets(w) if t[1] is not None]
    pmap(ctx, ts, lambda c, t: one(c, w, t))
    ctx.assume += ["values of arrays, sets and files are arbitrary", "the native constructor receives exactly the two edge lists"]


def one(ctx, w, t):
    label, cls, b = t
    B = run_build(w, label, b)
    I = B.I
    ctx.used(I)
    ctx.count("constructors")
    if not B.hand:
        ctx.skip("range", B.site, label + ": no hand-over to the native graph found")
        return
    for th in B.thr:
        if th.tt != "std::runtime_error" and "std::runtime_error" not in th.bases:
            ctx.bad("rejects", label + ":type", I.where(th.L), "%s throws %s" % (label, th.tt))
    sites = {}
    storing = {}
    lv = list(levels(B))
    for h in B.hand:
        for around, kind, tr, s in lv:
            if kind == "throw":
                continue
            ps, rest = pairs_of(tr, h)
            if around:
                storing.setdefault(id(around[-1]), []).append((kind, bool(ps), any(not same(p) for p in ps), tr, s, around[-1]))
            for e in rest:
                sites.setdefault((I.where(e.L), "one end only"), []).append(None)
            for p in ps:
                key = (I.where(p.ev.L), "%s,%s" % (p.a, p.b))
                sites.setdefault(key, []).append((p, h))
    n_pairs = 0
    for (site, what), lst in sites.items():
        if lst[0] is None:
            ctx.skip("range", site, label + ": end points are not stored in pairs")
            continue
        good, tainted = True, False
        for p, h in lst:
            n_pairs += 1
            r = inside(p, h.n)
            if r is None:
                tainted = True
            elif not r:
                good = False
                badp, bh = p, h
        if not good:
            if prechecked(B, badp, tr=None):
                ctx.skip("range", site, label + ": values are checked in a separate pass")
            else:
                ctx.bad("range", label, site, "%s stores the edge (%s, %s) without knowing both ends lie in 1..%s" % (
                    label, badp.a, badp.b, bh.n), stack_str(I, badp.ev.stack) + [tm.show_cond(c) for c in rel_facts(badp)])
        elif tainted:
            ctx.skip("range", site, label + ": value not understood")
        else:
            ctx.ok("range", site, "%s: (%s)" % (label, what))
    ctx.count("stored pairs on paths", n_pairs)
    if b["name"] in ("from_edgelist", "from_adjlist"):
        for lst in storing.values():
            if not any(x[2] for x in lst):
                continue
            lev = lst[0][5]
            dropped = [x for x in lst if not x[1] and x[0] == "end"]
            if dropped:
                x = dropped[0]
                if any(tm.cond_tainted(c) for c in x[4].facts.all()):
                    ctx.skip("rejects", I.where(lev.L), label)
                else:
                    ctx.bad("rejects", label + ":drop", I.where(lev.L),
                            "%s has a path that takes input and neither stores it nor throws" % label,
                            [tm.show_cond(c) for c in list(x[4].facts.all() - lev.d["head"].facts.all())[:6]])
            else:
                ctx.ok("rejects", I.where(lev.L), label + ": every completed iteration stores its input")


def same(p):
    return p.a == p.b


def rel_facts(p):
    at = deep_atoms(p.a) | deep_atoms(p.b)
    return [c for c in p.facts.all() if share_atoms(c, at)][:6]


def inside(p, n):
    """True, False or None (not understood)"""
    if not all(isinstance(x, Poly) for x in (p.a, p.b, n)):
        return None
    f = p.facts
    if p.a == p.b or entails(f, eq(sub(p.a, p.b))):
        if entails(f, ge(sub(n, p.a))) and entails(f, ge(p.a)):
            return True
    elif all((entails(f, ge(sub(x, ONE))) or nonzero(f, x)) and entails(f, ge(sub(n, x))) for x in (p.a, p.b)):
        return True
    return False if precise(f, p.a, p.b, n) else None


def nonzero(f, x):
    a = x.single()
    return a is not None and entails(f, ge(x)) and tm.excluded(f, a, ZERO)


def array_of(p):
    out = set()
    for a in deep_atoms(p):
        t = tm.info(a)[0]
        if t[0] == "sel":
            out.add(t[1])
    return out


def prechecked(B, p, tr=None):
    """the array the value comes from is looked at by another loop that can throw"""
    arrs = array_of(p.a) | array_of(p.b)
    if not arrs:
        return False
    for around, kind, tr, s in levels(B):
        if kind == "throw" and around and p.ev not in tr:
            lev = around[-1]
            if any(p.ev is e for k, t2, _ in lev.d["iters"] for e in t2):
                continue
            for c in s.facts.all() - lev.d["head"].facts.all():
                if any(array_of(q) & arrs for q in tm.cond_polys(c)):
                    return True
    return False
