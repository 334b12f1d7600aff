from .front import *

EXPLAIN = ("Every constructor, reader and correspondence builder is interpreted abstractly up to the native graph "
           "constructor. In every completed iteration the pairs written to the two edge lists must be closed under "
           "swapping (or the path must know that the swapped edge is in the input as well), and the self entries that "
           "make a vertex exist must cover every number 1..n.")


def run(ctx, prog):
    w = World(prog)
    ctx.rule("both-directions", "on every path the stored pairs contain (b, a) whenever they contain (a, b)")
    ctx.rule("every-vertex", "the self entries written cover every vertex 1..n")
    ctx.rule("whole-edge", "a path that stores one end of an edge stores the other end too")
    ts = one_per_source(w, targets(w), ctx.tier == "thorough")
    ts.sort(key=lambda t: t[1] is not None)
    pmap(ctx, ts, lambda c, t: one(c, w, t))
    ctx.assume += ["template instances of one definition behave alike (the thorough tier analyses all of them)",
                   "duplicates are dropped and both lists sorted together by the native constructor (C19)"]


def one(ctx, w, t):
    label, cls, b = t
    B = run_build(w, label, b)
    I = B.I
    ctx.used(I)
    ctx.count("builders")
    if not B.hand:
        ctx.skip("both-directions", B.site, label + ": no hand-over to the native graph found")
        return
    lv = list(levels(B))
    done = set()
    for h in B.hand:
        hk = (h.first, h.second, h.n)
        if hk in done:
            continue
        done.add(hk)
        symmetric(ctx, B, h, lv, label)
        cover(ctx, B, h, lv, label)


def symmetric(ctx, B, h, lv, label):
    I = B.I
    seen = {}
    for around, kind, tr, s in lv:
        if kind == "throw":
            continue
        ps, rest = pairs_of(tr, h)
        if rest:
            e = rest[0]
            if around and len(ps) == 0:
                ctx.skip("whole-edge", I.where(e.L), label + ": the two lists are filled separately")
            else:
                ctx.bad("whole-edge", label, I.where(e.L), "%s writes one end of an edge without the other" % label,
                        stack_str(I, e.stack))
        for p in ps:
            ctx.count("pairs on paths")
            site = I.where(p.ev.L)
            if not (isinstance(p.a, Poly) and isinstance(p.b, Poly)):
                seen.setdefault((site, "?"), []).append(None)
                continue
            seen.setdefault((site, "(%s, %s)" % (p.a, p.b)), []).append(mirror(p, ps))
    for (site, what), rs in seen.items():
        if False in rs:
            ctx.bad("both-directions", label, site, "%s stores %s but not the opposite direction" % (label, what))
        elif None in rs:
            ctx.skip("both-directions", site, label + ": value not understood")
        else:
            ctx.ok("both-directions", site, label + " " + what)


def mirror(p, ps):
    f = p.facts
    if p.a == p.b or entails(f, eq(sub(p.a, p.b))):
        return True
    for q in ps:
        if isinstance(q.a, Poly) and isinstance(q.b, Poly):
            if q.a == p.b and q.b == p.a:
                return True
    for q in ps:
        if isinstance(q.a, Poly) and isinstance(q.b, Poly):
            if entails(f, eq(sub(q.a, p.b))) and entails(f, eq(sub(q.b, p.a))):
                return True
    # membership known in both directions
    fwd, back = set(), set()
    for c in f.all():
        if c[0] == "ne":
            a = c[1].single()
            t = tm.info(a)[0] if a is not None else ()
            if len(t) == 4 and t[0] == "app" and t[1] == "in":
                st = t[2].single()
                ts = tm.info(st)[0] if st is not None else ()
                if ts and ts[0] == "sel":
                    if ts[2] == (p.a,) and t[3] == p.b:
                        fwd.add(ts[1])
                    if ts[2] == (p.b,) and t[3] == p.a:
                        back.add(ts[1])
    if fwd & back:
        return True
    return False if precise(f, p.a, p.b) else None


def cover(ctx, B, h, lv, label):
    """self entries cover 1..n"""
    I = B.I
    spans = []
    loops = {}
    any_self = False
    vague = False
    for around, kind, tr, s in lv:
        if kind == "throw":
            continue
        if not around:
            for p in pairs_of(tr, h)[0]:
                if isinstance(p.a, Poly) and p.a == p.b:
                    any_self = True
                    spans.append((p.a, add(p.a, ONE)))
        else:
            loops.setdefault(id(around[-1]), (around, []))[1].append((kind, tr, s))
    for around, its in loops.values():
        lev = around[-1]
        allp = [(kind, pairs_of(tr, h)[0], s) for kind, tr, s in its]
        cand = [p for _, ps, _ in allp for p in ps
                if isinstance(p.a, Poly) and isinstance(p.b, Poly)]
        if not cand:
            continue
        ends = [x for x in allp if x[0] == "end"]
        for hd, lo, hi, complete, path in loop_range(lev):
            # every completed iteration stores (h+k, h+k)
            for p in cand:
                if p.a == p.b:
                    any_self = True
                    k = sub(p.a, hd)
                    if k.const() is None:
                        continue
                    if all(any(q.a == p.a and q.b == p.b for q in ps) for _, ps, _ in ends):
                        if complete:
                            spans.append((add(lo, k), add(hi, k)))
                        else:
                            vague = True
                    else:
                        vague = True
            # matrix: (i+k, j+k), stored at least when i == j
            if len(around) > 1:
                for hd2, lo2, hi2, comp2, path2 in loop_range(around[-2]):
                    for p in cand:
                        k = sub(p.b, hd)
                        k2 = sub(p.a, hd2)
                        if k.const() is None or k != k2:
                            continue
                        any_self = True
                        if not all(any(q.a == p.a and q.b == p.b for q in ps) or entails(s.facts, ne(sub(hd, hd2)))
                                   for _, ps, s in ends):
                            vague = True
                            if all(not any(tm.cond_tainted(c) for c in s.facts.all()) for _, ps, s in ends):
                                vague = False
                            continue
                        hl = lev.facts
                        if entails(hl, ge(sub(lo2, lo))) and entails(hl, ge(sub(hi, hi2))) and complete and comp2:
                            spans.append((add(lo2, k), add(hi2, k)))
                        else:
                            vague = True
    f = h.facts
    n1 = add(h.n, ONE)
    at = ONE
    moved = True
    while moved and not entails(f, ge(sub(at, n1))):
        moved = False
        for lo, hi in spans:
            if entails(f, ge(sub(at, lo))) and entails(f, gt(sub(hi, at))):
                at = hi
                moved = True
                break
            if entails(f, ge(sub(at, lo))) and entails(f, ge(sub(hi, n1))):
                at = n1
                moved = True
                break
    if entails(f, ge(sub(at, n1))):
        ctx.ok("every-vertex", B.site, "%s: self entries cover 1..%s" % (label, h.n))
    elif vague or not precise(f, h.n) or any(not precise(f, lo, hi) for lo, hi in spans):
        ctx.skip("every-vertex", B.site, label + ": coverage of the self entries not understood")
    else:
        ctx.bad("every-vertex", label, B.site, "%s: self entries cover %s, not every vertex 1..%s" % (
            label, ", ".join("[%s, %s)" % s for s in spans) or "nothing", h.n))
