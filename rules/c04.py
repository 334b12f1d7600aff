from .c10 import family, levels_of
from .c12 import Fields, owner, place, same, site_of, vfield
from .c15 import assigned
from .ops import *

TECHNIQUE = "static analysis: abstract interpretation of the builders, the native constructor, the queries and the searches (clang AST), " \
            "comparing at every use of a weight the vertex it was supplied for with the vertex it is used for"
EXPLAIN = ("Every binding that builds a weighted graph is interpreted up to the native constructor and the content of the weight list handed over is "
           "followed through stores, appends, insertions and erasures: place v must hold the weight at place v-1 of the caller's list, for every v. The native "
           "constructor must store for vertex i the weight at place i, and sum the weights of the listed neighbours for its degree. The queries must report "
           "the stored weight of the vertex asked for. In the searches, a weight table must be filled for each candidate with the weight of the vertex at that place, and every weight "
           "added or taken away must belong to the place that is being set, reset, tested or dropped there, in the same way in all iterations that do the same.")


def run(ctx, prog):
    w = World(prog)
    nats = {c: n for c, n in natives(w).items() if list_param(w, n)}
    ctx.rule("given", "the weight handed over for vertex v is the v-th of the caller's")
    ctx.rule("loaded", "vertex i is given the i-th weight of the list handed over, and nothing else changes it")
    ctx.rule("degree", "the weighted degree is the sum of the weights of the listed vertices")
    ctx.rule("reported", "a query about a vertex gives the weight stored for that vertex")
    ctx.rule("table", "a table of weights by place holds the weight of the vertex at that place, for every candidate")
    ctx.rule("used", "a weight added or taken away is that of the vertex being dealt with")
    ctx.rule("alike", "iterations that do the same to a candidate change the sums in the same way")
    todo = []
    for cls, nat in nats.items():
        for n, b in sorted(w.graphs[cls]["statics"].items()):
            if params_of(w, b) is not None:
                todo.append(("build", cls, nat, "%s.%s" % (cls.split("::")[-1], n), b))
        todo.append(("ctor", cls, nat, nat.cls, list_param(w, nat)[0]))
        for m, b in sorted(w.graphs[cls]["methods"].items()):
            t = b["target"]
            f = w.fns.get(t[1]) if t and t[0] == "fn" else None
            if f is None or not f.get("body"):
                continue
            rt = strip(f["rt"])
            kind = None
            if is_vec(rt) and strip(targs(rt)[0]) == "double":
                kind = "list"
            elif rt == "double" and len(f["params"]) == 1 and is_vec(strip(f["params"][0]["t"]).replace("const ", "")):
                kind = "clique"
            elif rt.startswith("std::pair<double") and len(f["params"]) == 1:
                kind = "query"
            if kind:
                todo.append((kind, cls, nat, "%s.%s" % (cls.split("::")[-1], m), f))
        todo += [("search", cls, nat, o, f) for o in operators(w, {cls: nat}) for f in o.units]
        for f in w.fns.values():
            if f.get("class") == nat.cls and f.get("body") and not f.get("ctor") and weight_field(w, nat) in reads(f["body"], nat.vcls) and fields_written(f):
                todo.append(("bounds", cls, nat, short(f["q"]), f))
    pmap(ctx, todo, lambda c, t: one(c, w, *t))
    for cls, nat in nats.items():
        only(ctx, w, nat)
    if not todo:
        ctx.skip("given", "", "no weighted graph found")
    ctx.assume += ["the list of a vertex holds its neighbours and the vertex itself at the recorded place (C05, C19)",
                   "the candidates and members of the searches are those of C11 and C12"]


def one(ctx, w, kind, *a):
    {"build": build, "ctor": ctor, "list": listed, "clique": clique, "query": query, "search": search, "bounds": bounds}[kind](ctx, w, *a)


def list_param(w, nat):
    """(constructor, weight list parameter) of a weighted native graph"""
    for f in w.fns.values():
        if f.get("class") == nat.cls and f.get("ctor") and f.get("body"):
            for p in f["params"]:
                t = strip(p["t"]).replace("const ", "")
                if is_vec(t) and strip(targs(t)[0]) == "double":
                    return f, p
    return None


def reads(n, cls, out=None):
    out = set() if out is None else out
    if isinstance(n, dict):
        if n.get("e") == "field" and strip(n.get("c") or "") == cls:
            out.add(n["n"])
        for v in n.values():
            reads(v, cls, out)
    elif isinstance(n, list):
        for v in n:
            reads(v, cls, out)
    return out


def built_by(w, nat):
    f = list_param(w, nat)[0]
    own = {c["id"] for c in w.fns.values() if c.get("class") == nat.cls and c.get("ctor")}
    return {f["id"]} | own | {i for i in reach(w, f)}


def doubles(w, nat):
    return [g["n"] for g in w.recs[nat.vcls]["fields"] if strip(g["t"]) == "double"]


def weight_field(w, nat):
    ds = doubles(w, nat)
    if "weight" in ds:
        return "weight"
    # otherwise the one that the queries read
    for f in w.fns.values():
        if f.get("class") == nat.cls and f.get("body") and strip(f["rt"]) == "double" and len(f["params"]) == 1:
            r = [d for d in ds if d in reads(f["body"], nat.vcls)]
            if len(r) == 1:
                return r[0]
    return None


def degree_field(w, nat):
    ds = [d for d in doubles(w, nat) if d != weight_field(w, nat)]
    if "degree" in ds:
        return "degree"
    b = built_by(w, nat)
    late = {n for f in w.fns.values() if f.get("body") and f.get("class") == nat.cls and not f.get("ctor") for n in assigned(f["body"], nat.vcls)}
    ds = [d for d in ds if d not in late]
    return ds[0] if len(ds) == 1 else None


def only(ctx, w, nat):
    wf = weight_field(w, nat)
    b = {list_param(w, nat)[0]["id"]} | {f["id"] for f in w.fns.values() if f.get("class") == nat.vcls}
    for f in w.fns.values():
        if not f.get("body") or f["id"] in b:
            continue
        if wf in assigned(f["body"], nat.vcls):
            from_ctor = f["id"] in reach(w, list_param(w, nat)[0])
            if from_ctor:
                continue
            ctx.bad("loaded", short(f["q"]), "%s:%d" % tuple(f["L"][:2]), "%s changes the weight of a vertex" % short(f["q"]))
    callers = [f for f in w.fns.values() if f.get("body") and any(i in w.fns and w.fns[i].get("class") == nat.vcls and wf in assigned(w.fns[i]["body"], nat.vcls)
                                                                   for i in called(f) if w.fns.get(i, {}).get("body"))]
    rc = reach(w, list_param(w, nat)[0]) | {list_param(w, nat)[0]["id"]}
    for f in callers:
        if f["id"] not in rc:
            ctx.bad("loaded", short(f["q"]), "%s:%d" % tuple(f["L"][:2]), "%s loads a vertex again" % short(f["q"]))


# ---- what a list holds

class Part:
    """places off+q of the list hold source place q, for q in [lo, hi)"""

    def __init__(self, off, lo, hi, e, whole=True):
        self.off, self.lo, self.hi, self.e, self.whole = off, lo, hi, e, whole


def content(I, evs, buf, src, base=None, also=()):
    """what the list with this buffer holds after these events: (parts, faults); a fault is (event, text, sure)"""
    parts = [base] if base is not None else []
    faults = []
    names = {e.d[k][0] for e in flat(evs) for k in ("vec", "loc") if e.d.get("buf") == buf and k in e.d}
    names |= {n[:-1] for n in names if n[-1] == "[]"} | set(also)
    for e in evs:
        if e.k in ("vinsert", "verase") and e.d.get("buf") == buf:
            a = e.d["args"]
            at = a[0][2][-1] if a and isinstance(a[0], tuple) and a[0] and a[0][0] == "ptr" and a[0][2] else None
            one = e.k == "verase" and len(a) == 1 or e.k == "vinsert" and len(a) == 2 and isinstance(a[1], Poly)
            if at is None or not one:
                faults.append((e, "changed in bulk", False))
                continue
            d = 1 if e.k == "vinsert" else -1
            for p in parts:
                if entails(e.facts, ge(sub(add(p.lo, num(p.off)), at))) or (d < 0 and entails(e.facts, eq(sub(add(p.lo, num(p.off)), at)))):
                    p.off += d
                    if d < 0 and entails(e.facts, eq(sub(add(p.lo, num(p.off - d)), at))):
                        p.lo = add(p.lo, ONE)
                elif entails(e.facts, ge(sub(at, add(p.hi, num(p.off))))):
                    pass
                else:
                    faults.append((e, "an element is %s in the middle" % ("inserted" if d > 0 else "erased"), precise(e.facts, at)))
        elif e.k in ("store", "push") and e.d.get("buf") == buf and buf is not None:
            P = e.d["loc"][1][-1] if e.k == "store" else e.d["idx"]
            if not isinstance(P, Poly):
                faults.append((e, "unknown place", False))
                continue
            q = src(e.d["val"], e)
            if q is not None and sub(P, q).const() is not None:
                parts.append(Part(sub(P, q).const(), q, add(q, ONE), e))
            elif not any(inside(e.facts, P, p) is False for p in parts) and parts:
                faults.append((e, "place %s gets %s" % (P, e.d["val"]), precise(e.facts, P)))
        elif e.k == "loop":
            got = loop_part(I, e, buf, src)
            if got is None:
                continue
            if isinstance(got, Part):
                parts = [p for p in parts if p.off == got.off and p is not base] + [got]
                faults = []
            else:
                faults.append(got)
        elif e.k in ("sort", "bulk") and any(isinstance(v, tuple) and v and v[0] == "ptr" and v[1][:-1] in names for v in e.d["args"]):
            faults.append((e, "changed by %s" % (e.d.get("op") or e.d.get("q")), e.k == "sort"))
    return parts, faults


def plain(n):
    """no value left over from a loop"""
    return all(tm.info(a)[0][0] != "sym" for a in deep_atoms(n, set()))


def pushed(parts, faults, n):
    """size of a list whose last part was appended"""
    if not faults and parts and parts[-1].e is not None and parts[-1].e.k == "push" and parts[-1].whole and isinstance(n, Poly) and not plain(n):
        return add(parts[-1].hi, num(parts[-1].off))
    return n


def known(v):
    """does not come out of a list changed as a whole"""
    return all(tm.info(a)[0][0] != "sel" or tm.info(a)[0][1][0] == "ai" for a in deep_atoms(v, set()))


def inside(facts, P, p):
    """is place P among those of the part? False if surely not"""
    if entails(facts, gt(sub(add(p.lo, num(p.off)), P))) or entails(facts, ge(sub(P, add(p.hi, num(p.off))))):
        return False
    return True


def loop_part(I, e, buf, src):
    ws = []
    other = []
    for kind, t, st in e.d["iters"]:
        if kind == "throw":
            continue
        hits = [y for y in flat(t) if y.k in ("store", "push") and y.d.get("buf") == buf]
        if any(y not in t for y in hits):
            return (hits[0], "written in a nested loop", False)
        ws.append((kind, t, st, hits))
        other += hits
    if not other:
        return None
    offs = set()
    R = [r for r in loop_range(e)]
    heads = []
    for kind, t, st, hits in ws:
        if not hits:
            if kind == "end":
                return (e, "is left as it is in some iterations", precise(st.facts))
            continue
        y = hits[-1]
        P = y.d["loc"][1][-1] if y.k == "store" else y.d["idx"]
        q = src(y.d["val"], y)
        if q is None:
            return (y, "place %s gets %s" % (P, y.d["val"]), isinstance(P, Poly) and isinstance(y.d["val"], Poly) and precise(y.facts, P, y.d["val"]) and known(y.d["val"]))
        d = difference(y.facts, P, q)
        if d is None:
            return (y, "place %s gets the weight at %s" % (P, q), precise(y.facts, P, q))
        offs.add(d)
        for h, lo, hi, complete, path in R:
            c = sub(q, h).const()
            if c is not None:
                heads.append((add(lo, num(c)), add(hi, num(c)), complete))
    if len(offs) != 1:
        return (other[0], "places differ between iterations", True)
    if not heads:
        return (other[0], "the range of the loop is not known", False)
    lo, hi, complete = heads[0]
    return Part(offs.pop(), lo, hi, other[0], complete)


def difference(facts, P, q):
    d = sub(P, q)
    if d.const() is not None:
        return d.const()
    for c in (1, 0, -1, 2):
        if entails(facts, eq(sub(d, num(c)))):
            return c
    return None


def verdict(ctx, I, rule, name, site, parts, faults, off, lo, his, facts, what):
    """the parts must give off for all of [lo, one of his)"""
    for e, text, sure in faults:
        if sure:
            ctx.bad(rule, name, I.where(e.L), "%s: %s: %s" % (name, what, text))
            return
    if faults:
        ctx.skip(rule, I.where(faults[0][0].L), name)
        return
    ps = [p for p in parts if not (p.lo.const() is not None and p.hi.const() is not None and entails(facts, ge(sub(lo, p.hi))))]
    if not ps:
        ctx.skip(rule, site, name)
        return
    bad = [p for p in ps if p.off != off]
    for p in bad:
        at = I.where(p.e.L) if p.e is not None else site
        if p.lo.const() is not None and p.hi.const() == p.lo.const() + 1 and len(ps) > 1:
            ctx.skip(rule, at, name)
            return
        if precise(facts, p.lo, p.hi):
            ctx.bad(rule, name, at, "%s: %s: place v holds the one for v%+d, not v%+d" % (name, what, -p.off, -off))
        else:
            ctx.skip(rule, at, name)
        return
    p = ps[-1]
    at = I.where(p.e.L) if p.e is not None else site
    if not p.whole:
        ctx.skip(rule, at, name)
    elif entails(facts, ge(sub(lo, p.lo))) and any(entails(facts, ge(sub(p.hi, h))) for h in his):
        ctx.ok(rule, at, "%s: %s, from %s to before %s" % (name, what, p.lo, p.hi))
    elif precise(facts, p.lo, p.hi):
        ctx.bad(rule, name, at, "%s: %s: only for places from %s to before %s of %s" % (name, what, p.lo, p.hi, his[0]))
    else:
        ctx.skip(rule, at, name)


# ---- builders

def build(ctx, w, cls, nat, name, b):
    B = run_build(w, name, b)
    I = B.I
    ctx.used(I)
    ps = {p["n"] for p in params_of(w, b)}
    if not B.hand:
        ctx.skip("given", B.site, name)
    for s, v in B.res:
        tr = trace(s.ev)
        hs = [(n, Handoff(e)) for n, e in enumerate(tr) if e.k == "icall" and e.d.get("bufs") and "wloc" in e.d]
        if not hs:
            continue
        n, h = hs[-1]
        ctx.count("paths")
        ctx.count("weight lists handed over")
        site = I.where(h.ev.L)

        def src(val, e):
            if not isinstance(val, Poly) or val.single() is None or val.coef((val.single(),)) != 1:
                return None
            i = tm.info(val.single())[0]
            if i[0] != "sel" or not isinstance(i[1], tuple) or i[1][0] != "ai":
                return None
            p = i[1][1]
            ix = i[2] if isinstance(i[2], tuple) else (i[2],)
            if p[0][0] == "g" and p[0][1] in ps and len(ix) == 1 and isinstance(ix[0], Poly):
                return ix[0]
            return None
        base = None
        nw = caller_size(I, s, h.weights)
        if nw is not None:
            base = Part(0, ZERO, nw, None)
        parts, faults = content(I, tr[:n], h.weights, src, base, (h.ev.d["wloc"][0],))
        verdict(ctx, I, "given", name, site, parts, faults, 1, ZERO, [h.n], h.facts, "weights handed over")
        sz = pushed(parts, faults, h.ev.d.get("wsize"))
        if isinstance(sz, Poly) and isinstance(h.n, Poly):
            if entails(h.facts, ge(sub(sz, add(h.n, ONE)))):
                ctx.ok("given", site, "%s: %s places handed over for %s vertices" % (name, sz, h.n))
            elif precise(h.facts, sz, h.n) and plain(sz):
                ctx.bad("given", name + ":size", site, "%s: %s places handed over for %s vertices" % (name, sz, h.n))
            else:
                ctx.skip("given", site, name)


def caller_size(I, s, buf):
    """size of the caller's vector if this is its buffer"""
    if isinstance(buf, Poly) and buf.single() is not None:
        i = tm.info(buf.single())[0]
        if i[0] == "init" and i[1][-1] == "#buf" and i[1][0][0] == "g":
            return I.rd(empty_state(), (i[1][:-1] + ("#size",), ()), "unsigned long")
    return None


# ---- the native constructor

def ctor(ctx, w, cls, nat, name, f):
    lp = list_param(w, nat)[1]
    wf, df = weight_field(w, nat), degree_field(w, nat)

    def stop(g):
        if g["id"] == f["id"]:
            return False
        if g.get("class") == nat.cls and not g.get("ctor"):
            return True
        if g.get("class") == nat.bcls:
            return True
        return not g.get("class") and any(strip(p["t"]).startswith("std::pair<std::vector") for p in g["params"])
    I = interp(w, stop)
    I.cap = 100
    res, thr = run_fn(I, f, empty_state(), this=gl("self"))
    ctx.used(I)
    site = I.where(f["L"])
    name = short(f["q"])
    base = (("g", "self"),)
    fl = Fields(nat)
    n = None
    for p in f["params"]:
        if strip(p["t"]).replace("const ", "") == "unsigned long":
            n = I.rd(empty_state(), gl(p["n"]), "unsigned long")
            break
    if wf is None or not res:
        ctx.skip("loaded", site, name)
        return
    wpath = (("g", lp["n"]), "[]")

    def source(val):
        """index into the list handed over"""
        if not isinstance(val, Poly) or val.single() is None or val.coef((val.single(),)) != 1:
            return None
        i = tm.info(val.single())[0]
        if i[0] == "sel" and isinstance(i[1], tuple) and i[1] == ("ai", wpath):
            ix = i[2] if isinstance(i[2], tuple) else (i[2],)
            return ix[-1]
        return None
    wp, dp, ep, np_ = (vfield(nat, base, x) if x else None for x in (wf, df, fl.elo, fl.N))
    for s, v in res:
        ctx.count("paths")
        tr = trace(s.ev)
        hit = False
        for e in tr:
            if e.k != "loop":
                continue
            rows = [(k, t, st) for k, t, st in e.d["iters"] if k != "throw"]
            if not any(y.k == "store" and y.d["loc"][0] == wp for _, t, _ in rows for y in t):
                continue
            hit = True
            for k, t, st in rows:
                ctx.count("constructor iterations")
                ys = [y for y in t if y.k == "store" and y.d["loc"][0] == wp]
                if not ys:
                    if k == "end" and precise(st.facts):
                        ctx.bad("loaded", name, I.where(e.L), "%s: some vertices are given no weight" % name)
                    continue
                y = ys[-1]
                V = y.d["loc"][1][-1]
                q = source(y.d["val"])
                at = I.where(y.L)
                if isinstance(q, Poly) and same(y.facts, q, V):
                    ctx.ok("loaded", at, "%s: vertex %s is given weight %s" % (name, V, q))
                elif isinstance(y.d["val"], Poly) and precise(y.facts, y.d["val"], V):
                    ctx.bad("loaded", name, at, "%s: vertex %s is given %s" % (name, V, y.d["val"]))
                else:
                    ctx.skip("loaded", at, name)
                covered(ctx, I, name, e, V, n, at)
                degrees(ctx, I, nat, base, fl, name, t, st, V, dp, ep, source, y)
        if not hit:
            ctx.skip("loaded", site, name)


def covered(ctx, I, name, e, V, n, at):
    for h, lo, hi, complete, path in loop_range(e):
        c = sub(V, h).const() if isinstance(V, Poly) else None
        if c is None:
            continue
        fs = e.facts
        if n is None or not complete:
            break
        if entails(fs, ge(sub(ONE, add(lo, num(c))))) and entails(fs, ge(sub(add(hi, num(c)), add(n, ONE)))):
            ctx.ok("loaded", at, "%s: all vertices" % name)
        elif precise(fs, lo, hi):
            ctx.bad("loaded", name + ":all", at, "%s: only vertices from %s to before %s of %s are given a weight" % (name, add(lo, num(c)), add(hi, num(c)), n))
        else:
            break
        return
    ctx.skip("loaded", at, name)


def degrees(ctx, I, nat, base, fl, name, t, st, V, dp, ep, source, yw):
    if dp is None:
        return
    ds = [y for y in t if y.k == "store" and y.d["loc"][0] == dp]
    es = [y for y in t if y.k == "store" and y.d["loc"][0] == ep]
    if not ds or not es:
        ctx.skip("degree", I.where(yw.L), name)
        return
    y = ds[-1]
    at = I.where(y.L)
    if not same(y.facts, y.d["loc"][1][-1], V):
        ctx.bad("degree", name, at, "%s: the degree is stored for vertex %s, the weight for %s" % (name, y.d["loc"][1][-1], V))
        return
    done = False
    for lp in t:
        if lp.k != "loop":
            continue
        for p in lp.d["mod"]:
            H = lp.d["head"].mem.get(p)
            if not isinstance(H, Poly) or H.single() is None:
                continue
            adds = []
            for k, t2, s2 in lp.d["iters"]:
                if k == "end" and isinstance(s2.mem.get(p), Poly):
                    adds.append((sub(s2.mem[p], H), t2, s2))
            if not any(source_in(a, source) is not None for a, _, _ in adds):
                continue
            done = True
            start = lp.d["pre"].mem.get(p)
            final = y.d["val"]
            if isinstance(final, Poly) and precise(y.facts, final) and (source(final) is not None or final.const() is not None):
                ctx.bad("degree", name, at, "%s: the degree stored is %s" % (name, final))
                return
            if isinstance(start, Poly) and start == ZERO:
                ctx.ok("degree", I.where(lp.L), "%s: the sum starts at 0 for each vertex" % name)
            elif isinstance(start, Poly) and precise(lp.facts, start):
                ctx.bad("degree", name + ":start", I.where(lp.L), "%s: the sum starts at %s" % (name, start))
            else:
                ctx.skip("degree", I.where(lp.L), name)
            elo = es[-1].d["val"]
            R = loop_range(lp)
            steps = scalar_steps(lp)
            for a, t2, s2 in adds:
                ctx.count("degree sums")
                q = source_in(a, source)
                w2 = I.where(lp.L)
                if q is None:
                    if a == ZERO and self_only(I, nat, base, lp, s2, V):
                        ctx.ok("degree", w2, "%s: the vertex itself is left out" % name)
                    elif precise(s2.facts, a):
                        ctx.bad("degree", name, w2, "%s: adds %s for a listed vertex" % (name, a))
                    else:
                        ctx.skip("degree", w2, name)
                    continue
                P = listed_place(I, q, nat)
                hs = [(h, v0) for pp, (h, v0, d) in steps.items() if d == 1 and P is not None and sub(P, h).const() is None and h.single() in P.atoms() or
                      d == 1 and P is not None and sub(P, h).const() is not None]
                ok = False
                for h, v0 in hs:
                    if isinstance(v0, Poly) and isinstance(elo, Poly) and same(s2.facts, add(sub(P, h), v0), elo):
                        ok = True
                if ok:
                    ctx.ok("degree", w2, "%s: adds the weight of listed vertex %s" % (name, q))
                elif P is None and precise(s2.facts, q):
                    ctx.bad("degree", name, w2, "%s: adds the weight of %s for a listed vertex" % (name, q))
                elif hs and precise(s2.facts, q, elo):
                    ctx.bad("degree", name, w2, "%s: adds the weight of %s, the list of the vertex starts at %s" % (name, q, elo))
                else:
                    ctx.skip("degree", w2, name)
    if not done:
        if isinstance(y.d["val"], Poly) and precise(y.facts, y.d["val"]):
            ctx.bad("degree", name, at, "%s: the degree stored, %s, is not a sum of weights" % (name, y.d["val"]))
        else:
            ctx.skip("degree", at, name)


def source_in(a, source):
    return source(a) if isinstance(a, Poly) else None


def listed_place(I, q, nat):
    """index into the neighbour list if q is an element of it"""
    a = q.single() if isinstance(q, Poly) else None
    if a is None:
        return None
    i = tm.info(a)[0]
    if i[0] != "sel":
        return None
    ix = i[2] if isinstance(i[2], tuple) else (i[2],)
    return ix[-1] if isinstance(ix[-1], Poly) else None


def self_only(I, nat, base, lp, st, V):
    return any(c[0] == "eq" and V.single() is not None and V.single() in c[1].atoms() for c in st.facts.all() if len(c) > 1 and isinstance(c[1], Poly))


# ---- queries

def native_run(ctx, w, cls, nat, f):
    def stop(g):
        return g.get("class") == nat.cls and bool(g.get("ctor"))
    I = interp(w, stop)
    I.cap = 200
    res, thr = run_fn(I, f, empty_state(), this=gl("self"))
    ctx.used(I)
    base = (("g", "self"), "." + w.handle(cls)[0], "#p", "*")
    return I, res, base


def weight_of(I, w, nat, base, val):
    """vertex whose weight this is"""
    if not isinstance(val, Poly) or val.single() is None or val.coef((val.single(),)) != 1:
        return None
    i = tm.info(val.single())[0]
    if i[0] != "sel":
        return None
    ix = i[2] if isinstance(i[2], tuple) else (i[2],)
    if isinstance(ix[-1], Poly) and I.rd(empty_state(), (vfield(nat, base, weight_field(w, nat)), (ix[-1],)), "double") == val:
        return ix[-1]
    return None


def sizes(I, w, cls, nat, base):
    """terms that stand for one more than the number of vertices"""
    st = empty_state()
    out = [I.rd(st, (base + ("." + nat.vec, "#size"), ()), "unsigned long")]
    nv = w.prop(cls, "n_vertices")
    if nv:
        out.append(add(I.rd(st, ((("g", "self"), "." + nv), ()), "unsigned long"), ONE))
    for n, t in nat.fields.items():
        if strip(t) == "unsigned long" and n in set(nat.fields) and "vert" in n:
            out.append(I.rd(st, (base + ("." + n,), ()), "unsigned long"))
    return out


def listed(ctx, w, cls, nat, name, f):
    I, res, base = native_run(ctx, w, cls, nat, f)
    site = I.where(f["L"])
    if not res:
        ctx.skip("reported", site, name)
    for s, v in res:
        ctx.count("paths")
        if not (isinstance(v, tuple) and v and v[0] == "obj"):
            ctx.skip("reported", site, name)
            continue
        l = I.resolve(s, v[1])
        buf = I.vbuf(s, l)
        his = sizes(I, w, cls, nat, base)
        parts, faults = content(I, trace(s.ev), buf, lambda x, e: weight_of(I, w, nat, base, x), also=(l[0],))
        verdict(ctx, I, "reported", name, site, parts, faults, -1, ONE, his, s.facts, "weights reported")
        n = pushed(parts, faults, I.vsize(s, l))
        if any(same(s.facts, n, sub(h, ONE)) for h in his):
            ctx.ok("reported", site, "%s: %s weights" % (name, n))
        elif isinstance(n, Poly) and precise(s.facts, n) and plain(n):
            ctx.bad("reported", name + ":size", site, "%s: reports %s weights" % (name, n))
        else:
            ctx.skip("reported", site, name)


def query(ctx, w, cls, nat, name, f):
    I, res, base = native_run(ctx, w, cls, nat, f)
    site = I.where(f["L"])
    V = I.rd(empty_state(), gl(f["params"][0]["n"]), "unsigned long")
    for s, v in res:
        ctx.count("paths")
        got = None
        if isinstance(v, tuple) and v and v[0] == "obj":
            l = I.resolve(s, v[1])
            got = I.rd(s, (l[0] + (".first",), l[1]), "double")
        x = weight_of(I, w, nat, base, got)
        if x is not None and same(s.facts, x, V):
            ctx.ok("reported", site, "%s: the weight of the vertex asked for" % name)
        elif isinstance(got, Poly) and precise(s.facts, got):
            ctx.bad("reported", name, site, "%s: gives %s for vertex %s" % (name, got, V))
        else:
            ctx.skip("reported", site, name)


def clique(ctx, w, cls, nat, name, f):
    I, res, base = native_run(ctx, w, cls, nat, f)
    site = I.where(f["L"])
    pn = f["params"][0]["n"]
    his = sizes(I, w, cls, nat, base)
    for s, v in res:
        ctx.count("paths")
        if not isinstance(v, Poly):
            ctx.skip("reported", site, name)
            continue
        done = False
        for e in trace(s.ev):
            if e.k != "loop":
                continue
            for p in e.d["mod"]:
                H = e.d["head"].mem.get(p)
                if not isinstance(H, Poly) or H.single() is None:
                    continue
                rows = [(sub(s2.mem[p], H), t, s2, k) for k, t, s2 in e.d["iters"] if k in ("end", "break") and isinstance(s2.mem.get(p), Poly)]
                if not any(weight_of(I, w, nat, base, a) is not None for a, _, _, _ in rows):
                    continue
                done = True
                at = I.where(e.L)
                start = e.d["pre"].mem.get(p)
                if isinstance(start, Poly) and start == ZERO:
                    ctx.ok("reported", at, "%s: the sum starts at 0" % name)
                elif isinstance(start, Poly) and precise(e.facts, start):
                    ctx.bad("reported", name + ":start", at, "%s: the sum starts at %s" % (name, start))
                for a, t, s2, k in rows:
                    ctx.count("clique sums")
                    el = member(I, t, pn)
                    x = weight_of(I, w, nat, base, a)
                    if el is None:
                        ctx.skip("reported", at, name)
                    elif x is not None and same(s2.facts, x, el):
                        ctx.ok("reported", at, "%s: adds the weight of the member" % name)
                    elif a == ZERO and any(entails(s2.facts, ge(sub(el, h))) for h in his):
                        ctx.ok("reported", at, "%s: a number that is no vertex adds nothing" % name)
                    elif a == ZERO and k == "break":
                        pass
                    elif a == ZERO and entails(s2.facts, eq(el)):
                        ctx.ok("reported", at, "%s: the unused 0 adds nothing" % name)
                    elif precise(s2.facts, a, el):
                        ctx.bad("reported", name, at, "%s: adds %s for member %s" % (name, a, el))
                    else:
                        ctx.skip("reported", at, name)
                for h, lo, hi, complete, path in loop_range(e):
                    n = I.rd(empty_state(), ((("g", pn), "#size"), ()), "unsigned long")
                    if not any(h.single() in deep_atoms(member(I, t, pn), set()) for _, t, _, _ in rows if member(I, t, pn) is not None):
                        continue
                    if entails(e.facts, ge(sub(ZERO, lo))) and entails(e.facts, ge(sub(hi, n))):
                        ctx.ok("reported", at, "%s: all members" % name)
                    elif precise(e.facts, lo, hi):
                        ctx.bad("reported", name + ":all", at, "%s: only members from %s to before %s of %s" % (name, lo, hi, n))
                if any(k == "break" for _, _, _, k in rows):
                    ctx.skip("reported", at, name)
        if not done:
            if v.const() is not None and s.facts and any("#size" in tm.show_cond(c) for c in s.facts.all()):
                continue
            if precise(s.facts, v):
                ctx.bad("reported", name, site, "%s: returns %s" % (name, v))
            else:
                ctx.skip("reported", site, name)


def member(I, t, pn):
    """the member of the list an iteration is about"""
    for y in t:
        if y.k == "elem":
            l = y.d["seq"]
            q = l[1] if isinstance(l, tuple) and l and l[0] in ("ref", "obj", "loc") else l
            i = y.d["idx"]
            if isinstance(i, Poly):
                return I.rd(empty_state(), ((("g", pn), "[]"), (i,)), "unsigned long")
        if y.k == "access" and y.d["vec"][0][0][-1] == pn:
            return I.rd(empty_state(), ((("g", pn), "[]"), (y.d["idx"],)), "unsigned long")
    return None


# ---- searches

def search(ctx, w, cls, nat, op, f):
    I, res, thr = op.run(f)
    ctx.used(I)
    ctx.count("search methods")
    gp = op.graph_param(f)
    base = (("g", gp),)
    fl = Fields(nat)
    name = short(f["q"])
    tables = {q["n"] for c in op.lineage() for q in w.recs[c]["fields"] if is_vec(strip(q["t"])) and strip(targs(strip(q["t"]))[0]) == "double"}
    A = Around(ctx, I, w, nat, base, fl, name, tables, op)
    for s, v in res:
        A.level(trace(s.ev), s, ())
    for t in thr:
        A.level(trace(t.st.ev), t.st, ())
    A.finish()


class Around:
    def __init__(self, ctx, I, w, nat, base, fl, name, tables, op):
        self.ctx, self.I, self.w, self.nat, self.base, self.fl, self.name, self.tables, self.op = ctx, I, w, nat, base, fl, name, tables, op
        self.seen = set()
        self.loops, self.groups = [], {}
        self.told, self.loop_at = {}, {}

    def say(self, how, rule, key, site, what):
        """one verdict per site and text"""
        k = (rule, site, what if how != "bad" else "bad")
        if k in self.told:
            return
        self.told[k] = how
        if how == "bad":
            self.ctx.bad(rule, key, site, what)
        elif how == "ok":
            self.ctx.ok(rule, site, what)
        else:
            self.ctx.skip(rule, site, what)

    def table_of(self, l):
        """table field of a location of one of its elements"""
        p = l[0]
        if len(p) >= 2 and p[-1] == "[]" and isinstance(p[-2], str) and p[-2][1:] in self.tables and p[0] == ("g", "self"):
            return p[-2][1:]
        return None

    def at_hand(self, t, st):
        """places dealt with on this level: [(place or None, vertex or None)], strongest first"""
        strong, weak = [], []
        for y in t:
            if y.k == "bits" and y.d["op"] in ("set", "reset") and y.d["args"] and isinstance(y.d["args"][0], Poly):
                strong.append(y.d["args"][0])
            elif y.k == "push" and isinstance(y.d["val"], Poly):
                strong.append(y.d["val"])
            elif y.k == "bits" and y.d["op"] == "operator[]" and y.d["args"] and isinstance(y.d["args"][0], Poly):
                weak.append(("place", y.d["args"][0]))
            elif y.k == "find":
                for a in y.d["args"]:
                    if isinstance(a, Poly):
                        weak.append(("vertex", a))
        return [("place", p) for p in strong], weak

    def else_(self, V, heads):
        """a counter of places, or what a loop left in a variable: surely not the vertex at a known place"""
        a = V.single()
        if a is None:
            return False
        i = tm.info(a)[0]
        return i[0] in ("init", "sel") or i[0] == "sym" and (a in heads or str(i[1]).startswith("j:"))

    def fits(self, st, facts, V, X, hand, heads=()):
        """does the weight of vertex V (or of place X) belong to one of these?"""
        unsure = False
        for k, p in hand:
            if X is not None:
                if k == "place" and same(facts, X, p):
                    return True
                if k == "vertex" and any(same(facts, r, X) for o, r in site_of(self.I, st, self.nat, self.base, self.fl, p)):
                    return True
            if V is not None:
                if k == "vertex" and same(facts, V, p):
                    return True
                if k == "place":
                    r = place(self.I, st, self.nat, self.base, self.fl, V, p)
                    if r:
                        return True
                    if r is None:
                        sp = self.I.rd(st, (vfield(self.nat, self.base, self.fl.spos), (V,)), "unsigned long")
                        if same(facts, sp, p):
                            return True
                        if not self.else_(V, heads):
                            unsure = True
        return None if unsure else False

    def weights_in(self, val, st, looked):
        """[(coefficient, vertex or None, place or None, atom)] for the weights in a sum"""
        out = []
        for a in val.atoms():
            c = val.coef((a,))
            if c == 0:
                continue
            i = tm.info(a)[0]
            if i[0] != "sel":
                continue
            ix = i[2] if isinstance(i[2], tuple) else (i[2],)
            if not isinstance(ix[-1], Poly):
                continue
            at = Poly((((a,), 1),))
            if weight_of(self.I, self.w, self.nat, self.base, at) is not None:
                out.append((c, ix[-1], None, a))
            elif len(ix) == 1 and any(ix[0] == x for x in looked) and tm.info(a)[1] == "f":
                out.append((c, None, ix[-1], a))
        return out

    def lookups(self, t):
        """places of the tables that this level looks at"""
        return [y.d["idx"] for y in t if y.k == "access" and y.d["vec"][0][0] == ("g", "self") and isinstance(y.d["vec"][0][-1], str) and y.d["vec"][0][-1][1:] in self.tables]

    def level(self, t, st, up):
        """one straight piece of code; up: the levels around it, innermost first"""
        strong, weak = self.at_hand(t, st)
        # what an iteration sets, resets or lists decides; what it only tests counts if there is nothing else
        hand = strong or weak
        chain = [hand] + [h for h, _ in up]
        self.fill(t, st, strong)
        es = tuple(y for y in t if y.k == "loop")
        self.groups[tuple(id(y) for y in es)] = es
        for y in t:
            if y.k == "loop":
                if id(y) in self.seen:
                    continue
                self.seen.add(id(y))
                self.loops.append((y, up))
                for kind, t2, s2 in y.d["iters"]:
                    self.loop_at[id(t2)] = y
                    self.level(t2, s2, ((hand, t),) + up)
            elif y.k in ("store", "init") and isinstance(y.d.get("val"), Poly):
                self.sums(y, t, st, hand, chain, up)
            elif y.k == "access" and y.d["vec"][0][-1][1:] in self.tables and y.d["vec"][0][0] == ("g", "self"):
                self.looked_up(y, t, st, chain)

    def fill(self, t, st, strong):
        """table entries"""
        I = self.I
        for y in t:
            if y.k not in ("store", "push"):
                continue
            tb = self.table_of(y.d["loc"]) if y.k == "store" else \
                (y.d["loc"][0][-1][1:] if isinstance(y.d["loc"][0][-1], str) and y.d["loc"][0][-1][1:] in self.tables else None)
            if tb is None:
                continue
            at = I.where(y.L)
            self.ctx.count("table entries")
            P = y.d["loc"][1][-1] if y.k == "store" else y.d["idx"]
            V = weight_of(I, self.w, self.nat, self.base, y.d["val"])
            if V is None:
                if isinstance(y.d["val"], Poly) and y.d["val"].const() is not None and not strong:
                    continue        # cleared
                how = "bad" if isinstance(y.d["val"], Poly) and precise(y.facts, y.d["val"]) else "skip"
                self.say(how, "table", self.name, at, "%s: place %s of the table gets %s" % (self.name, P, y.d["val"]))
                continue
            r = place(I, st, self.nat, self.base, self.fl, V, P)
            if r is None and any(same(y.facts, I.rd(st, (vfield(self.nat, self.base, self.fl.spos), (V,)), "unsigned long"), P) for _ in (0,)):
                r = True
            if r:
                self.say("ok", "table", self.name, at, "%s: place %s of the table gets the weight of the vertex there" % (self.name, P))
            elif precise(y.facts, P, V):
                self.say("bad", "table", self.name, at, "%s: place %s of the table gets the weight of %s" % (self.name, P, V))
            else:
                self.say("skip", "table", self.name, at, self.name)

    def looked_up(self, y, t, st, chain):
        """an entry of the table used in a condition or a sum"""
        stores = [z for z in t if z.k == "store" and self.table_of(z.d["loc"]) and z.L == y.L and z.d["loc"][1][-1] == y.d["idx"]]
        if stores:
            return
        self.ctx.count("table look-ups")
        X = y.d["idx"]
        at = self.I.where(y.L)
        for hand in chain:
            r = self.fits(st, y.facts, None, X, hand)
            if r:
                self.say("ok", "used", self.name, at, "%s: the weight at place %s" % (self.name, X))
                return
        if isinstance(X, Poly) and precise(y.facts, X) and any(chain):
            self.say("bad", "used", self.name, at, "%s: looks up the weight at place %s, which is not the one being dealt with" % (self.name, X))
        else:
            self.say("skip", "used", self.name, at, self.name)

    def sums(self, y, t, st, hand, chain, up):
        val, old = y.d["val"], y.d.get("old")
        if y.k == "store" and self.table_of(y.d["loc"]):
            return
        ws = self.weights_in(val, st, self.lookups(t))
        if not ws:
            return
        prev = self.before(y, t, st)
        grows = isinstance(prev, Poly) and prev.single() is not None and prev.single() in val.atoms()
        at = self.I.where(y.L)
        for c, V, X, a in ws:
            if isinstance(prev, Poly) and a in prev.atoms():
                continue
            self.ctx.count("weights in sums")
            what = "the weight %s %s" % ("of" if V is not None else "at place", V if V is not None else X)
            own = V is not None and self.is_root(V, st) and not any(chain)
            heads = {h.single() for e in (self.loop_at.get(id(t)),) if e is not None for h, _, _ in scalar_steps(e).values()}
            ok = False
            if grows:
                r = self.fits(st, y.facts, V, X, hand, heads)
                ok = r is True or (not up and own)
            else:
                r = None
                for h in chain:
                    r = self.fits(st, y.facts, V, X, h, heads)
                    if r:
                        break
                ok = r is True or own
                if ok and X is not None and up:
                    # the same sum made again inside a loop is about the same place
                    outer = [x for z in up[0][1] if z.k == "store" and z.d["loc"] == y.d["loc"] and isinstance(z.d.get("val"), Poly)
                             for _, _, x, _ in self.weights_in(z.d["val"], st, self.lookups(up[0][1])) if x is not None]
                    if len(outer) == 1 and len([z for z in ws if z[2] is not None]) == 1 and not same(y.facts, outer[0], X):
                        ok, r = False, False
            if ok:
                self.say("ok", "used", self.name, at, "%s: %s" % (self.name, what))
            elif precise(y.facts, V if V is not None else X) and (r is False or hand == []) and any(chain):
                self.say("bad", "used", self.name, at, "%s: adds %s, which is not the vertex being dealt with" % (self.name, what))
            else:
                self.say("skip", "used", self.name, at, self.name)

    def is_root(self, V, st):
        """the vertex the method is about: a parameter or member that says whose list is searched"""
        a = V.single()
        return a is not None and (tm.info(a)[0][0] in ("init", "sym"))

    def before(self, y, t, st):
        """value of the stored variable just before"""
        if isinstance(y.d.get("old"), Poly):
            return y.d["old"]
        loc = y.d["loc"]
        prev = None
        for z in t:
            if z is y:
                return prev if prev is not None else self.entry(loc, t)
            if z.k in ("store", "init") and z.d["loc"] == loc and isinstance(z.d.get("val"), Poly):
                prev = z.d["val"]
        return prev

    def entry(self, loc, t):
        for e, up in self.loops:
            for kind, t2, s2 in e.d["iters"]:
                if t2 is t:
                    return e.d["head"].mem.get(loc[0])
        return None

    def finish(self):
        """iterations that do the same to a candidate must treat the sums the same"""
        I = self.I
        for es in self.groups.values():
            rows = []
            for e in es:
                for kind, t, st in e.d["iters"]:
                    if kind != "end":
                        continue
                    mv = self.moves(I, t, st)
                    if mv is None or len(mv[1]) > 1:
                        continue
                    rows.append((e, t, st, mv[0], self.changes(e, t, st)))
            if not rows:
                continue
            for key in {r[3] for r in rows}:
                mine = [r for r in rows if r[3] == key]
                cols = {p for r in mine for p in r[4]}
                for p in sorted(cols, key=str):
                    ds = [(r, r[4].get(p)) for r in mine if p in [q for q in r[0].d["mod"]] or len(es) > 1 or p in r[4]]
                    kinds = {d for _, d in ds}
                    nm = str(p[-1] if isinstance(p[-1], str) else p[-1][-1]).lstrip(".")
                    for r, d in ds:
                        site = I.where(r[0].L)
                        what = "%s: %s changes by %s weight for each that is %s" % (self.name, nm, {1: "its", -1: "minus its", None: "no"}.get(d, str(d)), key or "kept")
                        if len(kinds) == 1:
                            self.say("ok", "alike", self.name, site, what)
                        elif d is None and precise(r[2].facts):
                            self.say("bad", "alike", "%s:%s" % (self.name, nm), site, "%s: %s is left as it was for some that are %s, but not for others" % (self.name, nm, key or "kept"))
                        elif d is None:
                            self.say("skip", "alike", self.name, site, self.name)
                        elif len({x for x in kinds if x is not None}) > 1:
                            self.say("bad", "alike", "%s:%s" % (self.name, nm), site, what + ", but not for all")

    def moves(self, I, t, st):
        """what an iteration does to the place it is about: (words, places)"""
        words, places = set(), []
        for y in t:
            if y.k == "loop":
                return None
            if y.k == "bits" and y.d["op"] in ("set", "reset") and y.d["args"]:
                words.add(y.d["op"])
                p = y.d["args"][0]
            elif y.k == "push" and isinstance(y.d["val"], Poly):
                words.add("dropped")
                p = y.d["val"]
            else:
                continue
            if not any(same(st.facts, p, q) for q in places):
                places.append(p)
        return " and ".join(sorted(words)), places

    def changes(self, e, t, st):
        """scalars changed by one weight: path -> coefficient; tables filled: path -> 'entry'"""
        out = {}
        H = e.d["head"]
        for p in e.d["mod"]:
            h, v = H.mem.get(p), st.mem.get(p)
            if isinstance(h, Poly) and isinstance(v, Poly) and h.single() is not None and h != v:
                d = sub(v, h)
                ws = self.weights_in(d, st, self.lookups(t))
                if len(ws) == 1 and len(d.m) == 1:
                    out[p] = ws[0][0]
        for y in t:
            if y.k == "store" and self.table_of(y.d["loc"]):
                out[y.d["loc"][0]] = "an entry of"
        return out


# ---- bounds kept by the graph itself

def bounds(ctx, w, cls, nat, name, f):
    finders = nat.finders()

    def stop(g):
        return g["id"] != f["id"] and (g.get("class") == nat.bcls or g["id"] in finders)
    I = interp(w, stop)
    I.cap = 400
    res, thr = run_fn(I, f, empty_state(), this=gl("self"))
    ctx.used(I)
    base = (("g", "self"),)
    fl = Fields(nat)
    seen = set()

    def rec(tr, up):
        for e in tr:
            if e.k != "loop" or id(e) in seen:
                continue
            seen.add(id(e))
            for kind, t, st in e.d["iters"]:
                for y in t:
                    if y.k == "store" and isinstance(y.d["val"], Poly) and len(y.d["loc"][0]) >= 1:
                        h = e.d["head"].mem.get(y.d["loc"][0])
                        if not isinstance(h, Poly) or h.single() is None or h.single() not in y.d["val"].atoms():
                            continue
                        d = sub(y.d["val"], h)
                        V = weight_of(I, w, nat, base, d)
                        if V is None:
                            continue
                        ctx.count("weights in bounds")
                        at = I.where(y.L)
                        hs = {h2.single() for h2, _, _ in scalar_steps(e).values()}
                        so = site_of(I, st, nat, base, fl, V)
                        if any(hs & set(r.atoms()) for o, r in so) or any(V.single() in hs for _ in (0,)):
                            ctx.ok("used", at, "%s: adds the weight of %s" % (name, V))
                        elif precise(y.facts, V):
                            ctx.bad("used", name, at, "%s: adds the weight of %s for every vertex listed" % (name, V))
                        else:
                            ctx.skip("used", at, name)
                rec(t, up + (e,))
    for s, v in res:
        rec(trace(s.ev), ())
