from .ops import *

TECHNIQUE = "static analysis: abstract interpretation of the searches and bound computations (clang AST); the path condition of every " \
            "loop iteration that takes or passes over a neighbour is compared with the ordering rule"
EXPLAIN = ("Every method of the search classes and of the native graph classes that walks a vertex's neighbour list is interpreted "
           "with symbolic graphs. In each loop iteration a neighbour is either taken (its bit set, a count raised) or passed over. "
           "The facts on the path must give, for neighbours listed before the vertex itself, taken exactly if its degree is greater, "
           "and for those after it, taken exactly if its degree is greater or equal. The loops together must cover the whole list.")


def run(ctx, prog):
    w = World(prog)
    nats = natives(w)
    ctx.rule("taken", "a neighbour is taken only if the ordering rule makes this vertex its root")
    ctx.rule("passed", "a neighbour is passed over only if the ordering rule makes it the root")
    ctx.rule("cover", "the loops go through the whole neighbour list")
    ctx.rule("count", "counts of the candidates start anew for each vertex and go up alike for each one taken")
    ctx.rule("self", "the vertex itself counts exactly once in the bounds and is never its own candidate")
    ctx.rule("same", "all searches and bounds of a graph class order by the same quantity")
    ctx.rule("bound", "the bound stored for a vertex is the count made for it")
    items = [(o.nat, o, f) for o in operators(w, nats) for f in o.units]
    for nat in nats.values():
        for f in w.fns.values():
            if f.get("class") == nat.cls and f.get("body") and not f.get("ctor") and fields_written(f) and nested(f["body"]):
                items.append((nat, None, f))
    if not items:
        ctx.skip("taken", "", "no search found")
        return
    pmap(ctx, items, lambda c, it: one(c, w, *it))
    keys = {}
    for o in ctx.obl:
        if o["rule"] == "same":
            cls, k = o["what"].split(" orders by ")
            keys.setdefault(cls.split(":")[0], {}).setdefault(k, []).append(o)
    for cls, ks in keys.items():
        if len(ks) > 1:
            k = min(ks, key=lambda k: len(ks[k]))
            for o in ks[k]:
                ctx.obl.remove(o)
                ctx.bad("same", o["what"], o["site"], "%s; the others by %s" % (o["what"], ", ".join(x for x in ks if x != k)))
    ctx.assume += ["neighbour lists are sorted and contain the vertex itself at its recorded position (C05, C19)"]


def nested(n, d=0):
    if isinstance(n, dict):
        k = n.get("s") in ("for", "while", "do", "rfor")
        if k and d:
            return True
        return any(nested(v, d + k) for v in n.values())
    return isinstance(n, list) and any(nested(v, d) for v in n)


def all_loops(tr, seen=None):
    seen = {} if seen is None else seen
    for e in tr:
        if e.k == "loop" and id(e) not in seen:
            seen[id(e)] = e
            for kind, t, s in e.d["iters"]:
                all_loops(t, seen)
    return list(seen.values())


def one(ctx, w, nat, op, f):
    if op is not None:
        I, res, thr = op.run(f)
        gp = op.graph_param(f)
        base = (("g", gp),)
    else:
        I = interp(w, lambda g: g["id"] != f["id"] and g.get("class") == nat.bcls)
        I.cap = 400
        res, thr = run_fn(I, f, empty_state())
        base = (("g", "self"),)
    ctx.used(I)
    ctx.count("methods analysed")
    name = short(f["q"])
    groups = {}
    for s, _ in res:
        for e in all_loops(trace(s.ev)):
            g = look(I, nat, base, e)
            if g:
                groups.setdefault(tuple(e.L), []).append(g)
    if not groups:
        return
    n = len({str(L) for L in groups})
    ctx.count("loops over neighbour lists", n)
    judge(ctx, I, nat, op, name, groups, f)
    if op is None:
        bound(ctx, I, nat, base, name, res, groups)


class Look:
    pass


def field_path(nat, base, f):
    return base + ("." + nat.vec, "[]", "." + f)


def look(I, nat, base, e):
    """does this loop choose among the neighbours of a vertex?"""
    H = e.d["head"]
    steps = scalar_steps(e)
    lists = [base + ("." + n, "[]") for n in nat.words]
    best = None
    for kind, t, st in e.d["iters"]:
        for x in t:
            if x.k in ("index", "access") and x.d["loc"][0] in lists:
                ix = x.d["loc"][1][-1]
                for p, (h, v0, step) in steps.items():
                    if step != 1:
                        continue
                    r = sub(ix, h)
                    if r.single() is None:
                        continue
                    i = tm.info(r.single())[0]
                    if i[0] == "sel":
                        best = (p, h, v0, ix, i[2][-1] if isinstance(i[2], tuple) else i[2], x.d["loc"][0])
    if best is None:
        return None
    G = Look()
    G.e, (G.path, G.j, G.first, ix, G.cur, G.list) = e, best
    G.vert = I.rd(H, (G.list, (ix,)), "unsigned long")
    # taken: bit set; counts raised
    G.iters = []
    sets = False
    for kind, t, st in e.d["iters"]:
        b = [x for x in t if x.k == "bits" and x.d["args"] and isinstance(x.d["args"][0], Poly) and G.j.single() in x.d["args"][0].atoms()]
        if any(x.d["op"] in ("operator[]", "reset", "next", "flip") for x in b):
            return None
        mine = [x for x in b if x.d["op"] == "set" and x.d["args"][0] == G.j]
        sets |= bool(mine)
        G.iters.append((kind, t, st, bool(mine)))
    acc = {}
    for p in e.d["mod"]:
        h = H.mem.get(p)
        if p == G.path or not isinstance(h, Poly) or h.single() is None or not isinstance(p[-1], str) and len(p) != 1:
            continue
        ds = []
        for kind, t, st, m in G.iters:
            v = st.mem.get(p)
            d = sub(v, h) if isinstance(v, Poly) else None
            if d is None or h.single() in d.atoms():
                ds = None
                break
            ds.append(d)
        if ds and any(d != ZERO for d in ds):
            acc[p] = ds
    G.acc = acc
    G.sets = sets
    if not sets and not acc:
        return None
    return G


def cond_of(d):
    """Δ of a count as (condition, amount); None if unconditional"""
    if d.single() is not None:
        i = tm.info(d.single())[0]
        if i[0] == "b2i":
            return i[1]
    return None


def decide(I, nat, base, G, fld, st, taken, cond=None):
    """None: cannot tell; True/False per case of the position of the neighbour"""
    H = G.e.d["head"]
    key = lambda v: I.rd(H, (field_path(nat, base, fld), (v,)), nat_type(I, nat, fld))
    kv, kc = key(G.vert), key(G.cur)
    spos = I.rd(H, (field_path(nat, base, nat.spos), (G.cur,)), "unsigned long")
    out = []
    fs0 = st.facts
    if cond is not None:
        fs0 = fs0.add(cond)
    real = nat_type(I, nat, fld) == "double"
    for name, c in (("before", gt(sub(spos, G.j))), ("after", gt(sub(G.j, spos))), ("self", eq(sub(G.j, spos)))):
        fs = fs0.add(c)
        if entails(fs, F) or tm.contradictory(fs) or entails(fs0, tm.negate(c)):
            continue
        d = sub(kv, kc)
        if name == "self":
            # the vertex itself stands at its own position, so the two are equal
            if not any(entails(fs, c) for c in (gt(d), gt(neg(d)), ne(d))):
                out.append((name, None))
            continue
        if taken:
            want = gt(d) if name == "before" else ge(d)
        else:
            want = ge(neg(d)) if name == "before" else gt(neg(d))
        out.append((name, entails(fs, want), precise(fs, kv, kc)))
    return out


def nat_type(I, nat, fld):
    for f in I.recs[nat.vcls]["fields"]:
        if f["n"] == fld:
            return strip(f["t"])
    return "unsigned long"


def judge(ctx, I, nat, op, name, groups, f):
    base = None
    nat.spos = position_field(nat)
    num_fields = [g["n"] for g in I.recs[nat.vcls]["fields"] if strip(g["t"]) in ("unsigned long", "double") and g["n"] != nat.spos]
    # which quantity
    score = {}
    all_res = {}
    for L, gs in groups.items():
        for G in gs:
            base = G.list[:-2]
            for fld in num_fields:
                for what, ds in [("bit", None)] * G.sets + list(G.acc.items()):
                    r = []
                    for k, (kind, t, st, mine) in enumerate(G.iters):
                        if kind != "end":
                            continue
                        if what == "bit":
                            r.append((mine, decide(I, nat, base, G, fld, st, mine)))
                        else:
                            c = cond_of(ds[k])
                            if c is not None:
                                r.append((True, decide(I, nat, base, G, fld, st, True, c)))
                                r.append((False, decide(I, nat, base, G, fld, st, False, tm.negate(c))))
                            else:
                                r.append((ds[k] != ZERO, decide(I, nat, base, G, fld, st, ds[k] != ZERO)))
                    all_res[(L, id(G), what, fld)] = r
                    score[(what if what != "bit" else "bit", fld)] = score.get((what, fld), 0) + sum(1 for tk, d in r for x in d if x[1])
    whats = {k[2] for k in all_res}
    for what in whats:
        fld = max(num_fields, key=lambda n: score.get((what, n), 0))
        if not score.get((what, fld)):
            for L, gs in groups.items():
                ctx.skip("taken", I.where(gs[0].e.L), "%s: choice of neighbours is not by a quantity of the vertices" % name)
            continue
        wn = "candidates" if what == "bit" else pname(what)
        site0 = I.where(f["L"])
        if what == "bit" or op is not None:
            ctx.ok("same", site0, "%s: %s in %s orders by %s" % (nat.cls.split("::")[-1], wn, name, fld))
        selfs = set()
        for (L, gid, wh, fl), r in all_res.items():
            if wh != what or fl != fld:
                continue
            G = [g for g in groups[L] if id(g) == gid][0]
            site = I.where(G.e.L)
            for taken, ds in r:
                for d in ds:
                    if d[0] == "self":
                        selfs.add(taken)
                        continue
                    rule = "taken" if taken else "passed"
                    if d[1]:
                        ctx.ok(rule, site, "%s: %s, neighbour listed %s the vertex" % (name, wn, d[0]))
                    elif d[2]:
                        ctx.bad(rule, "%s:%s:%s" % (name, wn, d[0]), site, "%s: for %s a neighbour listed %s the vertex is %s against the rule by %s" %
                                (name, wn, d[0], "taken" if taken else "passed over", fld))
                    else:
                        ctx.skip(rule, site, "%s: %s" % (name, wn))
        cover(ctx, I, nat, base, name, wn, groups, f, what)
        own(ctx, I, nat, base, op, name, wn, what, groups, selfs, f)


def pname(p):
    x = p[-1]
    return x[-1] if isinstance(x, tuple) else x.lstrip(".")


def position_field(nat):
    """field of a vertex giving its own place in its list"""
    rec = nat.w.recs[nat.vcls]
    names = [g["n"] for g in rec["fields"] if strip(g["t"]) == "unsigned long"]
    return "spos" if "spos" in names else (names[1] if len(names) > 1 else names[0])


def cover(ctx, I, nat, base, name, wn, groups, f, what):
    lo = hi = None
    site = I.where(f["L"])
    rs = []
    for L, gs in groups.items():
        for G in gs:
            if what != "bit" and what not in G.acc:
                continue
            if what == "bit" and not G.sets:
                continue
            r = [r for r in loop_range(G.e) if r[4] == G.path]
            H = G.e.d["head"]
            spos = I.rd(H, (field_path(nat, base, nat.spos), (G.cur,)), "unsigned long")
            N = I.rd(H, (field_path(nat, base, size_field(nat)), (G.cur,)), "unsigned long")
            if not r:
                ctx.skip("cover", I.where(G.e.L), "%s: range of the loop" % name)
                return
            h, v0, top, complete, p = r[0]
            fs = H.facts
            pre = G.e.d["pre"].facts.add(gt(sub(N, spos)))
            rs.append((G, v0, top, complete, spos, N, fs, pre))
    ok = {"before": False, "after": False}
    known = True
    txt = []
    for G, v0, top, complete, spos, N, fs, pre in rs:
        txt.append("%s to %s" % (v0, top))
        known &= precise(pre, v0, top)
        if not complete:
            continue
        if entails(pre, ge(neg(v0))) and entails(pre, ge(sub(top, spos))):
            ok["before"] = True
        if entails(pre, ge(sub(add(spos, ONE), v0))) and entails(pre, ge(sub(top, N))):
            ok["after"] = True
    for k, v in ok.items():
        if v:
            ctx.ok("cover", site, "%s: %s, all neighbours listed %s the vertex" % (name, wn, k))
        elif known:
            ctx.bad("cover", "%s:%s:%s" % (name, wn, k), site, "%s: for %s the neighbours listed %s the vertex are not all looked at (loops over %s)" %
                    (name, wn, k, "; ".join(txt)))
        else:
            ctx.skip("cover", site, "%s: %s" % (name, wn))


def size_field(nat):
    names = [g["n"] for g in nat.w.recs[nat.vcls]["fields"] if strip(g["t"]) == "unsigned long"]
    return "N" if "N" in names else names[0]


def own(ctx, I, nat, base, op, name, wn, what, groups, selfs, f):
    site = I.where(f["L"])
    if what == "bit":
        if True in selfs:
            ctx.bad("self", "%s:%s" % (name, wn), site, "%s: the vertex can become its own candidate" % name)
        else:
            ctx.ok("self", site, "%s: the vertex is not its own candidate" % name)
        return
    if op is not None:
        counted(ctx, I, op, name, wn, what, groups, f)
        if True in selfs:
            ctx.skip("self", site, "%s: %s counts the vertex itself" % (name, wn))
        else:
            ctx.ok("self", site, "%s: %s leaves out the vertex itself" % (name, wn))
        return
    gs = [G for v in groups.values() for G in v if what in G.acc]
    first = min(gs, key=lambda G: tuple(G.e.L))
    v0 = first.e.d["pre"].mem.get(what)
    if True in selfs:
        if isinstance(v0, Poly) and v0 == ZERO:
            ctx.ok("self", site, "%s: %s counts the vertex itself once" % (name, wn))
        else:
            ctx.skip("self", site, "%s: %s starts at %s" % (name, wn, v0))
    elif isinstance(v0, Poly) and v0 == ZERO:
        ctx.bad("self", "%s:%s" % (name, wn), site, "%s: %s does not count the vertex itself" % (name, wn))
    else:
        ctx.ok("self", site, "%s: %s starts with the vertex itself" % (name, wn))


def assigned(n, field):
    """is the field set to a new value anywhere in this body?"""
    if isinstance(n, dict):
        if n.get("e") == "asg" and n.get("op") in (None, "", "="):
            a = n["a"]
            while isinstance(a, dict) and a.get("e") in ("cast", "sub"):
                a = a.get("a") or a.get("b")
            if isinstance(a, dict) and a.get("e") == "field" and a["n"] == field:
                return True
        return any(assigned(v, field) for v in n.values())
    return isinstance(n, list) and any(assigned(v, field) for v in n)


def counted(ctx, I, op, name, wn, what, groups, f):
    """a count of the candidates starts anew for each vertex, and all loops count the same way"""
    gs = sorted((G for v in groups.values() for G in v if what in G.acc), key=lambda G: tuple(G.e.L))
    v0 = gs[0].e.d["pre"].mem.get(what)
    site = I.where(f["L"])
    if v0 is None or isinstance(v0, Poly) and v0.single() is not None and (
            tm.show(v0) == tm.show_path(what) or tm.show(v0).startswith("h:%s#" % (what[-1],))):
        if what[:1] == (("g", "self"),) and len(what) == 2 and not any(assigned(m.get("body"), what[1][1:]) for m in op.methods.values()):
            ctx.bad("count", "%s:%s:start" % (name, wn), site, "%s: %s goes on from what the last vertex left in it" % (name, wn))
        else:
            ctx.skip("count", site, "%s: %s before the loops" % (name, wn))
    else:
        ctx.ok("count", site, "%s: %s starts anew" % (name, wn))
    ds = {d.const() for G in gs for d in G.acc[what] if d != ZERO}
    if None not in ds and len(ds) > 1:
        ctx.bad("count", "%s:%s:step" % (name, wn), site, "%s: %s changes by %s for a neighbour taken, depending on where it is listed" %
                (name, wn, " or ".join(str(d) for d in sorted(ds))))
    elif None not in ds:
        ctx.ok("count", site, "%s: %s changes alike for every neighbour taken" % (name, wn))


def bound(ctx, I, nat, base, name, res, groups):
    """the count ends up in the vertex it was made for"""
    curs = {}
    for v in groups.values():
        for G in v:
            for p in G.acc:
                curs.setdefault(p, set()).add(G.cur)
    pre = base + ("." + nat.vec, "[]")
    done = set()
    for s, _ in res:
        for e in all_loops(trace(s.ev)):
            for kind, t, st in e.d["iters"]:
                ls = [x for x in t if x.k == "loop" and tuple(x.L) in groups]
                if not ls:
                    continue
                for x in t[t.index(ls[-1]):]:
                    if x.k != "store" or x.d["loc"][0][:len(pre)] != pre or tuple(x.L) in done:
                        continue
                    done.add(tuple(x.L))
                    cnt = [p for p in curs if isinstance(st.mem.get(p), Poly) and st.mem[p] == x.d["val"]]
                    ix = x.d["loc"][1][-1]
                    if cnt and all(same(x.facts, ix, c) for c in curs[cnt[0]]):
                        ctx.ok("bound", I.where(x.L), "%s: %s stored for the vertex it was made for" % (name, pname(cnt[0])))
                    elif precise(x.facts, ix, x.d["val"]) and not cnt:
                        ctx.bad("bound", name, I.where(x.L), "%s: the bound stored, %s, is not the count made" % (name, x.d["val"]))
                    elif cnt and precise(x.facts, ix):
                        ctx.bad("bound", name, I.where(x.L), "%s: the bound is stored for vertex %s" % (name, ix))
                    else:
                        ctx.skip("bound", I.where(x.L), name)


def same(facts, a, b):
    return isinstance(a, Poly) and isinstance(b, Poly) and (a == b or entails(facts, eq(sub(a, b))))
