from .c12 import obj, same
from .ops import *

TECHNIQUE = "static analysis: effect analysis of the scratch memory cursor by abstract interpretation of every search (clang AST), with the " \
            "size of the search stack as the only other variable of the invariant"
EXPLAIN = ("The two functions of the graph that hand out and take back scratch memory are interpreted: they must move the cursor by exactly the "
           "number asked for and taking back must zero exactly those words. Every method of every search is then interpreted with the cursor "
           "as a symbol: on every path the cursor at the end must equal that at the start, on every path round every loop it may change only "
           "with the number of stacked search states. Enumerators, which hold memory between steps, must hold one more unit than they "
           "have states, and nothing on the paths where they are finished. No bit set is written after its memory was given back.")


def run(ctx, prog):
    w = World(prog)
    nats = natives(w)
    ctx.rule("lend", "handing out n words moves the cursor by n and returns the words at the old cursor")
    ctx.rule("return", "taking back n words moves the cursor back by n and zeroes those words")
    ctx.rule("balance", "every path through a search gives back exactly what it borrowed")
    ctx.rule("round", "every path round a loop changes the memory held only with the number of stacked states")
    ctx.rule("held", "an enumerator holds one unit more than it has states, and none when finished")
    ctx.rule("fresh", "a new enumerator holds nothing")
    ctx.rule("clean", "no bit set is written after its memory was given back")
    ctx.rule("only", "nothing else moves the cursor")
    ops = operators(w, nats)
    for nat in nats.values():
        if not nat.load or not nat.clear:
            ctx.skip("lend", "", "%s: functions that hand out memory not found" % nat.cls)
            continue
        lend(ctx, w, nat)
        back(ctx, w, nat)
        only(ctx, w, nat)
    items = [(o, f) for o in ops if o.nat.load and o.nat.clear for f in o.units]
    pmap(ctx, items, lambda c, it: one(c, w, *it))
    if not items:
        ctx.skip("balance", "", "no search found")
    ctx.assume += ["a method analysed on its own is balanced where another one calls it (each is checked here)",
                   "the vertex table has as many entries as the graph counts (C05)",
                   "one enumeration at a time is in progress on a graph"]


# ---- the allocator

def lend(ctx, w, nat):
    f = nat.load
    I = interp(w, None)
    st = empty_state()
    n = I.rd(st, gl(f["params"][0]["n"]), "unsigned long")
    cp = (("g", "self"), "." + nat.cursor)
    c0 = I.rd(st, (cp, ()), "unsigned long")
    res, thr = run_fn(I, f, empty_state())
    ctx.used(I)
    name, site = short(f["q"]), I.where(f["L"])
    for s, v in res:
        c = s.mem.get(cp, c0)
        if not isinstance(c, Poly) or not (isinstance(v, tuple) and v and v[0] == "ptr" and v[2]):
            ctx.skip("lend", site, name)
            continue
        d = sub(c, c0)
        if not entails(s.facts, eq(sub(d, n))):
            verdict(ctx, "lend", name + ":cursor", site, s.facts, [d, n], "%s moves the cursor by %s when asked for %s words" % (name, d, n))
        elif not entails(s.facts, eq(sub(v[2][-1], c0))):
            verdict(ctx, "lend", name + ":start", site, s.facts, [v[2][-1]], "%s hands out the words at %s, the free ones start at %s" % (name, v[2][-1], c0))
        else:
            ctx.ok("lend", site, "%s hands out the words asked for" % name)


def back(ctx, w, nat):
    f = nat.clear
    I = interp(w, None)
    st = empty_state()
    n = I.rd(st, gl(f["params"][0]["n"]), "unsigned long")
    cp = (("g", "self"), "." + nat.cursor)
    c0 = I.rd(st, (cp, ()), "unsigned long")

    def pre():
        s = empty_state()
        s.facts = s.facts.add(ge(sub(c0, n))).add(gt(n))
        return s
    res, thr = run_fn(I, f, pre())
    ctx.used(I)
    name, site = short(f["q"]), I.where(f["L"])
    for s, v in res:
        c = s.mem.get(cp, c0)
        if not isinstance(c, Poly):
            ctx.skip("return", site, name)
            continue
        d = sub(c0, c)
        if entails(s.facts, eq(sub(d, n))):
            ctx.ok("return", site, "%s moves the cursor back by the words given" % name)
        else:
            verdict(ctx, "return", name + ":cursor", site, s.facts, [d, n], "%s moves the cursor back by %s when given %s words" % (name, d, n))
        zeroed(ctx, I, nat, s, c0, n, name, site)


def zeroed(ctx, I, nat, s, c0, n, name, site):
    """are the words from c0 - n to c0 set to zero, and no others?"""
    lo, hi = sub(c0, n), c0
    t = trace(s.ev)
    got, seen = [], False
    for e in t:
        if e.k != "loop":
            continue
        ends = [(t2, s2) for kind, t2, s2 in e.d["iters"] if kind == "end"]
        zs = [[x for x in t2 if x.k == "store" and x.d["loc"][0][-1] == "[]" and x.d["loc"][0][-2][1:] in nat.words] for t2, _ in ends]
        if not any(zs):
            continue
        seen = True
        if len(ends) != 1 or len(zs[0]) != 1:
            continue
        x, s2 = zs[0][0], ends[0][1]
        if not (isinstance(x.d["val"], Poly) and x.d["val"].const() == 0):
            verdict(ctx, "return", name + ":value", I.where(x.L), x.facts, [x.d["val"]], "%s stores %s in the words given back" % (name, x.d["val"]))
            return
        ix = x.d["loc"][1][-1]
        for h, first, last, complete, p in loop_range(e):
            k = sub(ix, h)
            if complete and h.single() is not None and h.single() not in k.atoms():
                got.append((add(first, k), add(last, k), x))
        for p in e.d["mod"]:
            h, v, q, z = (I.scal(y, p) for y in (e.d["head"], s2, e.d["pre"], s))
            if all(isinstance(y, Poly) for y in (h, v, q, z)) and h.single() is not None and h.single() not in sub(ix, h).atoms():
                k = sub(ix, h)
                if sub(v, h).const() == -1:
                    got.append((add(add(z, k), ONE), add(add(q, k), ONE), x))
    if not seen and not any(e.k in ("ucall", "umcall", "bulk", "fncall") for e in flat(t)):
        ctx.bad("return", name + ":zero", site, "%s does not zero the words given back" % name)
        return
    if any(entails(s.facts, eq(sub(a, lo))) and entails(s.facts, eq(sub(b, hi))) for a, b, _ in got):
        ctx.ok("return", I.where(got[0][2].L), "%s zeroes the words given back" % name)
    elif not got:
        ctx.skip("return", site, "%s: words zeroed" % name)
    else:
        first, last, x = got[0]
        verdict(ctx, "return", name + ":words", I.where(x.L), s.facts, [first, last],
                "%s zeroes the words %s to %s, those given back are %s to %s" % (name, first, last, lo, hi))


def verdict(ctx, rule, key, site, fs, polys, what):
    if precise(fs, *polys):
        ctx.bad(rule, key, site, what)
    else:
        ctx.skip(rule, site, what)


def only(ctx, w, nat):
    I = interp(w, None)
    ctors = [f for f in w.fns.values() if f.get("class") == nat.cls and f.get("ctor") and f.get("body")]
    build = set()
    for f in ctors:
        build |= reach(w, f) | {f["id"]}
    used = set()
    for f in w.fns.values():
        if f["id"] not in build:
            used |= set(called(f))
    for f in w.fns.values():
        if not f.get("body") or f["id"] in (nat.load["id"], nat.clear["id"]):
            continue
        if nat.cursor not in fields_written(f) or not touches(f, nat):
            continue
        site = I.where(f["L"])
        if f["id"] in build and (f.get("ctor") or f["id"] not in used):
            ctx.ok("only", site, "%s places the cursor while a graph is built" % short(f["q"]))
        else:
            ctx.skip("only", site, "%s moves the cursor" % short(f["q"]))


def touches(f, nat):
    hit = []

    def rec(n):
        if isinstance(n, dict):
            if n.get("e") == "field" and n.get("n") == nat.cursor and n.get("c") == nat.cls:
                hit.append(n)
            for v in n.values():
                rec(v)
        elif isinstance(n, list):
            for v in n:
                rec(v)
    rec(f["body"])
    return bool(hit)


# ---- the searches

def unit_field(w, op):
    """field of the search that holds the number of words of one bit set"""
    names = {}

    def rec(n):
        if isinstance(n, dict):
            if n.get("e") == "mcall" and n.get("id") == op.nat.load["id"] and n.get("args"):
                a = n["args"][0]
                while isinstance(a, dict) and a.get("e") == "cast":
                    a = a["a"]
                if isinstance(a, dict) and a.get("e") == "field":
                    names[a["n"]] = names.get(a["n"], 0) + 1
            for v in n.values():
                rec(v)
        elif isinstance(n, list):
            for v in n:
                rec(v)
    for m in op.methods.values():
        rec(m["body"])
    return max(names, key=names.get) if names else None


def lasting(w, op):
    """is the search kept between calls?"""
    return any(op.cls in f["t"] for c in w.iters for f in w.recs[c]["fields"])


def kill(fs, p, atoms):
    """put known constants in place of atoms"""
    for a in atoms:
        if a not in p.atoms() and all(a not in m for m, _ in p.m):
            continue
        x = Poly((((a,), 1),))
        for c in (0, 1):
            if entails(fs, eq(sub(x, num(c)))):
                p = subst(p, a, num(c))
                break
    return p


def subst(p, a, val):
    out = ZERO
    for m, c in p.m:
        t = num(c)
        for x in m:
            t = mul(t, val if x == a else Poly((((x,), 1),)))
        out = add(out, t)
    return out


def zero(fs, p, atoms=()):
    return entails(fs, eq(p)) or entails(fs, eq(kill(fs, p, atoms)))


def one(ctx, w, op, f):
    nat = op.nat
    gp = op.graph_param(f)
    base = (("g", gp),)
    mine = (("g", "self"),)
    name = short(f["q"])
    sv = op.states()
    kf = unit_field(w, op)
    keeps = lasting(w, op)
    cp = base + ("." + nat.cursor,)
    szp = mine + ("." + sv, "#size") if sv else None
    kp = mine + ("." + kf,) if kf else None
    ul = [n for n, t in nat.fields.items() if strip(t).replace("const ", "") == "unsigned long"]

    def pre(I, st):
        if sv and not keeps:
            z = I.vsize(st, (mine + ("." + sv,), ()))
            if isinstance(z, Poly):
                st.facts = st.facts.add(eq(z))
        for n in ul:
            if n.startswith("n_") or "n_vert" in n:
                st.facts = st.facts.add(eq(sub(I.vsize(st, (base + ("." + nat.vec,), ())), I.rd(st, (base + ("." + n,), ()), "unsigned long"))))
                break
        return st
    I, res, thr = op.run(f, pre=pre)
    ctx.used(I)
    ctx.count("methods analysed")
    site = I.where(f["L"])

    def cur(s):
        return I.rd(s, (cp, ()), "unsigned long")

    def size(s):
        return I.vsize(s, (mine + ("." + sv,), ())) if sv else ZERO

    def unit(s):
        return I.rd(s, (kp, ()), "unsigned long") if kp else ZERO

    c0 = cur(empty_state())
    loops = {}
    for s, v in res:
        for e in [x for x in flat(trace(s.ev)) if x.k == "loop"]:
            loops.setdefault(id(e), e)
    ctx.count("loops examined", len(loops))
    ctx.count("requests and returns", sum(1 for s, v in res for x in flat(trace(s.ev)) if x.k == "mem"))

    def D(s):
        """memory beyond one unit more than there are states"""
        c, z, k = cur(s), size(s), unit(s)
        if not all(isinstance(x, Poly) for x in (c, z, k)):
            return None
        return sub(c, mul(k, add(z, ONE)))
    known = {}                                  # cursor at a loop head, expressed through the start
    bound = exhausted_pair(I, op, w, nat, base, mine, res) if keeps else None
    for e in loops.values():
        H = e.d["head"]
        moving = cp in e.d["mod"]
        for kind, t, s in e.d["iters"]:
            if kind != "end" or not any(x.k in ("mem", "push", "pop", "icall") for x in flat(t)) and not moving:
                continue
            where = next((I.where(x.L) for x in t if x.k == "mem"), I.where(e.L))
            d = sub(cur(s), cur(H)) if isinstance(cur(s), Poly) and isinstance(cur(H), Poly) else None
            if d is None:
                ctx.skip("round", where, name)
                continue
            if not moving:
                # unchanged, as the analysis found it comes back to the same value
                ctx.ok("round", where, "%s: a path round the loop at %s leaves the cursor where it was" % (name, I.where(e.L).split(":")[-1]))
                continue
            a, b = D(s), D(H)
            if sv and a is not None and b is not None and zero(s.facts, sub(a, b), sizes(s)):
                if bound and not open_(I, s, bound, base, mine):
                    # finished but still holding
                    hold = add(sub(cur(s), cur(H)), mul(unit(H), add(size(H), ONE)))
                    if zero(s.facts, hold, sizes(s)):
                        ctx.ok("held", where, "%s: nothing is held where it may be finished" % name)
                    elif precise(s.facts, hold) and sure_done(I, s, bound, base, mine):
                        ctx.bad("held", name + ":done", where, "%s: %s words are still held when it is finished" % (name, hold))
                    else:
                        ctx.skip("held", where, "%s: whether it is finished" % name)
                    continue
                ctx.ok("held" if keeps else "round", where, "%s: a path round the loop at %s changes the memory held with the number of states" % (name, I.where(e.L).split(":")[-1]))
                continue
            if bound and sure_done(I, s, bound, base, mine):
                hold = add(sub(cur(s), cur(H)), mul(unit(H), add(size(H), ONE)))
                if zero(s.facts, hold, sizes(s)) and zero(s.facts, size(s), ()):
                    ctx.ok("held", where, "%s: nothing is held when it is finished" % name)
                    continue
                if precise(s.facts, hold):
                    ctx.bad("held", name + ":done", where, "%s: %s words are still held when it is finished" % (name, kill(s.facts, hold, sizes(s))))
                else:
                    ctx.skip("held", where, name)
                continue
            rule = "held" if keeps else "round"
            dd = sub(a, b) if a is not None and b is not None and sv else d
            dd = kill(s.facts, dd, sizes(s))
            if precise(s.facts, dd):
                ctx.bad(rule, "%s:%s" % (name, "loop"), where, "%s: a path round the loop at %s changes the memory held by %s%s" %
                        (name, I.where(e.L), dd, " beyond that of its states" if sv else ""))
            else:
                ctx.skip(rule, where, name)
        if moving and sv:
            p = e.d["pre"]
            h = cur(H)
            if isinstance(h, Poly) and h.single() is not None and D(p) is not None and D(H) is not None:
                known[h.single()] = add(D(p), mul(unit(H), add(size(H), ONE)))
    for s, v in res:
        t = trace(s.ev)
        c = cur(s)
        where = next((I.where(x.L) for x in reversed(t) if x.k == "mem"), site)
        clean(ctx, I, nat, name, base, t, s)
        if not isinstance(c, Poly):
            ctx.skip("balance", where, name)
            continue
        for _ in range(4):
            for a, val in known.items():
                if a in c.atoms() or any(a in m for m, _ in c.m):
                    c = subst(c, a, val)
        if keeps:
            held(ctx, I, op, name, s, t, where, D, cur, size, unit, bound, base, mine, known, c)
            continue
        d = sub(c, c0)
        if zero(s.facts, d, sizes(s) | sizes_of(d)):
            ctx.ok("balance", where, "%s: gives back what it borrowed" % name)
        elif precise(s.facts, d):
            dd = kill(s.facts, d, sizes(s) | sizes_of(d))
            ctx.bad("balance", name, where, "%s: a path ends with the cursor moved by %s" % (name, dd))
        else:
            ctx.skip("balance", where, "%s: cursor at the end" % name)
        if sv and f in op.cut.values():
            z = size(s)
            if isinstance(z, Poly) and zero(s.facts, z):
                ctx.ok("balance", where, "%s: no state is left behind" % name)
            elif isinstance(z, Poly) and precise(s.facts, z):
                ctx.bad("balance", name + ":states", where, "%s: a path ends with %s states left on the stack, whose memory was given back" % (name, z))
            else:
                ctx.skip("balance", where, "%s: states left" % name)
    if keeps:
        fresh(ctx, w, op, kf, sv)


def sizes(s):
    out = set()
    for p, v in s.mem.items():
        if p[-1] == "#size" and isinstance(v, Poly):
            out |= v.atoms()
    return out


def sizes_of(p):
    return {a for m, _ in p.m for a in m}


def exhausted_pair(I, op, w, nat, base, mine, res):
    """(bound of the graph, cursor of the enumerator) compared on the path that finishes"""
    ul = [n for n, t in nat.fields.items() if strip(t).replace("const ", "") == "unsigned long"]
    own = [q["n"] for q in w.recs[op.cls]["fields"] if strip(q["t"]).replace("const ", "") == "unsigned long"]
    pairs = {}
    for s, v in res:
        if not isinstance(v, Poly):
            continue
        for n in ul:
            nv = I.rd(s, (base + ("." + n,), ()), "unsigned long")
            if isinstance(nv, Poly) and entails(s.facts, ge(sub(v, nv))):
                for c in own:
                    cv = I.rd(s, (mine + ("." + c,), ()), "unsigned long")
                    if isinstance(cv, Poly) and same(s.facts, cv, v):
                        pairs[(n, c)] = pairs.get((n, c), 0) + 1
    return max(pairs, key=pairs.get) if pairs else None


def gap(I, s, bound, base, mine):
    n = I.rd(s, (base + ("." + bound[0],), ()), "unsigned long")
    c = I.rd(s, (mine + ("." + bound[1],), ()), "unsigned long")
    return sub(c, n) if isinstance(n, Poly) and isinstance(c, Poly) else None


def open_(I, s, bound, base, mine):
    g = gap(I, s, bound, base, mine)
    return g is not None and entails(s.facts, gt(neg(g)))


def sure_done(I, s, bound, base, mine):
    g = gap(I, s, bound, base, mine)
    return g is not None and entails(s.facts, ge(g))


def held(ctx, I, op, name, s, t, where, D, cur, size, unit, bound, base, mine, known, c):
    e0 = empty_state()
    if not any(x.k in ("mem", "push", "pop") for x in flat(t)):
        ctx.ok("held", where, "%s: a path that neither borrows nor gives back" % name)
        return
    if bound and sure_done(I, s, bound, base, mine):
        # on the way out of the main loop; every path round it was checked
        lp = [x for x in t if x.k == "loop"]
        after = t[t.index(lp[-1]) + 1:] if lp else t
        if any(x.k == "mem" for x in after):
            n = ZERO
            for x in after:
                if x.k == "mem" and isinstance(x.d["n"], Poly):
                    n = add(n, x.d["n"]) if x.d["op"] == "load" else sub(n, x.d["n"])
            if zero(s.facts, n, sizes(s)):
                ctx.ok("held", where, "%s: finished, with nothing held" % name)
            elif precise(s.facts, n):
                ctx.bad("held", name + ":end", where, "%s: the memory held changes by %s after the last vertex, when nothing is held" % (name, n))
            else:
                ctx.skip("held", where, name)
        else:
            ctx.ok("held", where, "%s: finished, with nothing held" % name)
        return
    a, b = D(s), D(e0)
    if a is None:
        ctx.skip("held", where, name)
        return
    for at, val in known.items():
        if at in a.atoms() or any(at in m for m, _ in a.m):
            a = subst(a, at, val)
    d = sub(a, b)
    if zero(s.facts, d, sizes(s)):
        ctx.ok("held", where, "%s: returns holding one unit more than it has states" % name)
    elif precise(s.facts, d):
        ctx.bad("held", name, where, "%s: returns holding %s more than its states need" % (name, d))
    else:
        ctx.skip("held", where, name)


def fresh(ctx, w, op, kf, sv):
    for k in [g for g in w.fns.values() if g.get("class") == op.cls and g.get("ctor") and g.get("body") and not
              (len(g["params"]) == 1 and op.cls in g["params"][0]["t"])]:
        I = interp(w, None)
        res, _ = run_fn(I, k, empty_state(), this=gl("self"))
        ctx.used(I)
        for s, _ in res:
            u = s.mem.get((("g", "self"), "." + kf)) if kf else None
            site = I.where(k["L"])
            if isinstance(u, Poly) and entails(s.facts, eq(u)):
                ctx.ok("fresh", site, "%s: holds nothing at first" % short(k["q"]))
            elif u is None and kf:
                ctx.bad("fresh", short(k["q"]), site, "%s leaves %s, the memory given back first, unset" % (short(k["q"]), kf))
            elif isinstance(u, Poly) and precise(s.facts, u):
                ctx.bad("fresh", short(k["q"]), site, "%s starts with %s = %s, memory it does not hold" % (short(k["q"]), kf, u))
            else:
                ctx.skip("fresh", site, short(k["q"]))


def clean(ctx, I, nat, name, base, t, mstate):
    """bit sets in the arena are not written after the last return of memory"""
    ks = [n for n, x in enumerate(t) if x.k == "mem" and x.d["op"] == "clear"]
    if not ks:
        return
    last = t[ks[-1]]
    # bit sets made on memory lent by the graph
    kept = {obj(x.d["this"])[0] for x in t if x.k == "bits" and any(isinstance(a, tuple) and a and a[0] == "ptr" and "#arena" in a[1] for a in x.d["args"])}
    for x in t[ks[-1] + 1:]:
        if x.k == "bits" and x.d["op"] in ("set", "reset", "copy_data", "clear", "flip") and obj(x.d["this"])[0][:2] != base + ("." + nat.vec,):
            if x.d["op"] in ("set", "copy_data"):
                ctx.bad("clean", name, I.where(x.L), "%s writes a bit set (%s) after its memory was given back at %s" % (name, x.d["op"], I.where(last.L)))
                return
        if x.k == "icall":
            for v in x.d["args"]:
                l = v[1] if isinstance(v, tuple) and v and v[0] in ("ref", "obj") else None
                if l and I.resolve(mstate, l)[0] in kept:
                    ctx.bad("clean", name, I.where(x.L), "%s hands on a bit set to %s after its memory was given back at %s" % (name, x.d["q"], I.where(last.L)))
                    return
    ctx.ok("clean", I.where(last.L), "%s: no bit set is written afterwards" % name)
