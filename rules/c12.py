from .ops import *

TECHNIQUE = "static analysis: abstract interpretation of the searches (clang AST); every path through a filter loop is checked for what it " \
            "looks up, what the answer is used for, and which set the result reaches; the lookup is checked with interval invariants"
EXPLAIN = ("Each loop of a search that looks neighbours up is interpreted with symbolic graphs. On every path through it the vertex whose "
           "list is searched must be the one being added, the value looked up the candidate of this step, the part searched must reach "
           "the end of the list and start no later than the candidate can be, and the candidate is removed exactly if the answer is 'not "
           "found'. The loop must go through all remaining candidates before the set is used, and the removals must reach the set used "
           "next. The lookup function itself is checked: each narrowing of its interval is justified by a comparison made on that path.")


def run(ctx, prog):
    w = World(prog)
    nats = natives(w)
    ctx.rule("lookup", "the neighbour test searches the list of the vertex being added for this candidate")
    ctx.rule("extent", "the part of the list searched reaches its end and starts where the candidate can still be found")
    ctx.rule("verdict", "a candidate is removed exactly if the answer is 'not found'")
    ctx.rule("every", "every remaining candidate is tested before the set is used")
    ctx.rule("handed", "what was removed is removed from the set used next, and nothing else is")
    ctx.rule("search", "the lookup says 'found' exactly if the value is in the list, and never reports a place behind it")
    ops = operators(w, nats)
    items = [("op", o, f) for o in ops for f in o.units]
    if not items:
        ctx.skip("lookup", "", "no search found")
        return
    fnd = {}
    for nat in nats.values():
        fnd.update(nat.finders())
    items += [("find", None, f) for f in fnd.values()]
    for nat in nats.values():
        for f in w.fns.values():
            if f.get("class") == nat.cls and f.get("body") and any(i in fnd for i in called(f)) and not has_loop(w, f):
                items.append(("meth", nat, f))
    pmap(ctx, items, lambda c, it: {"op": filters, "find": lookup, "meth": method}[it[0]](c, w, it[1], it[2]))
    ctx.assume += ["neighbour lists are sorted, without repetitions, and contain the vertex itself at its recorded position (C05, C19)",
                   "the bit sets behave as specified (C17)"]


class Fields:
    """names of the fields of a vertex"""

    def __init__(self, nat):
        names = [g["n"] for g in nat.w.recs[nat.vcls]["fields"] if strip(g["t"]) == "unsigned long"]
        self.N = "N" if "N" in names else names[0]
        self.spos = "spos" if "spos" in names else names[1]
        self.elo = "elo" if "elo" in names else names[2]


def vfield(nat, base, fld):
    return base + ("." + nat.vec, "[]", "." + fld)


def owner(I, st, nat, base, fl, poly):
    """vertex v such that poly = elo(v) + rest; (v, rest)"""
    out = []
    for a in poly.atoms():
        i = tm.info(a)[0]
        if i[0] != "sel" or poly.coef((a,)) != 1:
            continue
        ix = i[2] if isinstance(i[2], tuple) else (i[2],)
        v = ix[-1]
        if isinstance(v, Poly) and I.rd(st, (vfield(nat, base, fl.elo), (v,)), "unsigned long").single() == a:
            out.append((v, sub(poly, I.rd(st, (vfield(nat, base, fl.elo), (v,)), "unsigned long"))))
    return out


def same(facts, a, b):
    return isinstance(a, Poly) and isinstance(b, Poly) and (a == b or entails(facts, eq(sub(a, b))))


class Test:
    pass


def read_find(I, w, nat, base, fl, x, st):
    """what a lookup event tests: list owner, offset, length, value"""
    T = Test()
    T.x, T.ret, T.ans = x, x.d["ret"], None
    g = w.fns[x.d["fn"]]
    args = x.d["args"]
    for p, v in zip(g["params"], args):
        if p.get("ref") and isinstance(v, tuple) and v and v[0] == "ref":
            T.ans = v[1]
    if g.get("class"):
        vs = [v for v in args if isinstance(v, Poly)]
        if len(vs) != 2:
            return None
        T.kind, T.a, T.b = "pair", vs[0], vs[1]
        return T
    p, n, val = args[:3]
    if not (isinstance(p, tuple) and p[0] == "ptr" and isinstance(n, Poly) and isinstance(val, Poly)):
        return None
    if p[1][:-2] != base or p[1][-1] != "[]" or not p[2]:
        return None
    own = owner(I, st, nat, base, fl, p[2][-1])
    if len(own) != 1:
        return None
    T.kind, (T.a, T.off), T.n, T.b, T.list = "part", own[0], n, val, p[1]
    return T


def site_of(I, st, nat, base, fl, v):
    """v as the vertex at a place of the list of another: [(list owner, place)]"""
    out = []
    a = v.single()
    if a is None:
        return out
    i = tm.info(a)[0]
    if i[0] == "sel":
        ix = i[2] if isinstance(i[2], tuple) else (i[2],)
        if isinstance(ix[-1], Poly):
            for n in nat.words:
                if I.rd(st, (base + ("." + n, "[]"), (ix[-1],)), "unsigned long") == v:
                    out += owner(I, st, nat, base, fl, ix[-1])
    return out


def record_of(I, v):
    """(group of the record array, index) if v is a field of an element of an array of records"""
    a = v.single()
    if a is None:
        return None
    i = tm.info(a)[0]
    if i[0] != "sel":
        return None
    ix = i[2] if isinstance(i[2], tuple) else (i[2],)
    arr = i[1]
    if isinstance(arr, tuple) and len(arr) > 2 and arr[2] in I.arr_src:
        src, grp = I.arr_src[arr[2]], I.arr_grp[arr[2]]
        return (src[:-1], repr(grp), tuple(ix), src[-1])
    if isinstance(arr, tuple) and arr and arr[0] == "init":
        p = arr[1]
        if isinstance(p[-1], str) and p[-1].startswith(".") and "[]" in p:
            return (p[:-1], "", tuple(ix), p[-1])
    return None


def place(I, st, nat, base, fl, v, k):
    """does k name the place of vertex v?  True / False / None"""
    for o, r in site_of(I, st, nat, base, fl, v):
        if same(st.facts, r, k):
            return True
    a, b = record_of(I, v), record_of(I, k)
    if a and b and a[:2] == b[:2]:
        return len(a[2]) == len(b[2]) and all(same(st.facts, x, y) for x, y in zip(a[2], b[2])) and a[3] != b[3]
    if site_of(I, st, nat, base, fl, v) or a or b and v.single() is not None and tm.info(v.single())[0][0] == "init":
        return False
    return None


def walk(tr, up=(), out=None, seen=None):
    """(loop with direct lookups, enclosing iterations innermost first)"""
    out = [] if out is None else out
    for e in tr:
        if e.k != "loop":
            continue
        if any(x.k == "find" for kind, t, s in e.d["iters"] for x in t):
            out.append((e, up))
        for it in e.d["iters"]:
            walk(it[1], (it,) + up, out)
    return out


def filters(ctx, w, op, f):
    nat = op.nat
    gp = op.graph_param(f)
    I, res, thr = op.run(f)
    ctx.used(I)
    ctx.count("methods analysed")
    base = (("g", gp),)
    fl = Fields(nat)
    name = short(f["q"])
    found = {}
    I.sorts = [x for s, _ in res for x in flat(trace(s.ev)) if x.k == "sort"]
    for s, _ in res:
        for e, up in walk(trace(s.ev), ((None, trace(s.ev), s),)):
            found.setdefault(id(e), (e, []))[1].append(up)
    ctx.count("filter loops", len({tuple(e.L) for e, _ in found.values()}))
    for e, ups in found.values():
        one(ctx, w, I, nat, base, fl, name, e, ups)


def one(ctx, w, I, nat, base, fl, name, e, ups):
    site = I.where(e.L)
    H = e.d["head"]
    K = None
    rows = []
    for kind, t, st in e.d["iters"]:
        if kind not in ("end", "break"):
            continue
        xs = [x for x in t if x.k == "find"]
        if len(xs) > 1:
            ctx.skip("lookup", site, "%s: several lookups in one step" % name)
            return
        T = read_find(I, w, nat, base, fl, xs[0], st) if xs else None
        if xs and T is None:
            ctx.skip("lookup", I.where(xs[0].L), "%s: what is looked up" % name)
            return
        rows.append((kind, t, st, T))
    Ts = [T for *_, T in rows if T]
    if not Ts:
        return
    # the candidate of this step: the place used in tests, removals and pushes
    for kind, t, st, T in rows:
        for x in t:
            v = None
            if x.k == "bits" and x.d["op"] in ("operator[]", "reset") and x.d["args"]:
                v = x.d["args"][0]
            elif x.k == "push":
                v = x.d["val"]
            if isinstance(v, Poly) and T:
                for side in ("b", "a"):
                    if place(I, st, nat, base, fl, getattr(T, side), v):
                        K = (v, side)
                        break
            if K:
                break
        if K:
            break
    if K is None:
        T = Ts[0]
        for kind, t, st, T in rows:
            if T is None:
                continue
            vs = [x.d["val"] if x.k == "push" else x.d["args"][0] for x in t
                  if x.k == "push" or x.k == "bits" and x.d["op"] in ("operator[]", "reset") and x.d["args"]]
            vs = [v for v in vs if isinstance(v, Poly)]
            if vs and precise(st.facts, *vs) and site_of(I, st, nat, base, fl, T.b):
                ctx.bad("lookup", name, I.where(T.x.L), "%s: looks up %s, but the candidate decided on is %s" % (name, T.b, vs[0]))
                return
        ctx.skip("lookup", site, "%s: the candidate of a step" % name)
        return
    K, side = K
    counter = None
    rec = record_of(I, K)
    kvar = K if rec is None else rec[2][-1]
    for p in e.d["mod"]:
        h = H.mem.get(p)
        if isinstance(h, Poly) and h.single() is not None and h == kvar:
            counter = p
    for kind, t, st, T in rows:
        if T is None:
            continue
        lsite = I.where(T.x.L)
        cand, added = (T.b, T.a) if side == "b" else (T.a, T.b)
        if place(I, st, nat, base, fl, cand, K):
            ctx.ok("lookup", lsite, "%s: the value looked up is the candidate decided on" % name)
        else:
            ctx.bad("lookup", name + ":value", lsite, "%s: looks up %s, but the candidate decided on is %s" % (name, cand, K))
        T.added = added
        if T.kind == "part" and side == "a":
            ctx.skip("extent", lsite, "%s: the list of the candidate is searched" % name)
        elif T.kind == "part":
            extent(ctx, I, nat, base, fl, name, e, st, t, T, K, counter)
        verdict(ctx, I, name, e, st, t, T, K)
    # steps that decide without a test
    for kind, t, st, T in rows:
        if T is not None or kind != "end":
            continue
        asked = [x for x in t if x.k == "bits" and x.d["op"] == "operator[]" and x.d["args"] and same(st.facts, x.d["args"][0], K)]
        rem = removed(I, t, st, K)
        if rem:
            ctx.bad("verdict", name + ":untested", I.where(rem[0].L), "%s: a candidate is removed without a test" % name)
        elif any(isinstance(x.d["ret"], Poly) and entails(st.facts, eq(x.d["ret"])) for x in asked):
            ctx.ok("every", site, "%s: passes over what is not a candidate" % name)
        elif precise(st.facts, K):
            ctx.bad("every", name + ":untested", site, "%s: a step leaves the candidate %s untested" % (name, K))
        else:
            ctx.skip("every", site, name)
    every(ctx, I, nat, base, fl, name, e, rows, K, kvar, counter, Ts, ups, rec)


def removed(I, t, st, K):
    out = []
    for x in t:
        if x.k == "bits" and x.d["op"] in ("reset", "flip") and x.d["args"] and same(st.facts, x.d["args"][0], K):
            out.append(x)
        if x.k == "push" and isinstance(x.d["val"], Poly) and same(st.facts, x.d["val"], K):
            out.append(x)
    return out


def verdict(ctx, I, name, e, st, t, T, K):
    site = I.where(T.x.L)
    rem = removed(I, t, st, K)
    if entails(st.facts, eq(sub(T.ret, ONE))):
        if rem:
            ctx.bad("verdict", name + ":found", I.where(rem[0].L), "%s: a candidate that is a neighbour is removed" % name)
        else:
            ctx.ok("verdict", site, "%s: found, kept" % name)
    elif tm.contradictory(st.facts.add(eq(sub(T.ret, ONE)))) or entails(st.facts, tm.negate(eq(sub(T.ret, ONE)))):
        if rem:
            ctx.ok("verdict", site, "%s: not found, removed" % name)
        else:
            ctx.bad("verdict", name + ":notfound", site, "%s: a candidate that is not a neighbour is kept" % name)
    elif precise(st.facts, T.ret):
        ctx.bad("verdict", name + ":unused", site, "%s: the candidate is %s whatever the answer" % (name, "removed" if rem else "kept"))
    else:
        ctx.skip("verdict", site, name)


def extent(ctx, I, nat, base, fl, name, e, st, t, T, K, counter):
    site = I.where(T.x.L)
    u = "unsigned long"
    N = I.rd(st, (vfield(nat, base, fl.N), (T.a,)), u)
    sp = I.rd(st, (vfield(nat, base, fl.spos), (T.a,)), u)
    fs = T.x.facts
    if same(fs, add(T.off, T.n), N):
        ctx.ok("extent", site, "%s: searches up to the end of the list" % name)
    elif precise(fs, T.off, T.n, N):
        ctx.bad("extent", name + ":end", site, "%s: searches %s entries from place %s of a list of %s" % (name, T.n, T.off, N))
    else:
        ctx.skip("extent", site, "%s: end of the part searched" % name)
    # the candidate comes after the vertex being added in the list of the root
    after = False
    for o, j in site_of(I, st, nat, base, fl, T.a):
        for o2, k in site_of(I, st, nat, base, fl, T.b):
            after |= same(fs, o, o2) and entails(fs, gt(sub(k, j)))
    H = e.d["head"]
    moving = None
    for p in e.d["mod"]:
        h = H.mem.get(p)
        if isinstance(h, Poly) and h.single() is not None and h.single() in T.off.atoms():
            moving = (p, h)
    if moving is None:
        start(ctx, name, site, fs, T.off, sp, after)
        return
    p, h = moving
    rest = sub(T.off, h)
    v0 = e.d["pre"].mem.get(p)
    if not isinstance(v0, Poly):
        ctx.skip("extent", site, "%s: where the part searched starts" % name)
        return
    start(ctx, name, site, fs, add(v0, rest), sp, after)
    ok = True
    for kind, t2, st2 in e.d["iters"]:
        v = st2.mem.get(p)
        if not isinstance(v, Poly):
            ok = None
            break
        d = sub(v, h)
        if d == ZERO:
            continue
        xs = [x for x in t2 if x.k == "find"]
        good = False
        for x in xs:
            for a in x.d["args"]:
                if isinstance(a, tuple) and a and a[0] == "ref":
                    good |= same(st2.facts, d, I.rd(st2, a[1], u))
        if good:
            continue
        if precise(st2.facts, d):
            ctx.bad("extent", name + ":moved", site, "%s: the start of the part searched moves by %s, not by where the lookup ended" % (name, d))
            return
        ok = None
    if ok is None:
        ctx.skip("extent", site, "%s: how the start moves" % name)
    else:
        ctx.ok("extent", site, "%s: the start moves to where the last lookup ended" % name)


def start(ctx, name, site, fs, off, sp, after):
    if off == ZERO:
        ctx.ok("extent", site, "%s: searches from the start of the list" % name)
    elif same(fs, off, sp) or same(fs, off, add(sp, ONE)):
        if after:
            ctx.ok("extent", site, "%s: searches from the vertex's own place; the candidates come after it" % name)
        elif precise(fs, off):
            ctx.bad("extent", name + ":before", site, "%s: searches from the vertex's own place, but the candidate can come before it" % name)
        else:
            ctx.skip("extent", site, name)
    elif entails(fs, ge(sub(sp, off))):
        ctx.ok("extent", site, "%s: searches from before the vertex's own place" % name) if after else ctx.skip("extent", site, name)
    elif precise(fs, off, sp):
        ctx.bad("extent", name + ":start", site, "%s: the part searched starts at %s, the vertex itself is at %s" % (name, off, sp))
    else:
        ctx.skip("extent", site, "%s: start of the part searched" % name)


def obj(v):
    if isinstance(v, tuple) and v and v[0] in ("ref", "obj", "loc", "alias"):
        return v[1]
    return v


def every(ctx, I, nat, base, fl, name, e, rows, K, kvar, counter, Ts, ups, rec):
    site = I.where(e.L)
    if counter is None:
        ctx.skip("every", site, "%s: the loop's counter" % name)
        return
    # the candidate sets of the loop
    sets = []
    for kind, t, st, T in rows:
        for x in t:
            if x.k == "bits" and x.d["op"] in ("operator[]", "next") and x.d["args"]:
                o = obj(x.d["this"])
                if o not in sets:
                    sets.append(o)
    for kind, t, st, T in rows:
        if kind != "end":
            if T is not None and not removed(I, t, st, K):
                ctx.skip("every", site, "%s: the loop can stop after a candidate" % name)
            continue
        v = st.mem.get(counter)
        if not isinstance(v, Poly):
            ctx.skip("every", site, "%s: the next candidate" % name)
            continue
        nx = [x for x in t if x.k == "bits" and x.d["op"] == "next" and isinstance(x.d.get("ret"), Poly) and x.d["ret"] == v]
        if same(st.facts, v, add(kvar, ONE)):
            ctx.ok("every", site, "%s: goes on with the next place" % name)
        elif nx and same(st.facts, nx[-1].d["args"][0], add(kvar, ONE)):
            ctx.ok("every", site, "%s: goes on with the next candidate" % name)
        elif precise(st.facts, v, kvar):
            ctx.bad("every", name + ":step", site, "%s: after candidate %s goes on with %s" % (name, kvar, v))
        else:
            ctx.skip("every", site, "%s: the next candidate" % name)
    v0 = e.d["pre"].mem.get(counter)
    done = set()
    for up in ups:
        kind, t, st = up[0]
        if id(t) in done or e not in t:
            continue
        done.add(id(t))
        at = t.index(e)
        J = first(ctx, I, nat, base, fl, name, e, t[:at], v0, Ts, K, rec, sets, site)
        use(ctx, I, nat, base, fl, name, e, t, at, st, kind, Ts, K, kvar, counter, sets, site, rec)


def first(ctx, I, nat, base, fl, name, e, before, v0, Ts, K, rec, sets, site):
    """the loop starts with the first candidate after the vertex being added"""
    pre = e.d["pre"]
    T = Ts[0]
    if not isinstance(v0, Poly):
        ctx.skip("every", site, "%s: the first candidate" % name)
        return
    if rec is None:
        js = [r for o, r in site_of(I, pre, nat, base, fl, T.added)]
    else:
        r = record_of(I, T.added)
        js = [r[2][-1]] if r else []
    if not js:
        ctx.skip("every", site, "%s: place of the vertex being added" % name)
        return
    j = js[0]
    nx = [x for x in before if x.k == "bits" and x.d["op"] == "next" and isinstance(x.d.get("ret"), Poly) and x.d["ret"] == v0]
    if same(pre.facts, v0, add(j, ONE)):
        ctx.ok("every", site, "%s: starts right after the vertex being added" % name)
    elif nx and same(pre.facts, nx[-1].d["args"][0], add(j, ONE)):
        ctx.ok("every", site, "%s: starts with the next candidate after the vertex being added" % name)
    elif nx and obj(nx[-1].d["this"]) in sets and isinstance(nx[-1].d["args"][0], Poly) and entails(pre.facts, ge(sub(add(j, ONE), nx[-1].d["args"][0]))):
        ctx.ok("every", site, "%s: starts with a candidate no later than the one after the vertex being added" % name)
    elif entails(pre.facts, ge(sub(add(j, ONE), v0))) and not (nx and obj(nx[-1].d["this"]) not in sets):
        ctx.ok("every", site, "%s: starts no later than the vertex being added" % name)
    elif precise(pre.facts, v0, j):
        ctx.bad("every", name + ":first", site, "%s: starts with %s; the vertex being added is at %s" % (name, nx[-1].d["args"][0] if nx else v0, j))
    else:
        ctx.skip("every", site, "%s: the first candidate" % name)


def use(ctx, I, nat, base, fl, name, e, t, at, st, kind, Ts, K, kvar, counter, sets, site, rec):
    """where the filtered set is used, the loop has gone through all candidates and the removals have been made"""
    T = Ts[0]
    after = t[at + 1:]
    before = t[:at]
    H = e.d["head"]
    # places set in a bit set around the loop: the vertex added
    lps = [n for n in range(at) if t[n].k == "loop"]
    for x in t[lps[-1] if lps else 0:]:
        if x.k == "bits" and x.d["op"] == "set" and x.d["args"] and isinstance(x.d["args"][0], Poly):
            r = place(I, st, nat, base, fl, T.added, x.d["args"][0])
            if r:
                ctx.ok("lookup", I.where(x.L), "%s: the vertex whose list is searched is the one added" % name)
            elif r is False and precise(st.facts, x.d["args"][0], T.added):
                ctx.bad("lookup", name + ":added", I.where(x.L), "%s: adds the vertex at %s, but the candidates were tested against %s" % (name, x.d["args"][0], T.added))
            else:
                ctx.skip("lookup", I.where(x.L), "%s: the vertex added" % name)
    pushes = [x for _, t2, _ in e.d["iters"] for x in t2 if x.k == "push"]
    vec = pushes[0].d["loc"] if pushes else None
    uses = []
    for n, x in enumerate(after):
        if x.k == "reccall" or x.k == "push" and isinstance(x.d["val"], tuple):
            uses.append((at + 1 + n, x))
    if rec is not None and kind == "end":
        uses.append((len(t), None))
    if vec is not None:
        z = I.vsize(e.d["pre"], vec)
        if isinstance(z, Poly) and same(e.d["pre"].facts, z, ZERO):
            ctx.ok("handed", site, "%s: the list of removals starts empty" % name)
        elif isinstance(z, Poly) and precise(e.d["pre"].facts, z):
            ctx.bad("handed", name + ":stale", site, "%s: the list of removals still has %s entries from before" % (name, z))
        else:
            ctx.skip("handed", site, "%s: the list of removals" % name)
    for n, x in uses:
        fs = x.facts if x is not None else st.facts
        usite = I.where(x.L) if x is not None else site
        # the loop ran to the end of the list
        end = I.rd(st, (vfield(nat, base, fl.N), (root(I, nat, base, fl, st, T),)), "unsigned long") if rec is None else None
        if rec is None:
            kx = exit_value(e, counter, t, at, st)
            if kx is None:
                ctx.skip("every", usite, "%s: the counter when the loop is left" % name)
            elif entails(fs, ge(sub(kx, end))):
                ctx.ok("every", usite, "%s: all candidates are tested before the set is used" % name)
            elif precise(fs, kx, end):
                ctx.bad("every", name + ":left", usite, "%s: the set is used although the tests may have stopped early" % name)
            else:
                ctx.skip("every", usite, name)
        else:
            record_range(ctx, I, name, e, counter, T, before, st, usite)
            continue
        # the set used
        if x.k == "reccall":
            args = [obj(a) for a in x.d["args"] if isinstance(a, tuple) and a and a[0] == "ref"]
            mine = [o for o in sets if o in args]
            resets = [y for _, t2, _ in e.d["iters"] for y in t2 if y.k == "bits" and y.d["op"] == "reset"]
            tgt = [obj(y.d["this"]) for y in resets]
            if vec is not None:
                tgt = applied(I, t[at + 1:n], vec)
            if any(o in args for o in tgt):
                ctx.ok("handed", usite, "%s: the set searched next is the filtered one" % name)
                fresh(ctx, I, name, before, [o for o in tgt if o in args][0], sets, usite)
            else:
                ctx.bad("handed", name + ":set", usite, "%s: the set searched next is not the one the removals were made in" % name)
        else:
            o = x.d["val"][1]
            ap = applied(I, t[at + 1:n], vec) if vec is not None else []
            direct = [obj(y.d["this"]) for _, t2, _ in e.d["iters"] for y in t2 if y.k == "bits" and y.d["op"] == "reset"]
            mine = [p for p in ap + direct if p[0][:len(o[0])] == o[0]]
            if mine:
                ctx.ok("handed", usite, "%s: the removals are made in the set searched next" % name)
                fresh(ctx, I, name, t[:n], mine[0], sets, usite)
            elif vec is not None:
                ctx.bad("handed", name + ":dropped", usite, "%s: the removals are not made in the set searched next" % name)
            else:
                ctx.skip("handed", usite, name)


def root(I, nat, base, fl, st, T):
    for o, r in site_of(I, st, nat, base, fl, T.b) + site_of(I, st, nat, base, fl, T.a):
        return o
    return ZERO


def exit_value(e, counter, t, at, st):
    """value of the counter after the loop"""
    for x in t[at + 1:]:
        if x.k in ("store", "init") and x.d["loc"][0] == counter:
            return None
    v = st.mem.get(counter)
    return v if isinstance(v, Poly) else None


def applied(I, after, vec):
    """objects from which the elements of the list are removed"""
    out = []
    for x in after:
        if x.k != "loop":
            continue
        for kind, t, s in x.d["iters"]:
            el = [y for y in t if y.k == "elem" and y.d["seq"] == vec or y.k == "access" and y.d["vec"] == vec]
            for y in t:
                if y.k == "bits" and y.d["op"] == "reset" and el and kind == "end":
                    a = y.d["args"][0]
                    got = [I.rd(s, (vec[0] + ("[]",), vec[1] + (z.d["idx"],)), "unsigned long") for z in el]
                    if any(isinstance(g, Poly) and same(s.facts, g, a) for g in got) and whole(I, x, vec, el):
                        out.append(obj(y.d["this"]))
    return out


def whole(I, lev, vec, el):
    """the loop goes through the whole list"""
    if any(y.k == "elem" for y in el):
        return True
    n = I.vsize(lev.d["pre"], vec)
    for h, v0, top, complete, p in loop_range(lev):
        if complete and v0 == ZERO and same(lev.d["pre"].facts, top, n):
            return True
    return False


def fresh(ctx, I, name, before, o, sets, site):
    """the set used next starts as a copy of the current candidates"""
    cps = [x for x in before if x.k == "bits" and x.d["op"] in ("copy_from", "copy_data") and obj(x.d["this"]) == o]
    if not cps:
        if o in sets:
            ctx.ok("handed", site, "%s: the candidates themselves are filtered" % name)
        else:
            ctx.skip("handed", site, "%s: what the set is copied from" % name)
        return
    src = obj(cps[-1].d["args"][0])
    # the set from which the vertex being added was taken
    took = [obj(x.d["this"]) for x in before if x.k == "bits" and x.d["op"] in ("reset", "operator[]", "next")]
    if src in sets or src in took:
        ctx.ok("handed", site, "%s: the set searched next is a copy of the current candidates" % name)
    elif took or sets:
        ctx.bad("handed", name + ":copy", I.where(cps[-1].L), "%s: the set searched next is copied from %s, not from the candidates filtered" % (name, loc_name(src)))
    else:
        ctx.skip("handed", site, "%s: what the set is copied from" % name)


def loc_name(l):
    try:
        return "".join(str(p[-1]) if isinstance(p, tuple) else p for p in l[0])
    except Exception:
        return str(l)


def record_range(ctx, I, name, e, counter, T, before, st, site):
    """the loop goes through the remaining records"""
    outer = record_of(I, T.added)
    for h, v0, top, complete, p in loop_range(e):
        if p != counter:
            continue
        if not complete:
            ctx.bad("every", name + ":left", site, "%s: the tests can stop early" % name)
            return
        ends = [x.d["args"][1][2][-1] for x in I.sorts if all(isinstance(a, tuple) and a[0] == "ptr" and a[2] for a in x.d["args"][:2])]
        fs = e.d["pre"].facts
        if not ends:
            ctx.skip("every", site, "%s: how many candidates there are" % name)
        elif any(isinstance(n, Poly) and (same(fs, n, top) or entails(fs, ge(sub(top, n)))) for n in ends):
            ctx.ok("every", site, "%s: all remaining candidates are tested (%s up to %s)" % (name, v0, top))
        elif precise(fs, top, *[n for n in ends if isinstance(n, Poly)]):
            ctx.bad("every", name + ":left", site, "%s: only the candidates up to %s are tested" % (name, top))
        else:
            ctx.skip("every", site, "%s: how many candidates are tested" % name)
        return
    ctx.skip("every", site, "%s: range of the loop" % name)


# ---- the native graph's neighbour test

def method(ctx, w, nat, f):
    finders = nat.finders()

    def stop(g):
        if g["id"] in finders:
            return find
        return False

    def find(I, g, this, vals, st, node):
        I.event(st, "find", node, fn=g["id"], this=this, args=vals)
        ev = st.ev[1]
        ev.d["ret"] = I.opaque({"t": g["rt"]}, False)
        return [(st, ev.d["ret"])]
    I = interp(w, stop)
    res, thr = run_fn(I, f, empty_state())
    ctx.used(I)
    base = (("g", "self"),)
    fl = Fields(nat)
    name = short(f["q"])
    ctx.count("methods analysed")
    for s, v in res:
        xs = [x for x in flat(trace(s.ev)) if x.k == "find"]
        site = I.where(f["L"])
        if len(xs) != 1:
            if not xs and isinstance(v, Poly) and v.const() is not None:
                ctx.skip("search", site, "%s: an answer without a lookup" % name)
            continue
        x = xs[0]
        T = read_find(I, w, nat, base, fl, x, s)
        if T is None or T.kind != "part":
            ctx.skip("search", site, "%s: what is looked up" % name)
            continue
        N = I.rd(s, (vfield(nat, base, fl.N), (T.a,)), "unsigned long")
        ps = [p["n"] for p in f["params"]]
        known = precise(x.facts, T.off, T.n, T.b, T.a)
        if T.off == ZERO and same(x.facts, T.n, N):
            ctx.ok("search", I.where(x.L), "%s: searches the whole list" % name)
        elif known:
            ctx.bad("search", name + ":part", I.where(x.L), "%s: searches %s entries from place %s of a list of %s" % (name, T.n, T.off, N))
        else:
            ctx.skip("search", I.where(x.L), name)
        if T.a != T.b:
            ctx.ok("search", I.where(x.L), "%s: the list of one vertex is searched for the other" % name)
        elif known:
            ctx.bad("search", name + ":self", I.where(x.L), "%s: the list of a vertex is searched for the vertex itself" % name)
        if isinstance(v, Poly) and v == x.d["ret"]:
            ctx.ok("search", site, "%s: the answer is that of the lookup" % name)
        elif isinstance(v, Poly) and precise(s.facts, v):
            ctx.bad("search", name + ":answer", site, "%s: the answer is %s" % (name, v))


# ---- the lookup

def lookup(ctx, w, nat, f):
    """interval search: every narrowing is justified by a comparison on the path"""
    I = interp(w, None)
    res, thr = run_fn(I, f, empty_state())
    ctx.used(I)
    name = short(f["q"])
    ctx.count("methods analysed")
    site = I.where(f["L"])
    pa, pn, pv, pl = f["params"]
    u = "unsigned long"
    n = I.rd(empty_state(), ((("g", pn["n"]),), ()), u)
    val = I.rd(empty_state(), ((("g", pv["n"]),), ()), u)
    arr = None
    for s, v in res:
        for e in flat(trace(s.ev)):
            if e.k == "index":
                arr = e.d["loc"][0]
    if arr is None:
        ctx.skip("search", site, "%s: the list searched" % name)
        return
    at = lambda st, i: I.rd(st, (arr, (i,)), u)
    loops = {id(e): e for s, v in res for e in trace(s.ev) if e.k == "loop"}
    names = {tuple(e.L) for e in loops.values()}
    if len(names) != 1 or any(x.k == "loop" for e in loops.values() for _, t, _ in e.d["iters"] for x in t):
        ctx.skip("search", site, "%s: not an interval search" % name)
        return
    lo = hi = None
    incl = True
    for e in loops.values():
        pre, H = e.d["pre"], e.d["head"]
        vars_ = [(p, H.mem[p], pre.mem.get(p)) for p in sorted(pre.mem, key=str) if isinstance(H.mem.get(p), Poly) and isinstance(pre.mem.get(p), Poly)
                 and (p in e.d["mod"] or pre.mem[p] != ZERO and len(p) == 1)]
        for p, h, v0 in vars_:
            if v0 == ZERO and (lo is None or p == lo):
                lo = p
            elif same(pre.facts, v0, sub(n, ONE)):
                hi, incl = p, True
            elif same(pre.facts, v0, n):
                hi, incl = p, False
        if lo is None or hi is None:
            ctx.skip("search", site, "%s: the interval searched" % name)
            return
        hl, hh = H.mem[lo], H.mem[hi]
        loc = ((("g", pl["n"]),), ())
        for kind, t, st in e.d["iters"]:
            if kind == "end":
                for p, h, below in ((lo, hl, True), (hi, hh, False)):
                    v = st.mem.get(p)
                    if not isinstance(v, Poly):
                        ctx.skip("search", site, name)
                        continue
                    if v == h:
                        continue
                    edge = sub(v, ONE) if below else (add(v, ONE) if incl else v)
                    c = sub(val, at(st, edge))
                    if not below:
                        c = neg(c)
                    side = "lower" if below else "upper"
                    # strictly beyond the value
                    if entails(st.facts, gt(c)):
                        ctx.ok("search", I.where(e.L), "%s: the %s end moves past entries %s than the value" % (name, side, "smaller" if below else "greater"))
                    elif precise(st.facts, v, edge):
                        ctx.bad("search", name + ":" + side, I.where(e.L), "%s: the %s end moves to %s without the entry next to it being %s than the value" %
                                (name, side, v, "smaller" if below else "greater"))
                    else:
                        ctx.skip("search", I.where(e.L), name)
                    # it moves inwards
                    d = sub(v, h) if below else sub(h, v)
                    mid = [x.d["val"] for x in t if x.k in ("store", "init") and isinstance(x.d["val"], Poly)]
                    fs = st.facts
                    if below and entails(fs, gt(d)) or not below and entails(fs, gt(d)):
                        ctx.ok("search", I.where(e.L), "%s: the interval shrinks" % name)
                    else:
                        ctx.skip("search", I.where(e.L), "%s: that the interval shrinks" % name)
                both = [st.mem.get(p) == H.mem[p] for p in (lo, hi)]
                if all(both):
                    ctx.bad("search", name + ":stuck", I.where(e.L), "%s: a step leaves the interval as it is" % name)
            elif kind == "return":
                pass
    # answers
    for e in loops.values():
        for kind, t, st in e.d["iters"]:
            if kind != "return":
                continue
            rs = [x for x in t if x.k == "return"]
            if rs:
                answer(ctx, I, name, f, st, rs[-1].d.get("val"), at, n, val, pl, None, None, I.where(rs[-1].L))
    for s, v in res:
        tr = trace(s.ev)
        lps = [e for e in tr if e.k == "loop"]
        rs = [x for x in flat(tr) if x.k == "return"]
        site1 = I.where(rs[-1].L) if rs else site
        if lps and v is not None:
            answer(ctx, I, name, f, s, v, at, n, val, pl, s.mem.get(lo), (s.mem.get(hi), incl), site1)
        else:
            answer(ctx, I, name, f, s, v, at, n, val, pl, None, None, site1)


def answer(ctx, I, name, f, st, v, at, n, val, pl, lo, hi, site):
    u = "unsigned long"
    if not isinstance(v, Poly) or v.const() is None:
        ctx.skip("search", site, "%s: the answer" % name)
        return
    loc = I.rd(st, ((("g", pl["n"]),), ()), u)
    if v.const() == 1:
        x = at(st, loc) if isinstance(loc, Poly) else None
        if x is not None and entails(st.facts, eq(sub(x, val))):
            ctx.ok("search", site, "%s: found only where the entry is the value" % name)
        elif isinstance(loc, Poly) and precise(st.facts, loc):
            ctx.bad("search", name + ":found", site, "%s: says found at %s, whose entry is not known to be the value" % (name, loc))
        else:
            ctx.skip("search", site, name)
        return
    if v.const() != 0:
        ctx.bad("search", name + ":answer", site, "%s: the answer is %s" % (name, v))
        return
    # not found
    if lo is not None and hi is not None and isinstance(lo, Poly) and isinstance(hi[0], Poly):
        h, incl = hi
        c = gt(sub(lo, h)) if incl else ge(sub(lo, h))
        if entails(st.facts, c):
            ctx.ok("search", site, "%s: not found only when nothing is left to search" % name)
        elif precise(st.facts, lo, h):
            ctx.bad("search", name + ":early", site, "%s: says not found while %s to %s is left" % (name, lo, h))
        else:
            ctx.skip("search", site, name)
        return
    last, firstv = at(st, sub(n, ONE)), at(st, ZERO)
    if entails(st.facts, gt(sub(val, last))):
        ctx.ok("search", site, "%s: not found, the last entry is smaller" % name)
        top = sub(n, ONE)
    elif entails(st.facts, gt(sub(firstv, val))):
        ctx.ok("search", site, "%s: not found, the first entry is greater" % name)
        top = ZERO
    elif entails(st.facts, eq(n)):
        ctx.ok("search", site, "%s: not found in an empty list" % name)
        top = ZERO
    elif precise(st.facts, n, val):
        ctx.bad("search", name + ":early", site, "%s: says not found without comparing the value with an end of the list" % name)
        return
    else:
        ctx.skip("search", site, name)
        return
    if isinstance(loc, Poly) and (entails(st.facts, ge(sub(top, loc))) or loc == top):
        ctx.ok("search", site, "%s: the place reported is not behind the value's" % name)
    elif isinstance(loc, Poly) and precise(st.facts, loc):
        ctx.bad("search", name + ":place", site, "%s: the place reported, %s, can be behind where the value would be" % (name, loc))
