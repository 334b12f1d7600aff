from .c12 import Fields, vfield, same, place, obj, loc_name
from .ops import *

TECHNIQUE = "static analysis: abstract interpretation of the searches (clang AST); every path that writes the best-clique record is checked " \
            "for the complete group of writes, and the size recorded is followed through the search's own accounting"
EXPLAIN = ("On every path through a search, each group of writes to the record of the best clique (members, size or weight, vertex) must be "
           "complete, name one vertex, and be made only where the path conditions give a strictly greater size. The size stored is compared "
           "with the members stored: the variable it comes from must change exactly with the members on every path of every loop, and what "
           "it counts beyond them must be zero on that path. Members of the record may be written by nothing else.")


def run(ctx, prog):
    w = World(prog)
    nats = natives(w)
    ctx.rule("together", "members, size and vertex of the best clique are stored together, for one vertex")
    ctx.rule("better", "a clique is recorded only if it is strictly better than the recorded one")
    ctx.rule("size", "the size recorded is that of the members stored")
    ctx.rule("balance", "the running size of the growing clique changes exactly with its members")
    ctx.rule("enumerated", "the clique an enumeration stores has the size it compared with the one asked for")
    ctx.rule("only", "nothing else writes the members of a recorded clique")
    ops = operators(w, nats)
    items = [(o, f) for o in ops for f in o.units]
    if not items:
        ctx.skip("together", "", "no search found")
        return
    pmap(ctx, items, lambda c, it: one(c, w, *it))
    for nat in nats.values():
        others(ctx, w, nat, {o.cls for o in ops})
    ctx.assume += ["a vertex added to the growing clique was a candidate and therefore not yet a member (C12)",
                   "the bit sets behave as specified (C17)"]


def record_fields(w, op):
    """fields of the native graph that hold size and place of the best clique"""
    nat = op.nat
    ws = set()
    for o in operators(w, {0: nat}):
        for m in o.methods.values():
            ws |= set(fields_written(m))
    return sorted((ws & set(nat.fields)) - {nat.cursor})


class Rec:
    def __init__(self):
        self.members, self.stores, self.at = [], [], None


def groups(t, base, nat, rf):
    """record writes of a trace in groups"""
    out, cur = [], None
    mp = base + ("." + nat.vec, "[]", "." + nat.bits)
    for n, x in enumerate(t):
        hit = None
        if x.k == "bits" and x.d["op"] not in ("count", "next", "operator[]") and obj(x.d["this"])[0] == mp:
            hit = "m"
        elif x.k == "store" and x.d["loc"][0][:-1] == base and x.d["loc"][0][-1] in ["." + f for f in rf]:
            hit = "s"
        elif x.k in ("loop", "icall", "reccall", "push", "pop"):
            cur = None
        if hit:
            if cur is None:
                cur = Rec()
                cur.at = n
                out.append(cur)
            (cur.members if hit == "m" else cur.stores).append(x)
            cur.last = n
    return out


def levels_of(tr, st, up=()):
    """every direct trace: (kind, trace, state, loop event or None, enclosing chain)"""
    yield (None, tr, st, None, up)
    for e in tr:
        if e.k == "loop":
            for kind, t, s in e.d["iters"]:
                for kind2, t2, s2, e2, up2 in levels_of(t, s, ((tr, e),) + up):
                    yield (kind if e2 is None else kind2, t2, s2, e if e2 is None else e2, up2)


def one(ctx, w, op, f):
    nat = op.nat
    base = (("g", op.graph_param(f)),)
    rf = record_fields(w, op)
    I, res, thr = op.run(f)
    op.res = res
    ctx.used(I)
    ctx.count("methods analysed")
    fl = Fields(nat)
    name = short(f["q"])
    seen = {}
    for s, v in res:
        for kind, t, st, e, up in levels_of(trace(s.ev), s):
            for g in groups(t, base, nat, rf):
                if kind not in (None, "end", "break", "return"):
                    continue
                seen.setdefault(tuple(id(x) for x in g.members + g.stores), (g, t, st, e, up))
    writes = set()
    for m in op.methods.values():
        writes |= set(fields_written(m)) & set(rf)
    n = 0
    done = set()
    for g, t, st, e, up in seen.values():
        n += 1
        judge(ctx, w, I, op, nat, base, fl, name, g, t, st, e, up, rf, bool(writes), done)
    ctx.count("records examined", n)
    balance(ctx, I, op, nat, base, fl, name, f, res, done)


def judge(ctx, w, I, op, nat, base, fl, name, g, t, st, e, up, rf, recorder, done):
    x0 = (g.members + g.stores)[0]
    site = I.where(x0.L)
    if not recorder:
        for x in g.members:
            if x.d["op"] in ("copy_data", "copy_from"):
                enumerated(ctx, I, op, nat, base, fl, name, t, st, e, up, x, done)
            ctx.bad("only", "%s:%s" % (name, x.d["op"]), I.where(x.L), "%s writes the members kept for a vertex without recording a size (%s)" % (name, x.d["op"]))
        return
    cps = [x for x in g.members if x.d["op"] in ("copy_data", "copy_from")]
    oth = [x for x in g.members if x not in cps]
    stored = {x.d["loc"][0][-1][1:]: x for x in g.stores}
    if oth:
        ctx.skip("together", site, "%s: members written with %s" % (name, oth[0].d["op"]))
        return
    missing = [q for q in rf if q not in stored] + ([] if cps else ["members"])
    if missing:
        have = [q for q in rf if q in stored] + (["members"] if cps else [])
        ctx.bad("together", "%s:%s" % (name, ",".join(missing)), site, "%s: stores %s of the best clique but not %s" % (name, ", ".join(have), ", ".join(missing)))
        return
    v = obj(cps[-1].d["this"])[1][-1]
    placef = [q for q in rf if "unsigned long" == strip(nat.fields[q]) and isinstance(stored[q].d["val"], Poly) and same(st.facts, stored[q].d["val"], v)]
    if len(rf) != 2:
        ctx.skip("together", site, "%s: fields of the record: %s" % (name, rf))
        return
    ql = [q for q in rf if "LOC" in q.upper()] or placef
    ql = ql[0] if ql else None
    if ql is None:
        ctx.skip("together", site, "%s: which field holds the vertex" % name)
        return
    qs = [q for q in rf if q != ql][0]
    lv, sv = stored[ql].d["val"], stored[qs].d["val"]
    if same(st.facts, lv, v):
        ctx.ok("together", site, "%s: members, size and vertex are stored for one vertex" % name)
    elif isinstance(lv, Poly) and precise(st.facts, lv, v):
        ctx.bad("together", name + ":vertex", I.where(stored[ql].L), "%s: members are stored for vertex %s, but %s becomes %s" % (name, v, ql, lv))
    else:
        ctx.skip("together", site, name)
    x = stored[qs]
    old = x.d.get("old")
    if not isinstance(old, Poly):
        p = x.d["loc"][0]
        prev = [y for y in t[:g.at] if y.k == "store" and y.d["loc"][0] == p]
        old = prev[-1].d["val"] if prev else (e.d["head"].mem.get(p) if e is not None else None)
        if old is None:
            old = I.rd(empty_state(), x.d["loc"], strip(nat.fields[qs]))
    if isinstance(sv, Poly) and isinstance(old, Poly):
        if entails(x.facts, gt(sub(sv, old))):
            ctx.ok("better", I.where(x.L), "%s: recorded only if better" % name)
        elif weightless(I, op, nat, base, fl, op.res, st, x.facts, sv, old, family(obj(cps[-1].d["args"][0]))):
            ctx.ok("better", I.where(x.L), "%s: recorded only if better, with no candidate left" % name)
        elif recounted(t, x.facts, sv) or taken_over(op.res, st, x.facts, sv, old):
            ctx.skip("better", I.where(x.L), "%s: members counted anew" % name)
        elif precise(x.facts, sv, old):
            ctx.bad("better", name, I.where(x.L), "%s: %s is recorded, which may be no better than %s" % (name, sv, old))
        else:
            ctx.skip("better", I.where(x.L), name)
        size(ctx, I, op, nat, base, fl, name, g, t, st, e, up, sv, cps[-1], x, done)
    else:
        ctx.skip("better", I.where(x.L), name)


def enumerated(ctx, I, op, nat, base, fl, name, t, st, e, up, cp, done):
    """an enumeration stores as many members (or as much weight) as it compared with what was asked for"""
    site = I.where(cp.L)
    fam = family(obj(cp.d["args"][0]))
    at = t.index(cp)
    mov = units([y for n, y in enumerate(t) if y.k == "bits" and y.d["op"] in ("set", "reset")
                 and (family(obj(y.d["this"])) == fam if n < at else obj(y.d["this"]) == obj(cp.d["this"]))])
    if mov is None:
        ctx.skip("enumerated", site, "%s: members moved" % name)
        return
    fs, got = cp.facts, []
    me = (("g", "self"),)
    writes = {q for m in op.methods.values() if not m.get("ctor") for q in fields_written(m)}
    for p, v in sorted(st.mem.items(), key=str):
        if not isinstance(v, Poly) or v.single() is None or not (p[:1] == me and len(p) == 2 or len(p) == 1):
            continue
        cs = [c for c in fs.all() if c[0] in ("ge", "gt") and c[1].coef((v.single(),)) == 1]
        if not cs:
            continue
        acc = list(account(I, op, nat, base, fl, op.res, p, fam))
        if not any(a[1] and a[3] for a in acc):
            continue
        for c in cs:
            rest = sub(c[1], v)
            for b in rest.atoms():
                # what was asked for: a value the search was created with
                nm = tm.show(tm._mk({(b,): 1}))
                if rest.coef((b,)) == -1 and nm.startswith("g/self.") and nm[7:] not in writes:
                    val = add(rest, tm._mk({(b,): 1}))
                    left, ok = spend(I, st, nat, base, fl, op, fs, val, mov)
                    got.append((ok, val, left, add(v, val)))
    if any(z[0] for z in got):
        ctx.ok("enumerated", site, "%s: the members stored have the size compared with the one asked for" % name)
    elif got and all(precise(fs, z[1], *[m for m, _ in mov]) for z in got):
        ctx.bad("enumerated", name, site, "%s: compares %s with the size asked for, which is %s off the size of the members stored" %
                (name, got[0][3], got[0][2]))
    else:
        ctx.skip("enumerated", site, "%s: size compared with the one asked for" % name)


def recounted(t, fs, val):
    """is the value a count of members that no condition mentions?"""
    known = {a for c in fs.all() for q in tm.cond_polys(c) for a in q.atoms()} if fs is not None else set()
    for y in t:
        if y.k == "bits" and y.d["op"] == "count" and isinstance(y.d["ret"], Poly):
            a = y.d["ret"].single()
            if a is not None and a in val.atoms() and a not in known:
                return True
    return False


def family(loc):
    """name of the variable or field a bit set is"""
    x = loc[0][-1]
    return x[-1] if isinstance(x, tuple) else x.lstrip(".")


def size(ctx, I, op, nat, base, fl, name, g, t, st, e, up, sv, cp, x, done):
    site = I.where(x.L)
    fs = x.facts
    src = obj(cp.d["args"][0])
    fam = family(src)
    before = t[:t.index(cp)]
    moves = [y for y in before if y.k == "bits" and y.d["op"] in ("set", "reset") and family(obj(y.d["this"])) == fam]
    # counted directly
    for y in reversed(before):
        if y.k == "bits" and y.d["op"] == "count" and obj(y.d["this"]) == src:
            later = [m for m in moves if before.index(m) > before.index(y)]
            if not later and isinstance(y.d["ret"], Poly):
                r = sub(sv, y.d["ret"])
                if entails(fs, eq(r)):
                    ctx.ok("size", site, "%s: the size recorded is the number of members" % name)
                elif precise(fs, r):
                    ctx.bad("size", name, site, "%s: records %s for %s members" % (name, sv, y.d["ret"]))
                else:
                    ctx.skip("size", site, name)
                return
    # the value, with what the last loop before it left in it taken apart
    lp = [n for n in range(g.at) if t[n].k == "loop" and any(y.k == "find" for _, t2, _ in t[n].d["iters"] for y in t2)]
    val, why = sv, []
    if lp:
        val, why = unfold(I, op, fl, nat, base, t, lp[-1], g.at, st, sv, fs)
        if val is None:
            ctx.skip("size", site, "%s: %s" % (name, why))
            return
    H = e.d["head"] if e is not None else None
    mov = units(moves)
    if mov is None:
        ctx.skip("size", site, "%s: members moved" % name)
        return
    # running size
    zs = []
    if H is not None:
        for p in sorted(set(e.d["mod"]) | {q for c in up for q in c[1].d["mod"]}, key=str):
            h = H.mem.get(p)
            if isinstance(h, Poly) and h.single() is not None and h.single() in val.atoms() and val.coef((h.single(),)) == 1:
                zs.append((p, h))
    zs = zs or [(None, ZERO)]
    got = []
    for p, h in zs:
        rest = sub(val, h)
        left, ok = spend(I, st, nat, base, fl, op, fs, rest, mov)
        got.append((ok, p, rest, left))
    ok = [z for z in got if z[0]]
    if ok:
        if ok[0][1] is not None:
            done.add((ok[0][1], fam))
        ctx.ok("size", site, "%s: the size recorded is that of the members stored" % name)
        return
    got = [z for z in got if z[1] is None or changes(I, e, up, z[1], fam)] or got
    ok, p, rest, left = got[0]
    if precise(fs, rest, *[m for m, _ in mov]):
        if p is not None:
            done.add((p, fam))
        ctx.bad("size", name, site, "%s: records %s, which is %s off the size of the members stored" % (name, sv, left))
    else:
        ctx.skip("size", site, name)


def changes(I, e, up, p, fam):
    for tr, lp in ((None, e),) + tuple(up):
        for kind, t, s in lp.d["iters"]:
            if any(y.k == "store" and y.d["loc"][0] == p for y in t) and any(y.k == "bits" and y.d["op"] in ("set", "reset") and family(obj(y.d["this"])) == fam for y in t):
                return True
    return False


def units(moves):
    """net places set: [(place, +1 or -1)]"""
    out = []
    for y in moves:
        if not y.d["args"] or not isinstance(y.d["args"][0], Poly):
            return None
        out.append((y.d["args"][0], 1 if y.d["op"] == "set" else -1))
    net = []
    for p, s in out:
        for q in net:
            if q[0] == p and q[1] == -s:
                net.remove(q)
                break
        else:
            net.append((p, s))
    return net


def spend(I, st, nat, base, fl, op, fs, rest, mov):
    """is rest the size (or weight) of the places moved?"""
    left = rest
    tot = sum(s for _, s in mov)
    if entails(fs, eq(sub(left, num(tot)))):
        return ZERO, True
    for j, s in mov:
        got = None
        for a in sorted(left.atoms(), key=str):
            c = left.coef((a,))
            if c != s:
                continue
            i = tm.info(a)[0]
            if i[0] != "sel":
                continue
            ix = i[2] if isinstance(i[2], tuple) else (i[2],)
            v = ix[-1]
            if not isinstance(v, Poly):
                continue
            at = mono(a)
            # a table of weights by place
            if same(fs, v, j) and not is_vertex(I, st, nat, base, at, v):
                got = at
            # the weight of the vertex at that place
            elif is_vertex(I, st, nat, base, at, v):
                sp = I.rd(st, (vfield(nat, base, fl.spos), (v,)), "unsigned long")
                if same(fs, sp, j) or place(I, st, nat, base, fl, v, j):
                    got = at
            if got is not None:
                break
        if got is None:
            return left, False
        left = sub(left, got) if s > 0 else add(left, got)
    return left, entails(fs, eq(left))


def mono(a):
    return Poly((((a,), 1),))


def is_vertex(I, st, nat, base, at, v):
    for q in I.recs[nat.vcls]["fields"]:
        if strip(q["t"]) == "double" and I.rd(st, (vfield(nat, base, q["n"]), (v,)), "double") == at:
            return True
    return False


def unfold(I, op, fl, nat, base, t, n, at, st, sv, fs):
    """replace what a filter loop left in a variable by what it stands for"""
    e = t[n]
    H, pre = e.d["head"], e.d["pre"]
    iters = [(k, t2, s2) for k, t2, s2 in e.d["iters"] if k in ("end", "break")]
    hs = {p: H.mem[p] for p in e.d["mod"] if isinstance(H.mem.get(p), Poly)}
    vec = [y.d["loc"] for _, t2, _ in iters for y in t2 if y.k == "push"]
    vec = vec[0] if vec else None
    stored = {y.d["loc"][0] for y in t[n + 1:at] if y.k == "store"}
    out = {p: st.mem.get(p) for p in hs if p not in stored}
    removed = [any(y.k == "push" or y.k == "bits" and y.d["op"] == "reset" for y in t2) for _, t2, _ in iters]
    # counts of the candidates left
    empty = []
    for p, h in hs.items():
        v0 = pre.mem.get(p)
        ds = [sub(s2.mem[p], h) if isinstance(s2.mem.get(p), Poly) else None for _, _, s2 in iters]
        if any(d is None for d in ds):
            continue
        if all(d == (neg(ONE) if r else ZERO) for d, r in zip(ds, removed)) and any(removed):
            o = out.get(p)
            if isinstance(o, Poly) and entails(fs, eq(o)):
                empty.append(p)
    val = sv
    zero = [p for p in empty]
    for p, h in hs.items():
        o = out.get(p)
        if not isinstance(o, Poly) or o.single() is None or o.single() not in val.atoms():
            continue
        if p in zero:
            val = sub(val, o)
            continue
        v0 = pre.mem.get(p)
        if not isinstance(v0, Poly):
            return None, "value before the loop"
        ds = [sub(s2.mem[p], h) if isinstance(s2.mem.get(p), Poly) else None for _, _, s2 in iters]
        if any(d is None for d in ds):
            return None, "value after the loop"
        # weight of what was kept: nothing was kept if none are left
        if all(h.single() not in d.atoms() for d in ds) and all(d == ZERO for d, r in zip(ds, removed) if r):
            if not empty:
                return None, "that no candidate is left"
            val = add(sub(val, o), v0)
            continue
        # count less the length of the list of removals
        if vec is not None:
            sz = vec[0] + ("#size",)
            qs = set()
            for _, _, s2 in iters:
                z = I.vsize(s2, vec)
                v = s2.mem.get(p)
                if v == h and z == I.vsize(H, vec):
                    continue
                qs.add(add(v, z) if isinstance(z, Poly) else None)
            z0 = I.vsize(pre, vec)
            qs.add(add(v0, z0) if isinstance(z0, Poly) else None)
            q0 = [q for q in qs if q is not None]
            if len(q0) == len(qs) and all(same(pre.facts, q, q0[0]) for q in q0):
                # removals are distinct candidates, and no candidate is left
                val = add(sub(val, o), q0[0])
                continue
        return None, "what the loop leaves in %s" % (p[-1],)
    return val, None


def balance(ctx, I, op, nat, base, fl, name, f, res, done):
    """the running size changes with the members on every path"""
    cnt = {y.d["ret"].single() for s, _ in res for y in flat(trace(s.ev)) if y.k == "bits" and y.d["op"] == "count" and isinstance(y.d["ret"], Poly)}
    for p, fam in sorted(done, key=str):
        pn = p[-1] if not isinstance(p[-1], tuple) else p[-1][-1]
        for site, ok, val, mov, fs in account(I, op, nat, base, fl, res, p, fam):
            if ok:
                ctx.ok("balance", site, "%s: %s changes with the members" % (name, pn))
            elif ok is False and any(a in cnt for a in val.atoms()):
                ctx.skip("balance", site, "%s: %s is counted anew" % (name, pn))
            elif ok is False and precise(fs, val, *[m for m, _ in mov]):
                ctx.bad("balance", "%s:%s" % (name, pn), site, "%s: %s changes by %s on a path where %s member%s" %
                        (name, pn, val, ", ".join("%+d at %s" % (s_, m) for m, s_ in mov) or "no", "s change" if not mov else " changes"))
            else:
                ctx.skip("balance", site, "%s: %s" % (name, pn))


def account(I, op, nat, base, fl, res, p, fam):
    """per path: does the variable change by the size of the places moved in the family of bit sets?"""
    seen = set()
    for s, v in res:
        for kind, t, st, e, up in levels_of(trace(s.ev), s):
            if id(t) in seen and e is not None:
                continue
            seen.add(id(t))
            if e is None:
                # the first value
                cut = [n for n, y in enumerate(t) if y.k in ("store", "init") and y.d["loc"][0] == p]
                if not cut:
                    continue
                y = t[cut[0]]
                mov = units([m for m in t[:cut[0]] if m.k == "bits" and m.d["op"] in ("set", "reset") and family(obj(m.d["this"])) == fam])
                val = y.d["val"]
                if id(y) in seen:
                    continue
                seen.add(id(y))
            else:
                ss = [y for y in t if y.k == "store" and y.d["loc"][0] == p]
                ms = [m for m in t if m.k == "bits" and m.d["op"] in ("set", "reset") and family(obj(m.d["this"])) == fam]
                if not ss and not ms or kind not in ("end", "break"):
                    continue
                mov = units(ms)
                val = ZERO
                for y in ss:
                    o = prior(I, y, t, e, p)
                    val = add(val, sub(y.d["val"], o)) if isinstance(val, Poly) and isinstance(o, Poly) and isinstance(y.d["val"], Poly) else None
                y = ss[0] if ss else ms[0]
            site = I.where(y.L)
            if mov is None or not isinstance(val, Poly):
                yield site, None, None, None, None
                continue
            yield site, spend(I, st, nat, base, fl, op, st.facts, val, mov)[1], val, mov, st.facts


def weightless(I, op, nat, base, fl, res, st, fs, sv, old, members):
    """a variable that weighs the remaining candidates, of which there are none, makes up the difference"""
    fams = sorted({family(obj(x.d["this"])) for s, _ in res for x in flat(trace(s.ev)) if x.k == "bits" and x.d["op"] == "reset"} - {members})
    mine = (("g", "self"),)
    ps = [p for p, o in st.mem.items() if isinstance(o, Poly) and (p[:1] == mine and len(p) == 2 or len(p) == 1)]
    none = [p for p in ps if entails(fs, eq(st.mem[p]))]
    more = [p for p in ps if p not in none and st.mem[p].single() is not None and entails(fs, gt(sub(add(sv, st.mem[p]), old)))]
    for fam in fams:
        for q in none:
            qa = [r[1] for r in account(I, op, nat, base, fl, res, q, fam)]
            if not qa or not all(qa):
                continue
            for p in more:
                pa = [r[1] for r in account(I, op, nat, base, fl, res, p, fam)]
                if pa and all(pa):
                    return True
    return False


def taken_over(res, st, fs, sv, old):
    """is a variable that is known to be zero set from another one, so that what it counts is not followed here?"""
    mine = (("g", "self"),)
    ps = [p for p, o in st.mem.items() if isinstance(o, Poly) and (p[:1] == mine and len(p) == 2 or len(p) == 1)]
    none = {p for p in ps if entails(fs, eq(st.mem[p]))}
    if not any(p not in none and st.mem[p].single() is not None and entails(fs, gt(sub(add(sv, st.mem[p]), old))) for p in ps):
        return False
    return any(y.k == "store" and y.d["loc"][0] in none and y.d.get("op") not in ("+", "-", "++", "--")
               and isinstance(y.d["val"], Poly) and y.d["val"].const() is None for s, _ in res for y in trace(s.ev))


def prior(I, y, t, e, p):
    if isinstance(y.d.get("old"), Poly):
        return y.d["old"]
    if isinstance(y.d.get("rhs"), Poly) and y.d.get("op") in ("+", "-"):
        return sub(y.d["val"], y.d["rhs"]) if y.d["op"] == "+" else add(y.d["val"], y.d["rhs"])
    if y.d.get("op") in ("++", "--"):
        return sub(y.d["val"], ONE) if y.d["op"] == "++" else add(y.d["val"], ONE)
    ev = [z for z in t[:t.index(y)] if z.k == "store" and z.d["loc"][0] == p]
    if ev:
        return ev[-1].d["val"]
    if any(z.k == "loop" and p in z.d["mod"] for z in t[:t.index(y)]):
        return None
    return e.d["head"].mem.get(p)


# ---- everything else

def mutators(w, nat):
    out = set()
    for f in w.fns.values():
        if f.get("class") == nat.bcls and f.get("body") and not f.get("ctor") and (f["rt"] == "void" or f.get("rref")) and not f.get("const"):
            out.add(f["id"])
    return out


def others(ctx, w, nat, ops):
    I = interp(w, None)
    muts = mutators(w, nat)
    ctors = [f for f in w.fns.values() if f.get("class") == nat.cls and f.get("ctor") and f.get("body")]
    build = set()
    for f in ctors:
        build |= reach(w, f) | {f["id"]}
    callers = {}
    for f in w.fns.values():
        for i in called(f):
            callers.setdefault(i, set()).add(f["id"])

    def only_build(i, seen=(), also=frozenset()):
        if i in {f["id"] for f in ctors} or i in also:
            return True
        if i in seen:
            return True
        cs = callers.get(i, set())
        return bool(cs) and all(only_build(c, seen + (i,), also) for c in cs)
    # functions that put the recorded size back to a constant
    searched = {n for g in w.fns.values() if g.get("class") in ops for n in fields_written(g)} & set(nat.fields)
    again = frozenset(f["id"] for f in w.fns.values() if f.get("body") and f.get("class") not in ops and constant_to(f["body"], nat.cls, searched))
    for f in w.fns.values():
        if not f.get("body") or f.get("class") in ops or f.get("class") == nat.bcls:
            continue
        hits = []

        def rec(n):
            if isinstance(n, dict):
                if n.get("e") == "mcall" and n.get("id") in muts:
                    o = n.get("b")
                    while isinstance(o, dict) and o.get("e") == "cast":
                        o = o.get("a")
                    if isinstance(o, dict) and o.get("e") == "field" and o.get("n") == nat.bits and o.get("c") == nat.vcls:
                        hits.append(n)
                for v in n.values():
                    rec(v)
            elif isinstance(n, list):
                for v in n:
                    rec(v)
        rec(f["body"])
        if not hits:
            continue
        site = I.where(hits[0]["L"])
        if f.get("class") == nat.vcls:
            if only_build(f["id"]):
                ctx.ok("only", site, "%s sets the members up, called only while a graph is built" % short(f["q"]))
            else:
                who = [short(w.fns[c]["q"]) for c in callers.get(f["id"], ()) if not only_build(c)]
                ctx.bad("only", short(f["q"]), site, "%s writes the members kept for a vertex and is called from %s" % (short(f["q"]), ", ".join(who)))
        elif f["id"] in {c["id"] for c in ctors} or only_build(f["id"]):
            ctx.ok("only", site, "%s sets the members up while a graph is built" % short(f["q"]))
        elif only_build(f["id"], also=again) and [h["n"] for h in hits][-2:] == ["clear", "set"] and own_place(hits[-1], nat):
            ctx.ok("only", site, "%s puts the members back to the vertex itself, called only where the recorded size is put back" % short(f["q"]))
        else:
            ctx.bad("only", short(f["q"]), site, "%s writes the members kept for a vertex" % short(f["q"]))


def constant_to(n, cls, names):
    if isinstance(n, dict):
        if n.get("e") == "asg" and isinstance(n.get("a"), dict) and n["a"].get("e") == "field" and n["a"].get("c") == cls and n["a"]["n"] in names:
            b = n.get("b")
            while isinstance(b, dict) and b.get("e") == "cast":
                b = b["a"]
            if isinstance(b, dict) and b.get("e") in ("int", "float"):
                return True
        return any(constant_to(v, cls, names) for v in n.values())
    if isinstance(n, (list, tuple)):
        return any(constant_to(v, cls, names) for v in n)
    return False


def own_place(call, nat):
    """is the bit set that of the vertex itself, on the vertex the bits belong to?"""
    def bare(n):
        while isinstance(n, dict) and n.get("e") == "cast":
            n = n["a"]
        return n

    def text(n):
        if isinstance(n, dict):
            return tuple(sorted((k, text(v)) for k, v in n.items() if k not in ("L", "t")))
        if isinstance(n, (list, tuple)):
            return tuple(text(v) for v in n)
        return n
    a, o = bare(call["args"][0]) if call.get("args") else None, bare(call.get("b"))
    return isinstance(a, dict) and a.get("e") == "field" and a.get("n") == Fields(nat).spos and text(bare(a.get("b"))) == text(bare(o.get("b")))
