from .front import *
import re

TECHNIQUE = "static analysis: abstract interpretation of the edge sorting and cleaning functions (clang AST), each on its own with " \
            "symbolic arrays; the effect of every loop iteration on the two lists is compared"
EXPLAIN = ("The functions working on the two lists of end points are interpreted one by one with symbolic contents and ranges. In "
           "every path and every loop iteration the moves within the first list must be those within the second. For the sorts, the "
           "facts on the paths that exchange or leave neighbours must give the order by first and then second end point, and the "
           "digits, bins and sub-ranges of the radix sort must cover the whole range. For the removal of duplicates, a dropped edge "
           "must equal the last kept one in both ends.")


def run(ctx, prog):
    w = World(prog)
    ctx.rule("together", "whatever moves in one list moves in the other, between the same places")
    ctx.rule("order", "neighbours are exchanged only if out of order, and left only if in order, by first then second end point")
    ctx.rule("range", "the sort covers its whole range")
    ctx.rule("bins", "each element goes to the bin of its digit; bins lie next to each other and inside the tables")
    ctx.rule("digits", "the radix sort goes through all digits of the first and then the second end point")
    ctx.rule("duplicates", "an edge is dropped only if both ends equal those of the last one kept, and kept otherwise")
    ctx.rule("clean", "both lists are sorted, freed of duplicates and cut over the same range and to the same length")
    F = {}
    for f in prog["functions"].values():
        ps = [p for p in f["params"] if p["t"].replace("*", "").strip() == "unsigned long" and "*" in p["t"]]
        if not f.get("class") and f.get("body") and len(ps) == 2 and f["params"][:2] == ps and "detail" in f["q"] and loops_in(f) and (changes(f) or any(changes(w.fns[i]) for i in reach_calls(w, f))):
            F[f["id"]] = f
    sorts, dedup = {}, {}
    for f in F.values():
        (dedup if f["rt"] == "unsigned long" else sorts)[f["id"]] = f
    cleaners = [f for f in prog["functions"].values() if f.get("body") and f["id"] not in F and calls(f, set(F))]
    if not F:
        ctx.skip("together", "", "no function that works on two lists")
        return
    todo = [(f, F) for f in F.values()]
    pmap(ctx, todo, lambda c, t: one(c, w, t[0], F))
    cl = {f["id"] for f in cleaners}
    beyond = {}
    for f in prog["functions"].values():
        if f.get("body") and calls(f, cl):
            caller(ctx, w, f, cl, beyond)
    for f in cleaners:
        clean(ctx, w, f, sorts, dedup, F, beyond.get(f["id"]))
    ctx.assume += ["end points handed over are at most the number of vertices (C02, C05)"]


def loops_in(f):
    def rec(n):
        if isinstance(n, dict):
            return n.get("s") in ("for", "while", "do", "rfor") or any(rec(v) for v in n.values())
        return isinstance(n, list) and any(rec(v) for v in n)
    return rec(f["body"])


def changes(f):
    out = []

    def rec(n):
        if isinstance(n, dict):
            if n.get("e") == "call" and (n.get("q") or "") in ("std::swap", "std::iter_swap"):
                out.append(1)
            if n.get("e") == "asg":
                t = n["a"]
                if t.get("e") == "sub" or (t.get("e") == "un" and t.get("op") == "*"):
                    out.append(1)
            for v in n.values():
                rec(v)
        elif isinstance(n, list):
            for v in n:
                rec(v)
    rec(f["body"])
    return bool(out)


def calls(f, ids):
    def rec(n):
        if isinstance(n, dict):
            if n.get("e") in ("call", "mcall") and n.get("id") in ids and n.get("id") != f["id"]:
                return True
            return any(rec(v) for v in n.values())
        if isinstance(n, list):
            return any(rec(v) for v in n)
        return False
    return rec(f["body"]) or rec(f.get("inits") or [])


def segments(tr, name="", top=True):
    """[(events without those of nested loops, loop event, kind, state)]"""
    out = [(tr, None, None, None)] if top else []
    for e in tr:
        if e.k == "loop":
            for kind, t, s in e.d["iters"]:
                out.append((t, e, kind, s))
                out += segments(t, name, False)
    return out


class Seg:
    def __init__(self, tr, lev, kind, st, top):
        self.tr, self.lev, self.kind, self.st, self.top = tr, lev, kind, st, top


def one(ctx, w, f, F):
    I = interp(w, lambda g: g["id"] in F and g["id"] != f["id"])
    I.cap = 400
    name = f["n"]
    ctx.count("functions analysed alone")
    res, thr = run_fn(I, f, empty_state())
    ctx.used(I)
    p0, p1 = ((("g", f["params"][k]["n"]), "*", "[]") for k in (0, 1))
    together(ctx, I, name, res, p0, p1)
    rec = [e for s, _ in res for e in flat(trace(s.ev)) if e.k == "reccall"]
    if f["rt"] == "unsigned long":
        duplicates(ctx, I, f, res, p0, p1)
    elif rec:
        radix(ctx, I, f, res, p0, p1, F)
    else:
        insertion(ctx, I, f, res, p0, p1)


def moves(tr, p0, p1):
    """[(list, kind, places, event)] made in this stretch of events"""
    out = []
    for e in tr:
        if e.k == "swap":
            a, b = e.d["a"], e.d["b"]
            w = [0 if x[0] == p0 else 1 if x[0] == p1 else None for x in (a, b)]
            if w == [None, None]:
                continue
            if w[0] != w[1]:
                out.append((None, "swap", None, e))
            else:
                out.append((w[0], "swap", (a[1][-1], b[1][-1]), e))
        elif e.k == "store" and e.d["loc"][0] in (p0, p1):
            k = 0 if e.d["loc"][0] == p0 else 1
            v = e.d["val"]
            src = None
            if isinstance(v, Poly) and v.single() is not None:
                i = tm.info(v.single())[0]
                if i[0] == "sel":
                    src = i[2][-1] if isinstance(i[2], tuple) else i[2]
            out.append((k, "store", (e.d["loc"][1][-1], src), e))
        elif e.k in ("bulk", "sort", "rangecopy") or (e.k == "ucall"):
            for a in list(e.d.get("args") or ()):
                if isinstance(a, tuple) and a and a[0] == "ptr" and a[1] in (p0, p1):
                    out.append((None, "other", None, e))
    return out


def same(facts, a, b):
    return isinstance(a, Poly) and isinstance(b, Poly) and (a == b or entails(facts, eq(sub(a, b))))


def together(ctx, I, name, res, p0, p1):
    seen = set()
    for s, _ in res:
        for tr, lev, kind, st in segments(trace(s.ev)):
            m = moves(tr, p0, p1)
            key = tuple(id(x[3]) for x in m)
            if not m or key in seen:
                continue
            seen.add(key)
            site = I.where(m[0][3].L)
            mixed = [x for x in m if x[0] is None]
            if mixed:
                if any(x[1] == "swap" for x in mixed):
                    ctx.bad("together", name + ":mixed", I.where(mixed[0][3].L), "%s: exchanges elements of different lists" % name)
                else:
                    ctx.skip("together", site, "%s: library call on one list" % name)
                continue
            a = [x for x in m if x[0] == 0]
            b = [x for x in m if x[0] == 1]
            ok, why, known = True, "", True
            if len(a) != len(b):
                ok, why = False, "%d moves in the first list and %d in the second" % (len(a), len(b))
            else:
                for x, y in zip(a, b):
                    f = y[3].facts
                    if x[1] != y[1]:
                        ok, why, known = False, "different kinds of moves", False
                        break
                    u, v = x[2], y[2]
                    if any(not isinstance(t, Poly) for t in u + v):
                        ok, why, known = False, "a value whose origin is not known", False
                        break
                    if same(f, u[0], v[0]) and same(f, u[1], v[1]):
                        continue
                    if x[1] == "swap" and same(f, u[0], v[1]) and same(f, u[1], v[0]):
                        continue
                    ok = False
                    why = "the first list moves between %s and %s, the second between %s and %s" % (u + v)
                    known = precise(f, *(u + v))
                    break
            if ok:
                ctx.ok("together", site, "%s: %d moves in step" % (name, len(a)))
            elif known:
                ctx.bad("together", name, site, "%s: %s" % (name, why), path=[I.where(x[3].L) for x in m])
            else:
                ctx.skip("together", site, "%s: %s" % (name, why))


def at(I, st, path, idx):
    return I.rd(st, (path, (idx,)), "unsigned long")


def lex(facts, a0, a1, b0, b1, strict=False):
    """(a0, a1) <= (b0, b1) follows (or < if strict)"""
    if entails(facts, gt(sub(b0, a0))):
        return True
    return entails(facts, eq(sub(a0, b0))) and entails(facts, gt(sub(b1, a1)) if strict else ge(sub(b1, a1)))


def insertion(ctx, I, f, res, p0, p1):
    """exchange of neighbours in a loop running down inside a loop running up"""
    name = f["n"]
    start, end = (I.rd(empty_state(), gl(p["n"]), p["t"]) for p in f["params"][2:4])
    done = set()
    found = False
    for s, _ in res:
        for e in trace(s.ev):
            if e.k != "loop" or id(e) in done:
                continue
            done.add(id(e))
            inner = [(st, x, t) for kind, t, st in e.d["iters"] for x in t if x.k == "loop"]
            if not inner:
                continue
            outer_ok = None
            for st, x, t in inner:
                sw = []
                for kind, t2, st2 in x.d["iters"]:
                    m = [y for y in moves(t2, p0, p1) if y[1] == "swap" and y[2]]
                    if m:
                        sw.append((t2, m, st2))
                if not sw:
                    continue
                found = True
                H = x.d["head"]
                for t2, m, st2 in sw:
                    u, v = m[0][2]
                    d = sub(u, v).const()
                    if d not in (1, -1):
                        ctx.skip("order", I.where(m[0][3].L), name + ": exchange of elements that are not neighbours")
                        continue
                    lo, hi = (v, u) if d == 1 else (u, v)
                    fa = m[0][3].facts
                    a0, b0, a1, b1 = at(I, H, p0, lo), at(I, H, p0, hi), at(I, H, p1, lo), at(I, H, p1, hi)
                    site = I.where(m[0][3].L)
                    if lex(fa, b0, b1, a0, a1):
                        ctx.ok("order", site, name + ": exchanged if out of order")
                    elif precise(fa, a0, b0, a1, b1):
                        ctx.bad("order", name + ":exchange", site, name + ": neighbours are exchanged although they may be in order")
                    else:
                        ctx.skip("order", site, name + ": condition of the exchange")
                # where the inner loop is left
                u, v = sw[0][1][0][2]
                hs = {p: h for p, (h, v0, step) in scalar_steps(x).items() if step == -1}
                var = [p for p, h in hs.items() if any(c == h.single() for c in u.atoms())]
                if len(var) != 1:
                    ctx.skip("order", I.where(x.L), name + ": counter of the inner loop")
                    continue
                off = [sub(z, hs[var[0]]).const() for z in (u, v)]
                if None in off:
                    ctx.skip("order", I.where(x.L), name + ": places exchanged")
                    continue
                j = st.mem.get(var[0])
                if not isinstance(j, Poly):
                    ctx.skip("order", I.where(x.L), name + ": counter of the inner loop")
                    continue
                lo, hi = add(j, num(min(off))), add(j, num(max(off)))
                a0, b0, a1, b1 = at(I, st, p0, lo), at(I, st, p0, hi), at(I, st, p1, lo), at(I, st, p1, hi)
                site = I.where(x.L)
                if entails(st.facts, ge(sub(start, lo))) and not entails(st.facts, ge(sub(lo, start))) or entails(st.facts, eq(sub(hi, start))):
                    ctx.ok("order", site, name + ": left at the start of the range")
                elif lex(st.facts, a0, a1, b0, b1):
                    ctx.ok("order", site, name + ": left if in order")
                elif precise(st.facts, a0, b0, a1, b1):
                    ctx.bad("order", name + ":left", site,
                            name + ": neighbours are left although they may be out of order by first and then second end point")
                else:
                    ctx.skip("order", site, name + ": where the exchanges end")
                # the inner loop starts at the outer counter
                rng = loop_range(e)
                j0 = x.d["pre"].mem.get(var[0])
                outer = [r for r in rng if isinstance(j0, Poly) and sub(add(j0, num(max(off))), r[0]).const() is not None]
                if len(outer) == 1:
                    h, v0, top, complete, p = outer[0]
                    o = sub(add(j0, num(max(off))), h).const()
                    first, last = add(v0, num(o)), add(top, num(o))
                    if entails(H.facts, le_(first, add(start, ONE))) and entails(e.d["pre"].facts, ge(sub(last, end))) and complete:
                        ctx.ok("range", I.where(e.L), name + ": elements %s to %s are moved into place" % (first, last))
                    elif precise(H.facts, first, last):
                        ctx.bad("range", name, I.where(e.L), "%s: elements %s to %s are moved into place, the range is %s to %s" %
                                (name, first, last, start, end))
                    else:
                        ctx.skip("range", I.where(e.L), name + ": range")
                else:
                    ctx.skip("range", I.where(e.L), name + ": range of the outer loop")
    if not found:
        ctx.skip("order", I.where(f["L"]), name + ": not a sort by exchanging neighbours")


def le_(a, b):
    return ge(sub(b, a))


# ---------------------------------------------------------------- radix sort

def digit(v):
    """(value, shift, number of bins) of (value >> shift) & (bins - 1)"""
    if not isinstance(v, Poly) or v.single() is None:
        return None
    i = tm.info(v.single())[0]
    if i[0] == "app" and i[1] == "mod" and isinstance(i[3], Poly) and i[3].const() is not None:
        x = i[2]
        if isinstance(x, Poly) and x.single() is not None:
            j = tm.info(x.single())[0]
            if j[0] == "app" and j[1] == "shr":
                return j[2], j[3], i[3].const()
    return None


def sel_of(v):
    if isinstance(v, Poly) and v.single() is not None:
        i = tm.info(v.single())[0]
        if i[0] == "sel":
            ix = i[2]
            return i[1], (ix[-1] if isinstance(ix, tuple) else ix)
    return None


def radix(ctx, I, f, res, p0, p1, F):
    name = f["n"]
    st0 = empty_state()
    ps = f["params"]
    if len(ps) != 7 or ps[5]["t"].replace("const ", "") != "bool":
        ctx.skip("digits", I.where(f["L"]), name + ": parameters")
        return
    start, end, shift, key, top = (I.rd(st0, gl(ps[k]["n"]), ps[k]["t"]) for k in (2, 3, 4, 5, 6))
    site0 = I.where(f["L"])
    R = {}

    def put(rule, key_, ok, site, what, bad, known=True, path=None):
        R.setdefault((rule, key_, site), []).append((ok, what, bad, known, path))
    D = None
    for s, _ in res:
        tr = trace(s.ev)
        fs = s.facts
        kf = True if entails(fs, ne(key)) else False if entails(fs, eq(key)) else None
        ev = list(flat(tr))
        # the list looked at
        last = None
        for e in ev:
            if e.k == "index" and e.d["loc"][0] in (p0, p1):
                last = e.d["loc"][0]
            elif e.k == "shift" and e.d["op"] == ">>" and last is not None and sel_of(e.d["a"]):
                if kf is None:
                    put("digits", "key", None, I.where(e.L), "which list is looked at", "", False)
                else:
                    put("digits", "key", last == (p0 if kf else p1), I.where(e.L), "digit of the %s end point" % ("first" if kf else "second"),
                        "the digit is taken from the %s end point when sorting by the %s" % (("second", "first") if kf else ("first", "second")))
                put("digits", "amount", same(e.facts, e.d["amt"], shift), I.where(e.L), "digit at the given shift",
                    "the digit is taken at %s, not at the given shift" % e.d["amt"], precise(e.facts, e.d["amt"]))
        # tables
        for e in ev:
            if e.k == "carr":
                m = re.search(r"\[(\d+)\]$", e.d["t"])
                n = int(m.group(1))
                ix = e.d["loc"][1][-1]
                good = entails(e.facts, ge(ix)) and entails(e.facts, ge(sub(num(n - 1), ix)))
                dg = digit(ix)
                if dg:
                    good = dg[2] <= n
                    D = dg[2]
                put("bins", "table", good, I.where(e.L), "index %s of %d" % (ix, n), "index %s of a table of %d entries" % (ix, n),
                    precise(e.facts, ix))
        loops = [e for e in tr if e.k == "loop"]
        tabs = {}
        for e in ev:
            if e.k == "store" and e.d["loc"][0] and e.d["loc"][0][0][0] == "v" and e.d["loc"][0][-1] == "[]":
                tabs.setdefault(e.d["loc"][0], []).append(e)
        rec = [(e, lev, st) for t, lev, kind, st in segments(tr) for e in t if e.k in ("reccall", "icall")]
        if not rec:
            ok = entails(fs, eq(shift)) and entails(fs, eq(key))
            put("digits", "end", ok, site0, "ends after the last digit of the second end point",
                "a path ends without sorting the bins although digits remain", precise(fs, shift, key))
            continue
        if D is None:
            put("digits", "end", None, site0, "digits", "", False)
            continue
        width = D.bit_length() - 1
        # loops over elements
        hist = [e for e in loops if any(x.k == "store" and x.d["loc"][0] in tabs and x.d.get("op") in ("++", "+") and digit(x.d["loc"][1][-1])
                                        for kind, t, _ in e.d["iters"] for x in t)]
        ends_t = None
        for e in hist:
            rng = loop_range(e)
            for kind, t, st in e.d["iters"]:
                inc = [x for x in t if x.k == "store" and x.d["loc"][0] in tabs and digit(x.d["loc"][1][-1])]
                if len(inc) != 1:
                    put("bins", "count", None, I.where(e.L), "counting", "", False)
                    continue
                x = inc[0]
                ends_t = x.d["loc"][0]
                src = sel_of(digit(x.d["loc"][1][-1])[0])
                r = [r for r in rng if src and same(x.facts, src[1], r[0])]
                ok = bool(r) and same(fs, r[0][1], start) and same(fs, r[0][2], end) and r[0][3] and sub(x.d["val"], at(I, e.d["head"], ends_t, x.d["loc"][1][-1])).const() == 1
                put("bins", "count", ok, I.where(x.L), "each element of the range counted once in the bin of its digit",
                    "elements %s to %s are counted, the range is %s to %s" % (r[0][1], r[0][2], start, end) if r else "the elements counted are not those of the range",
                    bool(r) and precise(fs, r[0][1], r[0][2]))
        # bins: table T[i] = E[i-1] for i >= 1, T[0] = start; E[i] += E[i-1]
        last_rec = max(range(len(tr)), key=lambda k: (tr[k].k == "loop" and any(x.k in ("reccall", "icall") for x in flat([tr[k]])), k))
        starts_t = None
        for e, lev, st in rec:
            a = e.d["args"]
            if e.k == "icall" and len(a) < 4:
                continue
            put("together", "args", a[0][:3] == ("ptr", p0, (ZERO,)) and a[1][:3] == ("ptr", p1, (ZERO,)) if isinstance(a[0], tuple) and isinstance(a[1], tuple) else None,
                I.where(e.L), "both lists handed on in order", "the lists are handed on as %s and %s" % (show_ptr(a[0]), show_ptr(a[1])))
            H = lev.d["head"] if lev is not None else None
            lo, hi = a[2], a[3]
            if H is None or len(tabs) != 2 or ends_t is None:
                put("bins", "handed", None, I.where(e.L), "ranges handed on", "", False)
                continue
            starts_t = [t for t in tabs if t != ends_t][0]
            rng = loop_range(lev)
            good = [r for r in rng if same(e.facts, lo, at(I, H, starts_t, r[0])) and same(e.facts, hi, at(I, H, ends_t, r[0]))]
            put("bins", "handed", bool(good), I.where(e.L), "one bin handed on", "the range %s to %s handed on is not one bin" % (lo, hi),
                precise(e.facts, lo, hi))
            if good:
                h, v0, hi_, complete, p = good[0]
                put("bins", "all", v0.const() is not None and v0.const() <= 0 and hi_.const() is not None and hi_.const() >= D and complete, I.where(lev.L),
                    "all %d bins are sorted" % D, "bins %s to %s of %d are sorted" % (v0, hi_, D))
            if e.k == "reccall":
                if entails(e.facts, eq(shift)):
                    put("digits", "second", entails(e.facts, ne(key)) and same(e.facts, a[4], top) and a[5].const() == 0, I.where(e.L),
                        "goes on with the highest digit of the second end point",
                        "after the lowest digit of the first end point goes on at %s, key_first %s" % (a[4], a[5]), precise(e.facts, a[4], a[5]))
                elif entails(e.facts, ne(shift)):
                    kept = same(e.facts, a[5], key) or (a[5].const() == 1 and entails(e.facts, ne(key))) or (a[5].const() == 0 and entails(e.facts, eq(key)))
                    put("digits", "next", same(e.facts, a[4], sub(shift, num(width))) and kept, I.where(e.L), "goes on with the next digit",
                        "goes on at %s with key_first %s; digits have %d bits" % (a[4], a[5], width), precise(e.facts, a[4], a[5]))
                else:
                    put("digits", "next", None, I.where(e.L), "next digit", "", False)
                put("digits", "top", same(e.facts, a[6], top), I.where(e.L), "highest digit handed on", "the highest digit handed on is %s" % a[6],
                    precise(e.facts, a[6]))
        # bins left out
        for lev in {id(x[1]): x[1] for x in rec if x[1] is not None}.values():
            if starts_t is None or ends_t is None:
                break
            H = lev.d["head"]
            rng = loop_range(lev)
            for kind, t, st in lev.d["iters"]:
                if any(x.k in ("reccall", "icall") for x in t) or not rng:
                    continue
                h = rng[0][0]
                lo, hi = at(I, H, starts_t, h), at(I, H, ends_t, h)
                put("bins", "left", entails(st.facts, ge(sub(add(lo, ONE), hi))), I.where(lev.L), "only bins of at most one element are left alone",
                    "a bin of several elements may be left alone", precise(st.facts, lo, hi))
        # the two tables
        if starts_t is None:
            continue
        for e in loops:
            rng = loop_range(e)
            for kind, t, st in e.d["iters"]:
                for x in t:
                    if x.k != "store" or x.d["loc"][0] not in (starts_t, ends_t) or digit(x.d["loc"][1][-1]):
                        continue
                    ix = x.d["loc"][1][-1]
                    H = e.d["head"]
                    r = [r for r in rng if same(x.facts, ix, r[0])]
                    if not r:
                        put("bins", "tables", None, I.where(x.L), "tables", "", False)
                        continue
                    prev = at(I, H, ends_t, sub(ix, ONE))
                    want = prev if x.d["loc"][0] == starts_t else add(prev, at(I, H, ends_t, ix))
                    cov = r[0][1].const() == 1 and r[0][2].const() is not None and r[0][2].const() >= D and r[0][3]
                    put("bins", "tables", same(x.facts, x.d["val"], want) and cov, I.where(x.L), "a bin starts where the one before ends",
                        "entry %s of %s to %s becomes %s" % (ix, r[0][1], r[0][2], x.d["val"]), precise(x.facts, x.d["val"]))
        for x in tr:
            if x.k == "store" and x.d["loc"][0] in (starts_t, ends_t):
                ix = x.d["loc"][1][-1]
                if ix.const() == 0:
                    ok = same(x.facts, x.d["val"], start) if x.d["loc"][0] == starts_t else x.d.get("op") == "+" and same(x.facts, x.d.get("rhs"), start)
                    put("bins", "tables", ok, I.where(x.L), "the first bin starts at the start of the range", "the first bin starts at %s" % x.d["val"],
                        precise(x.facts, x.d["val"]))
        # before the bins are handed on the starts have to be set again
        idx = [k for k, e in enumerate(tr) if e.k == "loop" and any(y[1] == "swap" for sg in segments([e]) for y in moves(sg[0], p0, p1))]
        if idx:
            again0 = again = False
            for e in tr[idx[-1] + 1:last_rec]:
                if e.k == "store" and e.d["loc"][0] == starts_t and e.d["loc"][1][-1].const() == 0:
                    again0 = True
                if e.k == "loop" and any(x.k == "store" and x.d["loc"][0] == starts_t for x in flat([e])):
                    again = True
            put("bins", "again", again and again0, I.where(tr[last_rec].L), "bins handed on from their beginnings",
                "the bins are handed on without their beginnings being set again")
        # exchange into bins
        for k in idx:
            outer = tr[k]
            for kind, t, st in outer.d["iters"]:
                for x in t:
                    if x.k != "loop":
                        continue
                    H = x.d["head"]
                    orng = loop_range(outer)
                    for kind2, t2, st2 in x.d["iters"]:
                        m = [y for y in moves(t2, p0, p1) if y[1] == "swap" and y[2] and y[0] == (0 if kf else 1)]
                        j = [h for p, h in ((p, H.mem.get(p)) for p in x.d["mod"]) if isinstance(h, Poly) and h.single() is not None]
                        keyp = p0 if kf else p1
                        if m:
                            a, b = m[0][2]
                            jj = [h for h in j if same(st2.facts, a, h) or same(st2.facts, b, h)]
                            if len(jj) != 1:
                                put("bins", "move", None, I.where(m[0][3].L), "exchange", "", False)
                                continue
                            other = b if same(st2.facts, a, jj[0]) else a
                            v = at(I, H, keyp, jj[0])
                            so = sel_of(other)
                            dg = digit(so[1]) if so else None
                            inc = [y for y in t2 if y.k == "store" and y.d["loc"][0] == starts_t]
                            ok = bool(dg) and same(st2.facts, dg[0], v) and same(st2.facts, other, at(I, H, starts_t, so[1]))
                            ok2 = len(inc) == 1 and so and same(st2.facts, inc[0].d["loc"][1][-1], so[1]) and sub(inc[0].d["val"], other).const() == 1
                            put("bins", "move", ok, I.where(m[0][3].L), "an element moves to the next place of its own bin",
                                "an element is exchanged with place %s, not the next of its own bin" % other, precise(st2.facts, other))
                            put("bins", "fill", ok2, I.where(m[0][3].L), "the place is taken", "the place in the bin is not taken exactly once", bool(so))
                        else:
                            # passed over: its digit is the bin's
                            bins = [r[0] for r in orng]
                            ds = [digit(z) for z in [st2.mem.get(p) for p in st2.mem if p and p[0][0] == "v" and len(p) == 1] if isinstance(z, Poly)]
                            ok = None
                            jn = [h for p, h in ((p, H.mem.get(p)) for p in x.d["mod"]) if isinstance(h, Poly) and isinstance(st2.mem.get(p), Poly) and sub(st2.mem[p], h).const() == 1]
                            if len(jn) == 1 and bins:
                                v = at(I, H, keyp, jn[0])
                                dv = tm.app("mod", tm.app("shr", v, shift), num(D))
                                ok = any(same(st2.facts, dv, b) for b in bins)
                                put("bins", "pass", ok, I.where(x.L), "an element is passed over only in its own bin",
                                    "an element is passed over although its digit may differ from the bin", precise(st2.facts, v))
                            else:
                                put("bins", "pass", None, I.where(x.L), "passing over", "", False)
    for (rule, key_, site), rs in R.items():
        for ok, what, bad, known, path in sorted(rs, key=lambda r: (r[0] is not False, str(r[1])))[:1]:
            if ok:
                ctx.ok(rule, site, "%s: %s" % (name, what))
            elif ok is False and known:
                ctx.bad(rule, "%s:%s" % (name, key_), site, "%s: %s" % (name, bad))
            else:
                ctx.skip(rule, site, "%s: %s" % (name, what))


def show_ptr(v):
    return "".join(str(x) if not isinstance(x, tuple) else x[1] for x in v[1] if x != "[]") if isinstance(v, tuple) and v and v[0] == "ptr" else str(v)


# ---------------------------------------------------------------- duplicates

def stop_at(lev, a):
    """value of the counter a at which the loop is left by its condition"""
    base = lev.d["head"].facts.all()
    heads = [hs.facts.all() for hs in lev.d["heads"]]
    conds = set.intersection(*[set(h) for h in heads]) if heads else set()
    pre = lev.d["pre"].facts.all()
    out = []
    for c in conds - pre:
        if c[0] not in ("ge", "ne") or not c[1].coef((a,)):
            continue
        k = c[1].coef((a,))
        rest = add(c[1], scale_atom(a, -k))
        if a in rest.atoms() or any(str(Poly((((x,), 1),))).startswith("h:") for x in rest.atoms()):
            continue
        if c[0] == "ne" and abs(k) == 1:
            out.append(neg(rest) if k == 1 else rest)
        elif c[0] == "ge" and k == -1:
            out.append(add(rest, ONE))
    for x in out:
        if all((sub(y, x).const() or 0) >= 0 and sub(y, x).const() is not None for y in out):
            return x
    return None


def atom_of(v):
    """the atom x of a value x + constant"""
    if isinstance(v, Poly):
        for x in v.atoms():
            p = Poly((((x,), 1),))
            if sub(v, p).const() is not None:
                return p
    return None


def duplicates(ctx, I, f, res, p0, p1):
    name = f["n"]
    start, end = (I.rd(empty_state(), gl(p["n"]), p["t"]) for p in f["params"][2:4])
    seen = set()
    for s, v in res:
        tr = trace(s.ev)
        loops = [e for e in tr if e.k == "loop"]
        site = I.where(f["L"])
        if not loops:
            ok = isinstance(v, Poly) and entails(s.facts, ge(sub(add(start, ONE), end))) and same(s.facts, v, end)
            if ok:
                ctx.ok("duplicates", site, name + ": nothing to drop")
            elif isinstance(v, Poly) and precise(s.facts, v):
                ctx.bad("duplicates", name + ":early", site, "%s: returns %s without looking at the edges" % (name, v))
            else:
                ctx.skip("duplicates", site, name + ": path without a loop")
            continue
        if len(loops) != 1:
            ctx.skip("duplicates", site, name + ": loops")
            continue
        e = loops[0]
        H = e.d["head"]
        st = [x for kind, t, st in e.d["iters"] for x in moves(t, p0, p1) if x[1] == "store" and x[0] == 0 and x[2][1] is not None]
        if not st:
            ctx.skip("duplicates", I.where(e.L), name + ": no edge is moved up")
            continue
        dst, src = st[0][2]
        heads = {p: atom_of(H.mem.get(p)) for p in e.d["mod"] if len(p) == 1 and atom_of(H.mem.get(p)) is not None}
        # keep: the place of the last edge kept; look: the place looked at
        keep = [p for p, h in heads.items() if sub(dst, h).const() in (0, 1)]
        look = [p for p, h in heads.items() if sub(src, h).const() in (0, 1) and p not in keep]
        if len(keep) != 1 or len(look) != 1:
            ctx.skip("duplicates", I.where(e.L), name + ": variables")
            continue
        keep, look = keep[0], look[0]
        kh, c = heads[keep], sub(src, heads[look]).const()
        base = sub(dst, ONE)                      # last edge kept, seen from the head
        off = sub(base, kh).const()               # 0: variable is the last kept place, -1: the next free one
        for kind, t, st2 in e.d["iters"]:
            if kind != "end":
                ctx.skip("duplicates", I.where(e.L), name + ": loop left early")
                continue
            if id(t) in seen:
                continue
            kv = st2.mem.get(keep)
            d = sub(kv, H.mem[keep]).const() if isinstance(kv, Poly) else None
            m = [x for x in moves(t, p0, p1)]
            r0, r1, s0, s1 = at(I, H, p0, base), at(I, H, p1, base), at(I, H, p0, src), at(I, H, p1, src)
            fa = st2.facts
            k = precise(fa, r0, r1, s0, s1)
            if d == 0:
                ok = entails(fa, eq(sub(r0, s0))) and entails(fa, eq(sub(r1, s1))) and not m
                if ok:
                    ctx.ok("duplicates", I.where(e.L), name + ": dropped edge equals the last kept one")
                elif k:
                    ctx.bad("duplicates", name + ":dropped", I.where(e.L), name + ": an edge is dropped although an end may differ from the last kept one")
                else:
                    ctx.skip("duplicates", I.where(e.L), name + ": condition of dropping")
            elif d == 1:
                differs = entails(fa, ne(sub(r0, s0))) or entails(fa, ne(sub(r1, s1)))
                moved = [x for x in m if x[1] == "store" and x[2][1] is not None and same(x[3].facts, x[2][0], dst) and same(x[3].facts, x[2][1], src)]
                ok = differs and (len(moved) == 2 or (not m and entails(fa, eq(sub(dst, src)))))
                if ok:
                    ctx.ok("duplicates", I.where(e.L), name + ": kept edge differs and moves up")
                elif k:
                    ctx.bad("duplicates", name + ":kept", I.where(e.L), "%s: %s" % (name, "an edge equal to the last kept one may be kept" if not differs else "a kept edge is not moved up whole"))
                else:
                    ctx.skip("duplicates", I.where(e.L), name + ": condition of keeping")
            else:
                ctx.skip("duplicates", I.where(e.L), name + ": place of the last kept edge")
        # extent
        k0, l0 = e.d["pre"].mem.get(keep), e.d["pre"].mem.get(look)
        lx = stop_at(e, heads[look].single())
        lx = add(lx, num(c)) if lx is not None else None
        if all(isinstance(x, Poly) for x in (k0, l0, lx, v)):
            first = add(l0, num(c))
            kx = [x for x in tr if x.k == "loop"]
            kept_at_exit = v
            parts = [("the first edge is kept", same(s.facts, add(k0, num(off)), start), k0),
                     ("all later edges are looked at", same(s.facts, first, add(start, ONE)), first),
                     ("up to the last", same(s.facts, lx, end) or entails(s.facts, ge(sub(lx, end))), lx)]
            fin = s.mem.get(keep)
            if isinstance(fin, Poly):
                # the variable may itself have been moved on in the return expression
                post = [x for x in tr[tr.index(e) + 1:] if x.k == "store" and x.d["loc"][0] == keep]
                n = sum(sub(x.d["val"], x.d["old"]).const() or 0 if isinstance(x.d.get("old"), Poly) else (1 if x.d.get("op") == "++" else -1 if x.d.get("op") == "--" else 0) for x in post)
                ex = sub(fin, num(n))
                parts.append(("the number of edges kept is returned", same(s.facts, sub(v, ex), num(1 + off)) or sub(v, ex).const() == 1 + off, v))
            for what, ok, x in parts:
                if ok:
                    ctx.ok("duplicates", I.where(e.L), "%s: %s" % (name, what))
                elif precise(s.facts, x):
                    ctx.bad("duplicates", "%s:%s" % (name, what.split()[-1]), I.where(e.L), "%s: not so: %s (%s)" % (name, what, x))
                else:
                    ctx.skip("duplicates", I.where(e.L), "%s: %s" % (name, what))
        else:
            ctx.skip("duplicates", I.where(e.L), name + ": extent")


# ---------------------------------------------------------------- cleaning

def clean(ctx, w, f, sorts, dedup, F, beyond):
    I = interp(w, lambda g: g["id"] in F)
    name = f["n"]
    prs = [p for p in f["params"] if "std::pair<std::vector" in p["t"]]
    if len(prs) != 1:
        ctx.skip("clean", I.where(f["L"]), name + ": parameters")
        return
    P = prs[0]["n"]
    b0, b1 = ((("g", P), ".first"), ()), ((("g", P), ".second"), ())
    res, thr = run_fn(I, f, empty_state())
    ctx.used(I)
    ctx.count("cleaning functions")
    n0 = I.vsize(empty_state(), b0)
    nv = [p for p in f["params"] if p is not prs[0]]
    for s, _ in res:
        tr = trace(s.ev)
        ic = [e for e in tr if e.k == "icall"]
        srt = [e for e in ic if e.d["fn"] in sorts]
        ded = [e for e in ic if e.d["fn"] in dedup]
        rs = [e for e in tr if e.k == "resize"]
        site = I.where(f["L"])
        if not srt and not ded and not rs and entails(s.facts, ge(sub(ONE, n0))):
            ctx.ok("clean", site, name + ": at most one edge")
            continue
        for e in srt + ded:
            a = e.d["args"]
            good = all(isinstance(x, tuple) and x[0] == "ptr" for x in a[:2])
            who = F[e.d["fn"]]["n"]
            if not good:
                ctx.skip("clean", I.where(e.L), "%s: lists given to %s" % (name, who))
                continue
            want = [(b[0] + ("[]",), (ZERO,)) for b in (b0, b1)]
            if [x[1:3] for x in a[:2]] == want and same(e.facts, a[2], ZERO) and same(e.facts, a[3], n0):
                ctx.ok("clean", I.where(e.L), "%s: %s over both whole lists" % (name, who))
            elif precise(e.facts, a[2], a[3]):
                ctx.bad("clean", "%s:%s" % (name, who), I.where(e.L), "%s: %s works on %s and %s from %s to %s of %s" %
                        (name, who, show_ptr(a[0]), show_ptr(a[1]), a[2], a[3], n0))
            else:
                ctx.skip("clean", I.where(e.L), "%s: range given to %s" % (name, who))
        if len(srt) != 1 or len(ded) != 1:
            other = [e for e in tr if e.k in ("sort", "bulk", "ucall", "umcall")]
            if other:
                ctx.skip("clean", site, name + ": sorted or freed of duplicates another way")
            elif s.facts is not None:
                ctx.bad("clean", name + ":steps", site, "%s: on a path the edges are sorted %d times and freed of duplicates %d times" % (name, len(srt), len(ded)))
            continue
        if tr.index(srt[0]) > tr.index(ded[0]):
            ctx.bad("clean", name + ":order", I.where(ded[0].L), name + ": duplicates are looked for before sorting")
        ret = ded[0].d.get("ret")
        for b, what in ((b0, "first"), (b1, "second")):
            r = [e for e in rs if e.d["loc"] == b]
            z = I.vsize(s, b)
            if isinstance(ret, Poly) and isinstance(z, Poly) and same(s.facts, z, ret):
                ctx.ok("clean", site, "%s: %s list cut to the edges kept" % (name, what))
            elif not r or precise(s.facts, z):
                ctx.bad("clean", "%s:%s" % (name, what), I.where(r[0].L) if r else site, "%s: the %s list ends with length %s, not the number of edges kept" % (name, what, z))
            else:
                ctx.skip("clean", site, "%s: length of the %s list" % (name, what))
        radix_args(ctx, I, w, f, s, tr, srt[0], F, nv, beyond)


def radix_args(ctx, I, w, f, s, tr, e, F, nv, beyond):
    g = F[e.d["fn"]]
    a = e.d["args"]
    name = f["n"]
    site = I.where(e.L)
    if len(a) != 7:
        return
    W = digit_width(w, g)
    if W is None:
        ctx.skip("digits", site, name + ": width of a digit")
        return
    if not same(e.facts, a[4], a[6]):
        if precise(e.facts, a[4], a[6]):
            ctx.bad("digits", name + ":top", site, "%s: sorts the first end points from digit %s and the second from %s" % (name, a[4], a[6]))
        else:
            ctx.skip("digits", site, name + ": highest digits")
        return
    if a[5].const() != 1:
        if a[5].const() == 0:
            ctx.bad("digits", name + ":key", site, name + ": does not begin with the first end point")
        else:
            ctx.skip("digits", site, name + ": key")
        return
    # a[4] = K - D' with K summed up in a loop that shifts the vertex range down to 0
    for lev in [x for x in tr[:tr.index(e)] if x.k == "loop"]:
        it = [(t, st) for kind, t, st in lev.d["iters"] if kind == "end"]
        if len(it) != 1 or len(lev.d["iters"]) != 1:
            continue
        t, st = it[0]
        H = lev.d["head"]
        sh = [x for x in t if x.k == "shift" and x.d["op"] == ">>"]
        steps = scalar_steps(lev)
        val = {p: st.mem.get(p) for p in lev.d["mod"]}
        mv = [p for p in lev.d["mod"] if isinstance(val[p], Poly) and isinstance(H.mem.get(p), Poly) and p not in steps]
        kv = [p for p in steps]
        if len(mv) != 1 or len(kv) != 1 or not sh:
            continue
        h, k0, c = steps[kv[0]]
        mh = H.mem[mv[0]]
        amt = sh[0].d["amt"].const()
        if amt is None or not same(st.facts, sh[0].d["a"], mh) or k0 is None or k0.const() is None:
            continue
        m0 = lev.d["pre"].mem.get(mv[0])
        K = s.mem.get(kv[0])
        rest = sub(a[4], K).const() if isinstance(K, Poly) else None
        # K may have been changed after the loop
        post = [x for x in tr[tr.index(lev) + 1:] if x.k == "store" and x.d["loc"][0] == kv[0]]
        adj = 0
        for x in post:
            r = x.d.get("rhs")
            if x.d.get("op") in ("-", "+") and isinstance(r, Poly) and r.const() is not None:
                adj += r.const() if x.d["op"] == "+" else -r.const()
            else:
                rest = None
        if rest is None or not isinstance(m0, Poly):
            continue
        D1 = -(rest + adj) - k0.const()           # K_exit - D1 is the highest shift
        pre, m0 = shifted(m0)
        full = D1 + c * (pre // amt)
        # what may be left of the range when the loop ends
        left = None
        if lev.d["node"].get("s") in ("for", "while") and one_test(lev.d["node"]):
            left = next((k for k in range(1 << 10) if not entails(st.facts, ge(sub(mh, num(k + 2))))), None)
            if not entails(st.facts, ge(sub(mh, num(1)))):
                left = None
        if left is None:
            ctx.skip("digits", site, name + ": what is left of the range after the loop")
            return
        fits = W - full >= 0 and left + 1 <= 1 << (W - full)
        ok = c >= amt and fits and c % W == 0 and D1 % W == 0 and (c - D1 >= 0 if not pre and not left else D1 <= 0 and pre % amt == 0)
        if ok:
            ctx.ok("digits", site, "%s: highest digit of %d bits found by steps of %d down to %d, %d taken off" % (name, W, c, left, D1))
        else:
            ctx.bad("digits", name + ":range", site, "%s: the highest digit is found by adding %d per %d bits until at most %d is left and taking off %d; digits have %d bits" % (name, c, amt, left, D1, W))
        ps = [I.rd(empty_state(), gl(p["n"]), p["t"]) for p in nv]
        d = [sub(m0, p).const() for p in ps]
        d = [x for x in d if x is not None]
        if d and d[0] >= (-beyond if beyond is not None else -2):
            ctx.ok("digits", site, "%s: digits of the number of vertices" % name)
        elif precise(lev.facts, m0):
            ctx.bad("digits", name + ":bound", site, "%s: the digits counted are those of %s" % (name, m0))
        else:
            ctx.skip("digits", site, name + ": what the digits are counted of")
        return
    ctx.skip("digits", site, name + ": how the highest digit is found")


def one_test(n):
    """the loop ends only because of one comparison"""
    c = n.get("cond") or n.get("c")

    def rec(x):
        if isinstance(x, dict):
            return (x.get("e") == "bin" and x.get("op") in ("&&", "||")) or x.get("e") in ("cond", "call") or any(rec(v) for v in x.values())
        return isinstance(x, list) and any(rec(v) for v in x)
    return bool(c) and not rec(c)


def shifted(v):
    """(bits, x) of x >> bits"""
    if v.single() is not None:
        i = tm.info(v.single())[0]
        if i[0] == "app" and i[1] in ("div", "shr") and isinstance(i[3], Poly) and i[3].const():
            n = i[3].const()
            if i[1] == "shr":
                return n, i[2]
            if n & (n - 1) == 0:
                return n.bit_length() - 1, i[2]
    return 0, v


def digit_width(w, g):
    """bits of a digit of the radix sort"""
    out = set()

    def rec(n):
        if isinstance(n, dict):
            if n.get("e") == "bin" and n.get("op") == "&" and n["a"].get("e") == "bin" and n["a"].get("op") == ">>":
                v = n["b"].get("v")
                if v is not None:
                    out.add(int(v))
            if n.get("e") == "bin" and n.get("op") == "%" and n["a"].get("e") == "bin" and n["a"].get("op") == ">>":
                v = n["b"].get("v")
                if v is not None:
                    out.add(int(v) - 1)
            for v in n.values():
                rec(v)
        elif isinstance(n, list):
            for v in n:
                rec(v)
    rec(g["body"])
    if not out:
        for x in g["body"].get("b", ()):
            pass
        fs = [w.fns[i] for i in reach_calls(w, g)]
        for x in fs:
            rec(x["body"])
    if len(out) != 1:
        return None
    m = out.pop()
    return m.bit_length() if m & (m + 1) == 0 else None


def reach_calls(w, g):
    out = set()

    def rec(n):
        if isinstance(n, dict):
            i = n.get("id")
            if n.get("e") == "call" and i in w.fns and w.fns[i].get("body") and i not in out and i != g["id"]:
                out.add(i)
                rec(w.fns[i]["body"])
            for v in n.values():
                rec(v)
        elif isinstance(n, list):
            for v in n:
                rec(v)
    rec(g["body"])
    return out


def caller(ctx, w, f, cl, beyond):
    """the range given to the cleaning covers the vertex numbers"""
    I = interp(w, lambda g: g["id"] != f["id"] and not (g.get("ctor") and not g["params"]))
    try:
        res, thr = run_fn(I, f, empty_state())
    except Exception as e:
        ctx.skip("digits", I.where(f["L"]), "%s: %s" % (f["n"], e))
        return
    ctx.used(I)
    nv = [p for p in f["params"] if p["t"].replace("const ", "") == "unsigned long"]
    if not nv:
        ctx.skip("digits", I.where(f["L"]), "%s: parameters" % f["n"])
        return
    n = I.rd(empty_state(), gl(nv[0]["n"]), nv[0]["t"])
    for s, _ in res:
        ic = [e for e in flat(trace(s.ev)) if e.k == "icall" and e.d["fn"] in cl]
        for e in ic:
            v = e.d["args"][0]
            k = sub(v, n).const() if isinstance(v, Poly) else None
            if k is not None and k >= 0:
                beyond[e.d["fn"]] = min(k, beyond.get(e.d["fn"], k))
            if isinstance(v, Poly) and entails(e.facts, ge(sub(v, n))):
                ctx.ok("digits", I.where(e.L), "%s: digits of at least the highest vertex number" % short(f["q"]))
            elif isinstance(v, Poly) and precise(e.facts, v):
                ctx.bad("digits", short(f["q"]), I.where(e.L), "%s: digits are counted of %s, vertex numbers reach %s" % (short(f["q"]), v, n))
            else:
                ctx.skip("digits", I.where(e.L), "%s: range" % short(f["q"]))
        if not ic and thr is not None:
            ctx.bad("clean", short(f["q"]), I.where(f["L"]), "%s: edges are not cleaned on a path" % short(f["q"]))
