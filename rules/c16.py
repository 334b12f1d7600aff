from . import c11
from .c09 import lasting
from .c12 import Fields, obj, vfield
from .front import loop_range, scalar_steps
from .ops import *
from engine.check import Ctx
from engine.terms import scale

TECHNIQUE = "static analysis: abstract interpretation of the constructor of each graph class and of every search (clang AST), with a size argument " \
            "over the running maxima of the constructor, and a scan of every function for changes of the vector that holds the memory"
EXPLAIN = ("The constructor of each graph class is interpreted together with the functions it calls. The share of each vertex must start where that "
           "of the one before ends and the memory for searches after the last. The size at the end of every path, less the place where search memory "
           "starts, must cover what the deepest search asks for: the searches are interpreted to count the bit sets a search holds at its root and "
           "those it adds per level, the width and depth of a search are bounded by the running maxima the constructor keeps, which must be "
           "raised on every path round their loops. After every change of the vector that can move it every vertex's bit set must be pointed at its "
           "own share again. No function outside construction may change the size of the vector.")

GROW = {"resize", "push_back", "emplace_back", "insert", "emplace", "erase", "assign", "clear", "swap", "shrink_to_fit", "reserve", "pop_back", "operator="}


def run(ctx, prog):
    w = World(prog)
    nats = natives(w)
    ctx.rule("share", "the bits of a vertex start where those of the one before end, and are as many as its list is long")
    ctx.rule("after", "memory for searches starts after the share of the last vertex")
    ctx.rule("widest", "the width used to size the memory is at least that of every vertex")
    ctx.rule("deepest", "the depth used to size the memory is at least the count made for every vertex, and that counts every neighbour that may be a candidate")
    ctx.rule("room", "the memory left after the shares covers the deepest search")
    ctx.rule("refer", "after the vector was enlarged every bit set refers to its own share of it again")
    ctx.rule("stale", "no pointer into the vector taken before it was enlarged is used after")
    ctx.rule("still", "nothing enlarges or replaces the vector once a graph is built")
    ctx.rule("asks", "a search asks for as many words at a time as the longest list of the vertex needs")
    ctx.rule("fits", "a bit set in borrowed memory has room for all its bits")
    ctx.rule("between", "a search kept between calls holds no search memory while it waits")
    ops = operators(w, nats)
    for cls, nat in nats.items():
        nat.arena, nat.counted = arena(w, nat), set()
        if not nat.arena or not nat.bits:
            ctx.skip("room", "", "%s: memory not found" % nat.cls)
            continue
        still(ctx, w, nat)
        mine = [o for o in ops if o.nat is nat]
        use = []
        for o in mine:
            for f in o.units:
                u = search(ctx, w, nat, o, f)
                if u:
                    use.append(u)
        needs = []
        for o in mine:
            us = [u for u in use if u[4] is o]
            if us:
                # a search that recurses borrows at every level that has candidates, one that stacks states when it adds a member
                needs.append((max(u[0] for u in us), max(u[1] for u in us), 1 if any(u[3] for u in us) else 2, short(o.cls)))
        for f in w.fns.values():
            if f.get("class") == nat.cls and f.get("ctor") and f.get("body") and any(nested_call(f["body"], g) for g in bit_setters(w, nat)):
                ctor(ctx, w, nat, f, needs, use)
        stale(ctx, w, nat)
    ctx.assume += ["a search takes back what it borrowed (C09) and holds one clique at a time",
                   "the lists handed to the constructor are sorted and hold each vertex itself (C19, C05)",
                   "members of a clique being searched are adjacent to each other (C12), so that a search is no deeper than the largest clique"]


def arena(w, nat):
    if not nat.load:
        return None
    I = interp(w, None)
    for s, v in run_fn(I, nat.load, empty_state())[0]:
        if isinstance(v, tuple) and v and v[0] == "ptr" and v[2]:
            for n in nat.words:
                if "." + n in v[1]:
                    return n
    return None


def bit_setters(w, nat):
    """functions that point a bit set of a vertex at memory, directly or not"""
    ids = {g["id"] for g in w.fns.values() if g.get("class") == nat.bcls and not g.get("ctor") and g.get("body") and pointer_arg(g)}
    while True:
        more = {g["id"] for g in w.fns.values() if g.get("class") in (nat.vcls, nat.cls) and not g.get("ctor") and g.get("body")
                and any(i in ids for i in called(g))} - ids
        if not more:
            return ids
        ids |= more


def pointer_arg(g):
    return bool(g["params"]) and strip(g["params"][0]["t"]).replace(" ", "").replace("const", "") == "unsignedlong*"


def nested_call(n, i):
    if isinstance(n, dict):
        return n.get("id") == i and n.get("e") in ("call", "mcall") or any(nested_call(v, i) for v in n.values())
    return isinstance(n, list) and any(nested_call(v, i) for v in n)


# ---- nothing else moves it

def on_arena(n, nat):
    while isinstance(n, dict) and n.get("e") in ("cast", "paren"):
        n = n["a"]
    return isinstance(n, dict) and n.get("e") == "field" and n.get("n") == nat.arena and n.get("c") == nat.cls


def still(ctx, w, nat):
    I = interp(w, None)
    build = set()
    for f in w.fns.values():
        if f.get("class") == nat.cls and f.get("ctor") and f.get("body"):
            build |= reach(w, f) | {f["id"]}
    used = set()
    for f in w.fns.values():
        if f["id"] not in build:
            used |= set(called(f))
    n = 0
    for f in w.fns.values():
        if not f.get("body"):
            continue
        n += 1
        for x in changes(f["body"], nat):
            site = I.where(x.get("L") or f["L"])
            inside = f["id"] in build and (f.get("ctor") or f["id"] not in used)
            if inside:
                ctx.ok("still", site, "%s changes %s while a graph is built" % (short(f["q"]), nat.arena))
            elif f.get("dtor"):
                continue
            else:
                ctx.bad("still", "%s:%s" % (short(f["q"]), x.get("n") or x.get("op") or "="), site, "%s changes the size of %s or replaces it after the graph was built, and pointers into it are "
                        "kept by bit sets" % (short(f["q"]), nat.arena))
    ctx.count("functions scanned for changes of the memory", n)


def changes(n, nat, out=None):
    out = [] if out is None else out
    if isinstance(n, dict):
        if n.get("e") == "mcall" and n.get("n") in GROW and on_arena(n.get("b"), nat):
            out.append(n)
        elif n.get("e") == "mcall" and n.get("n") == "swap" and any(on_arena(a, nat) for a in n.get("args") or []):
            out.append(n)
        elif n.get("e") in ("asg", "call") and n.get("e") == "asg" and on_arena(n.get("a"), nat):
            out.append(n)
        elif n.get("e") == "call" and (n.get("q") or "").split("::")[-1] in ("swap", "move", "exchange") and any(on_arena(a, nat) for a in n.get("args") or []):
            out.append(n)
        elif n.get("e") == "call" and n.get("opc") == "=" and n.get("args") and on_arena(n["args"][0], nat):
            out.append(n)
        for v in n.values():
            changes(v, nat, out)
    elif isinstance(n, list):
        for v in n:
            changes(v, nat, out)
    return out


def stale(ctx, w, nat):
    """pointers into the memory taken before a change and used after it, in one function"""
    I = interp(w, None)
    for f in w.fns.values():
        if not f.get("body") or not changes(f["body"], nat):
            continue
        seq = []
        order(f["body"], seq)
        pos = {id(n): i for i, n in enumerate(seq)}
        moves = [pos[id(x)] for x in changes(f["body"], nat) if x.get("n") in ("resize", "push_back", "emplace_back", "insert", "emplace", "assign", "shrink_to_fit", "reserve") and id(x) in pos]
        if not moves:
            continue
        taken = {}
        for n in seq:
            if n.get("s") == "decl":
                for d in n.get("d") or []:
                    if isinstance(d, dict) and points_in(d.get("init") or d.get("x"), nat):
                        taken.setdefault(d.get("id"), []).append((pos[id(n)], d.get("n")))
            elif n.get("e") == "asg" and isinstance(n.get("a"), dict) and n["a"].get("e") == "var" and points_in(n.get("b"), nat):
                taken.setdefault(n["a"]["id"], []).append((pos[id(n)], n["a"]["n"]))
        for v, ts in taken.items():
            for n in seq:
                if n.get("e") != "var" or n.get("id") != v or any(x[0] == pos[id(n)] for x in ts):
                    continue
                at = pos[id(n)]
                last = max([t for t, _ in ts if t < at] or [-1])
                asg = any(m.get("e") == "asg" and isinstance(m.get("a"), dict) and m["a"] is n for m in seq)
                if last >= 0 and not asg and any(last < m < at for m in moves):
                    ctx.bad("stale", "%s:%s" % (short(f["q"]), ts[0][1]), I.where(n.get("L") or f["L"]), "%s uses %s, which was taken before %s was enlarged" % (short(f["q"]), ts[0][1], nat.arena))
                    break
            else:
                ctx.ok("stale", I.where(f["L"]), "%s: %s" % (short(f["q"]), ts[0][1]))


def order(n, out):
    if isinstance(n, dict):
        out.append(n)
        for v in n.values():
            order(v, out)
    elif isinstance(n, list):
        for v in n:
            order(v, out)


def points_in(n, nat):
    """an address inside the memory: data() of it or the address of an element"""
    while isinstance(n, dict) and n.get("e") in ("cast", "paren"):
        n = n["a"]
    if not isinstance(n, dict):
        return False
    if n.get("e") == "mcall" and n.get("n") in ("data", "begin") and on_arena(n.get("b"), nat):
        return True
    if n.get("e") == "un" and n.get("op") == "&":
        a = n.get("a")
        return isinstance(a, dict) and (a.get("e") == "sub" and on_arena(a.get("b"), nat)
                                        or a.get("e") in ("call", "mcall") and any(on_arena(x, nat) for x in [a.get("b")] + list(a.get("args") or [])))
    if n.get("e") == "bin" and n.get("op") in ("+", "-"):
        return points_in(n.get("a"), nat) or points_in(n.get("b"), nat)
    return False


# ---- the searches

def atom_name(a):
    i = tm.info(a)[0]
    if i[0] == "init":
        return "".join(x if isinstance(x, str) else x[-1] for x in i[1])
    if i[0] == "sym":
        return i[1]
    return ""


def words_of(I, nat, base, fl, p, fs=None):
    """what a number of words stands for: 'N' one vertex's list, 'M' a field of the graph, ('self', field)"""
    if not isinstance(p, Poly):
        return None
    if fs is not None:
        for a in deep_atoms(p, set()):
            x = Poly((((a,), 1),))
            u = bits_of(I, nat, base, fl, x)
            if u is not None and p != x and entails(fs, eq(sub(p, tm.app("cdiv", x, num(64))))):
                return u
    if len(p.m) == 1 and p.m[0][0] and p.m[0][1] in (2, 3, 4):
        p = Poly(((p.m[0][0], 1),))           # several bit sets at once
    if p.single() is None:
        return None
    i = tm.info(p.single())[0]
    if i[0] == "app" and i[1] == "cdiv" and isinstance(i[3], Poly) and i[3].const() == 64 and isinstance(i[2], Poly):
        return bits_of(I, nat, base, fl, i[2])
    n = atom_name(p.single())
    if i[0] == "init" and i[1][0] == ("g", "self") or i[0] == "sym" and i[1][:3] in ("h:.", "j:."):
        return ("self", n.split(".")[-1])
    return None


def bits_of(I, nat, base, fl, x):
    if x.single() is None:
        return None
    i = tm.info(x.single())[0]
    if i[0] == "sel":
        ar = i[1]
        if ar[0] == "ai" and ar[1][-1] == "." + fl.N:
            return "N"
        return None
    if i[0] == "init" and len(i[1]) > len(base) and i[1][:len(base)] == base and i[1][-1][1:] in nat.fields:
        return ("M", i[1][-1][1:])
    return None


def search(ctx, w, nat, op, f):
    """(bit sets held at the root, added per level, fields of the graph used as width)"""
    gp = op.graph_param(f)
    base = (("g", gp),)
    fl = Fields(nat)
    I, res, thr = op.run(f)
    ctx.used(I)
    ctx.count("methods analysed")
    name = short(f["q"])
    sv = op.states()
    evs = [x for x in all_events(I, res, thr)]
    loads = [x for x in evs if x.k == "mem" and x.d["op"] == "load"]
    wide = set()
    seen = set()
    lent = {}
    for x in loads:
        site = I.where(x.L)
        n = x.d["n"]
        u = words_of(I, nat, base, fl, n, x.facts)
        if isinstance(x.d.get("at"), Poly):
            lent.setdefault(x.d["at"], set()).add(n)
        if isinstance(u, tuple) and u[0] == "M":
            wide.add(u[1])
        k = (site, str(u) if u else str(n))
        if k in seen:
            continue
        seen.add(k)
        if u is not None:
            ctx.ok("asks", site, "%s: words asked for by %s" % (name, "the length of the list of a vertex" if u == "N" else "%s of the graph" % u[1] if u[0] == "M" else "its field %s" % u[1]))
            continue
        m = per_bit(I, nat, base, fl, n)
        if m and precise(x.facts, n):
            ctx.bad("asks", name + ":" + str(m), site, "%s asks for %s words at a time, the memory is sized for one bit per listed vertex" % (name, n))
        else:
            ctx.skip("asks", site, "%s: %s words" % (name, n))
    # the field that holds the number of words
    for x in evs:
        if x.k == "store" and x.d["loc"][0][0] == ("g", "self") and len(x.d["loc"][0]) == 2 and any(words_of(I, nat, base, fl, y.d["n"]) == ("self", x.d["loc"][0][1][1:]) for y in loads):
            u = words_of(I, nat, base, fl, x.d["val"], x.facts)
            site = I.where(x.L)
            if (site, "st") in seen:
                continue
            seen.add((site, "st"))
            if u is not None:
                if isinstance(u, tuple) and u[0] == "M":
                    wide.add(u[1])
                ctx.ok("asks", site, "%s: number of words kept in %s" % (name, x.d["loc"][0][1][1:]))
            elif x.d["val"].const() == 0 if isinstance(x.d["val"], Poly) else False:
                continue
            elif isinstance(x.d["val"], Poly) and per_bit(I, nat, base, fl, x.d["val"]) and precise(x.facts, x.d["val"]):
                ctx.bad("asks", name + ":" + x.d["loc"][0][1][1:], site, "%s takes %s as the number of words of a bit set, one bit per listed vertex is needed" % (name, x.d["val"]))
            else:
                ctx.skip("asks", site, "%s: %s" % (name, x.d["val"]))
    for x in evs:
        if x.k == "bits" and x.d["args"] and isinstance(x.d["args"][0], tuple) and x.d["args"][0][:1] == ("ptr",) and len(x.d["args"]) > 1:
            p, nb = x.d["args"][0], x.d["args"][1]
            if "#arena" not in p[1] or not p[2] or not isinstance(nb, Poly):
                continue
            site = I.where(x.L)
            ns = sorted(lent.get(p[2][-1], ()), key=str)
            if not ns:
                continue
            cd = tm.app("cdiv", nb, num(64))
            n = next((y for y in ns if y == cd or entails(x.facts, eq(sub(y, cd)))), ns[0])
            if (site, str(n), str(nb)) in seen:
                continue
            seen.add((site, str(n), str(nb)))
            fs = x.facts
            if cd == n or entails(fs, eq(sub(n, cd))) or entails(fs, ge(sub(scale(n, 64), nb))):
                ctx.ok("fits", site, "%s: %s bits in %s words" % (name, nb, n))
                continue
            u, v = words_of(I, nat, base, fl, n, fs), bits_of(I, nat, base, fl, nb)
            if isinstance(u, tuple) and u[0] == "self" or isinstance(u, tuple) and u[0] == "M" and (v == "N" or v == u):
                ctx.ok("fits", site, "%s: %s bits in %s words" % (name, nb, n))
            elif len(ns) == 1 and precise(fs, n, nb) and (u == "N" and isinstance(v, tuple) or per_bit(I, nat, base, fl, n)):
                ctx.bad("fits", "%s:%s" % (name, nb), site, "%s: a bit set of %s bits is put in %s words" % (name, nb, n))
            else:
                ctx.skip("fits", site, "%s: %s bits in %s words" % (name, nb, n))
    if lasting(w, op):
        between(ctx, w, nat, op, f, I, res, base, name)
    rec = any(x.k == "reccall" for x in evs)
    a = b = 0
    for s, _ in res:
        x, y = held(trace(s.ev), sv)
        a, b = max(a, x), max(b, y)
    return (a, b, wide, rec, op) if loads else None


def per_bit(I, nat, base, fl, n):
    """the number depends on the list lengths, so it is a size of some kind"""
    for a in deep_atoms(n, set()):
        i = tm.info(a)[0]
        if i[0] == "sel" and i[1][0] == "ai" and i[1][1][-1] == "." + fl.N:
            return i[1][1][-1]
        if i[0] == "init" and i[1][:len(base)] == base and i[1][-1][1:] in nat.fields:
            return i[1][-1]
    return None


def held(tr, sv, cur=0):
    """most bit sets held at once, and those added with each stacked state or each call of itself"""
    top = per = 0
    for e in tr:
        if e.k == "mem":
            cur += count_of(e)
            top = max(top, cur)
        elif e.k == "reccall":
            per = max(per, cur)
        elif e.k == "loop":
            for kind, t, s in e.d["iters"]:
                push = any(x.k == "push" and sv and x.d["loc"][0][-1] == "." + sv and not entails(x.facts, eq(x.d["idx"])) for x in t)
                a, b = held(t, sv, cur)
                if push:
                    per = max(per, sum(count_of(x) for x in t if x.k == "mem"))
                else:
                    top = max(top, a)
                per = max(per, b)
    if any(x.k == "reccall" for x in flat(tr)):
        top = 0
    return top, per


def count_of(e):
    """bit sets asked for at once"""
    n = e.d["n"]
    k = 1
    if isinstance(n, Poly) and len(n.m) == 1 and n.m[0][0] and n.m[0][1] == int(n.m[0][1]):
        k = int(n.m[0][1])
    return k if e.d["op"] == "load" else -k


def between(ctx, w, nat, op, f, I, res, base, name):
    cp = base + ("." + nat.cursor,)
    site = I.where(f["L"])
    for s, _ in res:
        c, c0 = s.mem.get(cp), None
        if not isinstance(c, Poly):
            continue
        c0 = I.rd(empty_state(), (cp, ()), "unsigned long")
        if not entails(s.facts, eq(sub(c, c0))):
            ctx.bad("between", name, site, "%s returns with search memory still borrowed: another search on the same graph starts above it, and what an enumeration "
                    "that is not run to its end has borrowed is never given back" % name)
            return
    ctx.ok("between", site, "%s holds nothing between calls" % name)


# ---- the constructor

def ctor(ctx, w, nat, f, needs, use):
    fl = Fields(nat)
    me = (("g", "self"),)
    wide = set().union(*[u[2] for u in use]) if use else set()

    def stop(g):
        return g.get("class") == nat.bcls or not g.get("class") and any("std::pair<std::vector" in p["t"] for p in g["params"])
    I = interp(w, stop)
    I.cap = 200
    res, thr = run_fn(I, f, empty_state(), this=gl("self"))
    ctx.used(I)
    ctx.count("constructors analysed")
    ctx.count("constructor paths", len(res))
    name = short(f["q"])
    ap = me + ("." + nat.arena,)
    setters = {g["id"] for g in w.fns.values() if g.get("class") == nat.bcls and pointer_arg(g)}
    bp = me + ("." + nat.vec, "[]", "." + nat.bits)

    def refers(e):
        return e.k == "icall" and e.d["fn"] in setters and e.d["this"] is not None and e.d["this"][0] == bp
    done = set()
    for s, _ in res:
        tr = trace(s.ev)
        first = next((i for i, e in enumerate(tr) if any(refers(x) for x in flat([e]))), None)
        if first is None:
            ctx.skip("share", I.where(f["L"]), "%s: bit sets not found" % name)
            continue
        e = tr[first]
        if e.k == "loop":
            share(ctx, I, nat, fl, name, e, refers, ap, me, s, done)
        else:
            ctx.skip("share", I.where(e.L), name)
        maxima = {}
        for lp in [x for x in tr if x.k == "loop"]:
            widths(ctx, I, nat, fl, me, name, lp, refers, maxima, done, wide)
            counts(ctx, I, nat, me, name, lp, maxima, done)
        moved(ctx, I, nat, fl, name, tr, first, refers, setters, ap, me, s, done)
        room(ctx, I, nat, name, s, me, ap, maxima, needs, wide, done, f)
    deep(ctx, w, nat)


def share(ctx, I, nat, fl, name, e, refers, ap, me, s, done):
    """every round of the loop gives its vertex the words after those given before"""
    for kind, t, st in e.d["iters"]:
        if kind not in ("end", "break"):
            continue
        rs = [x for x in t if refers(x)]
        if not rs:
            continue
        x = rs[-1]
        site = I.where(x.L)
        args = x.d["args"]
        p, nb = args[0], args[1] if len(args) > 1 else None
        V = x.d["this"][1][-1]
        if not (isinstance(p, tuple) and p[:1] == ("ptr",) and p[2] and isinstance(nb, Poly)):
            skip1(ctx, done, "share", site, name)
            continue
        if p[1] != ap + ("[]",):
            if ap[-1] not in p[1]:
                bad1(ctx, done, "share", name + ":where", site, "%s puts the bits of a vertex somewhere else than in %s" % (name, nat.arena))
            else:
                skip1(ctx, done, "share", site, name)
            continue
        at = p[2][-1]
        # a counter that is where this share starts
        ends = []
        for q in e.d["mod"]:
            h = e.d["head"].mem.get(q)
            if not isinstance(h, Poly) or h.single() is None or h.single() not in at.atoms() or at.coef((h.single(),)) != 1:
                continue
            v = st.mem.get(q)
            if isinstance(v, Poly):
                ends.append((q, h, v, sub(at, h)))
        if not ends:
            if at.single() is not None and tm.info(at.single())[0][0] in ("sym", "sel") or at.const() is None:
                skip1(ctx, done, "share", site, "%s: place %s" % (name, at))
            else:
                bad1(ctx, done, "share", name + ":fixed", site, "%s puts the bits of every vertex at the same place %s" % (name, at))
            continue
        q, h, v, off = ends[0]
        used = tm.app("cdiv", nb, num(64))
        step = sub(v, h)
        if step == used or entails(st.facts, ge(sub(step, used))):
            ok1(ctx, done, "share", site, "%s: the next share starts %s words further on, this one holds %s bits" % (name, step, nb))
        elif simple(step, nb):
            bad1(ctx, done, "share", name + ":next", site, "%s: the share of the next vertex starts %s words further on, this one has %s bits" % (name, step, nb))
        else:
            skip1(ctx, done, "share", site, "%s: step %s" % (name, step))
        # the length remembered with the vertex is that of its bits
        N = I.rd(st, (vfield(nat, me, fl.N), (V,)), "unsigned long")
        if isinstance(N, Poly) and (N == nb or entails(st.facts, eq(sub(N, nb)))):
            ok1(ctx, done, "share", site, "%s: as many bits as the list of the vertex is long" % name)
        elif isinstance(N, Poly) and simple(N, nb) and precise_enough(N, nb):
            bad1(ctx, done, "share", name + ":length", site, "%s: a bit set of %s bits for a list of %s" % (name, nb, N))
        else:
            skip1(ctx, done, "share", site, "%s: length" % name)
        # memory for searches starts behind the last
        c = s.mem.get(me + ("." + nat.cursor,))
        z = s.mem.get(q)
        if isinstance(c, Poly) and isinstance(z, Poly):
            d = sub(c, add(z, off))
            if entails(s.facts, ge(d)):
                ok1(ctx, done, "after", I.where(e.L), "%s: search memory starts %s words after the last share" % (name, d))
            else:
                if bounded_below(d) or entails(s.facts.add(ge(sub(add(z, off), num(8)))), ge(sub(neg(d), ONE))):
                    bad1(ctx, done, "after", name, I.where(e.L), "%s: search memory starts at %s, the last share ends at %s" % (name, c, add(z, off)))
                else:
                    skip1(ctx, done, "after", I.where(e.L), "%s: %s" % (name, d))


def bounded_below(d):
    """a difference that is negative for sure for some graph: constant, or only counted things with a minus sign"""
    if d.const() is not None:
        return d.const() < 0
    return all(k < 0 for m, k in d.m if m) and d.coef(()) <= 0


def simple(*ps):
    return all(len(p.m) <= 3 for p in ps)


def precise_enough(*ps):
    return not any(tm.info(a)[0][0] == "app" and tm.info(a)[0][1] not in ("cdiv", "div", "mod") for p in ps for a in p.atoms())


def once(done, *k):
    if k in done:
        return False
    done.add(k)
    return True


def ok1(ctx, done, rule, site, what):
    if once(done, "ok", rule, site, what.split(":")[0] + what[-20:]):
        ctx.ok(rule, site, what)


def bad1(ctx, done, rule, key, site, what):
    if once(done, "bad", rule, key):
        ctx.bad(rule, key, site, what)


def skip1(ctx, done, rule, site, what):
    if once(done, "skip", rule, site):
        ctx.skip(rule, site, what)


def counters(e):
    """scalars kept by a loop: path -> (head value, [(trace, end state, end value)])"""
    out = {}
    H = e.d["head"]
    for p in e.d["mod"]:
        h = H.mem.get(p)
        if not isinstance(h, Poly) or h.single() is None or "[]" in p:
            continue
        rows = [(t, st, st.mem.get(p)) for kind, t, st in e.d["iters"] if kind == "end"]
        if rows and all(isinstance(v, Poly) for _, _, v in rows):
            out[p] = (h, rows)
    return out


def widths(ctx, I, nat, fl, me, name, e, refers, maxima, done, wide):
    """running maxima of the list lengths"""
    if not any(refers(x) or x.k == "store" and x.d["loc"][0] == vfield(nat, me, fl.N) for k, t, st in e.d["iters"] for x in t):
        return
    maximum(ctx, I, "widest", name, e, maxima, done, "M",
            lambda t, st: [x.d["val"] for x in t if x.k == "store" and x.d["loc"][0] == vfield(nat, me, fl.N) and isinstance(x.d["val"], Poly)][-1:], wide)


def counts(ctx, I, nat, me, name, e, maxima, done):
    """running maxima of something counted for each vertex by inner loops"""
    cs = counters(e)
    inner = set()
    for kind, t, st in e.d["iters"]:
        for x in t:
            if x.k == "loop":
                for p, (h, rows) in counters(x).items():
                    d = {sub(v, h).const() for _, _, v in rows}
                    if d <= {0, 1} and 1 in d and len(d) == 2:
                        inner.add(p)
    for p in inner:
        if p in cs:
            n = len(maxima)
            maximum(ctx, I, "deepest", name, e, maxima, done, "D", lambda t, st, p=p: [st.mem.get(p)] if isinstance(st.mem.get(p), Poly) else [], None)
            if len(maxima) > n:
                nat.counted.add(pretty(p))


def maximum(ctx, I, rule, name, e, maxima, done, tag, of, wanted):
    for p, (h, rows) in counters(e).items():
        raised = kept = 0
        fault = None
        for t, st, v in rows:
            xs = of(t, st)
            if not xs:
                continue
            x = xs[0]
            if v == x and v != h:
                raised += 1
            if not entails(st.facts, ge(sub(v, h))) and v != h:
                fault = fault or (t, st, "may be lowered")
            elif not entails(st.facts, ge(sub(v, x))) and v != x:
                fault = fault or (t, st, "may stay below what was counted")
        site = I.where(e.L)
        key = "j:" + str(p[-1])
        if not raised:
            if wanted and p[0] == ("g", "self") and pretty(p) in wanted and any(v != h for _, _, v in rows):
                maxima.setdefault(key, ("?", p, (None, None, "is not raised to the lengths of the lists"), site))
            continue
        if all(v in of(t, st) for t, st, v in rows if of(t, st)):
            # simply the last value
            fault = (None, None, "is left at the last one counted")
        if fault is None:
            maxima[key] = (tag, p)
            maxima[str(h)] = (tag, p)
            ok1(ctx, done, rule, site, "%s: %s is at least what was counted in every round" % (name, pretty(p)))
        elif p[0] == ("g", "self"):
            maxima.setdefault(key, ("?", p, fault, site))


def pretty(p):
    x = p[-1]
    return x.lstrip(".") if isinstance(x, str) else str(x[-1])


def classify(a, maxima):
    i = tm.info(a)[0]
    if i[0] == "sym" and i[1] in maxima:
        return maxima[i[1]]
    return None


def room(ctx, I, nat, name, s, me, ap, maxima, needs, wide, done, f):
    site = next((I.where(x.L) for x in reversed(list(flat(trace(s.ev)))) if moves(x, ap) and x.k in ("resize", "push", "vinsert")), None)
    grown = site is not None
    site = site or I.where(f["L"])
    c = s.mem.get(me + ("." + nat.cursor,))
    size = I.vsize(s, (ap, ()))
    if not isinstance(c, Poly) or not isinstance(size, Poly):
        skip1(ctx, done, "room", site, name)
        return
    cap = sub(size, c)
    D = M = None
    pool = set(deep_atoms(cap, set()))
    for q in s.facts.all():
        for p in tm.cond_polys(q):
            pool |= set(deep_atoms(p, set()))
    for x in sorted(pool):
        k = classify(x, maxima)
        if k is None:
            continue
        if k[0] == "D":
            D = x
        elif k[0] == "M" and (not wide or k[1][-1][1:] in wide or M is None):
            M = x
    need = "; ".join("%s %d bit sets at the root and %d for each level" % (n, a, b) for a, b, lv, n in needs)
    if any((classify(x, maxima) or "-")[0] == "?" for x in deep_atoms(cap, set())):
        # the memory is sized by a value that is not the maximum it should be
        for x in sorted(deep_atoms(cap, set())):
            k = classify(x, maxima)
            if k and k[0] == "?":
                bad1(ctx, done, "widest" if wide and pretty(k[1]) in wide else "deepest", "%s:%s" % (name, pretty(k[1])), k[3],
                     "%s: the memory is sized by %s, which %s on a path round the loop" % (name, pretty(k[1]), k[2][2]))
        return
    if M is None or D is None:
        if grown:
            short1(ctx, I, name, cap, {x: 1 for x in (M, D) if x is not None}, needs, site, done)
            return
        skip1(ctx, done, "room", site, "%s: bounds of depth and width not found" % name)
        return
    unit = tm.app("cdiv", Poly((((M,), 1),)), num(64))
    d = Poly((((D,), 1),))
    fs = s.facts
    two = fs
    for g in (ge(sub(d, num(2))), ge(sub(unit, ONE)), ge(mul(sub(d, num(2)), unit)), ge(mul(sub(d, num(2)), sub(unit, ONE)))):
        two = two.add(g)
    one = fs
    for g in (eq(sub(d, ONE)), eq(sub(unit, ONE)), eq(sub(mul(d, unit), ONE))):
        one = one.add(g)
    ok2 = ok1_ = True
    for a, b, lv, _ in needs:
        want = add(num(a), scale(sub(d, num(lv)), b))           # in bit sets, for two members or more
        ok2 = ok2 and entails(two, ge(sub(cap, mul(want, unit))))
        ok1_ = ok1_ and entails(one, ge(sub(cap, num(a))))
        ctx.count("sizes of the search memory compared", 2)
    if ok1_ and ok2:
        ok1(ctx, done, "room", site, "%s: the memory left, %s words, covers %s (%s)" % (name, "what was there" if not grown else str(cap), need, "enlarged" if grown else "not enlarged"))
        return
    if grown or cap.atoms() <= {D, M} | set(unit.atoms()):
        short1(ctx, I, name, cap, {M: 1, D: 1}, needs, site, done)
        return
    if precise(fs, cap) or known_only(cap):
        bad1(ctx, done, "room", name + ":kept", site, "%s: the vector is left as it is although the memory after the shares need not cover %s" % (name, need))
    else:
        skip1(ctx, done, "room", site, "%s: %s" % (name, cap))


def known_only(p):
    return all(tm.info(a)[0][0] in ("sym", "init", "app") for a in p.atoms())


def short1(ctx, I, name, cap, atoms, needs, site, done):
    """sizes for complete graphs: every list and the deepest search are as long as the graph"""
    rest = [k for m, k in cap.m if m and value(Poly(((m, 1),)), {x: 1 for x in atoms}) is None]
    if rest and all(k < 0 for k in rest):
        bad1(ctx, done, "room", name, site, "%s makes the vector so long that %s words are left for searches, fewer the more vertices there are" % (name, cap))
        return
    for n in list(range(1, 200)) + [255, 256, 257, 511, 512, 513, 1000]:
        v = value(cap, {x: n for x in atoms})
        if v is None:
            skip1(ctx, done, "room", site, "%s: %s" % (name, cap))
            return
        u = -(-n // 64)
        for a, b, lv, op in needs:
            want = (a + b * max(n - lv, 0)) * u
            if v < want:
                bad1(ctx, done, "room", name, site, "%s sets aside %s words for searches: %d for the complete graph of %d vertices, where %s needs %d (%d bit sets at the root and %d "
                     "for each level)" % (name, cap, v, n, op, want, a, b))
                return
    skip1(ctx, done, "room", site, "%s: %s" % (name, cap))


def value(p, env):
    t = 0
    for m, k in p.m:
        x = k
        for at in m:
            if at in env:
                x *= env[at]
                continue
            i = tm.info(at)[0]
            if i[0] == "app" and i[1] in ("cdiv", "div", "mod") and len(i) == 4:
                u, v = value(i[2], env), value(i[3], env)
                if u is None or not v:
                    return None
                x *= -(-u // v) if i[1] == "cdiv" else u // v if i[1] == "div" else u % v
                continue
            return None
        t += x
    return t


def moves(e, ap):
    """does this event enlarge or replace the vector?"""
    if e.k in ("resize", "push"):
        return e.d["loc"][0] == ap
    if e.k in ("reserve", "vinsert", "shrink"):
        return e.d["vec"][0] == ap
    if e.k == "swap":
        return ap in (e.d["a"][0], e.d["b"][0])
    return False


def moved(ctx, I, nat, fl, name, tr, first, refers, setters, ap, me, s, done):
    """after every change that can move the memory all bit sets are pointed at it again"""
    for i, e in enumerate(tr):
        if i <= first:
            continue
        if not moves(e, ap):
            continue
        site = I.where(e.L)
        ctx.count("changes of the memory followed")
        good, faults, other = False, [], False
        for y in tr[i + 1:]:
            if y.k in ("ucall", "fncall", "bulk") or any(x.k == "icall" and x.d["fn"] in setters and not refers(x) for x in flat([y])):
                other = True
            if y.k != "loop" or not any(refers(x) for x in flat([y])):
                continue
            g, why, at = again(I, nat, fl, y, refers, ap, me, s)
            if g:
                good = True
            elif g is False:
                faults.append((why, at))
            else:
                other = True
        if good:
            ok1(ctx, done, "refer", site, "%s: every bit set is pointed at the enlarged memory" % name)
        elif faults:
            bad1(ctx, done, "refer", name + ":again", faults[0][1], "%s: after the memory was enlarged %s" % (name, faults[0][0]))
        elif other:
            skip1(ctx, done, "refer", site, name)
        else:
            bad1(ctx, done, "refer", name, site, "%s enlarges %s and leaves the bit sets of the vertices pointing at the old memory" % (name, nat.arena))


def again(I, nat, fl, e, refers, ap, me, s):
    """True if every round points its vertex at its own share and all vertices are visited; False with the reason if not; None if not known"""
    got = [round_(I, nat, fl, e, it, refers, ap, me, s) for it in e.d["iters"]]
    got = [g for g in got if g is not None]
    for g in got:
        if g[0] is False:
            return g
    return got[0] if got and all(g[0] for g in got) else (None, "", "")


def round_(I, nat, fl, e, it, refers, ap, me, s):
    n = I.vsize(s, (me + ("." + nat.vec,), ()))
    elem = [x for k, t, st in e.d["iters"] for x in t if x.k == "elem"]
    kind, t, st = it
    if kind == "break":
        return False, "the loop over the vertices is left early", I.where(e.L)
    if kind != "end":
        return None
    rs = [x for x in t if refers(x)]
    if not rs:
        # a vertex passed over
        return (False, "some vertices are passed over", I.where(e.L)) if not any(x.k == "loop" for x in t) else (None, "", "")
    x = rs[-1]
    V = x.d["this"][1][-1]
    p, nb = x.d["args"][0], x.d["args"][1]
    at = I.where(x.L)
    if not (isinstance(p, tuple) and p[:1] == ("ptr",) and p[2] and isinstance(nb, Poly)):
        return None, "", ""
    if p[1] != ap + ("[]",):
        return (False, "the bit sets are pointed somewhere else", at) if ap[-1] not in p[1] and "#p" not in p[1] else (None, "", "")
    N = I.rd(st, (vfield(nat, me, fl.N), (V,)), "unsigned long")
    own = [g["n"] for g in nat.w.recs[nat.vcls]["fields"] if strip(g["t"]) == "unsigned long"
           and p[2][-1] == I.rd(st, (vfield(nat, me, g["n"]), (V,)), "unsigned long")]
    if nb != N and not entails(st.facts, eq(sub(nb, N))):
        return (False, "the bit sets get %s bits" % nb, at) if precise_enough(nb) else (None, "", "")
    if not own:
        h = e.d["head"]
        if any(isinstance(h.mem.get(q), Poly) and h.mem[q].single() in p[2][-1].atoms() for q in e.d["mod"]) and p[2][-1] != V:
            return None, "", ""            # a running offset
        return (False, "the bit sets are pointed at %s" % p[2][-1], at) if precise_enough(p[2][-1]) else (None, "", "")
    if not started_at(nat, own):
        return (False, "the bit sets are pointed at the place in %s" % own[0], at)
    if elem:
        return (True, "", at) if elem[0].d["idx"] == V else (None, "", "")
    for h, lo, hi, complete, q in loop_range(e):
        if V == h or sub(V, h).const() is not None:
            k = sub(V, h)
            if not complete:
                return None, "", ""
            if entails(s.facts, eq(add(lo, k))) and (entails(s.facts, ge(sub(add(hi, k), n))) or entails(s.facts, eq(sub(add(hi, k), n)))):
                return True, "", at
            lo_, hi_ = add(lo, k), sub(n, add(hi, k))
            if lo_.const() is not None and lo_.const() > 0 or hi_.const() is not None and hi_.const() > 0:
                return False, "the vertices before the %s-th are passed over" % lo_ if lo_.const() else "the last vertices are passed over", at
    return None, "", ""


def started_at(nat, own):
    fl = Fields(nat)
    return any(n not in (fl.N, fl.spos, fl.elo, "mcs") for n in own)


def deep(ctx, w, nat):
    """the count behind the depth: neighbours that may be candidates are not passed over"""
    for f in w.fns.values():
        if f.get("class") != nat.cls or not f.get("body") or f.get("ctor") or not has_loop(w, f) or not fields_written(f):
            continue
        sub_ = Ctx("C16", ctx.tier, ctx.seed)
        try:
            c11.one(sub_, w, nat, None, f)
        except Exception:
            continue
        for o in sub_.obl:
            if o["rule"] != "passed" or not any(": %s," % n in o["what"] or "for %s " % n in o["what"] for n in nat.counted):
                continue
            if o["status"] == "holds":
                ctx.ok("deepest", o["site"], o["what"])
            elif o["status"] == "violated":
                ctx.bad("deepest", "passed:" + short(f["q"]), o["site"], "the depth used to size the memory misses candidates: " + o["what"])
