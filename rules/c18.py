from .pywrap import *
from engine.pyeval import arith, FULL
from . import c08
from .corr import Corr, levels, run_build, targets, one_per_source

TECHNIQUE = "static analysis: path-sensitive abstract interpretation of the wrappers' Python AST with position-wise sequences and " \
            "element sorts, on top of the argument lists of the bindings"
EXPLAIN = ("Every wrapper class is interpreted abstractly. Index lists from the compiled module are followed position by position "
           "through list building, indexing, loops and dict stores to the returned value, where each component must hold elements "
           "of its own set at its own indices. Constructors and builder calls are checked to keep set, metric and symmetry flag "
           "of each set together.")

ORDER = {"sorted", "reversed", "set", "frozenset", "numpy.sort", "numpy.unique", "numpy.flip", "numpy.argsort"}


class SortError(Exception):
    pass


def run(ctx, prog):
    w = World(prog)
    ctx.rule("stored", "the constructor keeps each set, metric and symmetry flag under its own name")
    ctx.rule("builder-roles", "set, metric and flag of each set reach the builder in the role of that set")
    ctx.rule("indices", "index results hold indices of the first and the second set, pair by pair, with the right first number")
    ctx.rule("elements", "element results hold elements of the first and the second set, pair by pair")
    ctx.rule("subgraphs", "returned subgraphs and mapping relate vertices of the graph they belong to")
    ctx.rule("metric-of-set", "the distances of a set are computed with its own metric, in both orders unless its own flag says "
             "the metric is symmetric")
    ts = [t for t in one_per_source(w, targets(w), ctx.tier == "thorough") if t[1] is None]
    pmap(ctx, ts, lambda c, t: metrics(c, w, t))
    py = Py(w)
    pub = exported(py)
    for c in py.cls:
        if c.name not in pub:
            continue
        ctx.count("wrapper classes")
        iso = is_iso(py, c)
        init(ctx, py, c)
        builders(ctx, py, c)
        results(ctx, py, c, iso)
    ctx.assume += ["indexing an array or list with an index gives that element; numpy indexing with a list of indices gives the "
                   "elements in the order of the list"]


def metrics(ctx, w, t):
    label, cls, b = t
    ps = params_of(w, b)
    if not any(strip(p["t"]).startswith("std::function") and not strip(p["t"]).startswith("std::function<bool") for p in ps):
        return
    B = run_build(w, label, b)
    ctx.used(B.I)
    C = Corr(w, B)
    C.scores, C.limits, C.orient = [], [], {}
    if not C.ok or not C.metrics:
        return
    ctx.count("builders with metrics")
    C.tabs = c08.tables(C, list(levels(B)))
    R = c08.Results()
    for tab in (C.tabs or {}).values():
        c08.fill(ctx, C, R, tab)
    R.d = {("metric-of-set",) + k[1:]: v for k, v in R.d.items()}
    R.report(ctx, label)


def exported(py):
    out = set()
    for m in py.P.mods.values():
        if m.path.endswith("__init__.py"):
            for n, v in m.names.items():
                if not n.startswith("_") and v[0] == "glob":
                    out.add(v[1].rsplit(".", 1)[-1])
    return out


def is_iso(py, c):
    for m, I, s, e, b in calls(c, py, lambda e: py.builder(*e[1:3], dict(e[3]))):
        if "len1" not in b:
            return True
    return False


def line(c, py, m):
    for k in py.P.mro(c):
        if isinstance(k, Cls) and m in k.methods:
            return "%s:%d" % (k.mod.rel, k.methods[m].lineno)
    return c.mod.rel


def init(ctx, py, c):
    I = PyInterp(py.P)
    k, node = I.find(c, "__init__")
    if node is None:
        return
    ps = [a.arg for a in node.args.args[1:]]
    if len(ps) < 2:
        return
    site = line(c, py, "__init__")
    for s, v in I.run(c, "__init__"):
        ctx.count("paths")
        at = s.heap.get("attrs", {})
        given = {k: s.facts.get(("cmp", "is", ("p", "d%d" % k), ("c", None))) is False or s.facts.get(("p", "d%d" % k)) is True
                 for k in (1, 2)}
        for k in (1, 2):
            me, other = ("p", ps[k - 1]), ("p", ps[2 - k])
            val = I.freeze(s, at.get((SELF, "S%d" % k), ("unk", 0)))
            put(ctx, "stored", site, c, "S%d = %s" % (k, show(val)), kept(val, me, other), "set %d is not kept as S%d" % (k, k))
            if "d%d" % k in ps:
                me, other = ("p", "d%d" % k), ("p", "d%d" % (3 - k))
                val = I.freeze(s, at.get((SELF, "d%d" % k), ("unk", 0)))
                if val == ("c", None):
                    # a second metric is only used together with a first one
                    must = given[1] if k == 1 else given[1] and given[2]
                    put(ctx, "stored", site, c, "d%d = None" % k, not must, "the metric given for set %d is dropped" % k)
                else:
                    put(ctx, "stored", site, c, "d%d = %s" % (k, show(val)), kept(val, me, other),
                        "not the metric given for set %d" % k)
            n = "is_d%d_symmetric" % k
            if n in ps:
                me, other = ("p", n), ("p", "is_d%d_symmetric" % (3 - k))
                val = I.freeze(s, at.get((SELF, n), ("unk", 0)))
                r = kept(val, me, other)
                if val[0] == "c":
                    r = False
                put(ctx, "stored", site, c, "%s = %s" % (n, show(val)), r, "the flag given for set %d is not kept" % k)
    for x in I.seen:
        ctx.functions.add("%s %s" % x)


def kept(val, me, other):
    if val == me:
        return True
    r = refs(val)
    if me in r and other not in r and not has_unknown(val):
        return True
    if other in r and me not in r:
        return False
    if me not in r and not has_unknown(val):
        return False
    return None


def put(ctx, rule, site, c, what, r, why):
    if r:
        ctx.ok(rule, site, "%s: %s" % (c.name, what))
    elif r is False:
        ctx.bad(rule, c.name, site, "%s: %s: %s" % (c.name, what, why))
    else:
        ctx.skip(rule, site, "%s: %s: not understood" % (c.name, what))


def builders(ctx, py, c):
    seen = set()
    for m, I, s, e, b in calls(c, py, lambda e: py.builder(*e[1:3], dict(e[3]))):
        site = "%s:%d" % e[4]
        ctx.count("builder calls on paths")
        for x in I.seen:
            ctx.functions.add("%s %s" % x)
        for k in (1, 2):
            for role, attr in (("set%d" % k, "S%d" % k), ("d%d" % k, "d%d" % k), ("sym%d" % k, "is_d%d_symmetric" % k)):
                me, other = ("attr", SELF, attr), ("attr", SELF, attr.replace(str(k), str(3 - k)))
                if role not in b:
                    if role.startswith("d") and "len1" in b and ("d1" in roles_of(py, e)):
                        g1 = s.facts.get(("attr", SELF, "d1"))
                        g2 = s.facts.get(("attr", SELF, "d2"))
                        must = g1 is True and (k == 1 or g2 is True)
                        key = (site, role, must)
                        if key not in seen and (g1 is not None):
                            seen.add(key)
                            put(ctx, "builder-roles", site, c, "%s: no metric passed for set %d" % (m, k), not must,
                                "the metric for set %d is dropped" % k)
                    continue
                v = b[role]
                key = (site, role, v)
                if key in seen:
                    continue
                seen.add(key)
                r = kept(v, me, other)
                if r is False and not ({me, other} & refs(v)) and v[0] != "c":
                    r = None
                put(ctx, "builder-roles", site, c, "%s: %s is %s" % (m, role, show(v)), r, "not that of set %d" % k)
        if "cond" in b:
            v = b["cond"]
            r = True if v[0] == "p" else (False if v in (("attr", SELF, "d1"), ("attr", SELF, "d2")) else None)
            if (site, "cond", v) not in seen:
                seen.add((site, "cond", v))
                put(ctx, "builder-roles", site, c, "%s: condition is %s" % (m, show(v)), r, "not the condition function given")
        if "eps" in b and (site, "eps", b["eps"]) not in seen:
            v = b["eps"]
            seen.add((site, "eps", v))
            r = True if v == ("attr", SELF, "epsilon") else (False if v[0] == "c" else None)
            put(ctx, "builder-roles", site, c, "%s: tolerance is %s" % (m, show(v)), r, "not the epsilon set by the caller")


def roles_of(py, e):
    """all roles any overload of this builder has"""
    n = e[1][1][len(CORE):]
    out = set()
    for b in py.w.module:
        if b["name"] == n and params_of(py.w, b) is not None:
            out |= set(roles(py.w, b))
    return out


def results(ctx, py, c, iso):
    for m, it in (("get_correspondence", False), ("all_correspondences", True)):
        I = PyInterp(py.P)
        site = line(c, py, m)
        for s, v in I.run(c, m):
            if v is None:
                continue
            ctx.count("paths")
            outs = I.next_of(s, v) if it else [(s, v)]
            for s2, r in outs:
                if r is None:
                    continue
                idx = s2.facts.get(("p", "return_indices"))
                val = I.freeze(s2, r)
                both = [idx]
                if idx is None and takes(I, c, m, "return_indices") \
                        and not any(isinstance(f, tuple) and ("p", "return_indices") in refs(f) for f in s2.facts):
                    both = [True, False]    # this path is taken for either format
                for x in both:
                    judge(ctx, py, c, I, s2, val, x, iso, site, m)
        for x in I.seen:
            ctx.functions.add("%s %s" % x)


def takes(I, c, m, name):
    k, node = I.find(c, m)
    return node is not None and name in [a.arg for a in node.args.args + node.args.kwonlyargs]


def raw(py, t):
    """the pair of index lists from the compiled module"""
    if t[0] == "call":
        n, a = py.bound(t[1], t[2], dict(t[3]))
        return n == "_get_correspondence"
    if t[0] == "next" and t[1][0] == "call":
        n, a = py.bound(t[1][1], t[1][2], dict(t[1][3]))
        return n == "_all_correspondences"
    return False


def judge(ctx, py, c, I, s, val, idx, iso, site, m):
    R = [t for t in refs(val) if isinstance(t, tuple) and t and t[0] in ("call", "next") and raw(py, t)]
    name = "%s.%s" % (c.name, m)
    if len(R) != 1 or idx is None:
        if idx is not None or R:
            ctx.skip("indices" if idx else "elements", site, name + ": result not understood")
        return
    R = R[0]
    lists = [("sub", R, ("c", 0)), ("sub", R, ("c", 1))]
    if idx:
        if val == R:
            r = not iso
            put(ctx, "indices", site, c, m + ": index lists are returned as they are", r, "vertex numbers would start at 0")
            return
        comps = val[1:] if val[0] in ("tuple", "list") and len(val) == 3 else None
        if comps is None:
            ctx.skip("indices", site, name + ": result not understood")
            return
        for k in (0, 1):
            p = ("pos", "p")
            want = arith("+", ("at", lists[k], p), ("c", 1 if iso else 0))
            got = norm_at(I, s, comps[k], p)
            compare(ctx, "indices", site, c, "%s: result %d is %s" % (m, k + 1, show(comps[k])), got, want, lists, k, comps[k])
        return
    plain = val == R
    if val[0] in ("tuple", "list") and len(val) == 3:
        plain = plain or any(base(norm_at(I, s, val[k + 1], ("pos", "p")))[0] == ("at", lists[k], ("pos", "p")) for k in (0, 1))
    if plain:
        rule = "subgraphs" if iso else "elements"
        ctx.bad(rule, c.name, site, "%s: indices are returned although %s were asked for" % (name, rule))
        return
    if iso:
        subgraphs(ctx, py, c, I, s, val, lists, site, m)
        return
    comps = None
    if val[0] in ("tuple", "list") and len(val) == 3:
        comps = val[1:]
    elif val[0] == "dict":
        d = {k[1]: v for q, k, v in val[1:] if k[0] == "c"}
        if "S1" in d and "S2" in d:
            comps = (d["S1"], d["S2"])
    if comps is None:
        ctx.skip("elements", site, name + ": result not understood")
        return
    for k in (0, 1):
        p = ("pos", "p")
        S = ("attr", SELF, "S%d" % (k + 1))
        want = ("sub", S, ("at", lists[k], p))
        got = norm_at(I, s, comps[k], p)
        compare(ctx, "elements", site, c, "%s: result %d is %s" % (m, k + 1, show(comps[k])), got, want, lists, k, comps[k],
                ("attr", SELF, "S%d" % (2 - k)))


def norm_at(I, s, t, p):
    g = I.at(s, t, p)
    return g


def compare(ctx, rule, site, c, what, got, want, lists, k, whole, wrong=None):
    if got == want:
        ctx.ok(rule, site, "%s.%s" % (c.name, what))
        return
    r = refs(got)
    if lists[1 - k] in r and lists[k] not in r:
        ctx.bad(rule, c.name, site, "%s.%s: taken from the indices of the other set" % (c.name, what))
    elif wrong is not None and (got[0] == "sub" and got[1] == wrong or wrong in r and ("attr", SELF, "S%d" % (k + 1)) not in r):
        ctx.bad(rule, c.name, site, "%s.%s: elements of the other set" % (c.name, what))
    elif any(t[0] == "call" and t[1][0] == "glob" and t[1][1] in ORDER for t in refs(whole) if isinstance(t, tuple) and t
             and t[0] == "call" and isinstance(t[1], tuple)) or any(t and t[0] == "set" for t in refs(whole) if isinstance(t, tuple)):
        ctx.bad(rule, c.name, site, "%s.%s: the order of the pairs is lost" % (c.name, what))
    elif has_unknown(got):
        ctx.skip(rule, site, "%s.%s" % (c.name, what))
    elif wrong is None and got[0] == "sub" and got[1][0] == "attr" and got[1][1] == SELF and base(got[2])[0] == base(want)[0]:
        ctx.bad(rule, c.name, site, "%s.%s: elements are returned although indices were asked for" % (c.name, what))
    elif shifted(got, want):
        ctx.bad(rule, c.name, site, "%s.%s: numbers are shifted, %s instead of %s" % (c.name, what, show(got), show(want)))
    elif got[0] == "at" and got[1][0] == "sub" and got[1][2][0] == "slice" and got[1][2] != FULL:
        ctx.bad(rule, c.name, site, "%s.%s: part of the pairs is left out or reordered" % (c.name, what))
    else:
        ctx.skip(rule, site, "%s.%s" % (c.name, what))


def base(t):
    if t[0] == "off":
        return t[1], t[2]
    return t, 0


def shifted(got, want):
    if got[0] == "sub" and want[0] == "sub" and got[1] == want[1]:
        return shifted(got[2], want[2])
    a, b = base(got), base(want)
    return a[0] == b[0] and a[1] != b[1]


# --- sorts of vertices
def subgraphs(ctx, py, c, I, s, val, lists, site, m):
    comps = val[1:] if val[0] in ("tuple", "list") and len(val) == 4 else None
    if comps is None:
        ctx.skip("subgraphs", site, "%s.%s: result not understood" % (c.name, m))
        return
    want = [(("V", 1), ("V", 1)), (("V", 2), ("V", 2)), (("V", 1), ("V", 2))]
    names = ["first subgraph", "second subgraph", "mapping"]
    for k, d in enumerate(comps):
        what = "%s: %s" % (m, names[k])
        if d[0] != "dict" or len(d) != 2 or d[1][0] is None:
            ctx.skip("subgraphs", site, "%s.%s" % (c.name, what))
            continue
        (p, over), key, v = d[1]
        try:
            ks = elem_sort(py, I, s, key, lists)
            vs = elem_sort(py, I, s, v, lists) if k == 2 else set_sort(py, I, s, v, lists)
            bad = None
            if ks is not None and ks != want[k][0]:
                bad = "keys are %s" % name_sort(ks)
            elif vs is not None and vs != want[k][1]:
                bad = "values are %s" % name_sort(vs)
            else:
                ps = {t[2] for t in refs(key) | refs(v) if isinstance(t, tuple) and t and t[0] == "at" and t[1] in lists}
                own = {x for x in ps if x == p}
                if key_pos(key, lists) not in (p, None):
                    bad = "key and value come from different pairs"
                if k == 1:
                    n = [t for t in refs(v) if isinstance(t, tuple) and t and t[0] == "call" and t[1][0] == "attr"
                         and t[1][2] == "_vertex_neighbors"]
                    if n and any(x[2][0] != key for x in n):
                        bad = "neighbours of another vertex than the key"
                if k == 2 and key_pos(v, lists) not in (p, None):
                    bad = "key and value come from different pairs"
            if bad is None and k < 2 and vs is not None and not restricted(v, lists):
                bad = "holds neighbours that are not part of the correspondence"
            if bad:
                ctx.bad("subgraphs", c.name, site, "%s.%s: %s" % (c.name, what, bad))
            elif ks is None or vs is None:
                ctx.skip("subgraphs", site, "%s.%s" % (c.name, what))
            else:
                ctx.ok("subgraphs", site, "%s.%s: %s to %s" % (c.name, what, name_sort(ks), name_sort(vs)))
        except SortError as x:
            ctx.bad("subgraphs", c.name, site, "%s.%s: %s" % (c.name, what, x))


def restricted(t, lists):
    """no term that is a plain neighbour set ends up in the value"""
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "_vertex_neighbors":
        return False
    if t[0] == "set" and t[1][0] in ("call", "set", "bin"):
        return restricted(t[1], lists)
    if t[0] == "bin" and t[1] == "|":
        return restricted(t[2], lists) and restricted(t[3], lists)
    if t[0] == "bin" and t[1] == "-":
        return restricted(t[2], lists)
    return True


def name_sort(s):
    return {"V": "vertices of graph %d", "I": "positions (from 0) in graph %d"}[s[0]] % s[1]


def key_pos(t, lists):
    b = base(t)[0]
    return b[2] if b[0] == "at" and b[1] in lists else None


def elem_sort(py, I, s, t, lists):
    b, o = base(t)
    if b[0] == "at" and b[1] in lists:
        return (("I", "V")[o], lists.index(b[1]) + 1) if o in (0, 1) else None
    if o:
        return None
    if b[0] == "at":
        return set_sort(py, I, s, b[1], lists)
    if b[0] == "lookup" and b[1][0] == "dict":
        x = elem_sort(py, I, s, b[2], lists)
        out = None
        for q, k, v in b[1][1:]:
            ks = elem_sort(py, I, s, k, lists)
            if ks is not None and x is not None and ks != x:
                raise SortError("%s are looked up among %s" % (name_sort(x), name_sort(ks)))
            out = elem_sort(py, I, s, v, lists)
        return out
    return None


def set_sort(py, I, s, t, lists):
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "_vertex_neighbors" and len(t[2]) == 1:
        g = t[1][1]
        if g[0] == "attr" and g[1] == SELF and g[2] in ("S1", "S2"):
            k = int(g[2][1])
            a = elem_sort(py, I, s, t[2][0], lists)
            if a is not None and a != ("V", k):
                raise SortError("neighbours in graph %d are asked for %s" % (k, name_sort(a)))
            return ("V", k)
        return None
    if t[0] == "bin" and t[1] in ("&", "|", "-"):
        a, b = set_sort(py, I, s, t[2], lists), set_sort(py, I, s, t[3], lists)
        if a is not None and b is not None and a != b:
            raise SortError("%s are combined with %s" % (name_sort(a), name_sort(b)))
        return a or b
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("intersection", "difference", "union") and len(t[2]) == 1:
        return set_sort(py, I, s, ("bin", "&", t[1][1], ("set", t[2][0])), lists)
    if t[0] == "set":
        if t[1][0] in ("call", "bin", "set"):
            x = set_sort(py, I, s, t[1], lists)
            if x is not None:
                return x
        return elem_sort(py, I, s, I.at(s, t[1], ("pos", "q")), lists)
    if t[0] == "seq" or t in lists:
        return elem_sort(py, I, s, I.at(s, t, ("pos", "q")), lists)
    return None
