"""Effects of the standard library, pybind11 and Eigen calls the project makes."""
from . import terms as tm
from .terms import Poly, num, ZERO, ONE, add, sub, ge, gt, eq, ne, T, F
from .interp import strip, targs, is_vec, is_sptr, is_arr


def obj_locs(I, x, st):
    """receiver of an operator call or of a method call without arrow"""
    return I.lval(x, st)


def elem(I, s, l, i, el, e, lv, want=True):
    loc = (l[0] + ("[]",), l[1] + (i,))
    I.event(s, "access", e, vec=l, idx=i, size=I.vsize(s, l), loc=loc)
    if lv or I.is_obj(el):
        return ("obj", loc) if I.is_obj(el) else ("loc", loc)
    return I.load(s, loc, el, e)


def call(I, e, st, lv=False):
    q = e.get("q") or ""
    op = e.get("opc")
    args = e["args"]
    if op == "[]" and q.startswith("std::vector<"):
        el = targs(q)[0]
        out = []
        for s, l in obj_locs(I, args[0], st):
            for s2, i in I.eval(args[1], s):
                l2 = I.resolve(s2, l)
                if not isinstance(i, Poly):
                    i = tm.fresh("idx", "u", True)
                out.append((s2, elem(I, s2, l2, i, el, e, lv)))
        return out
    if op == "()":
        if q.startswith("std::function<") or (e.get("lam") is not None):
            out = []
            for s, fv in I.eval(args[0], st):
                if isinstance(fv, tuple) and fv and fv[0] == "obj":
                    v = s.mem.get(fv[1][0])
                    if v is None:
                        v = I.rd(s, fv[1], "unsigned long")
                    fv = v
                for s2, vs in arg_values(I, args[1:], s):
                    out += I.apply(fv, args[1:], vs, s2, e)
            return out
        if "unchecked" in q or "DenseCoeffsBase" in q or "PlainObjectBase" in q or "Eigen::" in q:
            out = []
            for s, l in obj_locs(I, args[0], st):
                for s2, vs in I.evals(args[1:], s):
                    idx = tuple(v if isinstance(v, Poly) else tm.fresh("idx", "i", True) for v in vs)
                    l2 = I.resolve(s2, l)
                    loc = (l2[0] + ("[]",) * len(idx), l2[1] + idx)
                    I.event(s2, "arrindex", e, arr=l2, idx=idx, loc=loc, lv=lv, cls=q,
                            shape=(I.rd(s2, (l2[0] + ("#shape0",), l2[1]), "unsigned long"),
                                   I.rd(s2, (l2[0] + ("#shape1",), l2[1]), "unsigned long")))
                    if lv:
                        out.append((s2, ("loc", loc)))
                    else:
                        out.append((s2, I.load(s2, loc, e["t"], e)))
            return out
        # functor object
        out = []
        for s, vs in I.evals(args, st):
            out.append((s, I.opaque(e)))
        return out
    if op == "*":
        out = []
        if "shared_ptr" in q or "unique_ptr" in q:
            for s, l in obj_locs(I, args[0], st):
                p = I.rd(s, (l[0] + ("#p",), l[1]), targs_ptr(q))
                I.event(s, "sderef", e, handle=l, ptr=p, via="*")
                for s2, tl in target(I, s, p, e):
                    out.append((s2, ("obj", tl)))
            return out
        for s, v in I.eval(args[0], st):
            if isinstance(v, tuple) and v and v[0] == "obj":
                v2 = s.mem.get(v[1][0])
                v = v2 if v2 is not None else v
            if isinstance(v, tuple) and v and v[0] == "ptr":
                loc = (v[1], v[2])
                I.event(s, "index", e, loc=loc)
                if lv or I.is_obj(e["t"]):
                    out.append((s, ("obj" if I.is_obj(e["t"]) else "loc", loc)))
                else:
                    out.append((s, I.load(s, loc, e["t"], e)))
            elif isinstance(v, tuple) and v and v[0] in ("setit", "setpos"):
                x = v[2]
                if v[0] == "setpos":
                    x = tm.app("at", v[1], v[2])
                    s.facts = s.facts.addall([ne(tm.app("in", v[1], x, kind="b")), eq(tm.app("setempty", v[1], kind="b"))])
                if lv and isinstance(x, Poly):
                    t = I.tmp()
                    s.mem[t[0]] = x
                    x = ("loc", t)
                out.append((s, x))
            else:
                I.unk("iterator *")
                out.append((s, I.opaque(e)))
        return out
    if op == "->":
        out = []
        for s, l in obj_locs(I, args[0], st):
            p = I.rd(s, (l[0] + ("#p",), l[1]), targs_ptr(q))
            I.event(s, "sderef", e, handle=l, ptr=p, via="->")
            if isinstance(p, tuple) and p[0] == "null":
                out.append((s, ("ptr", I.tmp()[0], (), None)))
            else:
                out.append((s, p))
        return out
    if op in ("+", "-") and ("__normal_iterator" in q):
        out = []
        for s, vs in I.evals(args, st):
            vs = [unwrap(s, v) for v in vs]
            a = vs[0]
            if isinstance(a, tuple) and a and a[0] == "ptr":
                if isinstance(vs[1], Poly):
                    p = I.ptr_at(a, vs[1] if op == "+" else tm.neg(vs[1]))
                    out.append((s, ("ptr", p[0], p[1], a[3])))
                    continue
                if isinstance(vs[1], tuple) and vs[1][0] == "ptr" and vs[1][1] == a[1] and a[2]:
                    out.append((s, sub(a[2][-1], vs[1][2][-1])))
                    continue
            out.append((s, I.opaque(e)))
        return out
    if op in ("++", "--") and "iterator" in q:
        out = []
        for s, l in I.lval(args[0], st):
            v = s.mem.get(l[0])
            if isinstance(v, tuple) and v and v[0] == "ptr" and v[2]:
                d = ONE if op == "++" else num(-1)
                nv = ("ptr", v[1], v[2][:-1] + (add(v[2][-1], d),), v[3])
                I.wr(s, l, nv)
                out.append((s, v if len(args) > 1 else nv))
            elif isinstance(v, tuple) and v and v[0] == "setpos":
                nv = ("setpos", v[1], add(v[2], ONE if op == "++" else num(-1)))
                I.wr(s, l, nv)
                out.append((s, v if len(args) > 1 else nv))
            else:
                I.wr(s, l, ("unk", I.newid()))
                out.append((s, ("unk", I.newid())))
        return out
    if op in ("==", "!=", "<", ">", "<=", ">="):
        out = []
        for s, vs in I.evals(args, st):
            vs = [unwrap(s, v) for v in vs]
            out.append((s, I.binop(op, vs[0], vs[1], e)))
        return out
    if op == "+":     # strings
        out = []
        for s, vs in I.evals(args, st):
            out.append((s, ("unk", I.newid())))
        return out
    if op in ("<<", ">>"):
        out = []
        for s, l in I.lval(args[0], st):
            if op == "<<":
                for s2, v in I.eval(args[1], s):
                    I.event(s2, "out", e, stream=l, val=v)
                    out.append((s2, ("obj", l)))
            else:
                for s2, d in I.lval(args[1], s):
                    kd = I.kind(args[1]["t"])
                    v = tm.fresh("input", kd if kd in "uibf" else "u")
                    I.event(s2, "in", e, stream=l, dst=d, val=v)
                    I.store(s2, d, v, e, op="in")
                    out.append((s2, ("obj", l)))
        return out
    if op == "=":
        out = []
        t = strip(args[0]["t"])
        for s, v in I.eval(args[1], st):
            for s2, l in I.lval(args[0], s):
                l = I.resolve(s2, l)
                if is_sptr(t):
                    if isinstance(v, tuple) and v[0] == "obj":
                        I.copy(s2, v[1], l, t)
                    else:
                        I.wr(s2, (l[0] + ("#p",), l[1]), v)
                    I.event(s2, "sassign", e, handle=l, val=I.rd(s2, (l[0] + ("#p",), l[1]), targs(t)[0] + " *"))
                elif isinstance(v, tuple) and v[0] == "obj":
                    I.event(s2, "assignobj", e, src=v[1], dst=l)
                    I.put(s2, l, v, t, e)
                else:
                    I.store(s2, l, v, e, op="")
                out.append((s2, ("obj", l)))
        return out
    if op in ("+=", "-=") and "iterator" in q:
        out = []
        for s, l in I.lval(args[0], st):
            for s2, d in I.eval(args[1], s):
                v = s2.mem.get(l[0])
                if isinstance(v, tuple) and v and v[0] == "ptr" and v[2] and isinstance(d, Poly):
                    I.wr(s2, l, ("ptr", v[1], v[2][:-1] + (add(v[2][-1], d if op == "+=" else tm.neg(d)),), v[3]))
                else:
                    I.wr(s2, l, ("unk", I.newid()))
                out.append((s2, ("obj", l)))
        return out
    base = q.split("<")[0]
    if base in ("std::move", "std::forward", "std::ref", "std::cref"):
        if I.is_obj(e["t"]) or lv:
            return [(s, ("obj", l)) for s, l in I.lval(args[0], st)]
        return I.eval(args[0], st)
    if base in ("std::addressof", "std::__addressof"):
        return [(s, ("ptr", l[0], l[1], None)) for s, l in I.lval(args[0], st)]
    if base == "std::make_shared":
        t = strip(e["t"])
        cls = strip(targs(t)[0])
        ctor = I.find_ctor(cls, len(args))
        out = []
        h = I.tmp()
        ol = I.tmp()
        if ctor is not None:
            for s, vs in I.arg_vals(ctor, args, st):
                for s2, _ in I.call(ctor, ol, vs, s, e):
                    s2.mem[h[0] + ("#p",)] = ("ptr", ol[0], (), None)
                    I.event(s2, "new", e, loc=ol, t=cls)
                    out.append((s2, ("obj", h)))
            return out
        for s, vs in I.evals(args, st):
            s.mem[h[0] + ("#p",)] = ("ptr", ol[0], (), None)
            I.event(s, "new", e, loc=ol, t=cls)
            out.append((s, ("obj", h)))
        return out
    if base == "std::make_pair":
        t = strip(e["t"])
        out = []
        for s, vs in I.evals(args, st):
            l = I.tmp()
            out += I.lib_ctor(t, "other", vs, l, s, e)
        return out
    if base == "std::swap":
        out = []
        for s, a in I.lval(args[0], st):
            for s2, b in I.lval(args[1], s):
                t = strip(args[0]["t"])
                do_swap(I, s2, a, b, t, e)
                out.append((s2, ("unk", 0)))
        return out
    if base in ("std::max", "std::min") and len(args) >= 2:
        out = []
        for s, vs in I.evals(args[:2], st):
            if all(isinstance(v, Poly) for v in vs):
                kd = I.kind(e["t"])
                a, b = vs
                t, f = I.branch(s, ge(sub(a, b)))
                pick = (a, b) if base == "std::max" else (b, a)
                out += [(x, pick[0]) for x in t] + [(x, pick[1]) for x in f]
            else:
                out.append((s, I.opaque(e)))
        return out
    if base in ("std::sort", "std::stable_sort", "std::partial_sort", "std::nth_element", "std::reverse"):
        out = []
        for s, vs in arg_values(I, args, st):
            vs = [unwrap(s, v) for v in vs]
            I.event(s, "sort", e, args=vs, q=base, cmp=args[2] if len(args) > 2 else None)
            v = vs[0]
            if isinstance(v, tuple) and v and v[0] == "ptr":
                havoc_elems(I, s, v)
            out.append((s, ("unk", 0)))
        return out
    if base in ("std::copy", "std::copy_n", "memcpy", "std::memcpy", "std::fill", "std::fill_n", "memset", "std::memset"):
        out = []
        for s, vs in arg_values(I, args, st):
            vs = [unwrap(s, v) for v in vs]
            b = base.replace("std::", "")
            I.event(s, "bulk", e, op=b, args=vs)
            d = {"copy": 2, "copy_n": 2, "memcpy": 0, "fill": 0, "fill_n": 0, "memset": 0}[b]
            if d < len(vs) and isinstance(vs[d], tuple) and vs[d] and vs[d][0] == "ptr":
                val = None
                if b in ("fill", "fill_n"):
                    val = vs[2] if len(vs) > 2 else None
                havoc_elems(I, s, vs[d], event=(b, vs))
            out.append((s, I.opaque(e) if strip(e["t"]) != "void" else ("unk", 0)))
        return out
    if base in ("std::begin", "std::end", "std::cbegin", "std::cend"):
        out = []
        for s, l in I.lval(args[0], st):
            i = ZERO if "begin" in base else I.vsize(s, l)
            out.append((s, ("ptr", l[0] + ("[]",), l[1] + (i,), None)))
        return out
    if q.endswith("steady_clock::now") or q.endswith("_clock::now"):
        I.event(st, "clock", e, q=q)
        return [(st, tm.fresh("clock", "i"))]
    if "duration_cast" in q or (op is None and "chrono" in q):
        out = []
        for s, vs in I.evals(args, st):
            out.append((s, vs[0] if vs and isinstance(vs[0], Poly) else tm.fresh("dur", "i")))
        return out
    if q in ("__builtin_clzll", "__builtin_clzl", "__builtin_clz"):
        out = []
        for s, vs in I.evals(args, st):
            I.event(s, "clz", e, arg=vs[0])
            r = tm.app("clz", vs[0], kind="u")
            s.facts = s.facts.add(ge(sub(num(63), r)))
            out.append((s, r))
        return out
    if q in ("__builtin_popcountll", "__builtin_ctzll"):
        out = []
        for s, vs in I.evals(args, st):
            r = tm.app(q[10:], vs[0], kind="u")
            s.facts = s.facts.add(ge(sub(num(64), r)))
            out.append((s, r))
        return out
    if base == "std::to_string":
        return [(s, ("unk", I.newid())) for s, _ in I.evals(args, st)]
    if base in ("std::abs", "std::fabs", "abs", "fabs", "std::sqrt", "sqrt", "std::floor", "std::ceil", "floor", "ceil",
                "std::round", "round"):
        out = []
        for s, vs in I.evals(args, st):
            out.append((s, tm.app(base.replace("std::", ""), *vs, kind=I.kind(e["t"]) if I.kind(e["t"]) in "uif" else "f")
                        if all(isinstance(v, Poly) for v in vs) else I.opaque(e)))
        return out
    # anything else: arguments are evaluated, result unknown
    out = []
    for s, vs in arg_values(I, args, st):
        I.event(s, "ucall", e, q=q, args=vs)
        escape(I, s, args, vs, e)
        out.append((s, I.opaque(e)))
    I.unk("call " + q[:60])
    return out


def escape(I, s, args, vs, e):
    """unknown code may write through non-const references"""
    pts = e.get("pt") or []
    for i, v in enumerate(vs):
        t = pts[i] if i < len(pts) else ""
        if isinstance(t, str) and "&" in t and not t.startswith("const ") and "&&" not in t:
            if isinstance(v, tuple) and v and v[0] in ("obj", "loc"):
                I.havoc_path(s, v[1][0])


def unwrap(s, v):
    if isinstance(v, tuple) and v and v[0] == "obj":
        x = s.mem.get(v[1][0])
        if isinstance(x, tuple) and x and x[0] in ("ptr", "setit", "setend", "setpos", "clo", "fn", "cmp", "unk", "str"):
            return x
    return v


def arg_values(I, args, st):
    return I.evals(args, st)


def targs_ptr(q):
    a = targs(q)
    return (a[0] if a else "void") + " *"


def target(I, s, p, e):
    if isinstance(p, tuple) and p[0] == "ptr":
        return [(s, (p[1], p[2]))]
    return [(s, I.tmp())]


def havoc_elems(I, s, v, event=None):
    """elements of the array v points into become unknown"""
    path = v[1]
    hits = [p for p in s.mem if p[:len(path)] == path and not (isinstance(s.mem[p], tuple) and s.mem[p] and s.mem[p][0] == "ref")]
    if not hits or path not in hits:
        hits.append(path)
    grp = I.newid()
    for p in hits:
        if p[-1] == "#hv":
            continue
        for m in I.modlogs:
            m.add(p)
        n = I.newid()
        I.arr_src[n] = p
        I.arr_grp[n] = grp
        s.mem[p] = ("as", "elems", n)
    for m in I.modlogs:
        m.add(path + ("#hv",))
    s.mem[path + ("#hv",)] = I.newid()


def do_swap(I, s, a, b, t, e):
    a, b = I.resolve(s, a), I.resolve(s, b)
    if I.is_obj(t):
        tmpl = I.tmp()
        I.copy(s, a, tmpl, t)
        I.copy(s, b, a, t)
        I.copy(s, tmpl, b, t)
    else:
        va, vb = I.rd(s, a, t), I.rd(s, b, t)
        I.wr(s, a, vb)
        I.wr(s, b, va)
    I.event(s, "swap", e, a=a, b=b, t=t)


def mcall(I, e, st, lv=False):
    q = e.get("q") or ""
    n = e.get("n") or q.split("::")[-1]
    c = strip(e.get("c") or "")
    args = e["args"]
    if e.get("callee") is not None and not q:
        return I.call_value(e, st)
    if e.get("conv"):
        out = []
        t = strip(e["t"])
        for s, l in I.base_loc(e, st):
            if t == "bool" and (is_sptr(c)):
                p = I.rd(s, (l[0] + ("#p",), l[1]), targs_ptr(c))
                out.append((s, tm.b2i(I.ptr_cond(p))))
            elif t == "bool":
                out.append((s, tm.fresh("streamok", "b")))
            else:
                I.unk("conversion " + c[:40])
                out.append((s, I.opaque(e)))
        return out
    bases = I.base_loc(e, st)
    out = []
    if is_vec(c) or c.startswith("std::vector<"):
        el = targs(c)[0]
        for s, l0 in bases:
            l = I.resolve(s, l0)
            for s2, vs in I.evals(args, s):
                vs = [unwrap(s2, v) for v in vs]
                out += vec_method(I, s2, l, n, vs, el, c, e, lv)
        return out
    if c.startswith("std::set<") or c.startswith("std::unordered_set<"):
        for s, l in bases:
            setv = I.rd(s, l, "unsigned long")
            if not isinstance(setv, Poly):
                setv = tm.fresh("set", "u", True)
            for s2, vs in I.evals(args, s):
                if n == "find":
                    out.append((s2, ("setit", setv, vs[0])))
                elif n == "count":
                    out.append((s2, tm.app("in", setv, vs[0], kind="b") if isinstance(vs[0], Poly) else I.opaque(e)))
                elif n in ("end", "cend"):
                    out.append((s2, ("setend", setv)))
                elif n in ("begin", "cbegin"):
                    out.append((s2, ("setpos", setv, ZERO)))
                elif n == "empty":
                    out.append((s2, tm.app("setempty", setv, kind="b")))
                elif n == "size":
                    out.append((s2, tm.app("setsize", setv)))
                elif n in ("insert", "emplace"):
                    I.event(s2, "setins", e, set=l, val=vs[0] if vs else None)
                    I.wr(s2, l, tm.app("ins", setv, vs[0]) if vs and isinstance(vs[0], Poly) else tm.fresh("set", "u", True))
                    out.append((s2, ("unk", I.newid())))
                elif n == "erase":
                    I.event(s2, "setdel", e, set=l, val=vs[0] if vs else None)
                    I.wr(s2, l, tm.app("del", setv, vs[0]) if vs and isinstance(vs[0], Poly) else tm.fresh("set", "u", True))
                    out.append((s2, ("unk", I.newid())))
                elif n == "clear":
                    I.wr(s2, l, tm.app("emptyset"))
                    out.append((s2, ("unk", 0)))
                else:
                    I.unk("set." + n)
                    out.append((s2, I.opaque(e)))
        return out
    if is_sptr(c) or "shared_ptr" in c:
        for s, l0 in bases:
            l = I.resolve(s, l0)
            p = I.rd(s, (l[0] + ("#p",), l[1]), targs_ptr(c))
            if n == "get":
                out.append((s, p))
            elif n == "reset":
                for s2, vs in I.evals(args, s):
                    v = vs[0] if vs else ("null",)
                    I.wr(s2, (l[0] + ("#p",), l[1]), v)
                    I.event(s2, "sassign", e, handle=l, val=v)
                    out.append((s2, ("unk", 0)))
            else:
                I.unk("shared_ptr." + n)
                out.append((s, I.opaque(e)))
        return out
    if is_arr(c) or c.startswith("pybind11::array") or c.startswith("Eigen::"):
        for s, l0 in bases:
            l = I.resolve(s, l0)
            for s2, vs in I.evals(args, s):
                if n in ("unchecked", "mutable_unchecked"):
                    out.append((s2, ("obj", l)))
                elif n == "shape" and vs and isinstance(vs[0], Poly) and vs[0].const() in (0, 1):
                    out.append((s2, I.rd(s2, (l[0] + ("#shape%d" % vs[0].const(),), l[1]), "unsigned long")))
                elif n in ("rows", "cols"):
                    out.append((s2, I.rd(s2, (l[0] + ("#shape0" if n == "rows" else "#shape1",), l[1]), "unsigned long")))
                elif n == "size":
                    out.append((s2, I.rd(s2, (l[0] + ("#shape0",), l[1]), "unsigned long")))
                elif n == "resize" and c.startswith("pybind11"):
                    v = vs[0] if vs else None
                    dims = v[1] if isinstance(v, tuple) and v and v[0] == "ilist" else None
                    for i in (0, 1):
                        d = dims[i] if dims and i < len(dims) and isinstance(dims[i], Poly) else tm.fresh("dim", "u", True)
                        I.wr(s2, (l[0] + ("#shape%d" % i,), l[1]), d)
                    I.event(s2, "arresize", e, arr=l, dims=dims)
                    out.append((s2, ("unk", 0)))
                else:
                    I.event(s2, "umcall", e, q=q, n=n, recv=l, args=vs)
                    out.append((s2, I.opaque(e)))
        return out
    # streams, chrono, python objects: opaque
    for s, l in bases:
        for s2, vs in I.evals(args, s):
            I.event(s2, "umcall", e, q=q, n=n, recv=l, args=vs)
            if n == "cast" and c.startswith("pybind11"):
                a = s2.mem.get(l[0])
                while isinstance(a, tuple) and a and a[0] in ("alias", "ref", "obj"):
                    l = a[1]
                    a = s2.mem.get(l[0])
                out.append((s2, ("obj", (l[0] + ("#cast",), l[1]))))
            elif n == "count" and "chrono" in q:
                v = s2.mem.get(l[0])
                out.append((s2, tm.fresh("elapsed", "i")))
            elif strip(e["t"]) == "bool":
                out.append((s2, tm.fresh(n, "b")))
            elif I.kind(e["t"]) in "uif":
                out.append((s2, tm.fresh(n, I.kind(e["t"]))))
            elif n in ("ignore", "flush", "get", "unget"):
                out.append((s2, ("obj", l)))
            else:
                out.append((s2, I.opaque(e)))
    return out


def vec_method(I, s, l, n, vs, el, c, e, lv):
    sz = I.vsize(s, l)
    szloc = (l[0] + ("#size",), l[1])

    def void():
        return [(s, ("unk", 0))]

    def setbuf():
        pass
    if n == "size":
        return [(s, sz)]
    if n == "capacity":
        return [(s, tm.fresh("cap", "u"))]
    if n == "empty":
        return [(s, tm.b2i(eq(sz)))]
    if n in ("begin", "cbegin", "data"):
        return [(s, ("ptr", l[0] + ("[]",), l[1] + (ZERO,), None))]
    if n in ("end", "cend"):
        return [(s, ("ptr", l[0] + ("[]",), l[1] + (sz,), None))]
    if n in ("back", "front"):
        i = sub(sz, ONE) if n == "back" else ZERO
        I.event(s, n, e, vec=l, size=sz)
        return [(s, elem(I, s, l, i, el, e, lv))]
    if n == "at":
        i = vs[0] if isinstance(vs[0], Poly) else tm.fresh("idx", "u", True)
        return [(s, elem(I, s, l, i, el, e, lv))]
    if n in ("push_back", "emplace_back"):
        loc = (l[0] + ("[]",), l[1] + (sz,))
        v = vs[0] if vs else None
        I.event(s, "push", e, loc=l, buf=I.vbuf(s, l), idx=sz, val=v, n=n, args=vs)
        if n == "emplace_back" and I.is_obj(el) and not (len(vs) == 1 and isinstance(v, tuple) and v and v[0] == "obj"):
            el0 = strip(el)
            ctor = I.find_ctor(el0, len(vs))
            if ctor is not None:
                outs = []
                vals = []
                for p, x in zip(ctor["params"], vs):
                    if p.get("ref"):
                        if isinstance(x, tuple) and x and x[0] in ("obj", "loc"):
                            x = ("ref", x[1])
                        else:
                            t = I.tmp()
                            s.mem[t[0]] = x
                            x = ("ref", t)
                    vals.append(x)
                t = I.tmp()
                for s2, _ in I.call(ctor, t, vals, s, e):
                    I.copy(s2, t, loc, el0)
                    I.wr(s2, szloc, add(sz, ONE))
                    outs.append((s2, ("unk", 0)))
                return outs
            t = I.tmp()
            for s2, ov in I.lib_ctor(el0, "other", vs, t, s, e):
                I.copy(s2, t, loc, el0)
        elif isinstance(v, tuple) and v and v[0] == "obj" and I.is_obj(el):
            I.copy(s, v[1], loc, el)
        elif v is not None:
            I.wr(s, loc, v)
        I.wr(s, szloc, add(sz, ONE))
        return void()
    if n == "pop_back":
        I.event(s, "pop", e, vec=l, size=sz)
        I.wr(s, szloc, sub(sz, ONE))
        return void()
    if n == "clear":
        I.event(s, "clear", e, vec=l, size=sz)
        I.wr(s, szloc, ZERO)
        return void()
    if n == "reserve":
        I.event(s, "reserve", e, vec=l, n=vs[0])
        return void()
    if n in ("resize", "assign") and vs and isinstance(vs[0], Poly):
        I.event(s, "resize", e, loc=l, size=vs[0], buf=I.vbuf(s, l), old=sz)
        I.wr(s, szloc, vs[0])
        if n == "assign" or sz.const() == 0:
            for lf, tt in I.leaves(el):
                if "[]" in lf:
                    continue
                z = vs[1] if len(vs) > 1 and isinstance(vs[1], Poly) else None
                if z is None and I.kind(tt) in "uibf":
                    z = ZERO
                if z is not None and not (strip(el) in I.recs):
                    I.wr_arr(s, l[0] + ("[]",) + lf, l[1], ("cst", z))
        return void()
    if n == "swap":
        v = vs[0]
        if isinstance(v, tuple) and v and v[0] == "obj":
            do_swap(I, s, l, v[1], c, e)
        return void()
    if n == "insert":
        I.event(s, "vinsert", e, vec=l, args=vs, size=sz, buf=I.vbuf(s, l))
        I.wr_arr(s, l[0] + ("[]",), l[1], ("as", "ins", I.newid()))
        more = ONE if len(vs) == 2 else vs[1] if len(vs) == 3 and isinstance(vs[2], Poly) else None
        I.wr(s, szloc, add(sz, more) if isinstance(more, Poly) and isinstance(vs[1], Poly) else tm.fresh("size", "u"))
        return [(s, vs[0])]
    if n == "erase":
        I.event(s, "verase", e, vec=l, args=vs, size=sz, buf=I.vbuf(s, l))
        I.wr_arr(s, l[0] + ("[]",), l[1], ("as", "del", I.newid()))
        I.wr(s, szloc, sub(sz, ONE) if len(vs) == 1 else tm.fresh("size", "u"))
        return [(s, vs[0])]
    if n == "shrink_to_fit":
        I.event(s, "shrink", e, vec=l)
        return void()
    I.unk("vector." + n)
    return [(s, I.opaque(e))]
