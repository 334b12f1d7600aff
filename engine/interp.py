"""Abstract interpreter over the extracted program.

A state maps access paths to value terms and carries a set of sign facts.  Branches
partition states, loops are summarised by havocking what they write and keeping the
inductive part of a fixed family of candidate relations.  Nothing is executed and no
solver is called.
"""
import re
from . import terms as tm
from .terms import Poly, num, ZERO, ONE, add, sub, mul, neg, ge, gt, eq, ne, Facts, entails, T, F

CAP = 24


class Ev:
    __slots__ = ("k", "L", "fn", "st", "facts", "d", "stack")

    def __init__(self, k, L, stack, facts, d):
        self.k, self.L, self.stack, self.facts, self.d = k, L, stack, facts, d
        self.fn = stack[-1] if stack else None

    def __repr__(self):
        return "<%s %s %s>" % (self.k, self.L, {k: v for k, v in self.d.items() if k != "iters"})


class State:
    __slots__ = ("mem", "facts", "ev", "dead")

    def __init__(self, mem, facts, ev):
        self.mem, self.facts, self.ev = mem, facts, ev

    def fork(self):
        return State(dict(self.mem), self.facts, self.ev)


def trace(ev, stop=None):
    out = []
    while ev is not None and ev is not stop:
        out.append(ev[1])
        ev = ev[0]
    out.reverse()
    return out


class Flow:
    __slots__ = ("n", "brk", "cont", "ret")

    def __init__(self, n=None):
        self.n = n if n is not None else []
        self.brk, self.cont, self.ret = [], [], []


class Thrown:
    __slots__ = ("st", "tt", "bases", "L", "stack")

    def __init__(self, st, tt, bases, L, stack):
        self.st, self.tt, self.bases, self.L, self.stack = st, tt, bases, L, stack


# ------------------------------------------------------------------ types
def strip(t):
    t = t.strip()
    while True:
        if t.endswith("&"):
            t = t[:-1].strip()
        elif t.startswith("const ") and not t.endswith("*"):
            t = t[6:].strip()
        elif t.endswith("const"):
            t = t[:-5].strip()
        else:
            return t


def targs(t):
    i = t.find("<")
    if i < 0:
        return []
    depth, cur, out = 0, "", []
    for ch in t[i + 1:]:
        if ch == "<" or ch == "(":
            depth += 1
        elif ch == ">" or ch == ")":
            if ch == ">" and depth == 0:
                break
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


INTS = {"unsigned long": "u", "unsigned int": "u", "unsigned short": "u", "unsigned char": "u",
        "unsigned long long": "u", "long": "i", "int": "i", "short": "i", "char": "i", "long long": "i",
        "signed char": "i", "bool": "b", "double": "f", "float": "f", "long double": "f", "unsigned __int128": "u"}
BITS = {"unsigned long": 64, "unsigned int": 32, "unsigned short": 16, "unsigned char": 8, "unsigned long long": 64,
        "long": 64, "int": 32, "short": 16, "char": 8, "long long": 64, "signed char": 8, "bool": 1}


def is_vec(t):
    return t.startswith("std::vector<")


def is_sptr(t):
    return t.startswith(("std::shared_ptr<", "std::__shared_ptr", "std::unique_ptr<"))


def is_arr(t):
    return t.startswith(("pybind11::array_t<", "pybind11::array", "Eigen::Ref<", "Eigen::Matrix<",
                         "pybind11::detail::unchecked"))


class Interp:
    _dtors = None

    def __init__(self, prog):
        self.cap = CAP
        self.prog = prog
        self.fns = prog["functions"]
        self.recs = prog["records"]
        self.files = prog["files"]
        self.ctr = 0
        self._rkinds = {}
        self.stack = []
        self.frames = []
        self.sinks = [[]]
        self.modlogs = []
        self.intercept = None      # f(interp, fn, this, args, st, node) -> None | [(st, value)]
        self.assume_hook = None
        self.unknown = {}          # unmodelled constructs met
        self.joins = 0
        self.nstates = 0
        self.ncalls = 0
        self.nloops = 0
        self.loops_seen = set()
        self.fn_seen = set()
        self.arr_src = {}
        self.arr_grp = {}       # array version -> path it belongs to
        self.keep_reads = False
        self.rec = {}
        self.extra_candidates = None   # f(interp, st, node) -> [fn(state)->cond]
        self.maxpass = 12
        self._classes = {}
        self._recursive = self._find_recursive()
        self.by_q = {}
        for f in self.fns.values():
            self.by_q.setdefault(f["q"], []).append(f)

    # -------------------------------------------------------------- helpers
    def where(self, L):
        if not L or L[0] < 0 or L[0] >= len(self.files):
            return "?"
        return "src/cliquematch/%s:%d" % (self.files[L[0]], L[1])

    def unk(self, what, node=None):
        self.unknown[what] = self.unknown.get(what, 0) + 1

    def _find_recursive(self):
        g = {}

        def walk(x, out):
            if isinstance(x, dict):
                if x.get("e") in ("call", "mcall", "ctor") and x.get("id") in self.fns:
                    out.add(x["id"])
                for v in x.values():
                    if isinstance(v, (dict, list)):
                        walk(v, out)
            elif isinstance(x, list):
                for v in x:
                    walk(v, out)
        for i, f in self.fns.items():
            s = set()
            walk(f.get("body"), s)
            walk(f.get("inits"), s)
            g[i] = s
        self.callgraph = g
        rec = set()
        for i in g:
            seen, todo = set(), list(g[i])
            while todo:
                j = todo.pop()
                if j in seen:
                    continue
                seen.add(j)
                todo += g.get(j, ())
            if i in seen:
                rec.add(i)
        return rec

    def newid(self):
        self.ctr += 1
        return self.ctr

    def event(self, st, k, node, /, **d):
        st.ev = (st.ev, Ev(k, node.get("L") if isinstance(node, dict) else node, tuple(self.stack), st.facts, d))

    # -------------------------------------------------------------- type layout
    def kind(self, t):
        t = strip(t)
        if t in INTS:
            return INTS[t]
        if t.endswith("*"):
            return "p"
        if t in self.recs or "<" in t or t.startswith("std::"):
            return "o"
        return "i"     # enums

    def leaves(self, t, depth=0):
        t = strip(t)
        key = t
        r = self._classes.get(key)
        if r is not None:
            return r
        if t in INTS or t.endswith("*") or depth > 6:
            r = [((), t)]
        elif is_vec(t):
            a = targs(t)[0]
            r = [(("#size",), "unsigned long"), (("#buf",), "unsigned long")]
            r += [(("[]",) + p, tt) for p, tt in self.leaves(a, depth + 1)]
        elif t.startswith("std::pair<"):
            a = targs(t)
            r = [((".first",) + p, tt) for p, tt in self.leaves(a[0], depth + 1)]
            r += [((".second",) + p, tt) for p, tt in self.leaves(a[1], depth + 1)]
        elif is_sptr(t):
            r = [(("#p",), targs(t)[0] + " *")]
        elif is_arr(t):
            el = targs(t)[0] if targs(t) else "double"
            if el.startswith("Eigen"):
                el = targs(el)[0]
            r = [(("#shape0",), "unsigned long"), (("#shape1",), "unsigned long"), (("#buf",), "unsigned long"),
                 (("[]",), el), (("[]", "[]"), el)]
        elif t in self.recs:
            r = []
            rec = self.recs[t]
            for b in rec["bases"]:
                r += self.leaves(b, depth + 1)
            for f in rec["fields"]:
                if f["ref"]:
                    r.append((("." + f["n"],), f["t"]))
                else:
                    r += [(("." + f["n"],) + p, tt) for p, tt in self.leaves(f["t"], depth + 1)]
        else:
            r = [((), t)]
        self._classes[key] = r
        return r

    def is_obj(self, t):
        t = strip(t)
        return not (t in INTS or t.endswith("*")) and (
            is_vec(t) or t.startswith("std::pair<") or is_sptr(t) or is_arr(t) or t in self.recs)

    # -------------------------------------------------------------- memory
    def init_val(self, path, idxs, t, ver=None):
        k = self.kind(t)
        tag = path if ver is None else path + (("hv", ver),)
        if k == "p":
            el = strip(strip(t)[:-1])
            nullp = (tm.var(("sel", ("ai", tag + ("#addr",)), idxs), "u") if idxs
                     else tm.var(("init", tag + ("#addr",)), "u"))
            if el in INTS or el in ("void",):
                return ("ptr", tag + ("*", "[]"), idxs + (ZERO,), nullp)
            return ("ptr", tag + ("*",), idxs, nullp)
        kk = "u" if k == "o" else k
        if idxs:
            return tm.var(("sel", ("ai", tag), idxs), kk)
        return tm.var(("init", tag), kk)

    def version(self, st, path):
        for n in range(len(path), 0, -1):
            v = st.mem.get(path[:n] + ("#hv",))
            if v is not None:
                return v
        return None

    def rd(self, st, loc, t):
        path, idxs = loc
        v = st.mem.get(path)
        if v is None:
            v = self.init_val(path, idxs, t, self.version(st, path))
            if not idxs and isinstance(v, Poly) and v.single() is not None:
                self._rkinds[path] = tm.kind_of(v.single())
            return v
        if idxs:
            return self.select(v, idxs, path, t)
        if isinstance(v, tuple) and v and v[0] == "ref":
            return self.rd(st, v[1], t)
        return v

    def select(self, A, idxs, path, t):
        cur = A
        while True:
            k = cur[0]
            if k == "st":
                same = True
                diff = False
                for a, b in zip(cur[2], idxs):
                    if a == b:
                        continue
                    same = False
                    c = sub(a, b).const()
                    if c is not None and c != 0:
                        diff = True
                        break
                if same:
                    return cur[3]
                if diff:
                    cur = cur[1]
                    continue
                break
            if k == "stp":
                pi = cur[2]
                same, diff = True, False
                for a, b in zip(pi, idxs):
                    if a == b:
                        continue
                    same = False
                    c = sub(a, b).const()
                    if c is not None and c != 0:
                        diff = True
                        break
                if same:
                    return self.select(cur[3], idxs[len(pi):], path, t)
                if diff:
                    cur = cur[1]
                    continue
                break
            if k == "sl":
                return self.select(cur[1], cur[2] + tuple(idxs), path, t)
            if k == "cst":
                return cur[1]
            if k == "ai":
                return self.init_val(cur[1], idxs, t)
            break
        kk = self.kind(t)
        a = tm.var(("sel", cur, tuple(idxs)), {"p": "u", "o": "u"}.get(kk, kk))
        if kk == "p":
            el = strip(strip(t)[:-1])
            root = (("D", a.single()),)
            if el in INTS or el == "void":
                return ("ptr", root + ("[]",), (ZERO,), a)
            return ("ptr", root, (), a)
        return a

    def arr_of(self, st, path):
        v = st.mem.get(path)
        if v is None:
            ver = self.version(st, path)
            return ("ai", path if ver is None else path + (("hv", ver),))
        return v

    def wr(self, st, loc, val):
        path, idxs = loc
        cur = st.mem.get(path)
        if not idxs and isinstance(cur, tuple) and cur and cur[0] == "ref":
            return self.wr(st, cur[1], val)
        for m in self.modlogs:
            m.add(path)
        if idxs:
            st.mem[path] = ("st", self.arr_of(st, path), tuple(idxs), val)
        else:
            st.mem[path] = val

    def store(self, st, loc, val, node, old=None, **kw):
        rl = self.resolve(st, loc)
        if rl[1] and "[]" in rl[0]:
            n = len(rl[0]) - 1 - rl[0][::-1].index("[]")
            kw["buf"] = st.mem.get(rl[0][:n] + ("#buf",))
        self.event(st, "store", node, loc=rl, val=val, **kw)
        self.wr(st, loc, val)

    def resolve(self, st, loc):
        path, idxs = loc
        v = st.mem.get(path)
        if isinstance(v, tuple) and v and v[0] == "ref":
            return self.resolve(st, v[1])
        return loc

    def wr_arr(self, st, path, pidx, A):
        for m in self.modlogs:
            m.add(path)
        if pidx:
            st.mem[path] = ("stp", self.arr_of(st, path), tuple(pidx), A)
        else:
            st.mem[path] = A

    def copy(self, st, src, dst, t):
        src, dst = self.resolve(st, src), self.resolve(st, dst)
        if src == dst:
            return
        sp, si = src
        dp, di = dst
        for lf, tt in self.leaves(t):
            nb = lf.count("[]")
            if nb:
                A = self.arr_of(st, sp + lf)
                if si:
                    A = ("sl", A, tuple(si))
                self.wr_arr(st, dp + lf, di, A)
            else:
                raw = st.mem.get(sp + lf)
                if isinstance(raw, tuple) and raw and raw[0] == "ref":
                    st.mem[dp + lf] = raw
                    continue
                v = self.rd(st, (sp + lf, si), tt)
                self.wr(st, (dp + lf, di), v)

    def havoc_path(self, st, path, taint=False):
        """forget everything below path"""
        for m in self.modlogs:
            m.add(path + ("#hv",))
        n = len(path)
        for p in [p for p in st.mem if p[:n] == path and p != path]:
            v = st.mem[p]
            if isinstance(v, tuple) and v and v[0] == "ref":
                continue
            del st.mem[p]
        v = st.mem.get(path)
        if not (isinstance(v, tuple) and v and v[0] == "ref"):
            st.mem.pop(path, None)
        st.mem[path + ("#hv",)] = self.newid()

    def vsize(self, st, loc):
        loc = self.resolve(st, loc)
        return self.rd(st, (loc[0] + ("#size",), loc[1]), "unsigned long")

    def vbuf(self, st, loc):
        loc = self.resolve(st, loc)
        v = st.mem.get(loc[0] + ("#buf",))
        if v is None or loc[1]:
            return loc
        return v

    # -------------------------------------------------------------- facts
    def assume(self, st, c):
        """list of states refining st by c (disjunctions split)"""
        k = c[0]
        if k == "T":
            return [st]
        if k == "F":
            return []
        if k == "and":
            cur = [st]
            for x in c[1:]:
                nxt = []
                for s in cur:
                    nxt += self.assume(s, x)
                cur = nxt
            return cur
        if k == "or":
            if entails(st.facts, c):
                return [st]
            out, rest = [], st
            for x in c[1:]:
                out += self.assume(rest.fork(), x)
                r = self.assume(rest.fork(), tm.negate(x))
                if len(r) != 1:
                    if not r:
                        break
                    out2 = []
                    idx = c.index(x)
                    for rr in r:
                        rem = c[idx + 1:]
                        if rem:
                            out2 += self.assume(rr, ("or",) + rem)
                    return out + out2
                rest = r[0]
            return out
        if entails(st.facts, tm.negate(c)):
            return []
        if c not in st.facts.all():
            new = [c]
            if k in ("eq", "ne"):
                a = c[1].single()
                if a is not None:
                    t = tm.info(a)[0]
                    if t[0] == "app" and t[1] == "mod" and t[3].const():
                        q, cd = tm.divide(t[2], t[3]), tm.app("cdiv", t[2], t[3])
                        new.append(eq(sub(cd, q)) if k == "eq" else eq(sub(cd, add(q, ONE))))
                    if t[0] == "b2i":
                        inner = t[1] if k == "ne" else tm.negate(t[1])
                        st.facts = st.facts.addall(new)
                        return self.assume(st, inner)
            st.facts = st.facts.addall(new)
        return [st]

    def branch(self, st, c):
        """(true states, false states)"""
        if c == T:
            return [st], []
        if c == F:
            return [], [st]
        return self.assume(st.fork(), c), self.assume(st.fork(), tm.negate(c))

    # -------------------------------------------------------------- joins
    def join(self, states, templates=()):
        if len(states) == 1:
            return states[0]
        self.joins += 1
        base = states[0]
        keys = set()
        for s in states:
            keys |= set(s.mem)
        mem = {}
        differ = []
        # candidate values that differ
        for k in keys:
            vals = []
            for s in states:
                v = s.mem.get(k)
                vals.append(v)
            if all(v == vals[0] for v in vals):
                mem[k] = vals[0]
                continue
            if any(v is None for v in vals):
                # some state still has the initial value
                if k and k[-1] == "#hv":
                    mem[k] = self.newid()
                    continue
                like = next(v for v in vals if v is not None)
                vals2 = []
                for s, v in zip(states, vals):
                    if v is None:
                        if "[]" in k:
                            v = self.arr_of(s, k)
                        elif isinstance(like, Poly):
                            kk = self._poly_kind(like)
                            ver = self.version(s, k)
                            v = tm.var(("init", k if ver is None else k + (("hv", ver),)), kk)
                        else:
                            v = None
                    vals2.append(v)
                vals = vals2
                if all(v == vals[0] for v in vals):
                    mem[k] = vals[0]
                    continue
            nv = self.generalise(k, vals)
            if nv is not None:
                mem[k] = nv
                if isinstance(nv, Poly):
                    differ.append(k)
        fs = states[0].facts.all()
        for s in states[1:]:
            fs = fs & s.facts.all()
        facts = Facts(None, tuple(fs))
        j = State(mem, facts, base.ev)
        # facts that survive although not syntactically shared
        extra = []
        for s0 in states:
            for c in s0.facts.all() - fs:
                if c[0] in ("ge", "eq", "ne", "gt") and all(s is s0 or entails(s.facts, c, 2) for s in states):
                    extra.append(c)
        # the fresh value of a joined location inherits constraints by substitution
        sub_back = {}
        for k in differ:
            sub_back[k] = mem[k]
        for tmpl in templates:
            ok = True
            for s in states:
                c = tmpl(s)
                if c is None or not entails(s.facts, c):
                    ok = False
                    break
            if ok:
                c = tmpl(j)
                if c is not None:
                    extra.append(c)
        # per-location facts: each differing scalar against each other's values
        for k in differ:
            nv = mem[k]
            vals = [self._scalar_at(s, k, nv) for s in states]
            if any(v is None for v in vals):
                continue
            cand = set(vals)
            for v0 in list(cand)[:4]:
                if all(entails(s.facts, ge(sub(v, v0)), 2) for s, v in zip(states, vals)):
                    extra.append(ge(sub(nv, v0)))
                if all(entails(s.facts, ge(sub(v0, v)), 2) for s, v in zip(states, vals)):
                    extra.append(ge(sub(v0, nv)))
            # facts about the old value
            for c in states[0].facts.all() - fs:
                if c[0] not in ("ge", "ne", "eq", "gt"):
                    continue
                v0 = vals[0]
                a0 = v0.single()
                if a0 is None or a0 not in c[1].atoms():
                    continue
                ok = True
                for s, v in zip(states[1:], vals[1:]):
                    c2 = self._subst(c, a0, v)
                    if c2 is None or not entails(s.facts, c2, 2):
                        ok = False
                        break
                if ok:
                    c2 = self._subst(c, a0, nv)
                    if c2:
                        extra.append(c2)
        # equal differences between joined scalars
        dk = [k for k in differ if isinstance(mem[k], Poly)]
        if 1 < len(dk) <= 40:
            ref = {k: [self._scalar_at(s, k, mem[k]) for s in states] for k in dk}
            for i in range(len(dk)):
                for jx in range(i + 1, len(dk)):
                    a, b = ref[dk[i]], ref[dk[jx]]
                    if any(x is None for x in a) or any(x is None for x in b):
                        continue
                    d = sub(a[0], b[0])
                    if all(sub(x, y) == d for x, y in zip(a, b)):
                        extra.append(eq(sub(sub(mem[dk[i]], mem[dk[jx]]), d)))
        j.facts = j.facts.addall([e for e in extra if e not in (T, F)])
        return j

    def _scalar_at(self, s, k, like):
        v = s.mem.get(k)
        if v is None:
            ver = self.version(s, k)
            return tm.var(("init", k if ver is None else k + (("hv", ver),)), self._poly_kind(like))
        return v if isinstance(v, Poly) else None

    def _subst(self, c, a, v):
        p = c[1]
        out = ZERO
        for m, co in p.m:
            n = m.count(a)
            rest = tuple(x for x in m if x != a)
            term = Poly(((rest, co),)) if co else ZERO
            for _ in range(n):
                term = mul(term, v)
            out = add(out, term)
        return {"ge": ge, "gt": gt, "eq": eq, "ne": ne}[c[0]](out)

    def _poly_kind(self, p):
        ks = {tm.kind_of(a) for a in p.atoms()}
        if "f" in ks:
            return "f"
        c = p.const()
        if c is not None:
            if isinstance(c, int):
                return "u" if c >= 0 else "i"
            return "f"
        if ks <= {"u", "b"}:
            return "u"
        return "i"

    def generalise(self, k, vals):
        if any(v is None for v in vals):
            return None
        if all(isinstance(v, Poly) for v in vals):
            ks = {self._poly_kind(v) for v in vals}
            kd = "f" if "f" in ks else ("i" if "i" in ks else "u")
            ats = [v.single() for v in vals]
            if kd == "u" and all((a is not None and tm.kind_of(a) == "b") or v.const() in (0, 1) for a, v in zip(ats, vals)):
                kd = "b"
            taint = any(v.tainted() for v in vals)
            return tm.fresh("j:" + str(k[-1]), kd, taint)
        if all(isinstance(v, tuple) and v and v[0] == "ptr" for v in vals):
            if all(v[1] == vals[0][1] and v[2][:-1] == vals[0][2][:-1] for v in vals) and vals[0][2]:
                return ("ptr", vals[0][1], vals[0][2][:-1] + (tm.fresh("j:idx", "u"),),
                        vals[0][3] if all(v[3] == vals[0][3] for v in vals) else tm.fresh("j:addr", "u"))
            a = tm.fresh("j:ptr", "u")
            if all(v[3] is None for v in vals):
                return ("ptr", (("D", a.single()),), (), None)
            return ("ptr", (("D", a.single()),), (), a)
        if all(isinstance(v, tuple) and v and v[0] in ("ai", "as", "st", "stp", "sl", "cst") for v in vals):
            return ("as", str(k[-1]) if k[-1] != "[]" else "arr", self.newid())
        if all(isinstance(v, tuple) and v and v[0] in ("ptr", "null") for v in vals):
            p = next((v for v in vals if v[0] == "ptr"), None)
            if p is not None and all(v[0] == "null" or v[1:3] == p[1:3] for v in vals):
                return ("ptr", p[1], p[2], tm.fresh("j:addr", "u"))
        return ("unk", self.newid())

    def limit(self, states):
        if len(states) > self.cap:
            return [self.join(states)]
        return states

    # -------------------------------------------------------------- expressions
    def eval1(self, e, st):
        r = self.eval(e, st)
        return r

    def evals(self, es, st):
        """[(st, [values])]"""
        cur = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in cur:
                for s2, v in self.eval(e, s):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def this_loc(self):
        return self.frames[-1]["this"]

    def var_loc(self, e):
        fr = self.frames[-1]
        if "g" in e and e.get("g"):
            return ((("g", e["g"]),), ())
        i = e["id"]
        m = fr["map"].get(i)
        if m is not None:
            return m
        return ((("v", fr["no"], i, e.get("n")),), ())

    def lval(self, e, st):
        """[(st, loc)]"""
        k = e["e"]
        if k == "var":
            return [(st, self.resolve(st, self.var_loc(e)))]
        if k == "field":
            out = []
            if e.get("arrow"):
                for s, v in self.eval(e["b"], st):
                    out += [(s2, (l[0] + ("." + e["n"],), l[1])) for s2, l in self.deref(s, v, e)]
            else:
                for s, l in self.lval(e["b"], st):
                    out.append((s, (l[0] + ("." + e["n"],), l[1])))
            return [(s, self.resolve(s, l)) for s, l in out] if e.get("ref") else out
        if k == "sub" and e["b"].get("e") in ("var", "field", "sub") and str(e["b"].get("t", "")).endswith("]"):
            out = []
            for s, l in self.lval(e["b"], st):
                for s2, i in self.eval(e["i"], s):
                    if isinstance(i, Poly):
                        out.append((s2, (l[0] + ("[]",), l[1] + (i,))))
                        self.event(s2, "carr", e, loc=out[-1][1], t=e["b"]["t"])
                    else:
                        self.unk("subscript")
                        out.append((s2, self.tmp()))
            return out
        if k == "sub":
            out = []
            for s, v in self.eval(e["b"], st):
                for s2, i in self.eval(e["i"], s):
                    if isinstance(v, tuple) and v[0] == "ptr" and isinstance(i, Poly):
                        out.append((s2, self.ptr_at(v, i)))
                        self.event(s2, "index", e, loc=out[-1][1])
                    else:
                        self.unk("subscript")
                        out.append((s2, self.tmp()))
            return out
        if k == "un" and e["op"] == "*":
            out = []
            for s, v in self.eval(e["a"], st):
                out += self.deref(s, v, e)
            return out
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            return [(s, l) for s, l in self.incdec(e, st, want_loc=True)]
        if k == "this":
            return [(st, self.this_loc())]
        if k == "asg":
            out = []
            for s, _ in self.eval(e, st):
                out += self.lval(e["a"], s)
            return out
        if k == "cond":
            out = []
            for s, b in self.cond(e["c"], st):
                out += self.lval(e["a"] if b else e["b"], s)
            return out
        if k == "bin" and e["op"] == ",":
            out = []
            for s, _ in self.eval(e["a"], st):
                out += self.lval(e["b"], s)
            return out
        if k == "cast":
            return self.lval(e["a"], st)
        out = []
        for s, v in self.eval(e, st, lv=True):
            if isinstance(v, tuple) and v and v[0] in ("obj", "loc"):
                out.append((s, v[1]))
            else:
                l = self.tmp()
                s.mem[l[0]] = v
                out.append((s, l))
        return out

    def tmp(self):
        return ((("o", self.newid()),), ())

    def ptr_at(self, v, i):
        if v[1] and v[1][-1] == "[]" and v[2]:
            return (v[1], v[2][:-1] + (add(v[2][-1], i),))
        if i.const() == 0:
            return (v[1], v[2])
        return (v[1] + ("[]",), v[2] + (i,))

    def deref(self, st, v, node):
        if isinstance(v, tuple):
            if v[0] == "ptr":
                self.event(st, "deref", node, ptr=v)
                return [(st, (v[1], v[2]))]
            if v[0] == "null":
                self.event(st, "deref", node, ptr=v)
                return [(st, self.tmp())]
            if v[0] in ("obj", "loc"):
                return [(st, v[1])]
        self.unk("deref of unknown pointer")
        return [(st, self.tmp())]

    def load(self, st, loc, t, node):
        path, idxs = loc
        if self.is_obj(t):
            return ("obj", loc)
        v = self.rd(st, loc, t)
        if idxs and self.keep_reads:
            self.event(st, "read", node, loc=loc, val=v)
        if isinstance(v, tuple) and v and v[0] == "unk" and self.kind(t) != "o":
            v = tm.var(("unkval", v[1]), {"p": "u"}.get(self.kind(t), self.kind(t)), True)
        return v

    def eval(self, e, st, lv=False):
        """[(st, value)]"""
        k = e["e"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            self.unk("expr " + k)
            return [(st, self.opaque(e))]
        if k in ("call", "mcall"):
            return m(e, st, lv)
        return m(e, st)

    def opaque(self, e, taint=True):
        t = strip(e.get("t", "int"))
        kd = self.kind(t)
        if kd == "o":
            return ("obj", self.tmp()) if self.is_obj(t) else ("unk", self.newid())
        if kd == "p":
            a = tm.fresh("opaque", "u", taint)
            return ("ptr", (("D", a.single()),), (), a)
        return tm.fresh("opaque", kd, taint)

    def e_int(self, e, st):
        return [(st, num(int(e["v"])))]

    def e_float(self, e, st):
        from fractions import Fraction
        try:
            f = Fraction(str(e["v"]))
            return [(st, num(f))]
        except Exception:
            return [(st, tm.app("fconst", e["v"], kind="f"))]

    def e_bool(self, e, st):
        return [(st, num(1 if e["v"] in (True, "1", "true") else 0))]

    def e_str(self, e, st):
        return [(st, ("str", e["v"]))]

    def e_null(self, e, st):
        return [(st, ("null",))]

    def e_zero(self, e, st):
        t = strip(e["t"])
        if self.kind(t) == "p":
            return [(st, ("null",))]
        if self.is_obj(t):
            l = self.tmp()
            self.default_init(st, l, t, zero=True)
            return [(st, ("obj", l))]
        return [(st, ZERO)]

    def e_this(self, e, st):
        l = self.this_loc()
        return [(st, ("ptr", l[0], l[1], None))]

    def e_fn(self, e, st):
        return [(st, ("fn", e["id"]))]

    def e_var(self, e, st):
        loc = self.resolve(st, self.var_loc(e))
        t = e["t"]
        if self.is_obj(t):
            return [(st, ("obj", loc))]
        return [(st, self.load(st, loc, t, e))]

    def e_field(self, e, st):
        return [(s, self.load(s, l, e["t"], e)) for s, l in self.lval(e, st)]

    def e_sub(self, e, st):
        return [(s, self.load(s, l, e["t"], e)) for s, l in self.lval(e, st)]

    def e_none(self, e, st):
        return [(st, ("unk", 0))]

    def e_opaque(self, e, st):
        cur = [st]
        for a in e.get("args", []):
            nxt = []
            for s in cur:
                for s2, _ in self.eval(a, s):
                    nxt.append(s2)
            cur = nxt
        self.unk("opaque " + str(e.get("k")))
        return [(s, self.opaque(e)) for s in cur]

    def e_decl(self, e, st):
        return [(st, ("unk", self.newid()))]

    e_memptr = e_method = e_delete = e_decl

    def e_cast(self, e, st):
        out = []
        k = e["k"]
        for s, v in self.eval(e["a"], st):
            if not isinstance(v, Poly):
                if k == "PointerToBoolean":
                    c = self.ptr_cond(v)
                    v = tm.b2i(c)
                out.append((s, v))
                continue
            if k in ("IntegralToBoolean", "FloatingToBoolean"):
                v = tm.b2i(tm.truth(v))
            elif k == "IntegralCast":
                fb, tb = BITS.get(strip(e["ft"]), 32), BITS.get(strip(e["t"]), 32)
                if tb < fb and tb > 1 and v.const() is None:
                    v = tm.app("trunc%d" % tb, v, kind=self.kind(e["t"]))
                elif v.const() is not None and v.const() < 0 and self.kind(e["t"]) == "u":
                    v = num(v.const() + (1 << tb))
            elif k == "FloatingToIntegral":
                if v.const() is not None:
                    v = num(int(v.const()))
                else:
                    v = tm.app("ftoi", v, kind=self.kind(e["t"]))
            out.append((s, v))
        return out

    def ptr_cond(self, v):
        """condition: pointer is not null"""
        if v[0] == "null":
            return F
        if v[0] == "ptr":
            return T if v[3] is None else ne(v[3])
        if v[0] in ("obj", "loc", "str", "clo", "fn"):
            return T
        return ne(tm.var(("unkptr", v[1] if len(v) > 1 else 0), "u", True))

    def e_un(self, e, st):
        op = e["op"]
        if op in ("++", "--"):
            return self.incdec(e, st)
        if op == "*":
            return [(s, self.load(s, l, e["t"], e)) for s, l in self.lval(e, st)]
        if op == "&":
            if e["a"]["e"] in ("fn", "memptr", "method"):
                return self.eval(e["a"], st)
            out = []
            for s, l in self.lval(e["a"], st):
                out.append((s, ("ptr", l[0], l[1], None)))
            return out
        if op == "!":
            return [(s, num(0 if b else 1)) for s, b in self.cond(e["a"], st)] if self.impure(e["a"]) or \
                e["a"].get("e") == "bin" and e["a"]["op"] in ("&&", "||") else \
                [(s, tm.b2i(tm.negate(self.as_cond(v)))) for s, v in self.eval(e["a"], st)]
        out = []
        for s, v in self.eval(e["a"], st):
            if not isinstance(v, Poly):
                out.append((s, v))
            elif op == "-":
                out.append((s, neg(v)))
            elif op == "+":
                out.append((s, v))
            elif op == "~":
                c = v.const()
                out.append((s, num(((1 << 64) - 1) ^ c) if isinstance(c, int) and 0 <= c and self.kind(e["t"]) == "u" else tm.app("not", v)))
            else:
                out.append((s, self.opaque(e)))
        return out

    def as_cond(self, v):
        if isinstance(v, Poly):
            return tm.truth(v)
        return self.ptr_cond(v)

    def incdec(self, e, st, want_loc=False):
        out = []
        d = ONE if e["op"] == "++" else num(-1)
        for s, l in self.lval(e["a"], st):
            v = self.load(s, l, e["a"]["t"], e)
            if isinstance(v, Poly):
                nv = add(v, d)
            elif isinstance(v, tuple) and v[0] == "ptr":
                p = self.ptr_at(v, d) if (v[1] and v[1][-1] == "[]") else (v[1] + ("[]",), v[2] + (d,))
                nv = ("ptr", p[0], p[1], v[3])
            else:
                nv = self.opaque(e)
            self.store(s, l, nv, e, op=e["op"], old=v)
            if e["op"] == "--" and s.ev and s.ev[1].k == "store":
                s.ev[1].d["unsigned"] = self.kind(e["a"]["t"]) == "u"
            out.append((s, l if want_loc else (v if e.get("post") else nv)))
        return out

    def impure(self, e):
        if isinstance(e, dict):
            k = e.get("e")
            if k in ("asg", "new", "delete", "throw", "lambda"):
                return True
            if k == "un" and e["op"] in ("++", "--"):
                return True
            if k == "call" or k == "mcall":
                q = e.get("q") or ""
                if e.get("id") in self.fns:
                    if not self.pure_fn(e["id"]):
                        return True
                elif k == "mcall":
                    if not e.get("const"):
                        return True
                elif e.get("opc") in ("=", "++", "--", "<<", ">>", "+=", "-="):
                    return True
            return any(self.impure(v) for kk, v in e.items() if isinstance(v, (dict, list)))
        if isinstance(e, list):
            return any(self.impure(v) for v in e)
        return False

    def pure_fn(self, fid, _depth=0):
        f = self.fns[fid]
        if "_pure" in f:
            return f["_pure"]
        f["_pure"] = False
        r = True

        def walk(x):
            nonlocal r
            if isinstance(x, dict):
                k = x.get("e")
                if k in ("asg",) or (k == "un" and x["op"] in ("++", "--")):
                    if x["a"].get("e") != "var" or x["a"].get("ref") or x["a"].get("g"):
                        r = False
                if k in ("new", "delete", "throw"):
                    r = False
                if k in ("call", "mcall"):
                    if x.get("id") in self.fns:
                        if not self.pure_fn(x["id"], _depth + 1):
                            r = False
                    elif k == "mcall" and not x.get("const"):
                        r = False
                    elif x.get("opc") in ("=", "<<", ">>"):
                        r = False
                for v in x.values():
                    if isinstance(v, (dict, list)):
                        walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        walk(f.get("body"))
        f["_pure"] = r
        return r

    def cond(self, e, st):
        """[(st, bool)] with facts"""
        k = e["e"]
        if k == "bin" and e["op"] == "&&":
            out = []
            for s, b in self.cond(e["a"], st):
                if b:
                    out += self.cond(e["b"], s)
                else:
                    out.append((s, False))
            return out
        if k == "bin" and e["op"] == "||":
            out = []
            for s, b in self.cond(e["a"], st):
                if b:
                    out.append((s, True))
                else:
                    out += self.cond(e["b"], s)
            return out
        if k == "un" and e["op"] == "!":
            return [(s, not b) for s, b in self.cond(e["a"], st)]
        if k == "cast" and e["k"] in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            pass
        out = []
        before = st.ev
        for s, v in self.eval(e, st):
            c = self.as_cond(v)
            t, f = self.branch(s, c)
            if s.ev is not before and any(y is not None for y in self.lowered(s, before)):
                for x in t + f:
                    self.wrapped(x, before)
            out += [(x, True) for x in t] + [(x, False) for x in f]
        return out

    def lowered(self, s, before):
        ev = s.ev
        while ev is not before and ev:
            y = ev[1]
            if y.k == "store" and y.d.get("op") == "--" and isinstance(y.d.get("val"), Poly) and not y.d["loc"][1]:
                yield y
            ev = ev[0]

    def wrapped(self, s, before):
        """a counter taken below zero by the test itself holds some large value"""
        for y in list(self.lowered(s, before)):
            v = s.mem.get(y.d["loc"][0])
            if isinstance(v, Poly) and v == y.d["val"] and y.d.get("unsigned") and entails(s.facts, gt(neg(v))):
                self.wr(s, y.d["loc"], tm.fresh("wrap", "u"))

    def e_cond(self, e, st):
        out = []
        for s, b in self.cond(e["c"], st):
            out += self.eval(e["a"] if b else e["b"], s)
        return out

    def e_bin(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            if self.impure(e) or True:
                return [(s, ONE if b else ZERO) for s, b in self.cond(e, st)]
        out = []
        for s, a in self.eval(e["a"], st):
            for s2, b in self.eval(e["b"], s):
                out.append((s2, self.binop(op, a, b, e, s2)))
        return out

    def binop(self, op, a, b, e, st=None):
        if op == ",":
            return b
        isp = lambda v: isinstance(v, tuple) and v and v[0] in ("ptr", "null")
        if isp(a) or isp(b):
            if op in ("==", "!="):
                c = self.ptr_eq(a, b)
                if op == "!=":
                    c = tm.negate(c)
                return tm.b2i(c)
            if op in ("+", "-") and isp(a) and isinstance(b, Poly) and a[0] == "ptr":
                p = self.ptr_at(a, b if op == "+" else neg(b))
                if not (a[1] and a[1][-1] == "[]"):
                    p = (a[1] + ("[]",), a[2] + (b if op == "+" else neg(b),))
                return ("ptr", p[0], p[1], a[3])
            if op == "-" and isp(a) and isp(b) and a[0] == b[0] == "ptr" and a[1] == b[1] and a[2]:
                return sub(a[2][-1], b[2][-1])
            if op in ("<", ">", "<=", ">=") and a[0] == "ptr" and b[0] == "ptr" and a[1] == b[1] and a[2]:
                return self.binop(op, a[2][-1], b[2][-1], e)
            return self.opaque(e)
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            if op in ("==", "!="):
                if isinstance(a, tuple) and isinstance(b, tuple) and a == b and a[0] not in ("unk",):
                    return ONE if op == "==" else ZERO
                c = self.set_eq(a, b)
                if c is not None:
                    return tm.b2i(c if op == "==" else tm.negate(c))
            return self.opaque(e)
        if op == "+":
            return tm.canon(add(a, b))
        if op == "-":
            if st is not None and self.kind(e["t"]) == "u":
                self.event(st, "usub", e, a=a, b=b)
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if self.kind(e["t"]) == "f":
                c = b.const()
                if c:
                    from fractions import Fraction
                    return tm._mk({m: Fraction(x) / c for m, x in a.m})
                return tm.app("fdiv", a, b, kind="f")
            if st is not None:
                self.event(st, "divop", e, a=a, b=b)
            return tm.divide(a, b, signed=self.kind(e["t"]) == "i")
        if op == "%":
            if st is not None:
                self.event(st, "divop", e, a=a, b=b)
            return tm.modulo(a, b)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            d = sub(b, a)
            c = {"<": lambda: gt(d), ">": lambda: gt(neg(d)), "<=": lambda: ge(d), ">=": lambda: ge(neg(d)),
                 "==": lambda: eq(d), "!=": lambda: ne(d)}[op]()
            return tm.b2i(c)
        ca, cb = a.const(), b.const()
        if op in ("<<", ">>"):
            if st is not None:
                self.event(st, "shift", e, a=a, amt=b, op=op)
            if cb is not None and isinstance(cb, int):
                if ca is not None:
                    return num((ca << cb) & ((1 << 64) - 1) if op == "<<" else ca >> cb)
                return mul(a, num(1 << cb)) if op == "<<" else tm.divide(a, num(1 << cb))
            if cb is None and ca is not None and ca == 1 and op == "<<":
                return tm.app("shl", a, b)
            return tm.app("shl" if op == "<<" else "shr", a, b)
        if op == "&":
            if ca is not None and cb is not None:
                return num(ca & cb)
            for x, y in ((a, cb), (b, ca)):
                if isinstance(y, int) and y > 0 and (y & (y + 1)) == 0:
                    if y == (1 << 64) - 1:
                        return x
                    return tm.modulo(x, num(y + 1))
                if y == 0:
                    return ZERO
            return self.comm("and", a, b)
        if op == "|":
            if ca == 0:
                return b
            if cb == 0:
                return a
            return self.comm("or", a, b)
        if op == "^":
            return self.comm("xor", a, b)
        return self.opaque(e)

    def comm(self, name, a, b):
        if name in ("and", "or") and a == b:
            return a
        x, y = sorted([a, b], key=lambda p: p.m)
        return tm.app(name, x, y)

    def ptr_eq(self, a, b):
        if a == ("null",) and b == ("null",):
            return T
        if a == ("null",):
            a, b = b, a
        if b == ("null",):
            return tm.negate(self.ptr_cond(a))
        if a[0] == b[0] == "ptr" and a[1] == b[1] and len(a[2]) == len(b[2]):
            if a[2][:-1] == b[2][:-1] and a[2]:
                return eq(sub(a[2][-1], b[2][-1]))
            if a[2] == b[2]:
                return T
        return eq(tm.app("ptreq", str(a), str(b), kind="b", taint=True))

    def set_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == "setit" and y[0] == "setend":
                return eq(tm.app("in", x[1], x[2], kind="b"))
            if isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == "setpos" and y[0] == "setend":
                return ge(sub(x[2], tm.app("setsize", x[1])))
        return None

    # ---- assignment
    def e_asg(self, e, st):
        op = e["op"]
        out = []
        t = e["a"]["t"]
        if op == "":
            for s, v in self.eval(e["b"], st):
                for s2, l in self.lval(e["a"], s):
                    if isinstance(v, tuple) and v and v[0] == "obj":
                        self.event(s2, "assignobj", e, src=v[1], dst=l)
                        self.copy(s2, v[1], l, t)
                        out.append((s2, ("obj", l)))
                    else:
                        self.store(s2, l, v, e, op="", old=None)
                        out.append((s2, v))
            return out
        for s, b in self.eval(e["b"], st):
            pairs = [(s, b)]
            if op == "+" and isinstance(b, Poly) and b.single() is not None and tm.info(b.single())[0][0] == "b2i":
                tt, ff = self.branch(s, tm.info(b.single())[0][1])
                pairs = [(x, ONE) for x in tt] + [(x, ZERO) for x in ff]
            for s1, b1 in pairs:
                for s2, l in self.lval(e["a"], s1):
                    a = self.load(s2, l, t, e)
                    v = self.binop(op, a, b1, {"t": e.get("ct", t), "L": e.get("L")}, s2)
                    if isinstance(v, Poly) and op in ("|", "&", "^") and strip(t) == "bool":
                        v = tm.b2i(tm.truth(v))
                    if b1.const() == 0 and op == "+" and len(pairs) > 1:
                        self.event(s2, "skipadd", e, loc=l)
                    else:
                        self.store(s2, l, v, e, op=op, old=a, rhs=b1)
                    out.append((s2, v))
        return out

    # ---- construction
    def default_init(self, st, loc, t, zero=False):
        t = strip(t)
        p, i = loc
        if is_vec(t):
            self.wr(st, (p + ("#size",), i), ZERO)
            if not i:
                st.mem[p + ("#buf",)] = ("buf", self.newid())
            return
        if t.startswith("std::pair<"):
            a = targs(t)
            self.default_init(st, (p + (".first",), i), a[0], zero)
            self.default_init(st, (p + (".second",), i), a[1], zero)
            return
        if is_sptr(t):
            self.wr(st, (p + ("#p",), i), ("null",))
            return
        if t in self.recs:
            for b in self.recs[t]["bases"]:
                self.default_init(st, loc, b, zero)
            for f in self.recs[t]["fields"]:
                fl = (p + ("." + f["n"],), i)
                if f.get("init"):
                    for s, v in self.eval(f["init"], st)[:1]:
                        self.put(st, fl, v, f["t"], f["init"])
                elif self.is_obj(f["t"]):
                    c = self.find_ctor(strip(f["t"]), 0)
                    if c is not None:
                        self.call(c, fl, [], st, {"L": None})
                    else:
                        self.default_init(st, fl, f["t"], zero)
                elif zero and self.kind(f["t"]) != "o":
                    self.wr(st, fl, ("null",) if self.kind(f["t"]) == "p" else ZERO)
            return
        if t.startswith("std::set<"):
            self.wr(st, loc, tm.app("emptyset", kind="u"))
            return
        if zero and self.kind(t) != "o":
            self.wr(st, loc, ("null",) if self.kind(t) == "p" else ZERO)

    def find_ctor(self, cls, nargs):
        best = None
        for f in self.fns.values():
            if f.get("ctor") and f.get("class") == cls and f.get("ck") not in ("copy", "move"):
                req = len([p for p in f["params"] if not p.get("dflt")])
                if req <= nargs <= len(f["params"]):
                    best = f
        return best

    def put(self, st, loc, v, t, node):
        """initialise loc of type t with value v"""
        if isinstance(v, tuple) and v and v[0] in ("obj",):
            if self.is_obj(t):
                self.copy(st, v[1], loc, t)
            else:
                vv = st.mem.get(v[1][0])
                self.wr(st, loc, vv if vv is not None and not v[1][1] else ("alias", v[1]))
            return
        self.wr(st, loc, v)

    def e_ctor(self, e, st, at=None):
        c = strip(e["c"])
        k = e["k"]
        fid = e.get("id")
        args = e.get("args", [])
        if k in ("copy", "move") and args:
            if fid in self.fns and at is not None:
                f = self.fns[fid]
                out = []
                for s, vs in self.arg_vals(f, args, st):
                    out += [(s2, ("obj", at)) for s2, _ in self.call(f, at, vs, s, e)]
                return out
            r = self.eval(args[0], st)
            if at is None:
                if self.is_obj(c):
                    out = []
                    for s, v in r:
                        if isinstance(v, tuple) and v[0] == "obj" and args[0]["e"] in ("var", "field", "sub") and k == "copy":
                            l = self.tmp()
                            self.copy(s, v[1], l, c)
                            v = ("obj", l)
                        out.append((s, v))
                    return out
                return r
            out = []
            for s, v in r:
                self.put(s, at, v, c, e)
                out.append((s, ("obj", at)))
            return out
        if fid in self.fns:
            f = self.fns[fid]
            out = []
            for s, vs in self.arg_vals(f, args, st):
                l = at if at is not None else self.tmp()
                out += [(s2, ("obj", l)) for s2, _ in self.call(f, l, vs, s, e)]
            return out
        # library / implicit
        if c.startswith("std::function<") or "(lambda" in c or c.startswith(("std::greater", "std::less")):
            if args:
                return self.eval(args[0], st)
            return [(st, ("cmp", c))]
        out = []
        for s, vs in self.evals(args, st):
            l = at if at is not None else self.tmp()
            out += self.lib_ctor(c, k, vs, l, s, e)
        return out

    def lib_ctor(self, c, k, vs, l, s, e):
        if is_vec(c):
            self.default_init(s, l, c)
            polys = [v for v in vs if isinstance(v, Poly)]
            if polys and isinstance(vs[0], Poly):
                self.wr(s, (l[0] + ("#size",), l[1]), vs[0])
                self.event(s, "resize", e, loc=l, size=vs[0], buf=self.vbuf(s, l))
                el = targs(c)[0]
                for lf, tt in self.leaves(el):
                    z = vs[1] if len(vs) > 1 and isinstance(vs[1], Poly) else (ZERO if self.kind(tt) in "uibf" else None)
                    if z is not None and "[]" not in lf:
                        self.wr_arr(s, l[0] + ("[]",) + lf, l[1], ("cst", z))
            elif vs and isinstance(vs[0], tuple) and vs[0][0] == "ptr" and len(vs) > 1 and isinstance(vs[1], tuple) and vs[1][0] == "ptr":
                self.event(s, "rangecopy", e, first=vs[0], last=vs[1], dst=l)
                if vs[0][2] and vs[1][2] and vs[0][1] == vs[1][1]:
                    self.wr(s, (l[0] + ("#size",), l[1]), sub(vs[1][2][-1], vs[0][2][-1]))
                else:
                    self.wr(s, (l[0] + ("#size",), l[1]), tm.fresh("size", "u"))
                self.wr_arr(s, l[0] + ("[]",), l[1], ("as", "copy", self.newid()))
            elif vs and isinstance(vs[0], tuple) and vs[0][0] == "ilist":
                self.wr(s, (l[0] + ("#size",), l[1]), num(len(vs[0][1])))
                for i, v in enumerate(vs[0][1]):
                    self.event(s, "push", e, loc=l, buf=self.vbuf(s, l), idx=num(i), val=v)
                    if isinstance(v, Poly):
                        self.wr(s, (l[0] + ("[]",), l[1] + (num(i),)), v)
            return [(s, ("obj", l))]
        if c.startswith("std::pair<"):
            a = targs(c)
            if len(vs) == 2:
                self.put(s, (l[0] + (".first",), l[1]), vs[0], a[0], e)
                self.put(s, (l[0] + (".second",), l[1]), vs[1], a[1], e)
            else:
                self.default_init(s, l, c)
            return [(s, ("obj", l))]
        if is_sptr(c):
            v = vs[0] if vs else ("null",)
            if isinstance(v, tuple) and v[0] == "obj":
                self.copy(s, v[1], l, c)
            else:
                self.wr(s, (l[0] + ("#p",), l[1]), v)
            return [(s, ("obj", l))]
        if c.startswith("std::set<"):
            if len(vs) >= 2 and all(isinstance(v, tuple) and v[0] == "ptr" for v in vs[:2]):
                self.event(s, "rangecopy", e, first=vs[0], last=vs[1], dst=l)
            self.wr(s, l, tm.fresh("set", "u") if vs else tm.app("emptyset"))
            return [(s, ("obj", l))]
        if is_arr(c):
            nbuf = ("buf", self.newid())
            s.mem[l[0] + ("#buf",)] = nbuf
            if k in ("copy", "move", "other") and vs and isinstance(vs[0], tuple) and vs[0][0] == "obj":
                self.copy(s, vs[0][1], l, c)
            elif vs and isinstance(vs[0], Poly):
                self.wr(s, (l[0] + ("#shape0",), ()), vs[0])
                if len(vs) > 1 and isinstance(vs[1], Poly):
                    self.wr(s, (l[0] + ("#shape1",), ()), vs[1])
            return [(s, ("obj", l))]
        if c in self.recs:
            if vs and k == "other":
                self.unk("ctor " + c)
            self.default_init(s, l, c)
            return [(s, ("obj", l))]
        if c.startswith("pybind11::detail::any_container") and vs:
            return [(s, vs[0])]
        if c.startswith("__gnu_cxx::__normal_iterator") or c.startswith("std::_Rb_tree"):
            if vs:
                return [(s, vs[0])]
        if c.startswith("std::basic_string") and vs:
            return [(s, vs[0] if isinstance(vs[0], tuple) and vs[0][0] == "str" else ("unk", self.newid()))]
        if c.startswith("pybind11::object") and vs:
            return [(s, vs[0])]
        self.event(s, "lctor", e, cls=c, args=vs)
        return [(s, ("unk", self.newid()))]

    def e_new(self, e, st):
        out = []
        t = strip(e["nt"])
        init = e.get("init")
        if init and init.get("e") == "ctor":
            l = self.tmp()
            for s, v in self.e_ctor(init, st, at=l):
                self.event(s, "new", e, loc=l, t=t)
                out.append((s, ("ptr", l[0], l[1], None)))
            return out
        l = self.tmp()
        self.event(st, "new", e, loc=l, t=t)
        return [(st, ("ptr", l[0], l[1], None))]

    def e_ilist(self, e, st):
        out = []
        t = strip(e.get("t", ""))
        for s, vs in self.evals(e.get("args", []), st):
            if t in self.recs:
                l = self.tmp()
                fl = []
                for f in self.recs[t]["fields"]:
                    fl.append(f)
                for f, v in zip(fl, vs):
                    self.put(s, (l[0] + ("." + f["n"],), ()), v, f["t"], e)
                out.append((s, ("obj", l)))
            elif is_vec(t) or t.startswith("std::pair<"):
                l = self.tmp()
                out += self.lib_ctor(t, "other", [("ilist", vs)] if is_vec(t) else vs, l, s, e)
            elif len(vs) == 1 and self.kind(t) != "o":
                out.append((s, vs[0]))
            else:
                out.append((s, ("ilist", vs)))
        return out

    def e_lambda(self, e, st):
        fr = self.frames[-1]
        caps = {}
        for c in e.get("caps", []):
            if c.get("this"):
                continue
            loc = self.resolve(st, self.var_loc({"id": c["id"], "n": c.get("n")}))
            if c.get("ref"):
                caps[c["id"]] = loc
            else:
                l = self.tmp()
                n = len(loc[0])
                for p, v in [(p, v) for p, v in st.mem.items() if p[:n] == loc[0]]:
                    st.mem[l[0] + p[n:]] = v
                if loc[0] not in st.mem:
                    st.mem[l[0]] = ("ref", loc)
                caps[c["id"]] = l
        return [(st, ("clo", e, caps, fr["this"]))]

    def e_throw(self, e, st):
        if e.get("a") and e["a"].get("e") != "none":
            pass
        self.event(st, "throw", e, tt=e.get("tt"))
        self.sinks[-1].append(Thrown(st, e.get("tt"), e.get("bases", []), e.get("L"), tuple(self.stack)))
        return []

    # ---- calls
    def arg_vals(self, f, args, st):
        """evaluate args for repo function f: list of (st, [('ref',loc)|value|None])"""
        ps = f["params"]
        cur = [(st, [])]
        for i, p in enumerate(ps):
            nxt = []
            for s, vs in cur:
                if i >= len(args) or args[i] is None or args[i].get("e") == "none":
                    nxt.append((s, vs + [None]))
                    continue
                a = args[i]
                if p.get("ref"):
                    for s2, l in self.lval(a, s):
                        nxt.append((s2, vs + [("ref", l)]))
                else:
                    for s2, v in self.eval(a, s):
                        nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def call(self, f, this, vals, st, node):
        """inline repo function; [(st, value)]"""
        if self.intercept is not None:
            r = self.intercept(self, f, this, vals, st, node)
            if r is not None:
                return r
        fid = f["id"]
        if fid in self.stack or len(self.stack) > 24:
            return self.recursive_call(f, this, vals, st, node)
        if fid in self._recursive and fid not in self.rec:
            return self.call_fix(f, this, vals, st, node)
        return self.inline(f, this, vals, st, node)

    def bind(self, f, this, vals, st, node):
        no = self.newid()
        fr = {"no": no, "this": this, "map": {}, "f": f}
        for p, v in zip(f["params"], vals):
            loc = ((("v", no, p["id"], p["n"]),), ())
            if v is None:
                d = p.get("dflt")
                if isinstance(d, dict):
                    self.frames.append(fr)
                    r = self.eval(d, st)
                    self.frames.pop()
                    v = r[0][1] if r else None
                if v is None:
                    continue
            if p.get("ref"):
                if isinstance(v, tuple) and v[0] == "ref":
                    fr["map"][p["id"]] = v[1]
                elif isinstance(v, tuple) and v[0] == "obj":
                    fr["map"][p["id"]] = v[1]
                else:
                    l = self.tmp()
                    st.mem[l[0]] = v
                    fr["map"][p["id"]] = l
            else:
                if isinstance(v, tuple) and v and v[0] == "ref":
                    v = ("obj", v[1]) if self.is_obj(p["t"]) else self.rd(st, v[1], p["t"])
                self.put(st, loc, v, p["t"], node)
        return fr

    def inline(self, f, this, vals, st, node):
        self.ncalls += 1
        self.fn_seen.add(f["id"])
        fr = self.bind(f, this, vals, st, node)
        self.event(st, "enter", node, fn=f["id"], this=this, args=vals, frame=fr["no"])
        self.frames.append(fr)
        self.stack.append(f["id"])
        try:
            cur = [st]
            for ini in f.get("inits", []):
                nxt = []
                for s in cur:
                    nxt += self.member_init(ini, this, s, f)
                cur = nxt
            fl = self.block(f["body"], cur) if f.get("body") else Flow(cur)
        finally:
            self.stack.pop()
            self.frames.pop()
        out = [(s, ("unk", 0)) for s in fl.n] + fl.ret
        if len(out) > self.cap:
            groups = {}
            for s, v in out:
                groups.setdefault(v if isinstance(v, Poly) else (v[0] if isinstance(v, tuple) else v), []).append((s, v))
            if len(groups) <= self.cap:
                out = []
                for g in groups.values():
                    same = all(x[1] == g[0][1] for x in g)
                    if same:
                        out.append((self.join([x[0] for x in g]), g[0][1]))
                    else:
                        out += self._join_ret(g)
        for s, v in out:
            self.event(s, "leave", node, fn=f["id"], frame=fr["no"], ret=v)
        return out

    def _join_ret(self, g):
        l = self.tmp()
        ok = all(isinstance(v, Poly) for _, v in g)
        if ok:
            for s, v in g:
                s.mem[l[0]] = v
            j = self.join([s for s, _ in g])
            return [(j, j.mem.get(l[0]))]
        return [(self.join([s for s, _ in g]), g[0][1])]

    def member_init(self, ini, this, st, f):
        if "base" in ini or "deleg" in ini:
            x = ini["x"]
            if x.get("e") == "ctor":
                return [s for s, _ in self.e_ctor(x, st, at=this)]
            return [st]
        loc = (this[0] + ("." + ini["n"],), this[1])
        x = ini["x"]
        if x is None or x.get("e") == "none":
            return [st]
        if ini.get("ref"):
            out = []
            for s, l in self.lval(x, st):
                s.mem[loc[0]] = ("ref", l)
                out.append(s)
            return out
        return self.init_at(loc, x, ini["t"], st)

    def init_at(self, loc, x, t, st):
        if x.get("e") == "ctor":
            out = []
            for s, v in self.e_ctor(x, st, at=loc):
                if not (isinstance(v, tuple) and v[0] == "obj" and v[1] == loc):
                    self.put(s, loc, v, t, x)
                out.append(s)
            return out
        if x.get("e") == "ilist" and strip(x.get("t", "")) in self.recs and any(f.get("ref") for f in self.recs[strip(x["t"])]["fields"]):
            cur = [st]
            for f, a in zip(self.recs[strip(x["t"])]["fields"], x.get("args", [])):
                nxt = []
                for s in cur:
                    l = (loc[0] + ("." + f["n"],), loc[1])
                    if f.get("ref"):
                        for y, r in self.lval(a, s):
                            y.mem[l[0]] = ("ref", self.resolve(y, r))
                            nxt.append(y)
                    else:
                        nxt += self.init_at(l, a, f["t"], s)
                cur = nxt
            return cur
        out = []
        for s, v in self.eval(x, st):
            self.event(s, "init", x, loc=loc, val=v)
            self.put(s, loc, v, t, x)
            out.append(s)
        return out

    # recursion: assume what is claimed unchanged, verify, weaken until stable
    def call_fix(self, f, this, vals, st, node):
        fid = f["id"]
        self.rec[fid] = {"mods": set(), "changed": set()}
        try:
            for _ in range(8):
                info = self.rec[fid]
                log = set()
                before = self.ctr
                s0 = st.fork()
                self.sinks.append([])
                self.modlogs.append(log)
                res = self.inline(f, this, list(vals), s0, node)
                self.modlogs.pop()
                thr = self.sinks.pop()
                mods = {p for p in log if self._root_old(p, before)}
                changed = set()
                for p in mods:
                    v0 = st.mem.get(p)
                    for s, _ in res:
                        v = s.mem.get(p)
                        if v == v0:
                            continue
                        if isinstance(v, Poly):
                            x0 = v0 if isinstance(v0, Poly) else self._scalar_at(st, p, v)
                            if x0 is not None and entails(s.facts, eq(sub(v, x0))):
                                continue
                        changed.add(p)
                        break
                if mods <= info["mods"] and changed <= info["changed"]:
                    self.sinks[-1].extend(thr)
                    for m in self.modlogs:
                        m |= log
                    return res
                info["mods"] |= mods
                info["changed"] |= changed
            self.sinks[-1].extend(thr)
            for m in self.modlogs:
                m |= log
            return res
        finally:
            del self.rec[fid]

    def _root_old(self, p, before):
        r = p[0]
        if r[0] in ("v", "o"):
            return r[1] <= before
        return True

    def recursive_call(self, f, this, vals, st, node):
        info = self.rec.get(f["id"])
        self.event(st, "reccall", node, fn=f["id"], this=this, args=vals)
        if info is None:
            self.unk("recursion " + f["q"])
            return [(st, self.opaque({"t": f["rt"]}))]
        for p in info["changed"]:
            self.havoc_leaf(st, p)
        for p, v in zip(f["params"], vals):
            if p.get("ref") and not p["t"].startswith("const ") and isinstance(v, tuple) and v[0] == "ref":
                # contents behind the reference may change, its layout pointers are tracked in 'changed'
                pass
        rv = self.opaque({"t": f["rt"]}, taint=False)
        return [(st, rv)]

    def havoc_leaf(self, st, p):
        for m in self.modlogs:
            m.add(p)
        v = st.mem.get(p)
        if p and p[-1] == "#hv":
            self.havoc_path(st, p[:-1])
            return
        st.mem[p] = self.fresh_like(p, v)

    def fresh_like(self, p, v):
        nm = "h:" + "".join(str(x) for x in p[-2:] if not isinstance(x, tuple))
        if not nm[2:]:
            nm = "h:" + (str(p[0][3]) if len(p[0]) > 3 else "x")
        if isinstance(v, Poly):
            kd = self._poly_kind(v)
            a = v.single()
            if a is not None and tm.kind_of(a) == "b":
                kd = "b"
            if v.const() is not None:
                kd = self._declared_kind(p) or kd
            return tm.fresh(nm, kd)
        if isinstance(v, tuple) and v:
            if v[0] == "ptr":
                if v[2] and v[1] and v[1][-1] == "[]":
                    return ("ptr", v[1], v[2][:-1] + (tm.fresh(nm, "u"),), v[3])
                a = tm.fresh(nm, "u")
                return ("ptr", (("D", a.single()),), (), a)
            if v[0] in ("ai", "as", "st", "stp", "sl", "cst"):
                return ("as", nm, self.newid())
            if v[0] == "null":
                a = tm.fresh(nm, "u")
                return ("ptr", (("D", a.single()),), (), a)
            if v[0] == "setpos":
                return ("setpos", v[1], tm.fresh(nm, "u"))
        if v is None:
            if "[]" in p:
                return ("as", nm, self.newid())
            return None
        return ("unk", self.newid())

    _pkinds = None

    def _declared_kind(self, p):
        if self._pkinds is None:
            self._pkinds = {}
            for r in self.recs.values():
                for f in r["fields"]:
                    self._pkinds.setdefault("." + f["n"], set()).add(self.kind(f["t"]))
        if p[-1] in ("#size", "#shape0", "#shape1"):
            return "u"
        s = self._pkinds.get(p[-1]) if isinstance(p[-1], str) else None
        if s and len(s) == 1:
            k = next(iter(s))
            return k if k in "uibf" else None
        if len(p) == 1 and p[0][0] == "v":
            return self._var_kinds.get((p[0][1], p[0][2]))
        return self._rkinds.get(p)

    _var_kinds = {}

    def e_call(self, e, st, lv=False):
        fid = e.get("id")
        if fid in self.fns:
            f = self.fns[fid]
            args = e["args"]
            if f.get("class") and not f.get("static") and e.get("mem"):
                out = []
                for s, l in self.lval(args[0], st):
                    for s2, vs in self.arg_vals(f, args[1:], s):
                        out += self.ret_conv(self.call(f, l, vs, s2, e), f, e, lv)
                return out
            out = []
            for s, vs in self.arg_vals(f, args, st):
                out += self.ret_conv(self.call(f, None, vs, s, e), f, e, lv)
            return out
        if fid is None and e.get("callee") is not None:
            return self.call_value(e, st)
        from . import models
        return models.call(self, e, st, lv)

    def ret_conv(self, res, f, e, lv):
        out = []
        for s, v in res:
            if isinstance(v, tuple) and v and v[0] == "loc":
                if not lv and not self.is_obj(e["t"]):
                    v = self.load(s, v[1], e["t"], e)
                else:
                    v = ("obj", v[1])
            out.append((s, v))
        return out

    def e_mcall(self, e, st, lv=False):
        fid = e.get("id")
        if fid in self.fns:
            f = self.fns[fid]
            out = []
            if f.get("static"):
                for s, vs in self.arg_vals(f, e["args"], st):
                    out += self.ret_conv(self.call(f, None, vs, s, e), f, e, lv)
                return out
            for s, l in self.base_loc(e, st):
                for s2, vs in self.arg_vals(f, e["args"], s):
                    out += self.ret_conv(self.call(f, l, vs, s2, e), f, e, lv)
            return out
        from . import models
        return models.mcall(self, e, st, lv)

    def base_loc(self, e, st):
        b = e["b"]
        if e.get("arrow"):
            out = []
            for s, v in self.eval(b, st):
                out += self.deref(s, v, e)
            return out
        return self.lval(b, st)

    def call_value(self, e, st):
        out = []
        for s, fv in self.eval(e["callee"], st):
            for s2, vs in self.evals(e["args"], s):
                out += self.apply(fv, e["args"], vs, s2, e)
        return out

    def apply(self, fv, argx, vals, st, e):
        """call of a function value"""
        if isinstance(fv, tuple) and fv and fv[0] == "alias":
            v = st.mem.get(fv[1][0])
            fv = v if v is not None else fv
        if isinstance(fv, tuple) and fv and fv[0] == "clo":
            _, node, caps, this = fv
            if self.frames and any(fr.get("lam") is node for fr in self.frames):
                return [(st, self.opaque(e))]
            no = self.newid()
            fr = {"no": no, "this": this, "map": dict(caps), "f": None, "lam": node}
            for p, v in zip(node["params"], vals):
                if p.get("ref") and isinstance(v, tuple) and v[0] in ("obj", "loc"):
                    fr["map"][p["id"]] = v[1]
                else:
                    self.put(st, ((("v", no, p["id"], p["n"]),), ()), v, p["t"], e)
            self.event(st, "lamcall", e, lam=node, args=vals)
            self.frames.append(fr)
            self.stack.append(node.get("id") or "lambda")
            try:
                fl = self.block(node["body"], [st])
            finally:
                self.stack.pop()
                self.frames.pop()
            return [(s, ("unk", 0)) for s in fl.n] + self.ret_conv(fl.ret, None, e, False)
        if isinstance(fv, tuple) and fv and fv[0] == "fn" and fv[1] in self.fns:
            f = self.fns[fv[1]]
            vs = []
            for p, v in zip(f["params"], vals):
                if p.get("ref") and not (isinstance(v, tuple) and v[0] in ("obj",)):
                    l = self.tmp()
                    st.mem[l[0]] = v
                    v = ("ref", l)
                elif p.get("ref"):
                    v = ("ref", v[1])
                vs.append(v)
            return self.ret_conv(self.call(f, None, vs, st, e), f, e, False)
        # unknown function value supplied by the caller
        key = fv if isinstance(fv, Poly) else ("fv", str(fv))
        args = []
        for v in vals:
            if isinstance(v, Poly):
                args.append(v)
            elif isinstance(v, tuple) and v and v[0] in ("obj", "loc"):
                args.append(("at",) + (tm.show_path(v[1][0]),))
            else:
                args.append(str(v))
        t = strip(e["t"])
        kd = self.kind(t)
        if kd in ("u", "i", "b", "f"):
            r = tm.var(("app", "fv") + (key,) + tuple(args), kd)
        else:
            r = ("unk", self.newid())
        self.event(st, "fncall", e, f=fv, args=vals, ret=r)
        return [(st, r)]

    # -------------------------------------------------------------- statements
    def block(self, b, states):
        fl = Flow(list(states))
        items = b["b"] if b.get("s") == "block" else [b]
        if any(it.get("s") == "decl" and any(self.dtor_of(d) for d in it["d"]) for it in items):
            return self.guarded(items, fl)
        for it in items:
            if not fl.n:
                break
            fl.n = self.limit(fl.n)
            cur = fl.n
            fl.n = []
            for s in cur:
                self.nstates += 1
                r = self.stmt(it, s)
                fl.n += r.n
                fl.brk += r.brk
                fl.cont += r.cont
                fl.ret += r.ret
        return fl

    def dtor_of(self, d):
        """destructor with a body of a local object, or None"""
        if d.get("ref"):
            return None
        if self._dtors is None:
            self._dtors = {}
            for f in self.fns.values():
                if f.get("dtor") and f.get("body") and f["body"].get("b"):
                    self._dtors[f["class"]] = f
                    if "(" in f["class"]:
                        self._dtors[f["class"].split("::")[-1]] = f     # local to a function
        return self._dtors.get(strip(d["t"]).replace("const ", "")) if self._dtors else None

    def guarded(self, items, fl):
        """a block with local objects whose destructors do something"""
        live = []

        def leave(s):
            cur = [s]
            for loc, f in reversed(live):
                nxt = []
                for y in cur:
                    nxt += [r for r, _ in self.call(f, loc, [], y, {"L": f["L"], "t": "void"})]
                cur = nxt
            return cur
        for it in items:
            if not fl.n:
                break
            fl.n = self.limit(fl.n)
            cur = fl.n
            fl.n = []
            self.sinks.append([])
            out = Flow()
            for s in cur:
                self.nstates += 1
                r = self.stmt(it, s)
                fl.n += r.n
                out.brk += r.brk
                out.cont += r.cont
                out.ret += r.ret
            thr = self.sinks.pop()
            for t in thr:
                for y in leave(t.st):
                    self.sinks[-1].append(Thrown(y, t.tt, t.bases, t.L, t.stack))
            fl.brk += [y for s in out.brk for y in leave(s)]
            fl.cont += [y for s in out.cont for y in leave(s)]
            fl.ret += [(y, v) for s, v in out.ret for y in leave(s)]
            if it.get("s") == "decl":
                for d in it["d"]:
                    f = self.dtor_of(d)
                    if f is not None:
                        live.append((((("v", self.frames[-1]["no"], d["id"], d["n"]),), ()), f))
        fl.n = [y for s in fl.n for y in leave(s)]
        return fl

    def stmt(self, x, st):
        k = x["s"] if "s" in x else "expr0"
        m = getattr(self, "s_" + k, None)
        if m is None:
            if "e" in x:
                return Flow([s for s, _ in self.eval(x, st)])
            self.unk("stmt " + k)
            return Flow([st])
        return m(x, st)

    def s_block(self, x, st):
        return self.block(x, [st])

    def s_null(self, x, st):
        return Flow([st])

    s_opaque = s_null

    def s_label(self, x, st):
        return self.stmt(x["b"], st) if isinstance(x.get("b"), dict) else Flow([st])

    def s_expr(self, x, st):
        a = x["a"]
        if a["e"] == "un" and a["op"] in ("++", "--"):
            return Flow([s for s, _ in self.incdec(a, st)])
        return Flow([s for s, _ in self.eval(a, st)])

    def s_decl(self, x, st):
        cur = [st]
        for d in x["d"]:
            nxt = []
            for s in cur:
                nxt += self.declare(d, s, x)
            cur = nxt
        return Flow(cur)

    def declare(self, d, st, x):
        fr = self.frames[-1]
        loc = ((("v", fr["no"], d["id"], d["n"]),), ())
        kd = self.kind(d["t"])
        if kd in ("u", "i", "b", "f"):
            Interp._var_kinds[(fr["no"], d["id"])] = kd
        init = d.get("init")
        # a new lifetime starts
        n = 1
        for p in [p for p in st.mem if p[0] == loc[0][0]]:
            del st.mem[p]
        if not init or init.get("e") == "none":
            if self.is_obj(d["t"]):
                self.default_init(st, loc, d["t"])
            else:
                st.mem[loc[0]] = self.uninit(d["t"])
            return [st]
        if d.get("ref"):
            out = []
            for s, l in self.lval(init, st):
                l = self.resolve(s, l)
                s.mem[loc[0]] = ("ref", l)
                out.append(s)
            return out
        return self.init_at(loc, init, d["t"], st)

    def uninit(self, t):
        kd = self.kind(t)
        if kd in ("u", "i", "b", "f"):
            return tm.fresh("uninit", kd)
        if kd == "p":
            a = tm.fresh("uninit", "u")
            el = strip(strip(t)[:-1])
            if el in INTS:
                return ("ptr", (("D", a.single()), "[]"), (ZERO,), a)
            return ("ptr", (("D", a.single()),), (), a)
        return ("unk", self.newid())

    def s_if(self, x, st):
        fl = Flow()
        cur = [st]
        if x.get("init"):
            cur = self.stmt(x["init"], st).n
        for s in cur:
            if x.get("cv"):
                r = self.stmt(x["cv"], s)
                ss = r.n
            else:
                ss = [s]
            for s1 in ss:
                for s2, b in self.cond(x["c"], s1):
                    br = x.get("a") if b else x.get("b")
                    if br is None:
                        fl.n.append(s2)
                        continue
                    r = self.stmt(br, s2)
                    fl.n += r.n
                    fl.brk += r.brk
                    fl.cont += r.cont
                    fl.ret += r.ret
        return fl

    def s_ret(self, x, st):
        fl = Flow()
        a = x.get("a")
        if a is None or a.get("e") == "none":
            fl.ret.append((st, ("unk", 0)))
            return fl
        f = self.frames[-1].get("f")
        if f is not None and f.get("rref"):
            for s, l in self.lval(a, st):
                fl.ret.append((s, ("loc", l)))
            return fl
        for s, v in self.eval(a, st):
            self.event(s, "return", x, val=v)
            fl.ret.append((s, v))
        return fl

    def s_break(self, x, st):
        fl = Flow()
        fl.brk.append(st)
        return fl

    def s_continue(self, x, st):
        fl = Flow()
        fl.cont.append(st)
        return fl

    def s_try(self, x, st):
        self.sinks.append([])
        fl = self.stmt(x["b"], st)
        thr = self.sinks.pop()
        hs = x.get("h") or []
        for t in thr:
            done = False
            for h in hs:
                ty = h.get("t") or h.get("ty") or ""
                ty = strip(ty)
                if ty in ("", "...") or ty == t.tt or ty in t.bases:
                    r = self.stmt(h["b"], t.st) if isinstance(h.get("b"), dict) else Flow([t.st])
                    fl.n += r.n
                    fl.brk += r.brk
                    fl.cont += r.cont
                    fl.ret += r.ret
                    done = True
                    break
            if not done:
                self.sinks[-1].append(t)
        return fl

    def s_switch(self, x, st):
        self.unk("switch")
        fl = Flow()
        out = []
        for s, _ in self.eval(x["c"], st):
            # every case label is a possible entry
            body = x["b"]
            items = body["b"] if body.get("s") == "block" else [body]
            flat = []
            for it in items:
                while it.get("s") in ("case", "default"):
                    flat.append(("label", it))
                    it = it.get("b") or {"s": "null"}
                flat.append(("stmt", it))
            for i, (kk, it) in enumerate(flat):
                if kk != "label":
                    continue
                cur = [s.fork()]
                for kk2, it2 in flat[i:]:
                    if kk2 == "stmt":
                        nxt = []
                        for c in cur:
                            r = self.stmt(it2, c)
                            nxt += r.n
                            out += r.brk
                            fl.cont += r.cont
                            fl.ret += r.ret
                        cur = nxt
                out += cur
            out.append(s)
        fl.n = out
        return fl

    # -------------------------------------------------------------- loops
    def s_while(self, x, st):
        return self.loop(x, st, x.get("c"), x["b"], None)

    def s_for(self, x, st):
        cur = [st]
        if x.get("init"):
            r = self.stmt(x["init"], st)
            cur = r.n
        fl = Flow()
        for s in cur:
            r = self.loop(x, s, x.get("c"), x["b"], x.get("inc"))
            fl.n += r.n
            fl.ret += r.ret
        return fl

    def s_do(self, x, st):
        return self.loop(x, st, x.get("c"), x["b"], None, post=True)

    def s_range(self, x, st):
        """for (v : r)"""
        fl = Flow()
        fr = self.frames[-1]
        v = x["v"]
        for s, l in self.lval(x["r"], st):
            t = strip(x["r"]["t"])
            if is_vec(t) or "*" not in t and t.startswith("std::vector"):
                # hidden counter
                cid = ("rng", id(x))
                cl = ((("v", fr["no"], cid, "range"),), ())
                s.mem[cl[0]] = ZERO
                el = targs(t)[0]

                def cond(ss, l=l, cl=cl):
                    c = gt(sub(self.vsize(ss, l), self.rd(ss, cl, "unsigned long")))
                    a, b = self.branch(ss, c)
                    return [(y, True) for y in a] + [(y, False) for y in b]

                def pre(ss, l=l, cl=cl, el=el):
                    i = self.rd(ss, cl, "unsigned long")
                    loc = (l[0] + ("[]",), l[1] + (i,))
                    vl = ((("v", fr["no"], v["id"], v["n"]),), ())
                    self.event(ss, "elem", x, seq=l, idx=i)
                    if v.get("ref"):
                        ss.mem[vl[0]] = ("ref", loc)
                    elif self.is_obj(el):
                        self.copy(ss, loc, vl, el)
                    else:
                        self.wr(ss, vl, self.rd(ss, loc, el))
                    return [ss]

                def inc(ss, cl=cl):
                    self.wr(ss, cl, add(self.rd(ss, cl, "unsigned long"), ONE))
                    return [ss]
                r = self.loop(x, s, cond, x["b"], inc, pre=pre)
            elif t.startswith("std::set<"):
                setv = self.rd(s, l, "unsigned long")

                def cond(ss):
                    return [(ss.fork(), True), (ss, False)]

                def pre(ss, setv=setv, l=l):
                    i = tm.fresh("elem", "u")
                    ss.facts = ss.facts.addall([ne(tm.app("in", setv, i, kind="b")),
                                                eq(tm.app("setempty", setv, kind="b"))])
                    vl = ((("v", fr["no"], v["id"], v["n"]),), ())
                    self.event(ss, "elem", x, seq=l, val=i, set=setv)
                    ss.mem[vl[0]] = i
                    return [ss]
                r = self.loop(x, s, cond, x["b"], None, pre=pre)
            else:
                self.unk("range over " + t[:40])

                def cond(ss):
                    return [(ss.fork(), True), (ss, False)]

                def pre(ss):
                    vl = ((("v", fr["no"], v["id"], v["n"]),), ())
                    ss.mem[vl[0]] = self.uninit(v["t"]) if not self.is_obj(v["t"]) else None
                    if ss.mem[vl[0]] is None:
                        del ss.mem[vl[0]]
                        self.havoc_path(ss, vl[0])
                    return [ss]
                r = self.loop(x, s, cond, x["b"], None, pre=pre)
            fl.n += r.n
            fl.ret += r.ret
        return fl

    def loop(self, x, st, cond, body, inc, pre=None, post=False):
        """cond: expr or callable; returns Flow with n = exits, ret = returns"""
        self.nloops += 1
        self.loops_seen.add((tuple(x["L"]) if x.get("L") else None))

        def ev_cond(s):
            if cond is None or (isinstance(cond, dict) and cond.get("e") == "none"):
                return [(s.fork(), True)]
            if callable(cond):
                return cond(s)
            return self.cond(cond, s)

        def ev_inc(s):
            if inc is None or (isinstance(inc, dict) and inc.get("e") == "none"):
                return [s]
            if callable(inc):
                return inc(s)
            return [s2 for s2, _ in self.eval(inc, s)]

        before = self.ctr
        ev0 = st.ev
        pure_cond = not callable(cond) and isinstance(cond, dict) and not self.impure(cond)
        st0 = st.fork()
        first = [(st.fork(), True)] if post else ev_cond(st.fork())
        T0 = [s for s, b in first if b]
        X0 = [s for s, b in first if not b]
        if not T0:
            return Flow(X0)
        mod = set()
        sample = {}
        cands = None
        result = None
        for npass in range(self.maxpass):
            H = st0.fork()
            H.ev = ev0
            headvals = {}
            for p in mod:
                if p and p[-1] == "#hv":
                    self.havoc_path(H, p[:-1])
            for p in mod:
                if p and p[-1] == "#hv":
                    continue
                v = st0.mem.get(p)
                if isinstance(v, tuple) and v and v[0] == "ref":
                    continue
                if v is None and "[]" not in p:
                    v = self._guess_init(st0, p)
                    if v is None:
                        v = sample.get(p)
                nv = self.fresh_like(p, v)
                if nv is None:
                    H.mem.pop(p, None)
                else:
                    H.mem[p] = nv
                    headvals[p] = nv
            if cands:
                cs = []
                for c in cands:
                    f = c(H)
                    if f is not None:
                        cs.append(f)
                H.facts = H.facts.addall(cs)
            marker = H.ev
            log = set()
            self.modlogs.append(log)
            self.sinks.append([])
            H0 = dict(H.mem)
            HT = [(H.fork(), True)] if post else ev_cond(H)
            heads = [s for s, b in HT if b]
            hsnap = [s.fork() for s in heads]
            if pre:
                heads = [s2 for s in heads for s2 in pre(s)]
            fl = Flow()
            heads = self.limit(heads)
            for s in heads:
                r = self.stmt(body, s)
                fl.n += r.n
                fl.brk += r.brk
                fl.cont += r.cont
                fl.ret += r.ret
            ends = []
            for s in self.limit(fl.n + fl.cont) if len(fl.n + fl.cont) > 4 * self.cap else fl.n + fl.cont:
                ends += ev_inc(s)
            bT, bF = [], []
            for s in ends:
                for s2, b in ev_cond(s):
                    (bT if b else bF).append(s2)
            thr = self.sinks.pop()
            self.modlogs.pop()
            # what differs when the loop goes round again; writes on the way out do not count
            newmod = {p for p in log if self._root_old(p, before) and not self._loop_local(p, x) and
                      (p[-1:] == ("#hv",) or any(s.mem.get(p) != H0.get(p) for s in bT))}
            for p in newmod:
                for s in bT:
                    v = s.mem.get(p)
                    if isinstance(v, Poly):
                        sample.setdefault(p, v)
            grown = not newmod <= mod
            # keep candidates that are inductive
            if cands is None or grown:
                mod |= newmod
                cands = self.candidates(x, st0, mod, H, bT, bF, cands)
                cands = [c for c in cands if self._holds(c, T0)]
                if not mod:
                    result = (H, hsnap, bT, bF, fl, thr, ends)
                    break
                continue
            kept = [c for c in cands if self._holds(c, bT)]
            if len(kept) == len(cands):
                # relations found from the deltas of this pass
                if npass < self.maxpass - 2 and not getattr(self, "_no_rel", False):
                    more = self.relations(st0, mod, H, bT, ends, [c.key for c in cands]) + self.ne_bounds(H, hsnap, mod)
                    more = [c for c in more if self._holds(c, T0)]
                    if more:
                        seen = {c.key for c in cands}
                        more = [c for c in more if c.key not in seen and c.key not in self._rejected(x)]
                        if more:
                            cands = cands + more
                            continue
                result = (H, hsnap, bT, bF, fl, thr, ends)
                break
            for c in cands:
                if c not in kept:
                    self._rejected(x).add(c.key)
            cands = kept
        else:
            result = (H, hsnap, bT, bF, fl, thr, ends)
            self.unk("loop did not stabilise")
        self._rej.pop(id(x), None)
        H, hsnap, bT, bF, fl, thr, ends = result
        for m in self.modlogs:
            m |= log | mod
        # assemble
        iters = []
        for s in ends:
            iters.append(("end", trace(s.ev, marker), s))
        for s in fl.brk:
            iters.append(("break", trace(s.ev, marker), s))
        for s, v in fl.ret:
            iters.append(("return", trace(s.ev, marker), s))
        for t in thr:
            iters.append(("throw", trace(t.st.ev, marker), t.st))
        lev = Ev("loop", x.get("L"), tuple(self.stack), st0.facts,
                 {"node": x, "iters": iters, "head": H, "heads": hsnap, "pre": st0, "mod": mod})
        for s in bF:
            s.ev = (ev0, lev)
        for s in X0:
            s.ev = (ev0, lev)
        tmpl = (cands or []) + self.exit_templates(st0, hsnap, mod, H)
        exits = []
        normal = X0 + bF
        if normal:
            for s in normal:
                s.ev = (ev0, lev)
            j = self.join(normal, tmpl) if len(normal) > 1 else normal[0]
            if len(normal) > 1 and pure_cond:
                r = [s for s, b in self.cond(cond, j) if not b]
                exits += r
            else:
                exits.append(j)
        brk = fl.brk
        for s in brk:
            s.ev = self._rebase(s.ev, marker, (ev0, lev))
        if len(brk) > 6:
            brk = [self.join(brk, tmpl)]
        out = Flow(exits + brk)
        for s, v in fl.ret:
            s.ev = self._rebase(s.ev, marker, (ev0, lev))
            out.ret.append((s, v))
        for t in thr:
            t.st.ev = self._rebase(t.st.ev, marker, (ev0, lev))
            self.sinks[-1].append(t)
        return out

    _rej = {}

    def _rejected(self, x):
        return self._rej.setdefault(id(x), set())

    def _loop_local(self, p, x):
        return False

    def _rebase(self, ev, marker, base):
        items = trace(ev, marker)
        cur = base
        for i in items:
            cur = (cur, i)
        return cur

    def _holds(self, c, states):
        for s in states:
            f = c(s)
            if f is None or not entails(s.facts, f):
                return False
        return True

    def _guess_init(self, st, p):
        k = self._declared_kind(p)
        if k is None:
            return None
        ver = self.version(st, p)
        return tm.var(("init", p if ver is None else p + (("hv", ver),)), k)

    def scal(self, s, p, like=None):
        v = s.mem.get(p)
        if v is None:
            return self._guess_init(s, p)
        if isinstance(v, tuple) and v and v[0] == "ptr" and v[2]:
            return v[2][-1]
        return v if isinstance(v, Poly) else None

    def candidates(self, x, st0, mod, H, bT, bF, old):
        out = []
        for p in mod:
            if p[-1] == "#hv" or "[]" in p:
                continue
            v0 = st0.mem.get(p)
            if v0 is None:
                v0 = self._guess_init(st0, p)
            if isinstance(v0, tuple) and v0 and v0[0] == "ptr" and v0[2]:
                v0 = v0[2][-1]
            if not isinstance(v0, Poly):
                continue
            out.append(Cand(("ge", p), lambda s, p=p, v0=v0: self._cmp(s, p, v0, 1)))
            out.append(Cand(("le", p), lambda s, p=p, v0=v0: self._cmp(s, p, v0, -1)))
            if v0.const() == 0:
                # a flag that is cleared: nothing more
                pass
        # order between modified scalars that holds initially
        sc = [p for p in mod if p[-1] != "#hv" and "[]" not in p and isinstance(self.scal(st0, p), Poly)
              and tm.is_int(self.scal(st0, p))]
        if len(sc) <= 14:
            for a in sc:
                for b in sc:
                    if a != b:
                        out.append(Cand(("ord", a, b), lambda s, a=a, b=b: self._ord(s, a, b)))
        if self.extra_candidates:
            out += self.extra_candidates(self, st0, mod, x)
        # carry facts known before the loop about modified locations
        for c in list(st0.facts.all()):
            if c[0] not in ("ge", "ne", "eq", "gt"):
                continue
            ats = c[1].atoms()
            for p in mod:
                if p[-1] == "#hv" or "[]" in p:
                    continue
                v0 = self.scal(st0, p)
                if v0 is None:
                    continue
                a = v0.single()
                if a is not None and a in ats:
                    out.append(Cand(("carry", p, c), lambda s, p=p, a=a, c=c: self._carry(s, p, a, c)))
        if old:
            seen = {c.key for c in out}
            out += [c for c in old if c.key not in seen]
        rej = self._rejected(x)
        return [c for c in out if c.key not in rej]

    def _carry(self, s, p, a, c):
        v = self.scal(s, p)
        if v is None:
            return None
        return self._subst(c, a, v)

    def _ord(self, s, a, b):
        x, y = self.scal(s, a), self.scal(s, b)
        if x is None or y is None:
            return None
        return ge(sub(x, y))

    def _cmp(self, s, p, v0, sign):
        v = self.scal(s, p)
        if v is None:
            return None
        return ge(sub(v, v0) if sign > 0 else sub(v0, v))

    def relations(self, st0, mod, H, bT, ends, have):
        """x - x0 = c*(y - y0) from proportional increments"""
        out = []
        sc = []
        for p in mod:
            if p[-1] == "#hv" or "[]" in p:
                continue
            v0, h = self.scal(st0, p), self.scal(H, p)
            if isinstance(v0, Poly) and isinstance(h, Poly):
                sc.append((p, v0, h))
        heads = set()
        for p, v0, h in sc:
            heads |= {h.single()}
        deltas = {}
        for p, v0, h in sc:
            ds = []
            for s in bT or ends:
                v = self.scal(s, p)
                ds.append(sub(v, h) if v is not None else None)
            deltas[p] = ds
        for i, (p, p0, ph) in enumerate(sc):
            for q, q0, qh in sc:
                if p == q:
                    continue
                c = None
                ok = True
                for dx, dy in zip(deltas[p], deltas[q]):
                    if dx is None or dy is None:
                        ok = False
                        break
                    cy = dy.const()
                    if cy is None or cy == 0:
                        continue
                    c = tm.quotient(dx, dy)
                    break
                if not ok or c is None or not c.m:
                    continue
                if c.atoms() & heads or any(tm.info(a)[0][0] == "sym" and tm.info(a)[0][1].startswith(("j:", "opaque")) for a in c.atoms()):
                    continue
                # do not bother when a path clearly contradicts
                bad = False
                for dx, dy in zip(deltas[p], deltas[q]):
                    if dx is None or dy is None:
                        continue
                    if dy.const() is not None and dx.const() is not None and c.const() is not None and dx.const() != c.const() * dy.const():
                        bad = True
                        break
                if bad:
                    continue
                out.append(Cand(("rel", p, q, c), lambda s, p=p, q=q, c=c, p0=p0, q0=q0: self._rel(s, p, q, c, p0, q0)))
        return out

    def ne_bounds(self, H, heads, mod):
        """a loop that runs while x != e keeps to one side of e"""
        out = []
        base = H.facts.all()
        hv = {}
        for p in mod:
            h = None if p[-1] == "#hv" or "[]" in p else self.scal(H, p)
            if isinstance(h, Poly) and h.single() is not None:
                hv[h.single()] = p
        for s in heads:
            for c in s.facts.all() - base:
                if c[0] != "ne":
                    continue
                at = [a for a in c[1].atoms() if a in hv]
                if len(at) != 1 or abs(c[1].coef((at[0],)) or 0) != 1:
                    continue
                a = at[0]
                k = c[1].coef((a,))
                p = hv[a]
                for sign in (1, -1):
                    out.append(Cand(("side", p, c, sign), lambda s, p=p, a=a, c=c, sign=sign: self._side(s, p, a, c, sign)))
        return out

    def _side(self, s, p, a, c, sign):
        v = self.scal(s, p)
        if not isinstance(v, Poly):
            return None
        q = tm.subst_deep(c[1], a, v)
        return ge(q if sign > 0 else neg(q))

    def _rel(self, s, p, q, c, p0, q0):
        x, y = self.scal(s, p), self.scal(s, q)
        if x is None or y is None:
            return None
        return eq(sub(sub(x, p0), mul(c, sub(y, q0))))

    def exit_templates(self, st0, heads, mod, H):
        """weakened loop conditions: x < e inside gives x <= e at exit"""
        out = []
        if not heads:
            return out
        base = H.facts.all()
        hv = {}
        for p in mod:
            h = self.scal(H, p)
            if isinstance(h, Poly) and h.single() is not None:
                hv[h.single()] = p
        for hd in heads[:2]:
            for c in hd.facts.all() - base:
                if c[0] != "ge":
                    continue
                ats = [a for a in c[1].atoms() if a in hv]
                if not ats:
                    continue

                def f(s, c=c, ats=ats):
                    cc = ("ge", add(c[1], ONE)) if tm.is_int(c[1]) else c
                    for a in ats:
                        v = self.scal(s, hv[a])
                        if v is None:
                            return None
                        if cc[0] != "ge":
                            return cc
                        cc = self._subst(cc, a, v)
                    return cc
                out.append(f)
        # a condition that changes what it tests: its negation in terms of the new value
        for hd in heads[:2]:
            sh = {}
            for p in mod:
                v = self.scal(hd, p)
                if isinstance(v, Poly) and len(v.atoms()) == 1 and v.const() is None:
                    a = next(iter(v.atoms()))
                    k = sub(v, Poly((((a,), 1),))).const()
                    if k:
                        sh[a] = (p, k)
            for c in hd.facts.all() - base:
                ats = [a for a in c[1].atoms() if a in sh] if c[0] == "ge" and tm.is_int(c[1]) else []
                if len(ats) != 1:
                    continue

                def g(s, c=c, a=ats[0], q=sh[ats[0]]):
                    v = self.scal(s, q[0])
                    if v is None:
                        return None
                    cc = self._subst(("ge", sub(neg(c[1]), ONE)), a, sub(v, num(q[1])))
                    return cc
                out.append(g)
        return out


class Cand:
    __slots__ = ("key", "f")

    def __init__(self, key, f):
        self.key, self.f = key, f

    def __call__(self, s):
        return self.f(s)
