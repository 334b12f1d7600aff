"""Value terms of the abstract domain.

Numbers are polynomials over atoms (value numbers) in normal form.  Conditions are
sign constraints on polynomials.  `entails` is a small closure over linear
combinations of known sign constraints; it never searches models.
"""
from fractions import Fraction
from functools import lru_cache

_atoms = {}       # tuple -> id
_info = []        # id -> (tuple, kind, tainted)
_fresh = [0]


def atom_id(t, kind="i", taint=False):
    i = _atoms.get(t)
    if i is None:
        i = len(_info)
        _atoms[t] = i
        _info.append((t, kind, taint or _sub_taint(t)))
    return i


def _sub_taint(t):
    for x in t:
        if isinstance(x, Poly):
            if x.tainted():
                return True
        elif isinstance(x, tuple) and _sub_taint(x):
            return True
    return False


def info(i):
    return _info[i]


def kind_of(i):
    return _info[i][1]


class Poly:
    __slots__ = ("m", "_h", "_t")

    def __init__(self, m):
        self.m = m          # tuple of (mono, coef) sorted
        self._h = hash(m)
        self._t = None

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self._h == o._h and self.m == o.m)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def const(self):
        if not self.m:
            return 0
        if len(self.m) == 1 and self.m[0][0] == ():
            return self.m[0][1]
        return None

    def atoms(self):
        s = set()
        for mono, _ in self.m:
            s.update(mono)
        return s

    def single(self):
        """the atom id if this is exactly one atom"""
        if len(self.m) == 1 and self.m[0][1] == 1 and len(self.m[0][0]) == 1:
            return self.m[0][0][0]
        return None

    def tainted(self):
        if self._t is None:
            self._t = any(_info[a][2] for a in self.atoms())
        return self._t

    def __repr__(self):
        return show(self)

    def coef(self, mono):
        for m, c in self.m:
            if m == mono:
                return c
        return 0


def _mk(d):
    return Poly(tuple(sorted((m, c) for m, c in d.items() if c != 0)))


def num(c):
    if isinstance(c, float):
        c = Fraction(c)
    if isinstance(c, Fraction) and c.denominator == 1:
        c = int(c)
    return Poly((((), c),)) if c != 0 else Poly(())


ZERO = num(0)
ONE = num(1)


def var(t, kind="i", taint=False):
    return Poly((((atom_id(t, kind, taint),), 1),))


def fresh(name, kind="i", taint=False):
    _fresh[0] += 1
    return var(("sym", name, _fresh[0]), kind, taint)


def add(a, b, k=1):
    d = dict(a.m)
    for m, c in b.m:
        d[m] = d.get(m, 0) + k * c
    return _mk(d)


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return Poly(tuple((m, -c) for m, c in a.m))


def scale(a, k):
    if k == 0:
        return ZERO
    return Poly(tuple((m, c * k) for m, c in a.m))


def mul(a, b):
    d = {}
    for m1, c1 in a.m:
        for m2, c2 in b.m:
            m = tuple(sorted(m1 + m2))
            d[m] = d.get(m, 0) + c1 * c2
    return _mk(d)


def is_int(p):
    for m, c in p.m:
        if isinstance(c, Fraction) and c.denominator != 1:
            return False
        for a in m:
            if _info[a][1] == "f":
                return False
    return True


def nonneg_atom(a):
    return _info[a][1] in ("u", "b")


def app(name, *args, kind="u", taint=False):
    return var(("app", name) + tuple(args), kind, taint)


def divide(a, b, signed=False):
    ca, cb = a.const(), b.const()
    if cb is not None and cb != 0:
        if cb == 1:
            return a
        if ca is not None:
            return num(ca // cb) if ca >= 0 else num(-((-ca) // cb))
        # exact split of multiples
        rest, out = {}, {}
        for m, c in a.m:
            if m != () and c % cb == 0:
                out[m] = c // cb
            elif m == () and c % cb == 0:
                out[m] = c // cb
            else:
                rest[m] = c
        if out and not signed:
            r = _mk(rest)
            # (cb*x + r)/cb = x + r/cb for r >= 0
            if not r.m:
                return _mk(out)
            if all(c >= 0 for _, c in r.m):
                if r.const() is not None and r.const() < cb:
                    return _mk(out)
                return add(_mk(out), divide(r, b))
        if isinstance(cb, int) and cb > 1:
            # (x + cb-1)/cb  ->  ceiling
            c0 = a.coef(())
            if c0 == cb - 1:
                return app("cdiv", sub(a, num(c0)), b)
    return app("div", a, b, kind="u")


def modulo(a, b):
    ca, cb = a.const(), b.const()
    if cb is not None and cb != 0:
        if ca is not None:
            return num(ca % cb) if ca >= 0 else num(-((-ca) % cb))
        rest = {}
        drop = False
        for m, c in a.m:
            if c % cb == 0 and (m != () or c > 0):
                drop = True
            else:
                rest[m] = c
        if drop and all(c >= 0 for c in rest.values()):
            r = _mk(rest)
            if r.const() is not None and 0 <= r.const() < cb:
                return r
            return modulo(r, b)
    return app("mod", a, b, kind="u")


def quotient(a, b):
    """polynomial c with a = c*b for b a constant or single-term, else None"""
    if not b.m:
        return None
    cb = b.const()
    if cb is not None:
        return _mk({m: Fraction(c) / cb if Fraction(c) % cb else c // cb for m, c in a.m})
    if len(b.m) == 1:
        mb, kb = b.m[0]
        out = {}
        for m, c in a.m:
            l = list(m)
            for x in mb:
                if x not in l:
                    return None
                l.remove(x)
            q = Fraction(c) / kb
            out[tuple(l)] = q if q.denominator != 1 else int(q)
        return _mk(out)
    if a == b:
        return ONE
    return None


# ---------------------------------------------------------------- conditions
T = ("T",)
F = ("F",)


def norm(p):
    """divide by the gcd of the coefficients"""
    from math import gcd
    g = 0
    den = 1
    for _, c in p.m:
        if isinstance(c, Fraction):
            den = den * c.denominator // gcd(den, c.denominator)
    if den != 1:
        p = scale(p, den)
        p = _mk({m: int(c) for m, c in p.m})
    for m, c in p.m:
        if m == () and is_int(p):
            continue
        g = gcd(g, abs(int(c)))
    if g > 1:
        if is_int(p):
            d = {}
            for m, c in p.m:
                d[m] = c // g          # floor is right for >= 0 on integers
            return _mk(d)
        if all(c % g == 0 for _, c in p.m):
            return _mk({m: c // g for m, c in p.m})
    return p


def ge(p):
    c = p.const()
    if c is not None:
        return T if c >= 0 else F
    return ("ge", norm(p))


def gt(p):
    c = p.const()
    if c is not None:
        return T if c > 0 else F
    if is_int(p):
        return ge(sub(p, ONE))
    return ("gt", norm(p))


def _sgn(p):
    return neg(p) if p.m and p.m[-1][1] < 0 else p


def eq(p):
    c = p.const()
    if c is not None:
        return T if c == 0 else F
    return ("eq", _sgn(p))


def ne(p):
    c = p.const()
    if c is not None:
        return T if c != 0 else F
    return ("ne", _sgn(p))


def negate(c):
    k = c[0]
    if k == "T":
        return F
    if k == "F":
        return T
    if k == "ge":
        return gt(neg(c[1]))
    if k == "gt":
        return ge(neg(c[1]))
    if k == "eq":
        return ne(c[1])
    if k == "ne":
        return eq(c[1])
    if k == "and":
        return ("or",) + tuple(negate(x) for x in c[1:])
    if k == "or":
        return ("and",) + tuple(negate(x) for x in c[1:])
    raise ValueError(c)


def truth(p):
    """condition 'p is not zero'"""
    a = p.single()
    if a is not None:
        t = _info[a][0]
        if t[0] == "b2i":
            return t[1]
    return ne(p)


def b2i(c):
    if c == T:
        return ONE
    if c == F:
        return ZERO
    if c[0] == "ne":
        a = c[1].single()
        if a is not None and _info[a][1] == "b":
            return c[1]
    return var(("b2i", c), "b")


def cond_polys(c):
    if c[0] in ("and", "or"):
        for x in c[1:]:
            yield from cond_polys(x)
    elif len(c) > 1:
        yield c[1]


def cond_tainted(c):
    return any(p.tainted() for p in cond_polys(c))


# ceil(v/64) written as v/64 + (v%64 != 0)
def canon(p):
    """recognise ceilings"""
    changed = True
    while changed:
        changed = False
        for m, c in p.m:
            if len(m) == 1 and _info[m[0]][0][0] == "b2i":
                cond = _info[m[0]][0][1]
                if cond[0] in ("ne", "ge"):
                    q = cond[1] if cond[0] == "ne" else add(cond[1], ONE)
                    a = q.single()
                    if a is None:
                        continue
                    t = _info[a][0]
                    if t[0] == "app" and t[1] == "mod":
                        x, b = t[2], t[3]
                        dv = divide(x, b)
                        mono = dv.m[0][0] if len(dv.m) == 1 else None
                        if mono is not None and p.coef(mono) >= c > 0:
                            p = add(sub(p, scale(add(var(("b2i", cond), "b"), dv), c)),
                                    scale(app("cdiv", x, b), c))
                            changed = True
                            break
    return p


class Facts:
    """immutable set of conditions with parent sharing"""
    __slots__ = ("parent", "new", "_all", "_idx", "memo")

    def __init__(self, parent=None, new=()):
        self.parent = parent
        self.new = new
        self._all = None
        self._idx = None
        self.memo = {}

    def all(self):
        if self._all is None:
            if self.parent is None:
                self._all = frozenset(self.new)
            else:
                self._all = self.parent.all() | frozenset(self.new)
        return self._all

    def add(self, c):
        a = self.all()
        if c in a or c == T:
            return self
        return Facts(self, (c,))

    def addall(self, cs):
        a = self.all()
        n = tuple(c for c in cs if c not in a and c != T)
        return Facts(self, n) if n else self

    def index(self):
        """negative monomial -> list of q with q >= 0"""
        if self._idx is None:
            idx = {}
            nes = []
            gts = []
            work = list(self.all())
            extra = []
            for c in work:
                for p in cond_polys(c):
                    extra.extend(lemmas(p))
            for c in work + extra:
                k = c[0]
                if k == "ge":
                    _put(idx, c[1])
                elif k == "gt":
                    _put(idx, c[1])
                    gts.append(c[1])
                elif k == "eq":
                    _put(idx, c[1])
                    _put(idx, neg(c[1]))
                elif k == "ne":
                    nes.append(c[1])
            self._idx = (idx, nes, gts)
        return self._idx


def _put(idx, q):
    for m, c in q.m:
        if c < 0:
            idx.setdefault(m, []).append(q)


@lru_cache(maxsize=None)
def lemmas(p):
    out = []
    for a in p.atoms():
        out.extend(_atom_lemmas(a))
    return tuple(out)


@lru_cache(maxsize=None)
def _atom_lemmas(a):
    t, k, _ = _info[a]
    out = []
    if t[0] == "app" and t[1] in ("div", "mod"):
        x, b = t[2], t[3]
        q, r = app("div", x, b), app("mod", x, b)
        out.append(eq(sub(x, add(mul(b, q), r))))
        out.append(ge(sub(sub(b, ONE), r)))
        if b.const():
            out += list(lemmas(x))
        if b.const():
            # ceiling lies between
            cd = app("cdiv", x, b)
            out.append(ge(sub(cd, q)))
            out.append(ge(sub(add(q, ONE), cd)))
    elif t[0] == "app" and t[1] == "cdiv":
        x, b = t[2], t[3]
        cd = var(t, k)
        # b*cd >= x ; b*cd <= x + b-1
        out.append(ge(sub(mul(b, cd), x)))
        out.append(ge(sub(add(x, sub(b, ONE)), mul(b, cd))))
    elif t[0] == "b2i":
        out.append(ge(sub(ONE, var(t, k))))
    elif t[0] == "app" and t[1] == "max":
        v = var(t, k)
        for x in t[2:]:
            out.append(ge(sub(v, x)))
    elif t[0] == "app" and t[1] == "min":
        v = var(t, k)
        for x in t[2:]:
            out.append(ge(sub(x, v)))
    return tuple(out)


def _triv(p):
    for m, c in p.m:
        if c < 0:
            return False
        for a in m:
            if not nonneg_atom(a):
                # even powers are fine
                if m.count(a) % 2:
                    return False
    return True


BUDGET = 120
_left = [0]


def nonneg(p, facts, depth=4):
    """p >= 0 follows from the facts; iterative deepening within a node budget"""
    if _triv(p):
        return True
    memo = facts.memo
    key = (p, depth)
    r = memo.get(key)
    if r is None:
        r = False
        for d in range(1, depth + 1):
            _left[0] = BUDGET
            if _nonneg(p, facts, d, {}):
                r = True
                break
            if _left[0] <= 0:
                break
        memo[key] = r
    return r


def ratio(c, k):
    if isinstance(c, int) and isinstance(k, int) and c % k == 0:
        return c // k
    return Fraction(c) / k


def _nonneg(p, facts, depth, seen):
    if _triv(p):
        return True
    _left[0] -= 1
    if _left[0] < 0:
        return False
    key = p
    if seen.get(key, -1) >= depth:
        return False
    seen[key] = depth
    idx, nes, gts = facts.index()
    if is_int(p):
        p1 = add(p, ONE)
        for q in nes:
            if (q == p1 or neg(q) == p1) and _nonneg(p1, facts, depth - 1, seen):
                return True
    if depth == 0:
        return False
    if p.const() is not None:
        return False
    lem = None
    best = None
    for m, c in p.m:
        if c < 0:
            opts = idx.get(m, ())
            if lem is None:
                lem = _lemma_index(p)
            if m in lem:
                opts = list(opts) + lem[m]
            prod = ()
            # product of two sides that are both non-negative: x*y >= k*y if x >= k
            if len(m) == 1 and nonneg_atom(m[0]):
                prod = [m2 for m2, c2 in p.m if c2 > 0 and len(m2) == 2 and m[0] in m2]
            n = len(opts) + len(prod)
        elif m and not all(nonneg_atom(a) or m.count(a) % 2 == 0 for a in m):
            # positive coefficient of an atom of unknown sign: only cancellable by a fact with positive coef
            opts = []
            prod = ()
            for cnd in facts.all():
                if cnd[0] in ("ge", "gt", "eq"):
                    for q in ((cnd[1],) if cnd[0] != "eq" else (cnd[1], neg(cnd[1]))):
                        if q.coef(m) > 0:
                            opts.append(q)
            n = len(opts)
        else:
            continue
        if n == 0:
            return False
        if best is None or n < best[0]:
            best = (n, m, c, opts, prod)
    n, m, c, opts, prod = best
    for q in opts:
        r = sub(p, scale(q, ratio(c, q.coef(m))))
        if _nonneg(norm_s(r), facts, depth - 1, seen):
            return True
    for m2 in prod:
        l = list(m2)
        l.remove(m[0])
        x = Poly((((l[0],), 1),))
        need = Fraction(-c) / p.coef(m2)
        if need.denominator == 1 and _nonneg(sub(x, num(int(need))), facts, 1, {}):
            d = dict(p.m)
            d.pop(m)
            d.pop(m2)
            if _nonneg(_mk(d), facts, depth - 1, seen):
                return True
    return False


@lru_cache(maxsize=None)
def _lemma_index(p):
    lem = {}
    for l in lemmas(p):
        if l[0] == "ge":
            _put(lem, l[1])
        elif l[0] == "eq":
            _put(lem, l[1])
            _put(lem, neg(l[1]))
    return lem


def norm_s(p):
    for _, c in p.m:
        if isinstance(c, Fraction):
            return norm(p) if not is_int(p) else p
    return p


def entails(facts, c, depth=4):
    k = c[0]
    if k == "T":
        return True
    if k == "F":
        return contradictory(facts)
    if c in facts.all():
        return True
    if k == "ge":
        return nonneg(c[1], facts, depth)
    if k == "gt":
        p = c[1]
        idx, nes, gts = facts.index()
        for q in gts:
            for m, cc in q.m:
                pc = p.coef(m)
                if pc and (pc > 0) == (cc > 0):
                    r = sub(p, scale(q, Fraction(pc) / cc))
                    if nonneg(norm_s(r), facts, depth - 1):
                        return True
        return False
    if k == "eq":
        return nonneg(c[1], facts, depth) and nonneg(neg(c[1]), facts, depth)
    if k == "ne":
        p = c[1]
        if is_int(p):
            if nonneg(sub(p, ONE), facts, depth) or nonneg(sub(neg(p), ONE), facts, depth):
                return True
        else:
            if entails(facts, gt(p), depth) or entails(facts, gt(neg(p)), depth):
                return True
        # ne fact up to equalities
        idx, nes, gts = facts.index()
        for q in nes:
            if q == p or q == neg(p):
                return True
        for q in nes:
            for s in (1, -1):
                d = add(p, q, s)
                if nonneg(d, facts, 2) and nonneg(neg(d), facts, 2):
                    return True
        return False
    if k == "and":
        return all(entails(facts, x, depth) for x in c[1:])
    if k == "or":
        if any(entails(facts, x, depth) for x in c[1:]):
            return True
        return False
    return False


def contradictory(facts):
    return F in facts.all()


def subst_deep(x, a, v):
    """replace atom a by polynomial v everywhere, also inside other atoms"""
    if isinstance(x, Poly):
        out = ZERO
        for m, c in x.m:
            t = num(c)
            for b in m:
                if b == a:
                    t = mul(t, v)
                else:
                    tb, k, taint = _info[b]
                    tb2 = subst_deep(tb, a, v)
                    t = mul(t, Poly((((b,), 1),)) if tb2 == tb else var(tb2, k, taint))
            out = add(out, t)
        return out
    if isinstance(x, tuple):
        return tuple(subst_deep(y, a, v) if isinstance(y, (Poly, tuple)) else y for y in x)
    return x


def subst_cond(c, a, v):
    if c[0] in ("and", "or"):
        return (c[0],) + tuple(subst_cond(x, a, v) for x in c[1:])
    if len(c) == 1:
        return c
    return {"ge": ge, "gt": gt, "eq": eq, "ne": ne}[c[0]](subst_deep(c[1], a, v))


def excluded(facts, a, v):
    """the facts do not allow atom a to have the value v: putting it in contradicts another fact"""
    for c in facts.all():
        c2 = subst_cond(c, a, v)
        if c2 != c and (c2 == F or entails(facts, negate(c2), 2)):
            return True
    return False


def show_atom(a, d=0):
    t, k, taint = _info[a]
    if t[0] == "sym":
        return "%s#%d" % (t[1], t[2])
    if t[0] == "init":
        return show_path(t[1])
    if t[0] == "sel":
        return "%s[%s]" % (show_arr(t[1]), ",".join(show(x) for x in t[2]))
    if t[0] == "app":
        return "%s(%s)" % (t[1], ",".join(show(x) if isinstance(x, Poly) else str(x) for x in t[2:]))
    if t[0] == "b2i":
        return "[%s]" % show_cond(t[1])
    return str(t)


def show_arr(a):
    if a[0] == "ai":
        return show_path(a[1])
    if a[0] == "as":
        return "%s#%d" % (a[1], a[2])
    if a[0] == "st":
        return show_arr(a[1]) + "'"
    return str(a)


def show_path(p):
    s = ""
    for x in p:
        if isinstance(x, tuple):
            s += ".".join(str(y) for y in x[:1] + x[2:] if y is not None) if x[0] == "v" else "/".join(map(str, x))
        else:
            s += str(x)
    return s


def show(p):
    if not isinstance(p, Poly):
        return str(p)
    if not p.m:
        return "0"
    out = []
    for m, c in p.m:
        t = "*".join(show_atom(a) for a in m)
        if not t:
            out.append(str(c))
        elif c == 1:
            out.append(t)
        elif c == -1:
            out.append("-" + t)
        else:
            out.append("%s*%s" % (c, t))
    return " + ".join(out).replace("+ -", "- ")


def show_cond(c):
    if c[0] == "ge":
        return show(c[1]) + " >= 0"
    if c[0] == "gt":
        return show(c[1]) + " > 0"
    if c[0] == "eq":
        return show(c[1]) + " == 0"
    if c[0] == "ne":
        return show(c[1]) + " != 0"
    if c[0] in ("and", "or"):
        return "(" + (" %s " % c[0]).join(show_cond(x) for x in c[1:]) + ")"
    return c[0]
