from engine.biteval import BitEval, Lin, Word, St, Unsupported, Bad, W, mem_word, bnot, bop
from .common import *

TECHNIQUE = "static analysis: abstract evaluation of the bit set methods' AST over linear word indices and per-bit symbolic words, " \
            "with the position and the size split into their residues modulo the word width"
EXPLAIN = ("Every position i is 64*q + r and every size 64*Q + R; q and Q stay symbolic and all residues r, R are taken. For each "
           "residue the methods of the bit set are evaluated over words whose 64 bits are separate symbols, loops over words are "
           "summarised by their range, and the effect is compared bit by bit with what the operation means for element i.")

Q, q, P_ = ("Q",), ("q",), ("P",)


class Case:
    pass


def run(ctx, prog):
    w = World(prog)
    ctx.rule("size", "a set refers to the words and the size it was given, however it is created")
    ctx.rule("element", "set, reset and toggle change exactly the bit that the test of the same position reads")
    ctx.rule("test", "the test of a position reads one bit of the word of that position, a different one for every position")
    ctx.rule("scan", "the scan returns the first element from the given position on, or the size")
    ctx.rule("count", "the count adds up every element once")
    ctx.rule("words", "operations on whole sets treat each word of the set once, none outside it, and keep every element")
    ctx.rule("subset", "the subset has the elements at the positions that are in the set")
    ctx.rule("shift", "no word is shifted by its width or more")
    cls = [c for c, r in prog["records"].items() if c.split("::")[-1] == "graphBits"]
    if not cls:
        cls = [c for c, r in prog["records"].items()
               if {"set", "reset", "count", "operator[]"} <= {f["n"] for f in prog["functions"].values() if f.get("class") == c}]
    if len(cls) != 1:
        ctx.skip("element", "", "no bit set class")
        return
    B = Bits(ctx, w, prog, cls[0])
    B.run()
    ctx.assume += ["positions given to set, reset, toggle and the test are below the size (callers; see C16 for the scratch sets)",
                   "a set has at least one element", "the compiler's leading-zero and population-count builtins do what they say"]


class Bits:
    def __init__(self, ctx, w, prog, cls):
        self.ctx, self.w, self.prog, self.cls = ctx, w, prog, cls
        self.fields = [x["n"] for x in prog["records"][cls]["fields"]]
        self.m = {}
        for f in prog["functions"].values():
            if f.get("class") == cls and f.get("body"):
                self.m.setdefault(f["n"], []).append(f)
        self.files = prog["files"]
        self.done = set()
        self.pos = None
        self.sizes = {}

    def at(self, L):
        return "%s:%d" % (short(self.files[L[0]]), L[1]) if L else ""

    def site(self, f):
        return "%s %s" % (self.at(f["L"]), f["n"])

    def fn(self, f):
        self.ctx.functions.add(f["q"])

    # ------------------------------------------------------------ evaluation
    def go(self, f, objs, args, atomic=(), this="this"):
        """paths [(state, value)] with objs = {object: fields}"""
        E = BitEval(self.prog, atomic)
        E.main = f["id"]
        st = St()
        for o, fs in objs.items():
            for k, v in fs.items():
                st.mem[(o, k)] = v
        self.last = E
        self.ctx.count("evaluations")
        try:
            out = E.enter(f, ("obj", this), args, st)
        finally:
            self.ctx.functions |= E.seen
        self.ctx.count("paths", len(out))
        return out

    def size(self, R, name="data", a=Q):
        """fields of a set of 64*a + R elements over the words `name`, as the referring method leaves them"""
        k = (R, name, a)
        if k not in self.sizes:
            f = self.refer
            args = []
            for p in f["params"]:
                t = p["t"]
                args.append(("ptr", name, Lin()) if "*" in t else Lin({a: 64}, R) if t.endswith("long") else False)
            (st, v), = [x for x in self.go(f, {"this": {}}, args)]
            self.sizes[k] = {x: st.mem[("this", x)] for x in self.fields if ("this", x) in st.mem}
        return self.sizes[k]

    def dlen(self, R, a=Q):
        return Lin({a: 1}, 1 if R else 0)

    def run(self):
        ctx = self.ctx
        self.refer = None
        for f in self.m.get("refer_from", []) + self.m.get(self.cls.split("::")[-1], []):
            ts = [p["t"] for p in f["params"]]
            if len(ts) >= 2 and "*" in ts[0] and ts[1].endswith("long"):
                self.refer = self.refer or f
        if self.refer is None:
            ctx.skip("size", "", "no method referring to words")
            return
        try:
            for R in range(W):
                self.size(R)
        except Bad as e:
            ctx.bad("shift", "refer", "%s %s" % (self.at(e.L), self.refer["n"]), "size of remainder %d: %s" % (R, e))
            return
        except (Unsupported, ValueError) as e:
            ctx.skip("size", self.site(self.refer), "not understood: %s" % e)
            return
        self.case(self.m.get("operator[]", []), "test", self.test)
        self.creation()
        self.case(self.m.get("set", []), "element", lambda f: self.element(f, lambda o: 1))
        self.case(self.m.get("reset", []), "element", lambda f: self.element(f, lambda o: 0))
        self.case(self.m.get("toggle", []), "element", lambda f: self.element(f, bnot))
        self.case(self.m.get("next", []), "scan", self.scan)
        self.case(self.m.get("count", []), "count", self.count)
        for n, op in (("operator&=", lambda a, b: bop("&", a, b)), ("operator|=", lambda a, b: bop("|", a, b)),
                      ("operator^=", lambda a, b: bop("^", a, b)), ("operator-=", lambda a, b: bop("&", a, bnot(b))),
                      ("copy_data", lambda a, b: b)):
            self.case(self.m.get(n, []), "words", lambda f, n=n, op=op: self.whole(f, op, n == "copy_data"))
        self.case(self.m.get("clear", []), "words", self.clear)
        self.case(self.m.get("get_subset", []), "subset", self.subset)

    def case(self, fs, rule, check):
        for f in fs:
            self.fn(f)
            key = "%s%d" % (f["n"], len(f["params"]))
            try:
                msg = check(f)
            except Bad as e:
                self.ctx.bad("shift", key, "%s %s" % (self.at(e.L), f["n"]), str(e))
                continue
            except (Unsupported, ValueError, TypeError, KeyError, IndexError, AttributeError) as e:
                self.ctx.skip(rule, self.site(f), "%s: not understood: %s" % (f["n"], e))
                continue
            if msg:
                self.ctx.bad(rule, key, self.site(f), "%s: %s" % (f["n"], msg))

    def held(self, rule, f, what):
        self.ctx.ok(rule, self.site(f), what)

    def residues(self, f, one):
        """one(r, R) for every pair of residues that makes a difference"""
        n = 0
        for R in range(W):
            self.used = False
            for r in range(W):
                msg = one(r, R)
                n += 1
                if msg:
                    return "position 64*q + %d, size 64*Q + %d: %s" % (r, R, msg)
                self.held({"operator[]": "test", "next": "scan"}.get(f["n"], "element"), f, "%s position %d size %d" % (f["n"], r, R))
            if not self.used:
                break
        return None

    def touched(self, R):
        """whether anything depended on the size"""
        other = self.size((R + 1) % W)
        dep = {("this", k) for k, v in self.size(R).items() if v != other[k]}
        self.used = self.used or bool(self.last.reads & dep)

    # ------------------------------------------------------------ rules
    def test(self, f):
        pos = {}
        E0 = self

        def one(r, R):
            res = []
            for st, v in E0.go(f, {"this": E0.size(R)}, [Lin({q: 64}, r)]):
                res += E0.last.branch(st, v)
            E0.touched(R)
            for st, v in res:
                for e in st.eff:
                    if e[0] in ("store", "loop", "copy", "range"):
                        return "changes the set"
                    if e[0] == "load" and e[2] != Lin({q: 1}):
                        return "reads word %s" % e[2]
            if len(res) != 2 or any(len(s.facts) != 1 or s.facts[0][0] != "nz" for s, v in res):
                if all(v is True for s, v in res) or all(v is False for s, v in res):
                    return "always %s" % res[0][1]
                raise Unsupported("not a test of one word")
            for s, v in res:
                _, wd, nz = s.facts[0]
                bits = [b for b in wd.b if b != 0]
                if len(bits) != 1 or bits[0] == 1 or bits[0][0] != "m":
                    return "tests %d bits" % len(bits)
                if v != nz:
                    return "says the opposite"
                pos.setdefault(r, bits[0][3])
                if pos[r] != bits[0][3]:
                    return "bit %d for one size, %d for another" % (pos[r], bits[0][3])
            return None
        msg = self.residues(f, one)
        if msg is None and len(set(pos.values())) != W:
            a = sorted(pos.items(), key=lambda x: x[1])
            for (r, b), (r2, b2) in zip(a, a[1:]):
                if b == b2:
                    return "positions %d and %d of a word are the same bit" % (r, r2)
        if msg is None:
            self.pos = pos
            self.inv = {b: r for r, b in pos.items()}
        return msg

    def need_pos(self):
        if self.pos is None:
            raise Unsupported("the test of a position")

    def element(self, f, want):
        self.need_pos()

        def one(r, R):
            res = self.go(f, {"this": self.size(R)}, [Lin({q: 64}, r)])
            self.touched(R)
            for st, v in res:
                fin = {}
                for e in st.eff:
                    if e[0] in ("load", "store") and e[2] != Lin({q: 1}):
                        return "word %s instead of q" % e[2]
                    if e[0] == "store":
                        fin = e[3]
                    if e[0] in ("loop", "copy", "range", "setf"):
                        raise Unsupported("more than one word")
                if not fin:
                    # guarded against positions outside the set
                    if [x for x in st.facts if x == ("ge", Lin({q: 64}, r) - Lin({Q: 64}, R))]:
                        continue
                    return "no word is changed"
                old = mem_word("data", Lin({q: 1}).key())
                for b in range(W):
                    exp = want(old.b[b]) if b == self.pos[r] else old.b[b]
                    if fin.b[b] != exp and not self.known(st, old.b[b], fin.b[b], exp):
                        return "element %d of the word becomes %s" % (self.inv[b], "wrong" if b == self.pos[r] else "changed as well")
            return None
        return self.residues(f, one)

    def known(self, st, old, now, exp):
        """the path says what the old bit was"""
        for x in st.facts:
            if x[0] == "nz" and [b for b in x[1].b if b != 0] == [old]:
                v = 1 if x[2] else 0
                s = lambda t: v if t == old else 1 - v if t == bnot(old) else t
                return s(now) == s(exp)
        return False

    def scan(self, f):
        self.need_pos()

        def one(r, R):
            i = Lin({q: 64}, r)
            n = Lin({Q: 64}, R)
            inside, outside = ("ge", n - i - Lin(c=1)), ("ge", i - n)
            self.sizes_touched = True
            self.used = True
            for st, v in self.go(f, {"this": self.size(R)}, [i]):
                if outside in st.facts:
                    if v != n:
                        return "returns %s from beyond the end" % self.say(v)
                    continue
                if inside not in st.facts:
                    if v == n or any(e[0] == "load" for e in st.eff):
                        return "reads without comparing the position with the size"
                    raise Unsupported("path without a comparison with the size")
                for e in st.eff:
                    if e[0] in ("store", "range", "copy"):
                        return "changes the set"
                    if e[0] == "load" and e[2] != Lin({q: 1}):
                        return "reads word %s of the set" % e[2]
                nz = [x for x in st.facts if x[0] == "nz"]
                if len(nz) != 1:
                    raise Unsupported("tests of the word")
                wd = nz[0][1]
                for b in range(W):
                    e = self.inv[b]
                    exp = ("m", "data", Lin({q: 1}).key(), b)
                    if e >= r and wd.b[b] != exp:
                        return "element %d of the word is not looked at" % e
                    if e < r and wd.b[b] != 0:
                        return "element %d of the word, before the position, is looked at" % e
                if nz[0][2]:
                    if not isinstance(v, Lin) or len(v.t) != 2:
                        if isinstance(v, Lin) or (isinstance(v, tuple) and v[0] == "rec"):
                            return "returns %s for an element found" % self.say(v)
                        raise Unsupported("result")
                    z = [k for k in v.t if k[0] in ("clz", "ctz")]
                    if len(z) != 1 or z[0][1] != wd or v - Lin({z[0]: 1}) != Lin({q: 64}):
                        return "returns %s for an element found" % self.say(v)
                    good = (lambda b: 63 - b) if z[0][0] == "clz" else (lambda b: b)
                    for b in range(W):
                        if good(b) != self.inv[b]:
                            return "takes the elements of a word in another order than the test"
                    continue
                nxt = None
                for e in st.eff:
                    if e[0] == "rec" and e[1] == f["id"]:
                        nxt = e[2][0]
                    if e[0] == "again":
                        c = [val for k, val in e[1].items() if k[0] == "v" and isinstance(val, Lin) and k[2] == f["params"][0]["id"] and
                             k[3] == f["params"][0]["n"]]
                        nxt = c[0] if c else None
                        if nxt == i:
                            raise Unsupported("loop on another variable")
                if nxt is None:
                    if isinstance(v, Lin):
                        return "stops with %s after one word without elements" % self.say(v)
                    raise Unsupported("how the scan goes on")
                if nxt != Lin({q: 64}, 64):
                    return "goes on at %s after word q" % self.say(nxt)
            return None
        return self.residues(f, one)

    def say(self, v):
        if isinstance(v, Lin):
            return repr(v)
        return str(v[0]) if isinstance(v, tuple) else "another value"

    def sizes_only(self, f, one, rule):
        for R in range(W):
            msg = one(R)
            if msg:
                return "size 64*Q + %d: %s" % (R, msg)
            self.held(rule, f, "%s size %d" % (f["n"], R))
        return None

    def keeps(self, old, new, R, last, want=None):
        """new has every element of the last word (want: as the operation leaves it)"""
        for b in range(W):
            e = self.inv[b]
            exp = want(b) if want else old.b[b]
            if new.b[b] == exp:
                continue
            if last and R and e >= R:
                continue
            return e
        return None

    def count(self, f):
        self.need_pos()

        def one(R):
            d = self.dlen(R)
            for st, v in self.go(f, {"this": self.size(R)}, []):
                if not isinstance(v, Lin):
                    raise Unsupported("result")
                msg = self.single(st, R, d)
                if msg:
                    return msg
                tot = []
                rest = Lin(c=v.c)
                for k, c in v.t.items():
                    if k[0] == "sum":
                        tot.append((k, c))
                    else:
                        rest = rest + Lin({k: c})
                if rest != Lin():
                    if any(k[0] not in ("bit",) for k in rest.t):
                        raise Unsupported("result")
                if not tot:
                    raise Unsupported("no sum over words")
                cover = []
                for (_, wv, lo, hi, delta), c in tot:
                    if c != 1:
                        return "words are counted %d times" % c
                    dt, dc = dict(delta[0]), delta[1]
                    bits = {}
                    for k, x in dt.items():
                        if k[0] != "bit" or k[1][0] != "m" or k[1][1] != "data":
                            raise Unsupported("sum of something else")
                        if k[1][2] != Lin({(wv,): 1}).key():
                            return "the words counted are not those of the loop"
                        bits[k[1][3]] = x
                    for b in range(W):
                        if bits.get(b, 0) != 1:
                            return "element %d of a word is counted %d times" % (self.inv[b], bits.get(b, 0))
                    if dc:
                        return "%d is added for each word" % dc
                    cover.append((Lin(dict(lo[0]), lo[1]), Lin(dict(hi[0]), hi[1])))
                for k, c in rest.t.items():
                    x = k[1]
                    if x[0] != "m" or x[1] != "data":
                        raise Unsupported("sum of something else")
                    cover.append((Lin(dict(x[2][0]), x[2][1]), None))
                if rest.c:
                    return "%d too many" % rest.c
                singles = {x[0].key() for x in cover if x[1] is None}
                for s in singles:
                    got = {k[1][3]: c for k, c in rest.t.items() if k[1][2] == s}
                    for b in range(W):
                        if got.get(b, 0) != 1 and not (R and self.inv[b] >= R):
                            return "element %d of a word is counted %d times" % (self.inv[b], got.get(b, 0))
                cover = [x for x in cover if x[1] is not None] + [(Lin(dict(s[0]), s[1]), None) for s in singles]
                msg = self.covers(cover, d, st)
                if msg:
                    return msg
            return None
        return self.sizes_only(f, one, "count")

    def covers(self, parts, d, st):
        """parts [(lo, hi|None)] are exactly [0, d)"""
        cur, left = Lin(), list(parts)
        while left:
            for x in left:
                if x[0] == cur:
                    left.remove(x)
                    cur = x[1] if x[1] is not None else cur + Lin(c=1)
                    break
            else:
                return "words from %s on are treated, up to %s were" % (left[0][0], cur)
        if cur != d:
            return "words up to %s are treated, the set has %s" % (cur, d)
        return None

    def single(self, st, R, d):
        """stores outside loops only drop bits after the last element"""
        for e in st.eff:
            if e[0] == "store":
                if e[1] != "data":
                    return "changes the other set"
                last = e[2] == d - Lin(c=1)
                if not last and e[2].t.get(Q) is None and e[2].const() is None:
                    raise Unsupported("store")
                if not last:
                    return "changes word %s, the last one is %s" % (e[2], d - Lin(c=1))
                k = self.keeps(mem_word("data", e[2].key()), e[3], R, True)
                if k is not None:
                    return "loses element %d of the last word" % k
            elif e[0] in ("copy", "range"):
                return "changes the set"
            elif e[0] == "load" and e[1] == "data" and e[2] - d == Lin():
                return "reads the word after the last"
        return None

    def whole(self, f, op, copy):
        self.need_pos()
        name = "this"

        def one(R):
            d = self.dlen(R)
            n = 0
            for S in ((R, 17, 0) if copy else (R,)):
                other = self.size(S, "odata", P_ if copy else Q)
                for st, v in self.go(f, {"this": self.size(R), "other": other}, [("obj", "other")]):
                    parts, stored = [], False
                    for e in st.eff:
                        if e[0] == "copy":
                            if not copy:
                                raise Unsupported("copy")
                            if e[4] != "data" or e[1] != "odata":
                                return "copies the wrong way"
                            if e[2] != e[5]:
                                return "copies word %s to word %s" % (e[2], e[5])
                            parts.append((e[2], e[3]))
                        elif e[0] == "loop":
                            _, wv, lo, hi, eff, L = e
                            if len(eff) != 1:
                                raise Unsupported("branches in the loop")
                            ss = [x for x in eff[0][1] if x[0] in ("store", "copy", "range", "loop")]
                            if any(x[0] != "store" for x in ss):
                                raise Unsupported("loop")
                            if not ss:
                                continue
                            fin = {}
                            for x in ss:
                                if x[1] != "data":
                                    return "changes the other set"
                                fin[x[2].key()] = x
                            for k, x in fin.items():
                                dd = x[2] - wv
                                if dd.const() is None:
                                    raise Unsupported("index")
                                if dd.c:
                                    lo, hi = lo + dd, hi + dd
                                a, b = mem_word("data", k), mem_word("odata", k)
                                for i in range(W):
                                    if x[3].b[i] != op(a.b[i], b.b[i]):
                                        return "element %d of a word gets the wrong value" % self.inv[i]
                            if len(fin) != 1:
                                raise Unsupported("unrolled loop")
                            parts.append((lo, hi))
                        elif e[0] == "store":
                            if e[1] != "data":
                                return "changes the other set"
                            a, b = mem_word("data", e[2].key()), mem_word("odata", e[2].key())
                            last = e[2] == d - Lin(c=1)
                            if self.keeps(a, e[3], R, last) is None and last and a != e[3]:
                                continue
                            k = self.keeps(a, e[3], R, last, lambda i: op(a.b[i], b.b[i]))
                            if k is None:
                                parts.append((e[2], None))
                                continue
                            if a == e[3]:
                                continue
                            return "element %d of word %s gets the wrong value" % (k, e[2])
                        elif e[0] == "range":
                            return "changes words"
                    if copy and not parts:
                        raise Unsupported("nothing copied")
                    msg = self.covers(parts, d, st)
                    if msg:
                        # copying no more than the smaller of both sets
                        return msg
            return None
        return self.sizes_only(f, one, "words")

    def clear(self, f):
        self.need_pos()

        def cleared(st, d):
            hi = None
            for e in st.eff:
                if e[0] == "loop":
                    _, wv, lo, h, eff, L = e
                    ss = [x for p in eff for x in p[1] if x[0] in ("store", "copy", "range", "loop")]
                    if len(eff) != 1 or len(ss) != 1 or ss[0][0] != "store":
                        raise Unsupported("loop")
                    if ss[0][1] != "data" or ss[0][3].const() != 0:
                        return None, "words are not set to 0"
                    dd = (ss[0][2] - wv)
                    if dd.const() is None:
                        raise Unsupported("index")
                    lo, h = lo + dd, h + dd
                elif e[0] == "range":
                    lo, h = e[2], e[3]
                    if e[4].const() != 0:
                        return None, "words are not set to 0"
                else:
                    continue
                if lo != (hi or Lin()):
                    return None, "words start at %s" % lo
                hi = h
            return hi, None

        if not f["params"]:
            def plain(R):
                d = self.dlen(R)
                for st, v in self.go(f, {"this": self.size(R)}, []):
                    hi, msg = cleared(st, d)
                    if msg:
                        return msg
                    if hi != d:
                        return "clears words up to %s of %s" % (hi, d)
                return None
            return self.sizes_only(f, plain, "words")

        def one(r, R):
            self.used = True
            d = self.dlen(R)
            N = Lin({q: 64}, r)
            for st, v in self.go(f, {"this": self.size(R)}, [N]):
                hi, msg = cleared(st, d)
                if msg:
                    return msg
                if hi is None:
                    raise Unsupported("nothing cleared")
                if hi == d:
                    continue
                zero = ("eq", N) in st.facts or (r == 0 and ("eq", Lin({q: 64})) in st.facts)
                if zero:
                    return "clears words up to %s of %s when asked for all" % (hi, d)
                if ("ge", d - hi) not in st.facts and ("ge", d - hi - Lin(c=1)) not in st.facts:
                    return "clears words up to %s although the set may end at %s" % (hi, d)
                need = Lin({q: 1}, 1 if r else 0)
                k = (hi - need).const()
                if k is None:
                    raise Unsupported("extent")
                if k < 0:
                    return "clears words up to %s of the %s asked for" % (hi, need)
            return None
        n = 0
        for R in range(W):
            for r in range(W):
                msg = one(r, R)
                if msg:
                    return "asked for 64*q + %d of 64*Q + %d: %s" % (r, R, msg)
            self.held("words", f, "clear size %d" % R)
        return None

    def creation(self):
        """copies of a set refer to what the original refers to"""
        own = {x["id"] for fs in self.m.values() for x in fs}
        for n, fs in sorted(self.m.items()):
            for f in fs:
                ts = [p["t"] for p in f["params"]]
                same = [i for i, t in enumerate(ts) if strip(t) == self.cls]
                ptr = [i for i, t in enumerate(ts) if "*" in t]
                if f is self.refer:
                    self.case([f], "size", self.referring)
                elif f.get("ctor") and ptr and len(ts) >= 2:
                    self.case([f], "size", self.referring)
                elif len(same) == 1 and (f.get("ctor") or n in ("refer_from", "copy_from")):
                    self.case([f], "size", lambda f: self.copying(f, same[0], ptr))

    def referring(self, f):
        for R in range(W):
            args = [("ptr", "data", Lin()) if "*" in p["t"] else Lin({Q: 64}, R) if p["t"].endswith("long") else False
                    for p in f["params"]]
            for st, v in self.go(f, {"this": {}}, args):
                vals = {k[1]: x for k, x in st.mem.items() if k[0] == "this"}
                if Lin({Q: 64}, R) not in [x for x in vals.values() if isinstance(x, Lin)]:
                    return "size 64*Q + %d: the size is not kept" % R
                if ("ptr", "data", Lin()) not in list(vals.values()):
                    return "size 64*Q + %d: the words are not those given" % R
                for k, x in self.size(R).items():
                    if vals.get(k) != x:
                        return "size 64*Q + %d: %s differs from what %s leaves" % (R, k, self.refer["n"])
            self.held("size", f, "%s%d %d" % (f["n"], len(f["params"]), R))
        return None

    def copying(self, f, i, ptr):
        for R in range(W):
            args = []
            for j, p in enumerate(f["params"]):
                args.append(("obj", "other") if j == i else ("ptr", "new", Lin()) if j in ptr else False)
            src = self.size(R, "odata")
            cd = [x["id"] for x in self.m.get("copy_data", ())]
            for st, v in self.go(f, {"this": self.size(5, "data", P_), "other": src}, args, cd):
                for k, x in src.items():
                    now = st.mem.get(("this", k))
                    exp = ("ptr", "new", Lin()) if ptr and isinstance(x, tuple) else x
                    if now != exp:
                        return "size 64*Q + %d: %s is not that of the set it is made from" % (R, k)
                if ptr:
                    cp = [e for e in st.eff if e[0] == "op" and e[1] == "copy_data"]
                    if len(cp) == 1 and cp[0][3] == (("obj", "other"),):
                        pre = {}
                        for e in st.eff:
                            if e is cp[0]:
                                break
                            if e[0] == "setf":
                                pre[e[2]] = e[3]
                        if any(pre.get(k) != st.mem.get(("this", k)) for k in src):
                            return "the elements are copied before the set refers to its own words and size"
                    elif any(e[0] in ("copy", "loop") for e in st.eff):
                        for e in st.eff:
                            if e[0] == "copy" and (e[1] != "odata" or e[4] != "new" or e[2] != Lin() or e[5] != Lin() or e[3] != self.dlen(R)):
                                return "size 64*Q + %d: copies words %s to %s of the set's %s" % (R, e[2], e[3], self.dlen(R))
                            if e[0] == "loop":
                                raise Unsupported("loop")
                    else:
                        return "the elements are not copied"
            self.held("size", f, "%s%d %d" % (f["n"], len(f["params"]), R))
        return None

    def subset(self, f):
        self.need_pos()
        R = 5
        atomic = [x["id"] for n in ("operator[]", "count", "next") for x in self.m.get(n, ())]
        args = []
        for p in f["params"]:
            args.append(("vec", "elements") if "vector" in p["t"] or "*" in p["t"] else Lin({("len",): 1}))
        n = Lin({Q: 64}, R)
        out = self.go(f, {"this": self.size(R)}, args, atomic)
        for st, v in out:
            if not (isinstance(v, tuple) and v[0] == "vec"):
                raise Unsupported("result")
            loops = [e for e in st.eff if e[0] == "loop"]
            if len(loops) != 1:
                raise Unsupported("loops")
            _, wv, lo, hi, eff, L = loops[0]
            if lo != Lin() or hi != n:
                return "looks at positions %s to %s" % (lo, hi)
            for facts, ee, vals in eff:
                t = [x for x in facts if x[0] == "test"]
                st_ = [x for x in ee if x[0] in ("vstore", "vpush") and x[1] == v[1]]
                if len(t) != 1:
                    raise Unsupported("tests")
                _, o, i, truth = t[0]
                if o != ("obj", "this") or (i - wv).const() is None:
                    raise Unsupported("test")
                if i != wv:
                    return "tests position %s instead of %s" % (i, wv)
                if not truth:
                    if st_:
                        return "an element that is not in the set is returned"
                    continue
                if len(st_) != 1:
                    return "%d elements are returned for one position" % len(st_)
                val = st_[0][3] if st_[0][0] == "vstore" else st_[0][2]
                if val != Lin({("el", "elements", wv.key()): 1}):
                    return "the element returned is not the one at the position"
                if st_[0][0] == "vstore":
                    ix = st_[0][2]
                    ct = [k for k in vals if ix == Lin({("old", k): 1})]
                    if not ct:
                        c2 = [k for k in vals if isinstance(vals[k], Lin) and ("old", k) in vals[k].t and len(ix.t) == 1 and ("old", k) in ix.t]
                        if c2:
                            return "the result is filled from %s" % ix
                        raise Unsupported("index of the result")
                    if vals[ct[0]] != Lin({("old", ct[0]): 1}, 1):
                        return "the place in the result does not move on by one"
        self.held("subset", f, "%s%d" % (f["n"], len(f["params"])))
        return None
