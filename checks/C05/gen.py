"""Random SML expressions together with an independent evaluator: every generator returns (text, fn) with fn(env) -> value.
Values: int, bool, str, tuple (tuples and records), list (lists), ('NONE',)/('SOME', v), ('Con', arg) for data types,
float, Ref, python callables for functions; chars are one-character str, words are W8 ints."""
import struct

INT_MIN, INT_MAX = -2**62, 2**62 - 1
LIM = 200000


class Exn(Exception):
    def __init__(self, name, arg=None, uid=None):
        self.name, self.arg, self.uid = name, arg, uid


class Fuel(Exception):
    pass


class Ref:
    def __init__(self, v):
        self.v = v


class St:
    fuel = 0
    log = []


def step(n=1):
    St.fuel -= n
    if St.fuel < 0:
        raise Fuel()


def ck(v):
    if not INT_MIN <= v <= INT_MAX:
        raise Exn("Overflow")
    return v


def szl(x):
    step(len(x) // 8)
    if len(x) > 3000:
        raise Fuel()
    return x


# the other numeric types: name -> (signed, bits) ; 0 bits = unbounded
NUM = {"Int32": (True, 32), "Int64": (True, 64), "IntInf": (True, 0), "Word": (False, 63), "Word32": (False, 32), "Word64": (False, 64)}
NT = [("num", n) for n in NUM]


def nfit(n, v):
    sg, b = NUM[n]
    if not sg: return v % (1 << b)
    if b and not -(1 << b - 1) <= v < 1 << b - 1: raise Exn("Overflow")
    if not b:
        step(abs(v).bit_length() // 64)
        if abs(v).bit_length() > 4000: raise Fuel()
    return v


def nlit(n, v):
    return f"({ilit(v) if NUM[n][0] else '0w%d' % v} : {ty(('num', n))})"


def nconst(r, n):
    sg, b = NUM[n]
    bb = b or r.choice([62, 64, 128, 130])
    m = 1 << bb
    c = [0, 1, 2, 3, 5, 7, 10, 63, 64, 255, 256, 65535, m // 4, m // 2 - 1, r.randrange(m // 2), r.randrange(100), r.getrandbits(min(32, bb - 1)), (1 << 31) - 1]
    if sg: c += [-1, -2, -7, -8, -m // 2 + 1, -m // 2, -r.randrange(m // 2), -r.randrange(100)]
    else: c += [m - 1, m - 2, m // 2, r.randrange(m), (1 << 32) % m]
    return r.choice(c)


I, B, S, C, R, U, W = ("int",), ("bool",), ("str",), ("chr",), ("real",), ("unit",), ("w8",)


def ty(t):
    k = t[0]
    if k == "int": return "int"
    if k == "bool": return "bool"
    if k == "str": return "string"
    if k == "chr": return "char"
    if k == "real": return "real"
    if k == "unit": return "unit"
    if k == "w8": return "Word8.word"
    if k == "num": return t[1] + (".int" if NUM[t[1]][0] else ".word")
    if k == "list": return f"({ty(t[1])} list)"
    if k == "vec": return f"({ty(t[1])} vector)"
    if k == "opt": return f"({ty(t[1])} option)"
    if k == "ref": return f"({ty(t[1])} ref)"
    if k == "arr": return f"({ty(t[1])} array)"
    if k == "tup": return "(" + " * ".join(ty(x) for x in t[1]) + ")"
    if k == "rec": return "{" + ", ".join(f"{l} : {ty(x)}" for l, x in t[1]) + "}"
    if k == "fn": return f"({ty(t[1])} -> {ty(t[2])})"
    if k == "dt": return t[1]
    raise KeyError(t)


def iseq(t):
    k = t[0]
    if k in ("real", "fn"): return False
    if k in ("list", "opt", "vec"): return iseq(t[1])
    if k == "tup": return all(iseq(x) for x in t[1])
    if k == "rec": return all(iseq(x) for _, x in t[1])
    return True


def showable(t):
    k = t[0]
    if k == "fn": return False
    if k in ("list", "opt", "vec", "ref", "arr"): return showable(t[1])
    if k == "tup": return all(showable(x) for x in t[1])
    if k == "rec": return all(showable(x) for _, x in t[1])
    return True


def lit(s):
    return '"' + "".join(c if (c.isascii() and c.isalnum()) or c in " _-+" else f"\\{ord(c):03d}" for c in s) + '"'


def ilit(n):
    return f"~{-n}" if n < 0 else str(n)


def eqv(a, b):
    step()
    if isinstance(a, Ref) or isinstance(b, Ref):
        return a is b
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))
    return a == b


class G:
    def __init__(self, r):
        self.r, self.n = r, 0
        self.dts = {}
        self.funs = []        # top-level functions: (name, argtype, restype, python function)
        base = [I, S, B, C, W, R, ("list", I), ("tup", (I, S)), ("opt", I), ("tup", (R, I)), ("list", S)]
        for k in range(7):
            nm = f"d{k}"
            cons = []
            for c in range(r.choice([1, 1, 2, 2, 3, 4, 5, 7, 9, 12])):
                w = r.random()
                a = None if w < .4 else r.choice(base) if w < .75 else ("tup", (("dt", nm), r.choice(base))) if w < .9 and cons else r.choice(base)
                if a and w > .85 and k and r.random() < .5:
                    a = ("tup", (r.choice(base), ("dt", f"d{r.randrange(k)}")))
                cons.append((f"D{k}c{c}", a))
            if all(a is not None and self.mentions(a, nm) for _, a in cons):
                cons.append((f"D{k}z", None))
            self.dts[nm] = cons
        self.eqdt = {n: self.dteq(n) for n in self.dts}

    def mentions(self, t, nm):
        return t == ("dt", nm) or (t[0] == "tup" and any(self.mentions(x, nm) for x in t[1]))

    def dteq(self, n, seen=()):
        if n in seen:
            return True
        def ok(t):
            if t is None: return True
            if t[0] == "dt": return self.dteq(t[1], seen + (n,))
            if t[0] == "tup": return all(ok(x) for x in t[1])
            return iseq(t)
        return all(ok(a) for _, a in self.dts[n])

    def iseq(self, t):
        k = t[0]
        if k == "dt": return self.eqdt[t[1]]
        if k in ("list", "opt", "vec"): return self.iseq(t[1])
        if k == "tup": return all(self.iseq(x) for x in t[1])
        if k == "rec": return all(self.iseq(x) for _, x in t[1])
        return iseq(t)

    def sym(self, p="v"):
        self.n += 1
        return f"{p}{self.n}"

    def rty(self, d=2, fn=False):
        r = self.r
        w = r.random()
        if d <= 0 or w < .5:
            return r.choice([I, I, I, S, B, C, W, R, U, r.choice(NT), r.choice(NT)])
        if w < .6: return ("list", self.rty(d - 1))
        if w < .66: return ("opt", self.rty(d - 1))
        if w < .78: return ("tup", tuple(self.rty(d - 1) for _ in range(r.choice([2, 2, 3, 4, 6]))))
        if w < .83:
            ls = sorted(r.sample(["a", "b", "c", "id", "zz", "m1"], r.choice([2, 3, 4])))
            return ("rec", tuple((l, self.rty(d - 1)) for l in ls))
        if w < .93: return ("dt", r.choice(list(self.dts)))
        if w < .96: return ("vec", self.rty(d - 1))
        if fn: return ("fn", self.rty(d - 1), self.rty(d - 1))
        return I

    # --- declarations -------------------------------------------------------------------
    def dtdecls(self):
        out = []
        for n, cons in self.dts.items():
            out.append(f"datatype {n} = " + " | ".join(c + (f" of {ty(a)}" if a else "") for c, a in cons))
        # show functions
        for n, cons in self.dts.items():
            out.append("fun sh_" + n + " v = (case v of " + " | ".join(
                f"{c} x => \"{c}\" ^ ({self.show(a)}) x" if a else f"{c} => \"{c}\"" for c, a in cons) + ")")
        return "\n".join(out)

    def show(self, t):
        k = t[0]
        if k == "int": return "sI"
        if k == "bool": return "sB"
        if k == "str": return "sS"
        if k == "chr": return "sC"
        if k == "real": return "sR"
        if k == "unit": return "sU"
        if k == "w8": return "sW"
        if k == "num": return "s" + t[1]
        if k == "list": return f"(sL {self.show(t[1])})"
        if k == "vec": return f"(sV {self.show(t[1])})"
        if k == "opt": return f"(sO {self.show(t[1])})"
        if k == "ref": return f"(sRef {self.show(t[1])})"
        if k == "arr": return f"(sA {self.show(t[1])})"
        if k == "dt": return "sh_" + t[1]
        if k == "tup":
            vs = [f"x{i}" for i in range(len(t[1]))]
            return f"(fn ({', '.join(vs)}) => \"(\" ^ " + ' ^ "," ^ '.join(f"{self.show(x)} {v}" for x, v in zip(t[1], vs)) + ' ^ ")")'
        if k == "rec":
            return "(fn {" + ", ".join(f"{l} = x{l}" for l, _ in t[1]) + "} => \"{\" ^ " + ' ^ "," ^ '.join(f"{self.show(x)} x{l}" for l, x in t[1]) + ' ^ "}")'
        raise KeyError(t)

    def pshow(self, t, v):
        step()
        k = t[0]
        if k == "int": return ilit(v)
        if k == "bool": return "T" if v else "F"
        if k in ("str", "chr"): return ("s" if k == "str" else "c") + (v.encode("latin1").hex() or "-")
        if k == "w8": return f"w{v}"
        if k == "num": return ilit(v) if NUM[t[1]][0] else f"w{v:X}"
        if k == "unit": return "()"
        if k == "real": return preal(v)
        if k in ("list", "vec"): return ("[" if k == "list" else "#[") + ",".join(self.pshow(t[1], x) for x in v) + "]"
        if k == "arr": return "A[" + ",".join(self.pshow(t[1], x) for x in v.v) + "]"
        if k == "opt": return "N" if v[0] == "NONE" else "S" + self.pshow(t[1], v[1])
        if k == "ref": return "r" + self.pshow(t[1], v.v)
        if k == "dt":
            a = dict(self.dts[t[1]])[v[0]]
            return v[0] + (self.pshow(a, v[1]) if a else "")
        if k == "tup": return "(" + ",".join(self.pshow(x, y) for x, y in zip(t[1], v)) + ")"
        if k == "rec": return "{" + ",".join(self.pshow(x, y) for (_, x), y in zip(t[1], v)) + "}"

    # --- patterns -----------------------------------------------------------------------
    def pat(self, t, d, bound):
        """(text, match) ; match(v, out) -> bool, binds into dict out; bound collects (name, type)"""
        r = self.r
        w = r.random()
        k = t[0]
        if w < .12 or (d <= 0 and w < .5):
            return "_", lambda v, o: True
        if w < .3 or d <= 0 or k in ("fn", "real", "ref", "arr", "vec"):
            x = self.sym()
            bound.append((x, t))
            def m(v, o):
                o[x] = v
                return True
            return x, m
        if w < .36:
            x = self.sym()
            p, m0 = self.pat(t, d - 1, bound)
            bound.append((x, t))
            def m(v, o):
                o[x] = v
                return m0(v, o)
            return f"({x} as {p})", m
        if k == "int":
            c = r.choice([0, 1, 2, 3, -1, 7, 10, 255, 256, 1000000, -5, 2**61, INT_MAX, INT_MIN + 1])
            return ilit(c), lambda v, o: v == c
        if k == "num":
            c = nconst(r, t[1])
            return nlit(t[1], c), lambda v, o: v == c
        if k == "w8":
            c = r.choice([0, 1, 2, 127, 128, 255])
            return f"0w{c}", lambda v, o: v == c
        if k == "bool":
            c = r.random() < .5
            return "true" if c else "false", lambda v, o: v == c
        if k == "str":
            c = r.choice(["", "a", "b", "ab", "abc", "abcdefgh", "abcdefg", "zz"])
            return lit(c), lambda v, o: v == c
        if k == "chr":
            c = r.choice("abz0 \n")
            return "#" + lit(c), lambda v, o: v == c
        if k == "unit":
            return "()", lambda v, o: True
        if k == "list":
            if w < .55:
                n = r.randint(0, 3)
                ps = [self.pat(t[1], d - 1, bound) for _ in range(n)]
                return "[" + ", ".join(p for p, _ in ps) + "]", lambda v, o: len(v) == n and all(m(x, o) for (_, m), x in zip(ps, v))
            h, mh = self.pat(t[1], d - 1, bound)
            tl, mt = self.pat(t, d - 1, bound)
            return f"({h} :: {tl})", lambda v, o: len(v) > 0 and mh(v[0], o) and mt(v[1:], o)
        if k == "opt":
            if w < .5:
                return "NONE", lambda v, o: v[0] == "NONE"
            p, m0 = self.pat(t[1], d - 1, bound)
            return f"(SOME {p})", lambda v, o: v[0] == "SOME" and m0(v[1], o)
        if k == "tup":
            ps = [self.pat(x, d - 1, bound) for x in t[1]]
            return "(" + ", ".join(p for p, _ in ps) + ")", lambda v, o: all(m(x, o) for (_, m), x in zip(ps, v))
        if k == "rec":
            idx = [i for i in range(len(t[1])) if r.random() < .7]
            ps = [(i, self.pat(t[1][i][1], d - 1, bound)) for i in idx]
            order = ps[:]
            r.shuffle(order)
            flex = len(idx) < len(t[1])
            items = [f"{t[1][i][0]} = {p}" for i, (p, _) in order] + (["..."] if flex else [])
            return "({" + ", ".join(items) + "} : " + ty(t) + ")", lambda v, o: all(m(v[i], o) for i, (_, m) in ps)
        if k == "dt":
            c, a = r.choice(self.dts[t[1]])
            if a is None:
                return c, lambda v, o: v[0] == c
            p, m0 = self.pat(a, d - 1, bound)
            return f"({c} {p})", lambda v, o: v[0] == c and m0(v[1], o)
        return "_", lambda v, o: True

    def match(self, t, rt, env, d, total):
        """a match: (text without keyword, fn(v, env) -> result or raises KeyError when nothing matches)"""
        r = self.r
        rules = []
        for i in range(r.choice([1, 2, 2, 3, 4, 6]) if d > 0 else 1):
            b = []
            p, m = self.pat(t, 3, b)
            if i == 0 and t[0] in ("int", "str") and total is False and False:
                pass
            e, f = self.e(rt, env + b, d - 1)
            rules.append((p, m, e, f))
        if total:
            e, f = self.e(rt, env, min(d - 1, 1))
            rules.append(("_", lambda v, o: True, e, f))

        def run(v, en, none):
            for _, m, _, f in rules:
                step()
                o = {}
                if m(v, o):
                    return f({**en, **o})
            return none()
        return " | ".join(f"{p} => {e}" for p, _, e, _ in rules), run

    # --- expressions ---------------------------------------------------------------------
    def leaf(self, t, env):
        r = self.r
        vs = [x for x, tt in env if tt == t]
        if vs and r.random() < .75:
            x = r.choice(vs)
            return x, lambda en: en[x]
        k = t[0]
        if k == "int":
            v = r.choice([0, 1, 2, 3, 5, -1, -7, 10, 100, 63, 64, 2**30, 2**31, 2**32 + 1, -2**40, INT_MAX, INT_MIN + 1, r.randint(-1000, 1000)])
            return ilit(v), lambda en: v
        if k == "bool":
            v = r.random() < .5
            return "true" if v else "false", lambda en: v
        if k == "str":
            v = r.choice(["", "a", "ab", "abc", "abcdefgh", "x" * 15, "hello world", "\0\n\xff", "zz"])
            return lit(v), lambda en: v
        if k == "chr":
            v = r.choice("abz0 \n\xff\0")
            return "#" + lit(v), lambda en: v
        if k == "num":
            v = nconst(r, t[1])
            return nlit(t[1], v), lambda en: v
        if k == "w8":
            v = r.choice([0, 1, 2, 127, 128, 255, r.randrange(256)])
            return f"(0w{v} : Word8.word)", lambda en: v
        if k == "real":
            v = r.choice([0.0, 1.0, 0.5, 2.25, -3.0, 1024.0, 0.125, -0.5, float(r.randint(-100, 100))])
            return (f"{v!r}".replace("-", "~")), lambda en: v
        if k == "unit":
            return "()", lambda en: ()
        if k == "list":
            if r.random() < .4:
                return f"([] : {ty(t)})", lambda en: []
            xs = [self.leaf(t[1], env) for _ in range(r.randint(1, 3))]
            return "[" + ", ".join(x for x, _ in xs) + "]", lambda en: [f(en) for _, f in xs]
        if k == "vec":
            xs = [self.leaf(t[1], env) for _ in range(r.randint(1, 3))]
            return "#[" + ", ".join(x for x, _ in xs) + "]", lambda en: [f(en) for _, f in xs]
        if k == "opt":
            if r.random() < .4:
                return f"(NONE : {ty(t)})", lambda en: ("NONE",)
            x, f = self.leaf(t[1], env)
            return f"(SOME {x})", lambda en: ("SOME", f(en))
        if k == "ref":
            x, f = self.leaf(t[1], env)
            return f"(ref {x})", lambda en: Ref(f(en))
        if k == "arr":
            x, f = self.leaf(t[1], env)
            n = r.randint(1, 4)
            return f"(Array.array ({n}, {x}))", lambda en: Ref([f(en)] * n)
        if k == "tup":
            xs = [self.leaf(x, env) for x in t[1]]
            return "(" + ", ".join(x for x, _ in xs) + ")", lambda en: tuple(f(en) for _, f in xs)
        if k == "rec":
            xs = [self.leaf(x, env) for _, x in t[1]]
            return "{" + ", ".join(f"{l} = {x}" for (l, _), (x, _) in zip(t[1], xs)) + "}", lambda en: tuple(f(en) for _, f in xs)
        if k == "dt":
            cs = [(c, a) for c, a in self.dts[t[1]] if a is None or not self.mentions(a, t[1])]
            c, a = r.choice(cs)
            if a is None:
                return c, lambda en: (c,)
            x, f = self.leaf(a, env)
            return f"({c} {x})", lambda en: (c, f(en))
        if k == "fn":
            x = self.sym()
            e, f = self.leaf(t[2], env + [(x, t[1])])
            return f"(fn ({x} : {ty(t[1])}) => {e})", lambda en: (lambda v: f({**en, x: v}))
        raise KeyError(t)

    def e(self, t, env, d):
        r = self.r
        if d <= 0:
            return self.leaf(t, env)
        w = r.random()
        if w < .42:
            x = self.typed(t, env, d)
            if x:
                return x
        return self.generic(t, env, d)

    def bin(self, t, op, a, b, f):
        (x, fx), (y, fy) = a, b
        def ev(en):
            step()
            u = fx(en)
            return f(u, fy(en))
        return f"({x} {op} {y})", ev

    def numeric(self, t, sub, d):
        r, n = self.r, t[1]
        sg, bits = NUM[n]
        w = r.randrange(12)
        ann = lambda x: f"({x} : {ty(t)})"
        if w < 5:
            op = r.choice(["+", "-", "*", "div", "mod"])
            a, b = sub(t), sub(t)
            if r.random() < .4:
                c = nconst(r, n)
                b = (nlit(n, c), lambda en: c)
                if r.random() < .3: a, b = b, a
            def f(x, y):
                if op in ("div", "mod"):
                    if y == 0: raise Exn("Div")
                    return nfit(n, x // y) if op == "div" else x % y
                return nfit(n, x + y if op == "+" else x - y if op == "-" else x * y)
            return self.bin(t, op, (ann(a[0]), a[1]), b, f)
        if w == 5:
            x, f = sub(t)
            return f"(~ {ann(x)})", lambda en: nfit(n, -f(en))
        if w == 6:
            x, f = sub(I)
            return f"({n}.fromInt {x})", lambda en: nfit(n, f(en))
        if w == 7:                                   # through the large type
            m = r.choice([q for q in NUM if NUM[q][0] == sg])
            x, f = sub(("num", m))
            if sg:
                return f"({n}.fromLarge ({m}.toLarge {x}))", lambda en: nfit(n, f(en))
            sx = r.random() < .4
            mb = NUM[m][1]
            def ev(en):
                v = f(en)
                if sx and v >> mb - 1: v -= 1 << mb
                return nfit(n, v)
            return f"({n}.fromLarge ({m}.toLarge{'X' if sx else ''} {x}))", ev
        if w == 8 and sg:
            op = r.choice(["quot", "rem", "min", "max"])
            (x, fx), (y, fy) = sub(t), sub(t)
            def ev(en):
                a = fx(en)
                b = fy(en)
                if op == "min": return min(a, b)
                if op == "max": return max(a, b)
                if b == 0: raise Exn("Div")
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return nfit(n, q) if op == "quot" else a - q * b
            return f"({n}.{op} ({x}, {y}))", ev
        if w in (8, 9, 10) and (not sg or n == "IntInf"):
            op = r.choice(["andb", "orb", "xorb"])
            if r.random() < .5:
                (x, fx), (y, fy) = sub(t), sub(t)
                def ev(en):
                    a = fx(en)
                    b = fy(en)
                    return a & b if op == "andb" else a | b if op == "orb" else a ^ b
                return f"({n}.{op} ({x}, {y}))", ev
            if r.random() < .3:
                x, f = sub(t)
                return f"({n}.notb {x})", lambda en: nfit(n, ~f(en))
            x, f = sub(t)
            if n != "IntInf" and r.random() < .4:
                z, fz = sub(("num", "Word"))
                sh = lambda en: fz(en)
                zt = z
            else:
                c = r.choice([0, 1, 3, 8, 31, 32, 33, 62, 63, 64, 65, 100])
                sh, zt = (lambda en: c), f"0w{c}"
            op = r.choice(["<<", ">>", "~>>"] if not sg else ["<<", "~>>"])
            def ev(en):
                a = f(en)
                k = min(sh(en), 200)
                if op == "<<": return nfit(n, a << k)
                if op == "~>>" and not sg and a >> bits - 1: return nfit(n, (a - (1 << bits)) >> k)
                return a >> k
            return f"({n}.{op} ({x}, {zt}))", ev
        if w == 11 and sg:
            x, f = sub(t)
            return f"({n}.abs {x})", lambda en: nfit(n, abs(f(en)))
        return None

    def typed(self, t, env, d):
        """forms particular to the type"""
        r, e = self.r, self.e
        k = t[0]
        sub = lambda tt: e(tt, env, d - 1)
        if k == "int":
            w = r.randrange(16)
            if w < 5:
                op = r.choice(["+", "-", "*", "div", "mod"])
                def f(a, b):
                    if op == "+": return ck(a + b)
                    if op == "-": return ck(a - b)
                    if op == "*": return ck(a * b)
                    if b == 0: raise Exn("Div")
                    return ck(a // b) if op == "div" else a % b
                return self.bin(t, op, sub(I), sub(I), f)
            if w == 5:
                x, f = sub(I)
                return f"(~ {x})", lambda en: ck(-f(en))
            if w == 6:
                x, f = sub(S)
                return f"(size {x})", lambda en: len(f(en))
            if w == 7:
                x, f = sub(C)
                return f"(ord {x})", lambda en: ord(f(en))
            if w == 8:
                lt = ("list", self.rty(1))
                x, f = sub(lt)
                return f"(length {x})", lambda en: len(szl(f(en)))
            if w == 9:
                a, fa = sub(("list", I))
                z, fz = sub(I)
                p, q = self.sym(), self.sym()
                b, fb = e(I, env + [(p, I), (q, I)], d - 1)
                dirn = r.choice(["foldl", "foldr"])
                def ev(en):
                    z = fz(en)
                    xs = szl(fa(en))
                    for v in (xs if dirn == "foldl" else xs[::-1]):
                        step()
                        z = fb({**en, p: v, q: z})
                    return z
                return f"({dirn} (fn ({p}, {q}) => {b}) {z} {a})", ev
            if w == 10:
                op = r.choice(["Int.min", "Int.max", "Int.quot", "Int.rem"])
                (x, fx), (y, fy) = sub(I), sub(I)
                def ev(en):
                    a = fx(en)
                    b = fy(en)
                    if op == "Int.min": return min(a, b)
                    if op == "Int.max": return max(a, b)
                    if b == 0: raise Exn("Div")
                    q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                    return ck(q) if op == "Int.quot" else a - q * b
                return f"({op} ({x}, {y}))", ev
            if w == 11:
                if r.random() < .6:                  # from another numeric type
                    n = r.choice(list(NUM))
                    x, f = sub(("num", n))
                    sg, bits = NUM[n]
                    sx = not sg and r.random() < .5
                    def ev(en):
                        v = f(en)
                        if sx and v >> bits - 1: v -= 1 << bits
                        return ck(v)
                    return f"({n}.toInt{'X' if sx else ''} {x})", ev
                x, f = sub(W)
                if r.random() < .5:
                    return f"(Word8.toInt {x})", f
                return f"(Word8.toIntX {x})", lambda en: (f(en) ^ 128) - 128
            if w == 12:
                c = r.choice([2, 4, 8, -8, 16, 1024, 3, 7, 10, -3, 2**20, -2**20])
                op = r.choice(["div", "mod", "*"])
                x, f = sub(I)
                def ev(en):
                    a = f(en)
                    return ck(a // c) if op == "div" else a % c if op == "mod" else ck(a * c)
                return f"({x} {op} {ilit(c)})", ev
            if w == 13:
                a, fa = sub(("vec", I))
                i, fi = sub(I)
                def ev(en):
                    v = fa(en)
                    n = fi(en)
                    if not 0 <= n < len(v): raise Exn("Subscript")
                    return v[n]
                return f"(Vector.sub ({a}, {i}))", ev
            if w == 14:
                x, f = sub(S)
                def ev(en):
                    s = f(en)
                    return s
                i, fi = sub(I)
                def ev(en):
                    s = f(en)
                    n = fi(en)
                    if not 0 <= n < len(s): raise Exn("Subscript")
                    return ord(s[n])
                return f"(ord (String.sub ({x}, {i})))", ev
            return None
        if k == "bool":
            w = r.randrange(8)
            if w < 3:
                tt = r.choice([I, I, S, C, W, R, r.choice(NT)])
                op = r.choice(["<", "<=", ">", ">="])
                return self.bin(t, op, sub(tt), sub(tt), {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}[op])
            if w < 5:
                tt = self.rty(2)
                if not self.iseq(tt):
                    tt = r.choice([I, S, ("list", I), ("tup", (I, S))])
                (x, fx), (y, fy) = sub(tt), sub(tt)
                ne = r.random() < .3
                def ev(en):
                    a = fx(en)
                    return eqv(a, fy(en)) != ne
                return f"(({x} : {ty(tt)}) {'<>' if ne else '='} {y})", ev
            if w == 5:
                (x, fx), (y, fy) = sub(B), sub(B)
                if r.random() < .5:
                    return f"({x} andalso {y})", lambda en: fx(en) and fy(en)
                return f"({x} orelse {y})", lambda en: fx(en) or fy(en)
            if w == 6:
                x, f = sub(B)
                return f"(not {x})", lambda en: not f(en)
            lt = self.rty(1)
            x, f = sub(("list", lt))
            v = self.sym()
            b, fb = e(B, env + [(v, lt)], d - 1)
            op = r.choice(["List.exists", "List.all"])
            def ev(en):
                for q in szl(f(en)):
                    step()
                    z = fb({**en, v: q})
                    if z == (op == "List.exists"): return z
                return op != "List.exists"
            # the function expression is a value, so only the list has effects
            return f"({op} (fn ({v} : {ty(lt)}) => {b}) {x})", ev
        if k == "str":
            w = r.randrange(8)
            if w < 2:
                return self.bin(t, "^", sub(S), sub(S), lambda a, b: szl(a + b))
            if w == 2:
                x, f = sub(I)
                return f"(Int.toString {x})", lambda en: ilit(f(en))
            if w == 3:
                x, f = sub(("list", C))
                return f"(implode {x})", lambda en: "".join(szl(f(en)))
            if w == 4:
                x, f = sub(("list", S))
                return f"(concat {x})", lambda en: szl("".join(szl(f(en))))
            if w == 5:
                (x, f), (i, fi), (j, fj) = sub(S), sub(I), sub(I)
                def ev(en):
                    s = f(en)
                    a = fi(en)
                    b = fj(en)
                    if a < 0 or b < 0 or a + b > len(s): raise Exn("Subscript")
                    return s[a:a + b]
                return f"(substring ({x}, {i}, {j}))", ev
            if w == 6:
                x, f = sub(C)
                return f"(str {x})", f
            x, f = sub(S)
            v = self.sym()
            b, fb = e(C, env + [(v, C)], d - 1)
            def ev(en):
                out = []
                for q in szl(f(en)):
                    step()
                    out.append(fb({**en, v: q}))
                return "".join(out)
            return f"(String.map (fn {v} => {b}) {x})", ev
        if k == "chr":
            w = r.randrange(3)
            if w == 0:
                x, f = sub(I)
                def ev(en):
                    n = f(en)
                    if not 0 <= n < 256: raise Exn("Chr")
                    return chr(n)
                return f"(chr {x})", ev
            if w == 1:
                x, f = sub(C)
                up = r.random() < .5
                def ev(en):
                    c = f(en)
                    return c if not ("a" <= c <= "z" if up else "A" <= c <= "Z") else c.upper() if up else c.lower()
                return f"(Char.{'toUpper' if up else 'toLower'} {x})", ev
            return None
        if k == "num":
            return self.numeric(t, sub, d)
        if k == "w8":
            w = r.randrange(4)
            if w < 2:
                op = r.choice(["+", "-", "*", "div", "mod", "andb", "orb", "xorb"])
                (x, fx), (y, fy) = sub(W), sub(W)
                def ev(en):
                    a = fx(en)
                    b = fy(en)
                    if op in ("div", "mod") and b == 0: raise Exn("Div")
                    return {"+": a + b, "-": a - b, "*": a * b, "div": a // (b or 1), "mod": a % (b or 1), "andb": a & b, "orb": a | b, "xorb": a ^ b}[op] & 255
                return (f"({x} {op} {y})" if op in "+-*divmod" else f"(Word8.{op} ({x}, {y}))"), ev
            if w == 2:
                x, f = sub(I)
                return f"(Word8.fromInt {x})", lambda en: f(en) & 255
            x, f = sub(W)
            n = r.randrange(10)
            op = r.choice(["<<", ">>", "~>>"])
            def ev(en):
                v = f(en)
                if op == "<<": return (v << n) & 255
                if op == ">>": return v >> n
                return (((v ^ 128) - 128) >> n) & 255
            return f"(Word8.{op} ({x}, 0w{n}))", ev
        if k == "real":
            w = r.randrange(5)
            if w < 3:
                op = r.choice("+-*")
                def f(a, b):
                    v = a + b if op == "+" else a - b if op == "-" else a * b
                    if not abs(v) < 2.0**30 or v * 2**20 != int(v * 2**20): raise Fuel()     # stay exact
                    return v
                return self.bin(t, op, sub(R), sub(R), f)
            if w == 3:
                x, f = sub(R)
                return f"(~ {x})", lambda en: -f(en)
            x, f = sub(I)
            def ev(en):
                v = f(en)
                if abs(v) > 2**30: raise Fuel()
                return float(v)
            return f"(real {x})", ev
        if k == "list":
            w = r.randrange(9)
            if w < 2:
                (x, fx), (y, fy) = sub(t[1]), sub(t)
                def ev(en):
                    a = fx(en)
                    return szl([a] + fy(en))
                return f"({x} :: {y})", ev
            if w == 2:
                return self.bin(t, "@", sub(t), sub(t), lambda a, b: szl(a + b))
            if w == 3:
                st = self.rty(1)
                x, f = sub(("list", st))
                v = self.sym()
                b, fb = e(t[1], env + [(v, st)], d - 1)
                def ev(en):
                    out = []
                    for q in szl(f(en)):
                        step()
                        out.append(fb({**en, v: q}))
                    return out
                return f"(map (fn ({v} : {ty(st)}) => {b}) {x})", ev
            if w == 4:
                x, f = sub(t)
                v = self.sym()
                b, fb = e(B, env + [(v, t[1])], d - 1)
                def ev(en):
                    out = []
                    for q in szl(f(en)):
                        step()
                        if fb({**en, v: q}): out.append(q)
                    return out
                return f"(List.filter (fn {v} => {b}) {x})", ev
            if w == 5:
                x, f = sub(t)
                return f"(rev {x})", lambda en: f(en)[::-1]
            if w == 6:
                n, fn_ = sub(I)
                v = self.sym()
                b, fb = e(t[1], env + [(v, I)], d - 1)
                def ev(en):
                    k = fn_(en) % 5
                    out = []
                    for i in range(k):
                        step()
                        out.append(fb({**en, v: i}))
                    return out
                return f"(List.tabulate ({n} mod 5, fn {v} => {b}))", ev
            if w == 7:
                (x, f), (n, fn_) = sub(t), sub(I)
                op = r.choice(["take", "drop"])
                def ev(en):
                    l = f(en)
                    k = fn_(en)
                    if not 0 <= k <= len(l): raise Exn("Subscript")
                    return l[:k] if op == "take" else l[k:]
                return f"(List.{op} ({x}, {n}))", ev
            x, f = sub(t)
            def ev(en):
                l = f(en)
                if not l: raise Exn("Empty")
                return l[1:]
            return f"(tl {x})", ev
        if k == "vec":
            x, f = sub(("list", t[1]))
            return f"(Vector.fromList {x})", lambda en: szl(f(en))
        if k == "tup":
            xs = [sub(x) for x in t[1]]
            return "(" + ", ".join(x for x, _ in xs) + ")", lambda en: tuple([f(en) for _, f in xs])
        if k == "rec":
            order = list(range(len(t[1])))
            r.shuffle(order)
            xs = {i: sub(t[1][i][1]) for i in order}
            def ev(en):
                v = {i: xs[i][1](en) for i in order}
                return tuple(v[i] for i in range(len(t[1])))
            return "{" + ", ".join(f"{t[1][i][0]} = {xs[i][0]}" for i in order) + "}", ev
        if k == "dt":
            c, a = r.choice(self.dts[t[1]])
            if a is None:
                return c, lambda en: (c,)
            x, f = sub(a)
            return f"({c} {x})", lambda en: (c, f(en))
        if k == "opt":
            if r.random() < .3:
                return None
            x, f = sub(t[1])
            return f"(SOME {x})", lambda en: ("SOME", f(en))
        if k == "unit":
            rs = [(x, tt) for x, tt in env if tt[0] == "ref"]
            ars = [(x, tt) for x, tt in env if tt[0] == "arr"]
            if rs and r.random() < .6:
                x, tt = r.choice(rs)
                y, f = sub(tt[1])
                def ev(en):
                    z = f(en)
                    en[x].v = z
                    return ()
                return f"({x} := {y})", ev
            if ars:
                x, tt = r.choice(ars)
                (i, fi), (y, f) = sub(I), sub(tt[1])
                def ev(en):
                    n = fi(en)
                    z = f(en)
                    if not 0 <= n < len(en[x].v): raise Exn("Subscript")
                    en[x].v = en[x].v[:n] + [z] + en[x].v[n + 1:]
                    return ()
                return f"(Array.update ({x}, {i}, {y}))", ev
            return None
        if k == "fn":
            x = self.sym()
            b, fb = e(t[2], env + [(x, t[1])], d - 1)
            def ev(en):
                def g(v):
                    step()
                    return fb({**en, x: v})
                return g
            return f"(fn ({x} : {ty(t[1])}) => {b})", ev
        return None

    def generic(self, t, env, d):
        r, e = self.r, self.e
        sub = lambda tt: e(tt, env, d - 1)
        w = r.randrange(30)
        if w < 3:
            (c, fc), (x, fx), (y, fy) = sub(B), sub(t), sub(t)
            def ev(en):
                step()
                return fx(en) if fc(en) else fy(en)
            return f"(if {c} then {x} else {y})", ev
        if w < 8:                                     # let val
            tt = self.rty(2, fn=True)
            x = self.sym()
            a, fa = sub(tt)
            b, fb = e(t, env + [(x, tt)], d - 1)
            return f"(let val {x} : {ty(tt)} = {a} in {b} end)", lambda en: fb({**en, x: fa(en)})
        if w < 10:                                    # destructuring, may raise Bind
            tt = self.rty(2)
            bd = []
            p, m = self.pat(tt, 2, bd)
            if not bd:                                # a declaration without variables may be dropped by some compilers' warnings
                return self.leaf(t, env)
            a, fa = sub(tt)
            b, fb = e(t, env + bd, d - 1)
            def ev(en):
                v = fa(en)
                o = {}
                if not m(v, o): raise Exn("Bind")
                return fb({**en, **o})
            return f"(let val {p} = ({a} : {ty(tt)}) in {b} end)", ev
        if w < 15:                                    # case
            tt = self.rty(2)
            a, fa = sub(tt)
            m, run = self.match(tt, t, env, d, r.random() < .6)
            def ev(en):
                def none(): raise Exn("Match")
                return run(fa(en), en, none)
            return f"(case ({a} : {ty(tt)}) of {m})", ev
        if w < 17:                                    # raise
            k = r.randrange(4)
            if k == 0:
                return f"((raise E0) : {ty(t)})", lambda en: (_ for _ in ()).throw(Exn("E0"))
            if k == 1:
                x, f = sub(I)
                def ev(en): raise Exn("E1", f(en))
                return f"((raise E1 {x}) : {ty(t)})", ev
            if k == 2:
                x, f = sub(("tup", (S, ("list", I))))
                def ev(en): raise Exn("E2", f(en))
                return f"((raise E2 {x}) : {ty(t)})", ev
            return self.leaf(t, env)
        if w < 20:                                    # handle
            x, fx = sub(t)
            b1, b2 = [], []
            p1, m1 = self.pat(I, 1, b1)
            p2, m2 = self.pat(("tup", (S, ("list", I))), 2, b2)
            hs = [("E1 " + p1, "E1", m1, e(t, env + b1, d - 1)), ("E2 " + p2, "E2", m2, e(t, env + b2, d - 1))]
            for nm in ["E0", "Overflow", "Div", "Subscript", "Match", "Bind", "Chr", "Empty"]:
                if r.random() < .35:
                    hs.append((nm, nm, lambda v, o: True, self.e(t, env, min(1, d - 1))))
            r.shuffle(hs)
            hs = hs[:r.randint(1, len(hs))]
            if r.random() < .3:
                hs.append(("_", None, lambda v, o: True, self.leaf(t, env)))
            def ev(en):
                try:
                    return fx(en)
                except Exn as ex:
                    if ex.uid is not None and not any(h[1] is None for h in hs):
                        raise
                    for _, nm, m, (_, f) in hs:
                        o = {}
                        if nm is None or (ex.uid is None and nm == ex.name and m(ex.arg, o)):
                            return f({**en, **o})
                    raise
            return f"(({x}) handle " + " | ".join(f"{p} => {h[0]}" for p, _, _, h in hs) + ")", ev
        if w < 22:                                    # log, then go on
            tt = self.rty(1)
            (a, fa), (b, fb) = sub(tt), sub(t)
            def ev(en):
                St.log.append(self.pshow(tt, fa(en)))
                return fb(en)
            return f"(log (({self.show(tt)}) {a}); {b})", ev
        if w < 25:                                    # function: recursive on a counter
            at, f = self.rty(1), self.sym("f")
            n, x = self.sym(), self.sym()
            base, fbase = e(t, env + [(x, at)], d - 1)
            y, z = self.sym(), self.sym()
            arg, farg = e(at, env + [(n, I), (x, at)], d - 1)
            two = r.random() < .3
            body, fbody = e(t, env + [(n, I), (x, at), (y, t)] + ([(z, t)] if two else []), d - 1)
            init, finit = sub(at)
            k = r.randint(0, 4 if two else 7)
            curried = r.random() < .4
            tail = r.random() < .25 and not two
            def ev(en):
                def g(i, v):
                    step()
                    if i <= 0: return fbase({**en, x: v})
                    e2 = {**en, n: i, x: v}
                    a = farg(e2)
                    if tail: return g(i - 1, a)
                    e2[y] = g(i - 1, a)
                    if two:
                        a = farg(e2)
                        e2[z] = g(i - 2, a)
                    return fbody(e2)
                return g(k, finit(en))
            call = (lambda a, b: f"{f} ({a}) ({b})") if curried else (lambda a, b: f"{f} ({a}, {b})")
            hd = f"{f} {n} ({x} : {ty(at)})" if curried else f"{f} ({n}, {x} : {ty(at)})"
            if tail:
                rest = call(f"{n} - 1", arg)
            else:
                rest = f"(let val {y} : {ty(t)} = {call(f'{n} - 1', arg)} " + (f"val {z} : {ty(t)} = {call(f'{n} - 2', arg)} " if two else "") + f"in {body} end)"
            return f"(let fun {hd} : {ty(t)} = if {n} <= 0 then {base} else {rest} in {call(k, init)} end)", ev
        if w < 27:                                    # apply a function (closure)
            at = self.rty(1)
            (f, ff), (a, fa) = sub(("fn", at, t)), sub(at)
            def ev(en):
                g = ff(en)
                return g(fa(en))
            return f"({f} {a})", ev
        if w == 27 and self.funs:                     # earlier top-level function with this result
            c = [q for q in self.funs if q[2] == t]
            if c:
                nm, at, _, g = r.choice(c)
                a, fa = sub(at)
                return f"({nm} {a})", lambda en: g(fa(en))
        if w == 28:                                   # while loop with references
            i, s = self.sym(), self.sym()
            init, finit = sub(t)
            k = r.randint(1, 6)
            it = self.sym()
            b, fb = e(t, env + [(s, ("ref", t)), (it, I)], d - 1)
            u, fu = e(U, env + [(s, ("ref", t)), (it, I)], d - 1)
            def ev(en):
                cell = Ref(finit(en))
                for j in range(k):
                    step()
                    e2 = {**en, s: cell, it: j}
                    fu(e2)
                    z = fb(e2)
                    cell.v = z
                return cell.v
            return (f"(let val {i} = ref 0 val {s} : {ty(('ref', t))} = ref ({init}) in while !{i} < {k} do let val {it} = !{i} in ({u}; {s} := {b}; {i} := {it} + 1) end; !{s} end)"), ev
        if w == 29:                                   # polymorphic helpers
            k = r.randrange(6)
            if k == 0:
                x, f = sub(t)
                return f"(pid {x})", f
            if k == 1:
                v = self.sym()
                b, fb = e(t, env + [(v, t)], d - 1)
                x, f = sub(t)
                def ev(en):
                    a = f(en)
                    a = fb({**en, v: a})
                    return fb({**en, v: a})
                return f"(ptwice (fn ({v} : {ty(t)}) => {b}) {x})", ev
            if k == 2:
                tt = self.rty(1)
                x, f = sub(("tup", (tt, t)))
                return f"(#1 (pswap ({x} : {ty(('tup', (tt, t)))})))", lambda en: f(en)[1]
            if k == 3:
                x, f = sub(("list", t))
                def ev(en):
                    l = f(en)
                    if not l: raise Exn("Empty")
                    return l[0]
                return f"(hd {x})", ev
            if k == 4:
                (x, f), (y, g) = sub(("opt", t)), sub(t)
                def ev(en):
                    o = f(en)
                    z = g(en)
                    return o[1] if o[0] == "SOME" else z
                return f"(getOpt ({x}, {y}))", ev
            uid, v = self.sym("L"), self.sym()        # local, generative exception
            (x, fx), (a, fa) = e(t, env, d - 1), sub(I)
            (c, fc), (h, fh) = sub(B), e(t, env + [(v, I)], d - 1)
            def ev(en):
                me = object()
                try:
                    if fc(en): raise Exn(uid, fa(en), me)
                    return fx(en)
                except Exn as ex:
                    if ex.uid is me: return fh({**en, v: ex.arg})
                    raise
            return f"(let exception {uid} of int in (if {c} then raise {uid} {a} else {x}) handle {uid} {v} => {h} end)", ev
        # state through references and arrays in scope
        rs = [x for x, tt in env if tt == ("ref", t)]
        if rs:
            x = r.choice(rs)
            return f"(!{x})", lambda en: en[x].v
        if showable(t) and r.random() < .3:
            a, x = self.sym(), self.sym()
            arr = ("arr", t)
            (l, fl) = sub(("list", t))
            b, fb = e(t, env + [(a, arr)], d - 1)
            u, fu = e(U, env + [(a, arr)], d - 1)
            def ev(en):
                e2 = {**en, a: Ref(list(szl(fl(en))))}
                fu(e2)
                z = fb(e2)
                St.log.append(self.pshow(arr, e2[a]))
                return z
            return f"(let val {a} = Array.fromList {l} val _ = {u} val {x} = {b} in log (({self.show(arr)}) {a}); {x} end)", ev
        return self.leaf(t, env)


def preal(v):
    """the fixed-point expansion that sR prints: sign, then bits from 2^40 to 2^-20"""
    s = "-" if v < 0 else "+"
    n = int(abs(v) * 2**20)
    return "R" + s + f"{n:x}"


PRELUDE = r'''
structure P = struct
  exception E0
  exception E1 of int
  exception E2 of string * int list
  val buf : string list ref = ref []
  fun log s = buf := s :: !buf
  fun sI n = Int.toString n
  fun sB true = "T" | sB false = "F"
  fun sS s = "s" ^ Drv.hex s
  fun sC c = "c" ^ Drv.hex (String.str c)
  fun sW (w : Word8.word) = "w" ^ Int.toString (Word8.toInt w)
  fun sU () = "()"
  val sInt32 = Int32.toString
  val sInt64 = Int64.toString
  val sIntInf = IntInf.toString
  fun sWord w = "w" ^ Word.toString w
  fun sWord32 w = "w" ^ Word32.toString w
  fun sWord64 w = "w" ^ Word64.toString w
  fun sL f l = "[" ^ String.concatWith "," (List.map f l) ^ "]"
  fun sV f v = "#[" ^ String.concatWith "," (Vector.foldr (fn (x, l) => f x :: l) [] v) ^ "]"
  fun sA f v = "A[" ^ String.concatWith "," (Array.foldr (fn (x, l) => f x :: l) [] v) ^ "]"
  fun sO f NONE = "N" | sO f (SOME x) = "S" ^ f x
  fun sRef f (ref x) = "r" ^ f x
  local
    fun pw (0, x : real) = x | pw (n, x) = pw (n - 1, x + x)
    fun bits (x : real, p : real, k, n : IntInf.int) = if k = 0 then n
          else if x >= p then bits (x - p, p * 0.5, k - 1, n + n + 1) else bits (x, p * 0.5, k - 1, n + n)
  in
  fun sR (x : real) = let val (s, a) = if x < 0.0 then ("-", ~x) else ("+", x)
        in "R" ^ s ^ String.map Char.toLower (IntInf.fmt StringCvt.HEX (bits (a, pw (40, 1.0), 61, 0))) end
  end
  fun pid x = x
  fun ptwice f x = f (f x)
  fun pswap (a, b) = (b, a)
end
'''
