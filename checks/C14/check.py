import sys, os, re, random, math, struct
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
from vlib import *
from fractions import Fraction as F
from decimal import Decimal
HERE = os.path.dirname(os.path.abspath(__file__))
INF = float("inf")


def sh(x):
    return "nan" if x != x else struct.pack(">d", x).hex()


def fb(b):
    return struct.unpack(">d", struct.pack(">Q", b))[0]


def bits(x):
    return struct.unpack(">Q", struct.pack(">d", x))[0]


def nxt(x, up):
    return math.nextafter(x, INF if up else -INF)


def rnd(q, mode, zsign=1.0):
    """the exact rational q rounded to a double in the mode"""
    if q == 0:
        return math.copysign(0.0, zsign)
    try:
        x = q.numerator / q.denominator     # correctly rounded to nearest even
    except OverflowError:
        x = INF if q > 0 else -INF
    if mode == "n":
        return x
    if x in (INF, -INF):
        e = 1 if q > 0 else -1
        mx = 1.7976931348623157e308 * e
        away = INF * e
        if abs(q) <= F(1.7976931348623157e308):
            return mx
        return away if (mode == "p") == (e > 0) and mode in "pm" else mx
    fx = F(x)
    if fx == q:
        return x if x != 0 else math.copysign(0.0, q)
    if mode == "p":
        x = x if fx > q else nxt(x, True)
    elif mode == "m":
        x = x if fx < q else nxt(x, False)
    else:
        if abs(fx) > abs(q):
            x = nxt(x, x < 0)
    if x == 0:
        x = math.copysign(0.0, q)
    return x


def arith(op, a, b, mode):
    if a != a or (b != b and op != "sqrt"):
        return math.nan
    ia, ib = math.isinf(a), math.isinf(b)
    if op == "sub":
        b, op = -b, "add"
    if op == "add":
        if ia and ib:
            return a if a == b else math.nan
        if ia or ib:
            return a if ia else b
        if a == 0 and b == 0 and math.copysign(1, a) == math.copysign(1, b):
            return a
        return rnd(F(a) + F(b), mode, -1.0 if mode == "m" else 1.0)
    s = math.copysign(1, a) * math.copysign(1, b)
    if op == "mul":
        if ia or ib:
            return math.nan if a == 0 or b == 0 else INF * s
        return rnd(F(a) * F(b), mode, s)
    if op == "div":
        if ia:
            return math.nan if ib else INF * s
        if ib:
            return 0.0 * s
        if b == 0:
            return math.nan if a == 0 else INF * s
        return rnd(F(a) / F(b), mode, s)
    if a == 0 or a == INF:
        return a
    if a < 0:
        return math.nan
    # square root: scale to an integer, isqrt, then decide exactly
    n, d = F(a).numerator, F(a).denominator
    k = 0
    q = F(a)
    while q < F(2)**110:
        q *= 4
        k += 1
    r = math.isqrt(int(q))
    lo = F(r) if F(r * r) == q else F(2 * r + 1, 2)   # sticky
    return rnd(lo / F(2)**k, mode)


def toint(x, mode, big):
    if x != x:
        return "Domain"
    if math.isinf(x):
        return "Overflow"
    q = F(x)
    n = {"n": round(q), "z": math.trunc(q), "p": math.ceil(q), "m": math.floor(q)}[mode]
    if not big and not -2**62 <= n < 2**62:
        return "Overflow"
    return str(n)


def rreal(r):
    k = r.randrange(12)
    s = r.choice([1, -1])
    if k == 0:
        return s * r.choice([0.0, INF, math.nan, 5e-324, 2.2250738585072014e-308, 2.225073858507201e-308, 1.7976931348623157e308, 1.0, 0.5, 1.5, 2.5])
    if k <= 2:
        return fb(r.getrandbits(64))
    if k == 3:
        return s * fb(r.getrandbits(52))
    if k == 4:
        return s * float(r.getrandbits(r.randint(1, 70)) + r.choice([0, 0.5, 0.25, 0.75]))
    if k == 5:
        return s * float(1 << r.randint(0, 70)) + r.choice([0, 1, -1, .5, -.5])
    if k == 6:
        return s * math.nextafter(float(2**r.choice([52, 53, 61, 62, 63, 30, 31])), r.choice([0, INF]))
    if k == 7:
        return s * float(f"{r.randint(1, 10**r.randint(1, 17))}e{r.randint(-20, 20)}")
    if k == 8:
        return s * (r.randint(0, 100) + .5)
    return s * r.uniform(0, 10**r.randint(-5, 18))


def ulps(a, b):
    if a == b:
        return 0
    if a != a or b != b or math.isinf(a) or math.isinf(b):
        return 0 if (a != a and b != b) else 1e9
    f = lambda x: bits(x) if x >= 0 else -(bits(x) & (2**63 - 1))
    return abs(f(a) - f(b))


def smlnum(s):
    return s.replace("-", "~")


def jfmt(g, x, n, k):
    """the numeral must have n digits after the point, and be a nearest one to the value, as given by its shortest decimal form"""
    if x != x or math.isinf(x):
        w = "nan" if x != x else "inf" if x > 0 else "~inf"
        return None if g == w else w
    pt = r"\.\d{%d}" % n if n else ""
    m = re.fullmatch(r"(~?)(\d+)(" + pt + ")" + (r"E(~?\d+)" if k == "s" else "()"), g)
    if not m or (m[1] == "~") != (math.copysign(1, x) < 0) or (k == "s" and (len(m[2]) != 1 or (m[2] == "0") != (x == 0))):
        return f"a numeral for {x!r} with {n} digits"
    e = int((m[4] or "0").replace("~", "-"))
    v, d = F(m[2] + m[3]) * F(10)**e, F(Decimal(repr(abs(x))))
    ok = abs(v - d) <= F(1, 2) / F(10)**(n - e)
    return None if ok else f"a nearest numeral to {x!r} with {n} digits"


def gen(r, n):
    """(line, judge) with judge(answer) -> None or what was expected"""
    out = []

    def eq(line, want):
        out.append((line, lambda g, w=want: None if g == w else w))
    for _ in range(n):
        x, y = rreal(r), rreal(r)
        if r.random() < .3:
            y = r.choice([x, -x, math.nextafter(x, INF), math.nextafter(x, -INF), x * 2])
        m = r.choice("nzpm")
        a, b = struct.pack(">d", x).hex(), struct.pack(">d", y).hex()
        op = r.choice(["add", "sub", "mul", "div", "sqrt"])
        eq(f"bin\t{m}\t{op}\t{a}\t{b}", sh(arith(op, x, y, m)) + f" {m}n")
        k = r.randrange(14)
        if k == 0:
            f = r.choice(["cos64", "sin64", "exp64", "log64", "sqrt64", "atan64"])
            try:
                w = getattr(math, f[:-2])(x)
            except OverflowError:
                w = INF
            except ValueError:
                w = -INF if f == "log64" and x == 0 else math.nan
            eq(f"raw\tn\t{f}\t{a}", sh(w) + " n")
        elif k == 1:
            op = r.choice(["floor", "ceil", "trunc", "round", "neg", "abs"])
            if op == "neg": w = -x
            elif op == "abs": w = abs(x)
            elif x != x or math.isinf(x): w = x
            else: w = math.copysign(float({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": round}[op](x)), x)
            eq(f"un\t{op}\t{a}", sh(w))
        elif k == 2:
            eq(f"toInt\t{m}\t{a}", toint(x, m, False))
            eq(f"toLarge\t{m}\t{a}", toint(x, m, True))
        elif k == 3:
            v = r.choice([1, -1]) * (r.getrandbits(r.choice([1, 30, 53, 54, 55, 62, 64, 65, 100, 300, 1023, 1024, 1100])) + r.choice([0, 1]))
            eq(f"fromLarge\tn\t{smlnum(str(v))}", sh(rnd(F(v), "n")))
            v = max(-2**62, min(2**62 - 1, r.choice([1, -1]) * r.getrandbits(r.randint(1, 62))))
            eq(f"fromInt\t{m}\t{smlnum(str(v))}", sh(rnd(F(v), m)))
        elif k == 4:
            if x != x or math.isinf(x) or x == 0:
                eq(f"manexp\t{a}", f"{sh(x)} 0 {sh(x)}")
            else:
                mm, e = math.frexp(x)
                eq(f"manexp\t{a}", f"{sh(mm)} {e} {sh(x)}")
            e = r.choice([0, 1, -1, r.randint(-1100, 1100), r.randint(-2200, 2200), r.randint(-60, 60)])
            w = x if x != x or math.isinf(x) or x == 0 else rnd(F(x) * F(2)**e, "n", x)
            eq(f"frommanexp\t{a}\t{smlnum(str(e))}", sh(w))
        elif k == 5:
            if x != x: w = (x, x)
            elif math.isinf(x): w = (x, math.copysign(0.0, x))
            else:
                fr, wh = math.modf(x)
                w = (wh, fr)
            eq(f"split\t{a}", f"{sh(w[0])} {sh(w[1])} {sh(w[1])}")
        elif k == 6:
            w = x if math.isinf(x) else x if x == y else math.nextafter(x, y)
            eq(f"next\t{a}\t{b}", sh(w))
            try:
                w = math.fmod(x, y)
            except ValueError:
                w = math.nan
            eq(f"rem\t{a}\t{b}", sh(w))
        elif k == 7:
            u = x != x or y != y
            rel = "".join(str(int(v)) for v in (x < y, x <= y, x > y, x >= y, x == y, x != y, x == y or u, u))
            cmp = "Unordered" if u else "<" if x < y else ">" if x > y else "="
            mn = y if x != x else x if y != y else min(x, y)
            mx = y if x != x else x if y != y else max(x, y)
            ss = math.copysign(1, x) == math.copysign(1, y)

            def jrel(g, rel=rel, cmp=cmp, mn=mn, mx=mx, ss=ss, x=x, y=y):
                f = g.split(" ")
                ok = f[0] == rel and f[1] == cmp and (f[2] == sh(mn) or x == y == 0) and (f[3] == sh(mx) or x == y == 0) \
                    and f[4] == str(int(ss)) and f[5] == sh(math.copysign(x, y))
                return None if ok else f"{rel} {cmp} {sh(mn)} {sh(mx)} {int(ss)} {sh(math.copysign(x, y))}"
            out.append((f"rel\t{a}\t{b}", jrel))
        elif k == 8:
            c = "nan" if x != x else "inf" if math.isinf(x) else "zero" if x == 0 else "subnormal" if abs(x) < 2.2250738585072014e-308 else "normal"
            fl = "".join(str(int(v)) for v in (math.isfinite(x), c == "normal", x != x, math.copysign(1, x) < 0))
            sg = "Domain" if x != x else str((x > 0) - (x < 0))
            ck = "Div" if x != x else "Overflow" if math.isinf(x) else sh(x)
            eq(f"cls\t{a}", f"{c}{fl} {sg} {ck}")
            if x == x:
                i = r.randint(0, 5)
                eq(f"pack\t{a}\t{i}", f"{a.upper()} " + " ".join([sh(x)] * 5) + f" 11 {sh(x)} SSSSS")
        elif k == 9:
            d = r.choice([0, 1, 2, 6, 15, 16, 17, 20, 30])
            for k in "fs":
                if k == "s" or abs(x) < 1e25 or x != x or math.isinf(x):
                    out.append((f"fmt\t{k}\t{d}\t{a}", lambda g, x=x, d=d, k=k: jfmt(g, x, d, k)))
        elif k == 10:
            def jstr(g, x=x):
                if x != x or math.isinf(x):
                    w = "nan" if x != x else "inf" if x > 0 else "~inf"
                    return None if g == w else w
                return None if g and sh(float(g.replace("~", "-"))) == sh(x) and ("." in g or "E" in g) else f"a numeral that reads back as {x!r}"
            if x == x and not math.isinf(x) and x != 0:
                sg, ds, ex = Decimal(repr(x)).as_tuple()
                ds = "".join(map(str, ds)).rstrip("0")
                full = "".join(map(str, Decimal(repr(x)).as_tuple()[1]))
                eq(f"dec\t{a}", f"{sg} {ds} {len(full) + ex} {sh(x)}")
        elif k == 11:
            s = r.choice(["", "~", "-", "+"]) + r.choice([f"{r.randint(0, 10**r.randint(1, 25))}", f"{r.randint(0, 999)}.{r.randint(0, 10**r.randint(1, 20))}", f".{r.randint(0, 10**6)}"])
            if r.random() < .6:
                s += r.choice("eE") + r.choice(["", "~", "-"]) + str(r.choice([0, 1, 5, r.randint(0, 30), r.randint(0, 340)]))
            try:
                w = float(s.replace("~", "-"))
            except OverflowError:
                w = INF
            sig = len(re.sub(r"\D", "", re.split("[eE]", s)[0]).strip("0"))

            def jscan(g, w=w, tol=0 if sig <= 17 else 1):
                try:
                    v = fb(int(g, 16))
                except ValueError:
                    return sh(w)
                return None if sh(v) == sh(w) or (tol and (ulps(v, w) <= tol)) else sh(w)
            out.append((f"scan\t{hx(r.choice(['', ' ', chr(10) + chr(9)]) + s + r.choice(['', ' ', 'x', '.']))}", jscan))
        elif k == 12:
            f = r.choice(["sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "exp", "ln", "log10", "sinh", "cosh", "tanh"])
            z = x
            if f in ("asin", "acos"):
                z = r.uniform(-1, 1)
            elif f in ("sin", "cos", "tan"):
                z = r.uniform(-50, 50)
            elif f in ("sinh", "cosh", "exp"):
                z = r.uniform(-700, 700)
            elif f in ("ln", "log10"):
                z = abs(x)
            py = {"ln": math.log}.get(f) or getattr(math, f)
            try:
                w = py(z)
            except OverflowError:
                w = INF
            except ValueError:
                w = -INF if f in ("ln", "log10") and z == 0 else math.nan

            def jm(g, w=w, f=f):
                try:
                    v = math.nan if g == "nan" else fb(int(g, 16))
                except ValueError:
                    return f"{w!r}"
                ok = ulps(v, w) == 0 or (f != "sqrt" and abs(v - w) <= max(1e-11 * abs(w), 1e-15))
                return None if ok else f"{w!r} ({sh(w)})"
            out.append((f"math\t{f}\t{struct.pack('>d', z).hex()}", jm))
        else:
            s = "".join(r.choice("0123") for _ in range(r.randint(1, 6)))
            eq(f"ctl\t{s}", ",".join(s))
    return out


def judge(j, g):
    try:
        return j(g)
    except Exception as e:
        return f"(unreadable: {e})"


def body():
    c = Check("C14", "an evaluation is one real operation compared: IEEE arithmetic in all rounding modes, conversions, classification, decimal text and elementary functions "
              "against exact rational arithmetic and the C library; distinct = distinct operations with operands")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    r = random.Random(seed * 104729 + 14)
    c.build(("asan", "verif"))
    img = c.sml_heap("real", {"drv.sml": open(VERIF + "/lib/drv.sml").read(), "main.sml": open(HERE + "/main.sml").read()}, ["$smlnj/init/init.cmi : cm"] if False else [])
    if not img:
        return c.finish()
    cases = gen(r, c.n(20000, 300000))
    runs = [("prod", None, [], cases)]
    sub = cases[:c.n(3000, 30000)]
    runs += [("asan", c.rt["asan"], [], sub), ("verif", c.rt["verif"], [], sub[:1500]), ("small", None, ["@SMLalloc=8k"], sub)]
    for name, rt, rtargs, cs in runs:
        got = run_ops(c, img, name, [l for l, _ in cs], rt=rt, rtargs=rtargs)
        if not got:
            continue
        bad = []
        for (l, j), g in zip(cs, got):
            f = l.split("\t")
            kind = ":".join(f[:3] if f[0] == "bin" else f[:2] if f[0] in ("un", "math", "raw", "fmt") else f[:1])
            c.seen(l)
            w = judge(j, g)
            if w is None:
                c.check(True, kind, "", None)
            else:
                bad.append((l, j, g, w, kind))
        # a wrong answer that is right on its own came from a collection at the wrong moment (see known_findings.json)
        again = run_ops(c, img, name + "-again", [x[0] for x in bad[:300]], rt=rt, rtargs=["@SMLalloc=64m"]) if bad else []
        for i, (l, j, g, w, kind) in enumerate(bad):
            once = bool(again) and i < len(again) and judge(j, again[i]) is None
            c.check(False, kind + (":once" if once else ""), f"{l} gave {g}, not {w} ({name}{', once' if once else ''})", {"op": l, "got": g, "want": w})
    c.finish()


main(body)
