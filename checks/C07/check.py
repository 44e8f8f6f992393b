import sys, os, random, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))
sys.set_int_max_str_digits(200000)
INTS = {"Int": 63, "Int32": 32, "Int64": 64, "IntInf": None}
WORDS = {"Word": 63, "Word8": 8, "Word32": 32, "Word64": 64}


class Exn(Exception):
    pass


def sm(v):
    return str(v).replace("-", "~")


def wrap_i(T, v):
    b = INTS[T]
    if b is not None and not -(1 << (b - 1)) <= v < 1 << (b - 1):
        raise Exn("Overflow")
    return v


def quot(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def iop(T, op, a, b=None):
    if op in ("div", "mod", "quot", "rem"):
        if b == 0:
            raise Exn("Div")
        q = {"div": a // b, "quot": quot(a, b), "mod": a % b, "rem": a - b * quot(a, b)}[op]
        return wrap_i(T, q)
    return wrap_i(T, {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "neg": lambda: -a, "abs": lambda: abs(a)}[op]())


def sx(T, v):
    b = WORDS[T]
    return v - (1 << b) if v >> (b - 1) else v


def wop(T, op, a, b=None):
    n = WORDS[T]
    m = (1 << n) - 1
    if op in ("div", "mod"):
        if b == 0:
            raise Exn("Div")
        return a // b if op == "div" else a % b
    if op == "<<":
        return (a << b) & m if b < 200 else 0
    if op == ">>":
        return a >> b if b < 200 else 0
    if op == "~>>":
        return (sx(T, a) >> min(b, 200)) & m
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "andb": lambda: a & b, "orb": lambda: a | b, "xorb": lambda: a ^ b,
            "notb": lambda: ~a, "neg": lambda: -a}[op]() & m


def rnd(r, bits, signed):
    """a value with emphasis on powers of two and their neighbours"""
    x = r.random()
    if bits is None:
        k = r.choice([1, 8, 30, 31, 32, 33, 59, 60, 61, 62, 63, 64, 65, 90, 120, 121, 128, 200, 600])
        v = r.choice([(1 << k) + r.choice([-1, 0, 1]), r.getrandbits(k), 10 ** r.randint(0, 60), r.randint(0, 20)])
        return v if r.random() < .5 else -v
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if x < .25:
        v = r.choice([lo, lo + 1, hi, hi - 1, hi // 2, hi // 2 + 1, lo // 2, lo // 2 - 1])
    elif x < .5:
        v = (1 << r.randint(0, bits)) + r.choice([-1, 0, 1])
        v = v if r.random() < .5 or not signed else -v
    elif x < .75:
        v = r.randint(-12, 12) if signed else r.randint(0, 20)
    else:
        v = r.getrandbits(r.randint(1, bits))
        v = v if r.random() < .5 or not signed else -v
    return max(lo, min(hi, v))


ORD = lambda a, b: "LESS" if a < b else "GREATER" if a > b else "EQUAL"
BO = lambda x: "true" if x else "false"


def digits(v, base):
    s = "" if v else "0"
    while v:
        s = "0123456789ABCDEF"[v % base] + s
        v //= base
    return s


def attempt(f):
    try:
        return f()
    except Exn as e:
        return "!" + str(e)


def scan_int(r, T, word):
    """(string, radix, expected value or None) for the scanners"""
    rad = r.choice("boxd")
    base = {"b": 2, "o": 8, "x": 16, "d": 10}[rad]
    ds = "0123456789abcdefABCDEF"
    ok = ds[:base] if base <= 10 else ds
    pre = r.choice(["", "", " ", "\n\t ", "\v\f "])
    sign = r.choice(["", "", "~", "-", "+"]) if not word else ""
    p2 = ""
    if rad == "x" and r.random() < .4:
        p2 = r.choice(["0x", "0X"] if not word else ["0wx", "0wX", "0x", "0X"])
    elif word and rad != "x" and r.random() < .3:
        p2 = "0w"
    bits = (WORDS if word else INTS)[T] or 200
    n = r.choice([1, 2, 5, bits // {2: 1, 8: 3, 16: 4, 10: 3}[base], bits // {2: 1, 8: 3, 16: 4, 10: 3}[base] + r.choice([-1, 1, 2]), 30])
    body = "".join(r.choice(ok) for _ in range(max(1, n)))
    if r.random() < .2:
        body = "0" * r.randint(1, 70) + body
    tail = r.choice(["", "", " ", "x", "zz", ".5", "g", "~", "\0"])
    if tail[:1] in ("x",) and rad != "x" and body == "0":
        tail = ""
    s = pre + sign + p2 + body + tail
    v = int(body, base)
    return s, rad, -v if sign in ("~", "-") else v


def gen_expr(r, T, depth, word, vars):
    """(sml text, python function of an environment)"""
    if depth == 0 or r.random() < .15:
        if r.random() < .6:
            x = r.choice(vars)
            return x, lambda env, x=x: env[x]
        bits = WORDS[T] if word else INTS[T]
        v = rnd(r, bits, not word)
        t = (f"0wx{v:x}" if r.random() < .5 else f"0w{v}") if word else sm(v)
        return f"({t} : {T}.{'word' if word else 'int'})", lambda env, v=v: v
    x = r.random()
    a, fa = gen_expr(r, T, depth - 1, word, vars)
    if x < .1:
        op = r.choice(["notb", "neg"] if word else ["neg", "abs"])
        t = {"neg": f"{T}.~ {a}" if not a.startswith("(") else f"{T}.~ {a}", "abs": f"{T}.abs {a}", "notb": f"{T}.notb {a}"}[op]
        return f"({t})", (lambda env: wop(T, op, fa(env))) if word else (lambda env: iop(T, op, fa(env)))
    b, fb = gen_expr(r, T, depth - 1, word, vars)
    if x < .2:
        c1, fc1 = gen_expr(r, T, 0, word, vars)
        c2, fc2 = gen_expr(r, T, 0, word, vars)
        rel = r.choice(["<", "<=", ">", ">=", "=", "<>"])
        f = {"<": lambda p, q: p < q, "<=": lambda p, q: p <= q, ">": lambda p, q: p > q, ">=": lambda p, q: p >= q, "=": lambda p, q: p == q, "<>": lambda p, q: p != q}[rel]
        return f"(if {c1} {rel} {c2} then {a} else {b})", lambda env: fa(env) if f(fc1(env), fc2(env)) else fb(env)
    if word:
        op = r.choice(["+", "-", "*", "div", "mod", "andb", "orb", "xorb", "<<", ">>", "~>>"])
        if op in ("<<", ">>", "~>>"):
            k = r.choice([0, 1, 2, 3, 7, 8, 31, 32, 33, 62, 63, 64, 65])
            return f"({T}.{op} ({a}, 0w{k}))", lambda env: wop(T, op, fa(env), k)
    else:
        op = r.choice(["+", "+", "-", "-", "*", "div", "mod", "quot", "rem"])

    def ev(env):
        x = fa(env)
        y = fb(env)
        return wop(T, op, x, y) if word else iop(T, op, x, y)
    if op in ("+", "-", "*", "div", "mod"):
        return f"({a} {op} {b})", ev
    return f"({T}.{op} ({a}, {b}))", ev


def body():
    c = Check("C07", "an evaluation is one arithmetic, comparison, conversion, formatting or scanning operation (or generated function application, or series of traps) whose value or exception was compared "
              "with exact integer arithmetic; distinct = distinct operations with operands")
    c.build(variants=("asan", "verif"))
    r = random.Random(c.seed)
    # generated functions with constants, compiled by the system
    gens = {}
    src = ["structure Gen = struct\n"]
    for T in list(INTS) + list(WORDS):
        word = T in WORDS
        fs = []
        for k in range(c.n(45, 300)):
            t, f = gen_expr(r, T, r.choice([1, 1, 2, 2, 3, 4]), word, ["x", "y"])
            if "x" not in t and "y" not in t:
                continue
            fs.append((t, f))
        gens[T] = fs
        ty = f"{T}.{'word' if word else 'int'}"
        for k, (t, f) in enumerate(fs):
            src.append(f"fun {T}_{k} (x : {ty}, y : {ty}) : {ty} = {t}\n")
        src.append(f"val {T}_v = #[{', '.join(f'{T}_{k}' for k in range(len(fs)))}]\n")
        rd = f"valOf (StringCvt.scanString ({T}.scan StringCvt.HEX) s)" if word else f"valOf ({T}.fromString s)"
        src.append(f"fun {T}_r s = {rd}\n")
    src.append("fun f [t, k, a, b] = (case t of " + " | ".join(
        f'"{T}" => {T}.toString (Vector.sub ({T}_v, valOf (Int.fromString k)) ({T}_r a, {T}_r b))' for T in gens) + ' | _ => "?") | f _ = "?"\nend\n')
    img = c.sml_heap("wl", {"drv.sml": open(VERIF + "/lib/drv.sml").read(), "arith.sml": open(HERE + "/arith.sml").read(), "gen.sml": "".join(src),
                            "main.sml": open(HERE + "/main.sml").read()}, [])
    if img is None:
        c.finish()
    L, W = [], []

    def add(line, want):
        L.append(line)
        W.append(want)
    for T, bits in INTS.items():
        p = f"SOME {bits}" if bits else "NONE"
        lim = (f"SOME {sm(-(1 << (bits - 1)))}SOME {(1 << (bits - 1)) - 1}") if bits else "NONENONE"
        add(f"{T}\tlimits", p + lim)
        for _ in range(c.n(2600, 40000)):
            a, b = rnd(r, bits, True), rnd(r, bits, True)
            op = r.choice(["+", "-", "*", "div", "mod", "quot", "rem", "+", "-", "*", "div", "mod", "quot", "rem", "neg", "abs", "cmp", "minmax", "sign", "toInt", "toLarge", "fromInt", "fromLarge", "fmt", "scan", "fromString"])
            A, B = sm(a), sm(b)
            if op in ("neg", "abs"):
                add(f"{T}\t{op}\t{A}", attempt(lambda: sm(iop(T, op, a))))
            elif op == "cmp":
                b = r.choice([a, b])
                B = sm(b)
                add(f"{T}\tcmp\t{A}\t{B}", ORD(a, b) + BO(a < b) + BO(a <= b) + BO(a > b) + BO(a >= b) + BO(a == b))
            elif op == "minmax":
                add(f"{T}\tminmax\t{A}\t{B}", f"{sm(min(a, b))},{sm(max(a, b))}")
            elif op == "sign":
                s = lambda v: (v > 0) - (v < 0)
                add(f"{T}\tsign\t{A}\t{B}", sm(s(a)) + BO(s(a) == s(b)))
            elif op == "toInt":
                add(f"{T}\ttoInt\t{A}", attempt(lambda: sm(wrap_i("Int", a))))
            elif op == "toLarge":
                add(f"{T}\ttoLarge\t{A}", A)
            elif op == "fromInt":
                v = rnd(r, 63, True)
                add(f"{T}\tfromInt\t{sm(v)}", attempt(lambda: sm(wrap_i(T, v))))
            elif op == "fromLarge":
                v = rnd(r, None, True)
                add(f"{T}\tfromLarge\t{sm(v)}", attempt(lambda: sm(wrap_i(T, v))))
            elif op == "fmt":
                k = r.choice("boxd")
                add(f"{T}\tfmt\t{A}\t{k}", ("~" if a < 0 else "") + digits(abs(a), {"b": 2, "o": 8, "x": 16, "d": 10}[k]))
            elif op in ("scan", "fromString"):
                s, k, v = scan_int(r, T, False)
                if op == "fromString" and k != "d":
                    continue
                w = attempt(lambda: sm(wrap_i(T, v)))
                add(f"{T}\tscan\t{hx(s.encode())}\t{k}" if op == "scan" else f"{T}\tfromString\t{hx(s.encode())}", w)
            else:
                add(f"{T}\t{op}\t{A}\t{B}", attempt(lambda: sm(iop(T, op, a, b))))
    for _ in range(c.n(2500, 40000)):
        a, b = rnd(r, None, True), rnd(r, None, True)
        op = r.choice(["pow", "log2", "divMod", "quotRem", "andb", "orb", "xorb", "notb", "<<", "~>>"])
        k = r.choice([0, 1, 2, 3, 5, 10, 29, 30, 31, 32, 60, 61, 62, 64, 100])
        if op == "pow":
            if r.random() < .15:
                k = -k
                e = 1 if k == 0 else (None if a == 0 else a if abs(a) == 1 and k % 2 else 1 if abs(a) == 1 else 0)
                add(f"Inf\tpow\t{sm(a)}\t{sm(k)}", "!Div" if e is None else sm(e))
            else:
                add(f"Inf\tpow\t{sm(a)}\t{k}", sm(a ** k))
        elif op == "log2":
            add(f"Inf\tlog2\t{sm(a)}", "!Domain" if a <= 0 else str(a.bit_length() - 1))
        elif op in ("divMod", "quotRem"):
            o = ("div", "mod") if op == "divMod" else ("quot", "rem")
            add(f"Inf\t{op}\t{sm(a)}\t{sm(b)}", attempt(lambda: sm(iop("IntInf", o[0], a, b)) + "," + sm(iop("IntInf", o[1], a, b))))
        elif op == "notb":
            add(f"Inf\tnotb\t{sm(a)}", sm(~a))
        elif op in ("<<", "~>>"):
            add(f"Inf\t{op}\t{sm(a)}\t{k}", sm(a << k if op == "<<" else a >> k))
        else:
            add(f"Inf\t{op}\t{sm(a)}\t{sm(b)}", sm({"andb": a & b, "orb": a | b, "xorb": a ^ b}[op]))
    for T, bits in WORDS.items():
        m = (1 << bits) - 1
        add(f"{T}\tlimits", str(bits))
        for _ in range(c.n(2600, 40000)):
            a, b = rnd(r, bits, False), rnd(r, bits, False)
            op = r.choice(["+", "-", "*", "div", "mod", "andb", "orb", "xorb", "notb", "neg", "<<", ">>", "~>>", "cmp", "minmax", "toInt", "toIntX", "toLargeInt", "toLargeIntX", "toLarge", "toLargeX", "fromLarge", "fromInt", "fromLargeInt", "fmt", "scan"])
            A, B = f"{a:x}", f"{b:x}"
            if op in ("notb", "neg"):
                add(f"{T}\t{op}\t{A}", f"{wop(T, op, a):X}")
            elif op in ("<<", ">>", "~>>"):
                k = r.choice([0, 1, 2, 7, 8, 9, 31, 32, 33, bits - 1, bits, bits + 1, 62, 63, 64, 65, 127, 128, 256, 1 << 32, (1 << 63) - 1, 1 << 62])
                add(f"{T}\t{op}\t{A}\t{k:x}", f"{wop(T, op, a, k):X}")
            elif op == "cmp":
                b = r.choice([a, b])
                add(f"{T}\tcmp\t{A}\t{b:x}", ORD(a, b) + BO(a < b) + BO(a <= b) + BO(a > b) + BO(a >= b) + BO(a == b))
            elif op == "minmax":
                add(f"{T}\tminmax\t{A}\t{B}", f"{min(a, b):X},{max(a, b):X}")
            elif op == "toInt":
                add(f"{T}\ttoInt\t{A}", attempt(lambda: sm(wrap_i("Int", a))))
            elif op == "toIntX":
                add(f"{T}\ttoIntX\t{A}", attempt(lambda: sm(wrap_i("Int", sx(T, a)))))
            elif op == "toLargeInt":
                add(f"{T}\ttoLargeInt\t{A}", str(a))
            elif op == "toLargeIntX":
                add(f"{T}\ttoLargeIntX\t{A}", sm(sx(T, a)))
            elif op == "toLarge":
                add(f"{T}\ttoLarge\t{A}", f"{a:X}")
            elif op == "toLargeX":
                add(f"{T}\ttoLargeX\t{A}", f"{sx(T, a) & (2**64 - 1):X}")
            elif op == "fromLarge":
                v = rnd(r, 64, False)
                add(f"{T}\tfromLarge\t{v:x}", f"{v & m:X}")
            elif op == "fromInt":
                v = rnd(r, 63, True)
                add(f"{T}\tfromInt\t{sm(v)}", f"{v & m:X}")
            elif op == "fromLargeInt":
                v = rnd(r, None, True)
                add(f"{T}\tfromLargeInt\t{sm(v)}", f"{v & m:X}")
            elif op == "fmt":
                k = r.choice("boxd")
                add(f"{T}\tfmt\t{A}\t{k}", digits(a, {"b": 2, "o": 8, "x": 16, "d": 10}[k]))
            elif op == "scan":
                s, k, v = scan_int(r, T, True)
                add(f"{T}\tscan\t{hx(s.encode())}\t{k}", f"{v:X}" if v <= m else "!Overflow")
            else:
                add(f"{T}\t{op}\t{A}\t{B}", attempt(lambda: f"{wop(T, op, a, b):X}"))
    for T, fs in gens.items():
        word = T in WORDS
        bits = WORDS.get(T) or INTS.get(T)
        for k, (t, f) in enumerate(fs):
            for _ in range(c.n(25, 60)):
                a, b = rnd(r, bits, not word), rnd(r, bits, not word)
                try:
                    v = f({"x": a, "y": b})
                    w = f"{v:X}" if word else sm(v)
                except Exn as e:
                    w = "EXN " + str(e)
                add(f"gen\t{T}\t{k}\t{(f'{a:x}' if word else sm(a))}\t{(f'{b:x}' if word else sm(b))}", w)
    order = list(range(len(L)))
    r.shuffle(order)
    traps, tw = [], []
    for _ in range(c.n(24, 100)):
        n = r.choice([1, 10, 3000, 20000])
        traps.append(f"trap\tmany\t{n}")
        dv = sum(1 for i in range(1, n + 1) if i % 7 in (4, 5))
        ln = n if n < 1000 else 1000
        tw.append(f"{n - dv} {dv} {ln}")
        d, k = r.choice([1, 100, 100000]), r.choice([1, 2, 7, 1000])
        traps.append(f"trap\tdeep\t{d}\t{k}")
        tw.append("Overflow")
        a = r.choice([1, 5, 2**61, 2**62 - 1])
        traps.append(f"trap\tlocals\t{a}\t7\tabc")
        tw.append(f"~5,{a},7.0,abcabcx,{a:X}")
        traps.append("trap\thistory")
        tw.append("1 <file arith.sml> overflow")
        us = r.choice([500, 1000, 3000])
        traps.append(f"trap\tstorm\t60000\t{us}")
        dv = sum(1 for i in range(1, 60001) if i % 7 in (4, 5))
        tw.append(f"{60000 - dv} {dv} 1000 ok ")
    stormed = 0
    for tag, rt, args, env, sel in (("std", None, [], None, 1), ("small", None, ["@SMLalloc=128k"], None, 2), ("asan", c.rt["asan"], [], None, 6), ("verif", c.rt["verif"], [], {"VERIF_GC_PERIOD": "50"}, 6)):
        idx = order[::sel]
        ls = [L[i] for i in idx]
        ts, ws = traps[::1 if sel < 6 else 2], tw[::1 if sel < 6 else 2]
        out = run_ops(c, img, tag, ls, rt=rt, rtargs=args, env=env, timeout=400)
        if out is not None:
            for i, o in zip(idx, out):
                c.seen(L[i])
                if not c.check(o == W[i], ":".join(L[i].split("\t")[:2]) + (":smallest by ~1" if L[i].split("\t")[2:] == [sm(-2**63), "~1"] else ""), f"{L[i]!r}: got {o[:200]}, expected {W[i][:200]}",
                               {"rt": tag, "function": gens[L[i].split(chr(9))[1]][int(L[i].split(chr(9))[2])][0] if L[i].startswith("gen") else None}):
                    pass
        out = run_ops(c, img, tag + "-traps", ts, rt=rt, rtargs=args, env=env, timeout=600)
        if out is not None:
            for l, o, w in zip(ts, out, ws):
                c.seen(tag + l)
                if "storm" in l:
                    stormed += o.endswith("y")
                    o = o[:-1]
                c.check(o == w, "trap:" + l.split("\t")[1], f"{l!r}: got {o[:200]}, expected {w}", {"rt": tag})
        x = c.run_heap(img, ["uncaught"], rt=rt, rtargs=args, env=env, timeout=60)
        c.check(x.rc == 1 and b"bogus" not in x.out, "uncaught", f"uncaught Overflow: status {x.rc}", x.text[-300:])
    c.require(stormed > 5, f"signals during traps: {stormed}")
    c.finish(operations=len(L), generated_functions=sum(len(f) for f in gens.values()), trap_series=len(traps), storms_with_signals=stormed)


main(body)
