import sys, os, random, re, struct, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))


def hsh(s):
    h = 7
    for x in s:
        h = (h * 31 + x) % 1000000007
    return h


def show(s):
    return hx(s) if len(s) <= 64 else f"{len(s)}:{hsh(s)}"


def I(n, k):
    return (n & ((1 << (8 * k)) - 1)).to_bytes(k, "big")


def enc_int(r, v, b64=False):
    """one of the encodings that can represent v"""
    o = []
    if not b64 and 0 <= v <= 10:
        o.append(bytes([v]))
    if not b64 and -5 <= v <= -1:
        o.append(bytes([0x0A - v]))
    base = 0x17 if b64 else 0x10
    for i, k in enumerate((1, 2, 4, 8)):
        if -(1 << (8 * k - 1)) <= v < 1 << (8 * k - 1):
            o.append(bytes([base + i]) + I(v, k))
    return r.choice(o)


EDGE = [0, 1, 2, 5, 9, 10, 11, 16, -1, -4, -5, -6, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
        2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32 - 1, 2**32, 2**62 - 1, -2**62]


class Prog:
    def __init__(self, r, budget, big, saves):
        self.r, self.budget, self.big, self.saves = r, budget, big, saves
        self.code, self.depth, self.maxd = bytearray(), 0, 0
        self.slots = []         # (slot number, expected text of the value, boxed)
        self.kinds = {}

    def op(self, b, pops=0):
        self.code += b
        self.depth += 1 - pops
        self.maxd = max(self.maxd, self.depth)

    def count(self, n, imm, u8, u32):
        o = []
        if imm and n in imm:
            o.append(bytes([imm[n]]))
        if u8 is not None and n < 256:
            o.append(bytes([u8]) + I(n, 1))
        if u32:
            o.append(bytes([u32[0]]) + I(n, u32[1]))
        return self.r.choice(o)

    def value(self, lvl):
        """emit code for a value; returns (type tokens, expected text tokens, boxed)"""
        r = self.r
        self.budget -= 1
        x = r.random()
        if self.slots and x < .15:
            k, boxed = r.choice(self.slots)
            self.op(bytes([0x46]) + I(k, 1) if k < 256 and r.random() < .6 else bytes([0x47]) + I(k, 2))
            return [f"L{k}"], ["="]
        if lvl > 0 and self.budget > 0 and x < .6:
            n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 20] + ([255, 256, 300, 511, 512, 513, 900] if r.random() < .1 else []))
            vec = r.random() < .35
            if not vec and n == 0:
                n = 1
            ts, xs = [], []
            for _ in range(n):
                t, y = self.value(lvl - 1) if n < 200 else self.small()
                ts += t
                xs += y
            if vec:
                self.op(self.count(n, None, 0x39, (0x3A, 4)), n)
                t, y = ["V%d" % n] + ts, [f"[{n}"] + xs + ["]"]
            else:
                self.op(self.count(n, {i: 0x2F + i for i in range(1, 8)}, 0x37, (0x38, 4)), n)
                t, y = ["R%d" % n] + ts, ["("] + xs + [")"]
            self.kinds["vector" if vec else "record"] = 1
        elif x < .8:
            n = r.choice([0, 1, 2, 7, 8, 9, 15, 16, 17, 40, 254, 255, 256, 257, 1000])
            if self.big and r.random() < .5:
                n = r.choice([4080, 4096, 5000, 30000, 65000, 65535, 65536, 65537, 100000, 131072, 200000, 600000, 1000000])
                self.big -= 1
            s = r.randbytes(n) if r.random() < .7 else bytes([r.choice([0, 255, 65])]) * n
            self.op(self.count(n, None, 0x2C, (0x2D, 8)) + s)
            t, y = ["s"], [show(s)]
            self.kinds["string"] = 1
        elif x < .9:
            n = r.choice([1, 2, 3, 8, 64, 255] + ([256, 511, 513, 3000] if r.random() < .3 else []))
            if self.big and r.random() < .3:
                n = r.choice([8191, 8192, 8193, 16384, 20000, 60000])
                self.big -= 1
            ws = [r.getrandbits(64) for _ in range(n)]
            is64 = r.random() < .5
            h = self.count(n, None, 0x41, (0x42, 4)) if is64 else self.count(n, {1: 0x3B, 2: 0x3C}, 0x3D, (0x3E, 4))
            self.op(h + b"".join(I(w, 8) for w in ws))
            t, y = [f"W{n}"], [show(b"".join(w.to_bytes(8, "little") for w in ws))]
            self.kinds["raw64" if is64 else "raw"] = 1
        elif self.big and x < .95:
            n = r.choice([600, 8190, 8191, 8192, 16000, 30000, 70000])
            self.big -= 1
            vs = [r.choice(EDGE) if r.random() < .05 else r.randint(-9, 20) for _ in range(n)]
            for v in vs:
                self.op(enc_int(r, v))
            self.op(self.count(n, None, 0x39, (0x3A, 4)), n)
            h = 7
            for v in vs:
                h = (h * 31 + v % 65536) % 1000000007
            t, y = ["v"], [f"v{n}:{h}"]
            self.kinds["bigvector"] = 1
        else:
            return self.small()
        if self.saves and r.random() < .3 and t != ["V0"] and y != ["-"]:
            return self.save(t, y)
        return t, y

    def save(self, t, y):
        k = self.saves.pop()
        self.code += bytes([0x44]) + I(k, 1) if k < 256 and self.r.random() < .6 else bytes([0x45]) + I(k, 2)
        self.slots.append((k, True))
        return [f"K{k}"] + t, y

    def small(self):
        r = self.r
        if r.random() < .75:
            v = r.choice(EDGE) if r.random() < .6 else r.randint(-2**62, 2**62 - 1)
            self.op(enc_int(r, v))
            self.kinds["int"] = 1
            return ["i"], [str(v).replace("-", "~")]
        v = r.choice(EDGE + [2**63 - 1, -2**63]) if r.random() < .6 else r.randint(-2**63, 2**63 - 1)
        self.op(enc_int(r, v, True))
        self.kinds["int64"] = 1
        return ["l"], [hx((v & (2**64 - 1)).to_bytes(8, "little"))]


def gen(r, big=0):
    nsave = r.choice([0, 0, 1, 3, 10, 200, 511, 512, 513, 700, 3000, 40000] if r.random() < .4 else [0, 2, 5])
    slots = list(range(nsave))
    r.shuffle(slots)
    p = Prog(r, r.choice([1, 5, 30, 200, 2000]), big, slots[:300])
    n = r.choice([1, 2, 3, 7, 8, 40])
    ts, xs = [], []
    if nsave > 256 and r.random() < .5:       # fill many slots first
        for _ in range(min(250, len(p.saves))):
            s = r.randbytes(r.choice([1, 5, 9]))
            p.op(bytes([0x2C, len(s)]) + s)
            t, y = p.save(["s"], [show(s)])
            ts += t
            xs += y
            n += 1
        m = 250 if len(xs) >= 250 else len(xs)
    else:
        m = 0
    for _ in range(n - m):
        t, y = p.value(r.choice([0, 1, 2, 3, 4]))
        ts += t
        xs += y
    p.op(p.count(n, {i: 0x2F + i for i in range(1, 8)}, 0x37, (0x38, 4)), n)
    p.code.append(0xFF)
    code = struct.pack(">IIII", 0x20190921, p.maxd, 64, nsave) + bytes(p.code)
    return code, [f"R{n}"] + ts, ["("] + xs + [")"], p.kinds


# ---- source programs with constants
def same(a, b):
    """equal, except that real constants (lists of 16 hexadecimal digits) may be off by one unit in the last place:
    the compiler does not promise correct rounding"""
    if a == b:
        return True
    x, y = a.split(" "), b.split(" ")
    return len(x) == len(y) and all(len(v) == 16 and len(w) == 16 and re.fullmatch("[0-9A-F]{16}", v) and abs(int(v, 16) - int(w, 16)) <= 1 for v, w in zip(x, y))


def sml_str(r, s):
    o = []
    for ch in s:
        x = r.random()
        if 32 <= ch < 127 and chr(ch) not in '"\\' and x < .8:
            o.append(chr(ch))
        elif ch in (7, 8, 9, 10, 11, 12, 13) and x < .5:
            o.append("\\" + {7: "a", 8: "b", 9: "t", 10: "n", 11: "v", 12: "f", 13: "r"}[ch])
        elif ch < 32 and x < .7:
            o.append("\\^" + chr(ch + 64))
        elif ch in (34, 92) and x < .8:
            o.append("\\" + chr(ch))
        else:
            o.append("\\%03d" % ch if r.random() < .7 else "\\u%04X" % ch if ch < 128 else "\\%03d" % ch)
        if r.random() < .01:
            o.append("\\" + r.choice([" ", "\n", "\t\n  "]) + "\\")
    return '"' + "".join(o) + '"'


def neg(v):
    return str(v).replace("-", "~")


def source(r, big):
    """(declarations, expected output)"""
    out, dec = [], []
    lib = """fun hash s = let fun go (i, h) = if i = size s then h else go (i+1, (h * 31 + ord (String.sub (s, i))) mod 1000000007) in go (0, 7) end
fun hex s = String.concat (List.map (fn c => StringCvt.padLeft #"0" 2 (Int.fmt StringCvt.HEX (ord c))) (String.explode s))
fun show s = if size s = 0 then "-" else if size s <= 64 then String.map Char.toLower (hex s) else Int.toString (size s) ^ ":" ^ Int.toString (hash s)
val os = TextIO.openOut (hd (rev (CommandLine.arguments ())))
fun p s = TextIO.output (os, s ^ "\\n")
"""
    n = 0
    for _ in range(r.choice([5, 20, 60])):
        n += 1
        x = r.random()
        if x < .3:
            k = r.choice([0, 1, 7, 8, 9, 63, 64, 255, 256, 300])
            if big and r.random() < .6:
                k = r.choice([5000, 40000, 66000, 140000, 300000])
                big -= 1
            s = bytes(r.choice(range(256)) for _ in range(k)) if r.random() < .7 else bytes(r.choice(b"abc xyz\n\\\"") for _ in range(k))
            dec.append(f"val s{n} = {sml_str(r, s)};\nval () = p (show s{n});\n")
            out.append(show(s))
        elif x < .4:
            v = r.choice(EDGE) if r.random() < .5 else r.randint(-2**62, 2**62 - 1)
            lit = neg(v) if r.random() < .6 else ("~" if v < 0 else "") + "0x%x" % abs(v)
            dec.append(f"val () = p (Int.toString {lit});\n")
            out.append(neg(v))
        elif x < .5:
            T, b = r.choice([("Int32", 32), ("Int64", 64), ("Word8", 8), ("Word32", 32), ("Word64", 64), ("Word", 63)])
            w = T.startswith("W")
            lo, hi = (0, 2**b - 1) if w else (-2**(b - 1), 2**(b - 1) - 1)
            vs = [r.choice([lo, hi, 0, 1, hi // 2, lo // 2, r.randint(lo, hi)]) for _ in range(r.choice([1, 2, 6]))]
            ls = [f"({('0w%d' % v if r.random() < .5 else '0wx%x' % v) if w else neg(v)} : {T}.{'word' if w else 'int'})" for v in vs]
            dec.append(f"val x{n} = ({', '.join(ls)}{', ()' if len(ls) == 1 else ''});\nval () = p (String.concatWith \" \" [{', '.join(f'{T}.toString (#{i+1} x{n})' for i in range(len(vs)))}]);\n")
            out.append(" ".join("%X" % v if w else neg(v) for v in vs))
        elif x < .6:
            v = r.choice([1, -1]) * r.choice([2**62, 2**63, 2**64, 10**30, r.getrandbits(r.choice([40, 64, 65, 200, 2000])), 0])
            dec.append(f"val () = p (IntInf.toString {neg(v)});\n")
            out.append(neg(v))
        elif x < .75:
            vs = [r.choice([0.0, 1.0, -1.0, 1e300, -1e-300, 0.1, 2.5, 1.7976931348623157e308, 2.2250738585072014e-308, 123456789.0, r.uniform(-1e6, 1e6), 2.0 ** r.randint(-200, 200) * r.choice([1, 3, -5])]) for _ in range(r.choice([1, 2, 5, 40]))]
            ls = [repr(v).replace("-", "~").replace("e+", "e").replace("E", "e") for v in vs]
            ls = [l if "." in l or "e" in l else l + ".0" for l in ls]
            form = r.choice(["list", "vector", "tuple"]) if len(vs) > 1 else "list"
            if form == "list":
                dec.append(f"val r{n} = [{', '.join(ls)}];\n")
            elif form == "vector":
                dec.append(f"val r{n} = Vector.foldr op :: [] #[{', '.join(ls)}];\n")
            else:
                dec.append(f"val t{n} = ({', '.join(ls)});\nval r{n} = [{', '.join(f'#{i+1} t{n}' for i in range(len(vs)))}];\n")
            dec.append(f"val () = p (String.concatWith \" \" (List.map (fn x => StringCvt.padLeft #\"0\" 16 (Word64.toString (Unsafe.Real64.castToWord x))) r{n}));\n")
            out.append(" ".join(struct.pack(">d", v).hex().upper() for v in vs))
        elif x < .9:
            m = r.choice([0, 1, 2, 5, 30, 300, 700] if big or r.random() < .1 else [0, 1, 2, 5, 30])
            kind = r.choice(["int", "str", "pair", "nested"])
            vs = [r.randint(-2**31, 2**31) for _ in range(m)]
            ss = [bytes(r.choice(b"abcdefgh") for _ in range(r.choice([0, 1, 3, 12]))) for _ in range(m)]
            if kind == "int":
                dec.append(f"val v{n} : int vector = #[{', '.join(neg(v) for v in vs)}];\nval () = p (String.concatWith \" \" (Int.toString (Vector.length v{n}) :: List.map Int.toString (Vector.foldr op :: [] v{n})));\n")
                out.append(" ".join([str(m)] + [neg(v) for v in vs]))
            elif kind == "str":
                dec.append(f"val v{n} : string list = [{', '.join(sml_str(r, s) for s in ss)}];\nval () = p (String.concatWith \" \" (List.map show v{n}));\n")
                out.append(" ".join(show(s) for s in ss))
            elif kind == "pair":
                dec.append(f"val v{n} : (int * string) list = [{', '.join(f'({neg(v)}, {sml_str(r, s)})' for v, s in zip(vs, ss))}];\nval () = p (String.concatWith \" \" (List.map (fn (i, s) => Int.toString i ^ \"/\" ^ show s) v{n}));\n")
                out.append(" ".join(f"{neg(v)}/{show(s)}" for v, s in zip(vs, ss)))
            else:
                dec.append(f"val v{n} : (int * (string * real) * int vector) list = [{', '.join(f'({neg(v)}, ({sml_str(r, s)}, {v}.5), #[1, {neg(v)}, 3])'.replace(f', {v}.5', ', ' + neg(v) + '.5') for v, s in zip(vs, ss))}];\n"
                           f"val () = p (String.concatWith \" \" (List.map (fn (i, (s, r), v) => String.concatWith \"/\" [Int.toString i, show s, Real.fmt (StringCvt.FIX (SOME 1)) r, Int.toString (Vector.sub (v, 1))]) v{n}));\n")
                out.append(" ".join(f"{neg(v)}/{show(s)}/{neg(v)}.5/{neg(v)}" for v, s in zip(vs, ss)))
        else:
            s = bytes(r.choice(b"shared") for _ in range(9))
            ch = r.randint(0, 255)
            dec.append(f"fun f{n} #\"\\{ch:03d}\" = {sml_str(r, s)} | f{n} _ = {sml_str(r, s + b'x')};\nval () = p (show (f{n} (chr {ch})) ^ show (f{n} (chr {(ch + 1) % 256})));\n")
            out.append(show(s) + show(s + b"x"))
    mod = r.random() < .5
    if mod:         # one compilation unit: all constants of the program are built together
        body = lib + "structure S = struct\n" + "".join(d.replace(";\n", "\n") for d in dec) + "end;\n"
    else:
        body = lib + "".join(dec)
    return body + "val () = TextIO.closeOut os;\n", out


def body():
    c = Check("C08", "an evaluation is one constant table built by the runtime (walked and compared value by value, with sharing, before and after collections) or one source program whose constants are "
              "printed; distinct = distinct tables or programs")
    c.build(variants=("asan", "verif"))
    img = c.sml_heap("wl", {"main.sml": open(HERE + "/main.sml").read(), "drv.sml": open(VERIF + "/lib/drv.sml").read()}, [])
    if img is None:
        c.finish()
    r = random.Random(c.seed)
    progs = [gen(r, big=r.choice([0, 0, 0, 0, 1, 2, 4])) for _ in range(c.n(480, 9000))]
    modes = [r.choice(["n", "g", "G", "k"]) for _ in progs]
    lines = [f"build\t{m}\t{hx(p[0])}\t{','.join(p[1])}" for p, m in zip(progs, modes)]
    kinds = {}
    for p in progs:
        for k in p[3]:
            kinds[k] = kinds.get(k, 0) + 1
    for tag, rt, args, env, sel in (("std", None, [], None, 1), ("small", None, ["@SMLalloc=128k"], None, 1), ("big", None, ["@SMLalloc=8m"], None, 3),
                                    ("verif", c.rt["verif"], ["@SMLalloc=128k"], {"VERIF_GC_PERIOD": "7"}, 4), ("asan", c.rt["asan"], ["@SMLalloc=256k"], None, 3)):
        ls = lines[::sel]
        out = run_ops(c, img, tag, ls, rt=rt, rtargs=args, env=env, timeout=400)
        if out is None:
            continue
        for p, l, o, m in zip(progs[::sel], ls, out, modes[::sel]):
            c.seen(l)
            want = " ".join(p[2])
            if o != want:
                a, b = o.split(" "), want.split(" ")
                i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), -1)
                c.violation("table", f"constant table differs at value {i}: got {a[i][:60]}, expected {b[i][:60]}", {"rt": tag, "mode": m, "code": hx(p[0])[:4000], "type": ",".join(p[1])[:500]})
                break

    # ---- source programs
    def src(k):
        r = random.Random(c.seed * 5000 + k)
        text, want = source(r, r.choice([0, 0, 1, 3]))
        f = c.write(f"{c.scratch}/p{k}.sml", text)
        o = f"{c.scratch}/p{k}.out"
        rt = ["std", "std", "asan", "verif"][k % 4]
        args = r.choice([[], ["@SMLalloc=128k"], ["@SMLalloc=2m"]])
        env = {} if rt == "std" else c.rt[rt].env(c.scratch + "/verif.log")
        env["VERIF_GC_PERIOD"] = "500"
        exe = REPO + "/bin/.run/run.amd64-linux" if rt == "std" else c.rt[rt].exe
        x = c.run([exe, "@SMLload=" + REPO + "/bin/.heap/sml.amd64-linux"] + args + [f, o], env=env, timeout=300, stdin=subprocess.DEVNULL)
        c.scan_monitors(x, f"p{k}")
        c.seen(text)
        try:
            got = open(o).read().split("\n")[:-1]
        except OSError:
            got = None
        if got is None or len(got) != len(want) or not all(same(a, b) for a, b in zip(got, want)):
            i = next((i for i in range(min(len(got or []), len(want))) if not same(got[i], want[i])), -1)
            c.violation("source", f"constants of a program: status {x.rc}, {('got ' + got[i][:80] + ', expected ' + want[i][:80]) if got and i >= 0 else 'no or too little output'}",
                        {"rt": rt, "args": args, "program": text[:6000], "out": x.text[-600:]})
        for y in (f, o):
            if os.path.exists(y):
                os.unlink(y)
    c.pmap(src, range(c.n(48, 500)), jobs=8)
    c.require(min(kinds.get(k, 0) for k in ("int", "int64", "string", "record", "vector", "raw", "raw64", "bigvector")) > 5, f"kinds {kinds}")
    c.finish(tables=len(progs), kinds=kinds)


main(body)
