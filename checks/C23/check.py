import sys, os, random, subprocess, shutil
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
from vlib import *
import spec
HERE = os.path.dirname(os.path.abspath(__file__))
ASDL = os.environ.get("C23_ASDL", REPO + "/asdl")
CXX = ["g++", "-std=c++17", "-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
SANENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0", "UBSAN_OPTIONS": "print_stacktrace=1"}


# ---- the documented pickle format
def e_uint(n):
    return e_num(n, 6, 0)


def e_num(n, bits, sign):
    for k in range(4):
        if n < 1 << (bits + 8 * k):
            b = n.to_bytes(k + 1, "big")
            return bytes([b[0] | k << 6 | sign]) + b[1:]
    raise ValueError(n)


def e_int(n):
    return e_num(n if n >= 0 else -(n + 1), 5, 0 if n >= 0 else 0x20)


def e_integer(n):
    m, out = abs(n), []
    while m >= 64:
        out.insert(0, m & 127)
        m >>= 7
    out.insert(0, m | (64 if n < 0 else 0))
    return bytes(b | 128 for b in out[:-1]) + bytes(out[-1:])


def e_string(s):
    return e_uint(len(s)) + s


def show_integer(n):
    f = lambda lo, hi: f"{n}/{n}" if lo <= n < hi else "big"
    r = ["-" if n < 0 else "+"] + [f(-2**31, 2**31)] * 2 + [f(-2**63, 2**63)]
    if n >= 0:
        r += [f(0, 2**32)] * 2 + [f(0, 2**64)]
    return " ".join(r)


EDGE = sorted({s * v + d for s in (1, -1) for k in range(0, 31) for v in (1 << k,) for d in (-1, 0, 1)})


def rint(r, lo, hi):
    while True:
        v = r.choice(EDGE) if r.random() < .5 else r.randint(lo, hi) >> r.randint(0, 30)
        if lo <= v <= hi:
            return v


def rbig(r):
    k = r.choice([0, 1, 5, 6, 7, 13, 14, 30, 31, 32, 33, 62, 63, 64, 65, 70, 96, 128, r.randint(1, 400)])
    v = (1 << k) + r.choice([-1, 0, 1]) if r.random() < .5 else r.getrandbits(k + 1)
    return max(0, v) * r.choice([1, -1])


def rstr(r):
    n = r.choice([0, 0, 1, 2, 7, 63, 64, 65, 300, 16383, 16384]) if r.random() < .2 else r.randint(0, 20)
    return bytes(r.getrandbits(8) for _ in range(n))


def prim(r, t=None):
    """(type, the text the driver takes, the text it shows, the pickle)"""
    t = t or r.choice(["int", "uint", "tag8", "tag", "bool", "string", "integer", "tag0?", "tag8?", "tag?", "int?",
                       "uint?", "bool?", "string?", "integer?", "small?", "big?", "box?", "small*", "big*", "box*"])
    if t.endswith("?"):
        b = t[:-1]
        some = r.random() < .7
        if not some:
            return t, "none", "none", b"\0"
        if b == "tag0":
            return t, "some", "some", b"\1"
        if b in ("tag8", "small"):
            v = r.randint(1, 255)
            return t, str(v), str(v), bytes([v])
        if b in ("tag", "big"):
            v = rint(r, 1, 2**30 - 1)
            return t, str(v), str(v), e_uint(v)
        _, i, s, e = prim(r, b)
        return t, i, s, e if b == "bool" else b"\1" + e
    if t.endswith("*"):
        b = t[:-1]
        n = r.choice([0, 1, 2, 5, 63, 64, 70])
        vs = [prim(r, b) for _ in range(n)]
        return t, ",".join(v[1] for v in vs) or "-", ",".join(v[2] for v in vs) or "-", e_uint(n) + b"".join(v[3] for v in vs)
    if t == "int":
        v = rint(r, -2**29, 2**29 - 1)
        return t, str(v), str(v), e_int(v)
    if t in ("uint", "tag"):
        v = rint(r, 0, 2**30 - 1)
        return t, str(v), str(v), e_uint(v)
    if t in ("tag8",):
        v = r.getrandbits(8)
        return t, str(v), str(v), bytes([v])
    if t in ("small",):
        v = r.randint(1, 255)
        return t, str(v), str(v), bytes([v])
    if t in ("big",):
        v = rint(r, 1, 2**30 - 1)
        return t, str(v), str(v), e_uint(v)
    if t == "bool":
        v = r.random() < .5
        return t, str(int(v)), str(int(v)), bytes([1 + v])
    if t == "string":
        v = rstr(r)
        return t, hx(v), hx(v), e_string(v)
    if t == "integer":
        v = rbig(r)
        return t, hx(e_integer(v)), show_integer(v), e_integer(v)
    if t == "box":
        a, s = prim(r, "int"), rstr(r)[:200]
        return t, a[1] + ":" + hx(s), a[1] + ":" + hx(s), a[3] + e_string(s)


def driver(c, exe, lines, name, cwd, shards=NPROC):
    """the answers of the C++ driver, one per line; sharded"""
    k = (len(lines) + shards - 1) // shards
    parts = [lines[i:i + k] for i in range(0, len(lines), k)]

    def one(ls):
        r = c.run([exe], cwd=cwd, env=SANENV, input="\n".join(ls).encode() + b"\n", timeout=200, stderr=subprocess.STDOUT)
        c.scan_monitors(r, name)
        got = r.text.split("\n")[:-1]
        if len(got) != len(ls) or r.rc != 0:
            i = min(len(got), len(ls) - 1)
            c.violation("died:" + name, f"the C++ side died (rc {r.rc}) on: {ls[i][:200]}", {"request": ls[i], "output": r.text[-1500:]})
            return None
        return got
    res = c.pmap(one, parts)
    return None if any(x is None for x in res) else [y for x in res for y in x]


def library(c, r, exe, img, d):
    ops, exp, files, fexp = [], [], [], []

    def op(line, want):
        nonlocal ops, exp
        ops.append(line)
        exp.append(want)
    smlops, smlexp = [], []
    n = c.n(2500, 30000)
    for k in range(n):
        vs = [prim(r) for _ in range(r.choice([1, 1, 1, 2, 5]))]
        pk = b"".join(v[3] for v in vs)
        op("w " + " ".join(f"{v[0]} {v[1]}" for v in vs), hx(pk))
        extra = r.choice([b"", b"", b"\xff", b"\0\x80"])
        op("r " + hx(pk + extra) + " " + " ".join(v[0] for v in vs), " ".join(v[2] for v in vs) + f" {len(extra)} eof")
        if r.random() < .5 and pk:
            # a pickle cut short anywhere is recognised
            cut = r.randint(0, len(pk) - 1)
            shown, p = "", 0
            for v in vs:
                if p + len(v[3]) <= cut:
                    shown += v[2] + " "
                    p += len(v[3])
                else:
                    break
            op("r " + hx(pk[:cut]) + " " + " ".join(v[0] for v in vs), shown + "BAD eof")
        if r.random() < .05 and len(files) < 240:
            save, ops, exp = (ops, exp), files, fexp
            f = f"f{k}.pkl"
            op(f"fw {f} close " + " ".join(f"{v[0]} {v[1]}" for v in vs), hx(pk))
            op(f"fr {f} " + " ".join(v[0] for v in vs), " ".join(v[2] for v in vs) + " 0 eof")
            op(f"fw {f}x keep " + " ".join(f"{v[0]} {v[1]}" for v in vs), "ok")
            op(f"fr {f}x " + " ".join(v[0] for v in vs), " ".join(v[2] for v in vs) + " 0 eof")
            ops, exp = save
        for v in vs:
            if v[0] in ("int", "uint", "bool", "bool?", "tag8", "string", "integer"):
                smlops.append(f"r\t{hx(v[3] + extra)}\t{v[0]}")
                val = v[2]
                if v[0] == "integer":
                    val = str(d_integer(v[3]))
                smlexp.append(f"{val} {len(extra)}")
                smlops.append(f"w\t{v[0]}\t{val.replace('-', '~') if v[0] in ('int', 'integer') else v[1]}")
                smlexp.append(hx(v[3]))
                if len(v[3]) > 0:
                    smlops.append(f"r\t{hx(v[3][:r.randint(0, len(v[3]) - 1)])}\t{v[0]}")
                    smlexp.append("BAD")
    # malformed tags
    for t, bad in (("bool", [0, 3, 255]), ("bool?", [3, 4, 255]), ("int?", [2, 200]), ("uint?", [2, 9]), ("string?", [2, 77]), ("integer?", [2, 255]), ("box?", [2, 128])):
        for b in bad:
            nm = {"box?": "option"}.get(t, t)
            op(f"r {bytes([b]).hex()}00000000 {t}", f"BAD tag {b} {nm}")
    # sequences of integers can only be read
    for k in range(60):
        t = r.choice(["int", "uint"])
        vs = [prim(r, t) for _ in range(r.choice([0, 1, 63, 64, 65, 200]))]
        op("r " + hx(e_uint(len(vs)) + b"".join(v[3] for v in vs)) + f" {t}*", (",".join(v[2] for v in vs) or "-") + " 0 eof")
    # integers: construction from machine numbers, equality
    for k in range(n // 5):
        t = r.choice(["i32", "u32", "i64", "u64"])
        b = int(t[1:])
        lo, hi = (-2**(b - 1), 2**(b - 1) - 1) if t[0] == "i" else (0, 2**b - 1)
        v = r.choice([lo, hi, 0, lo + 1, hi - 1, hi // 2, r.randint(lo, hi), r.randint(lo, hi) >> r.randint(0, b - 1)])
        op(f"w {t} {v}", hx(e_integer(v)))
        x = rbig(r)
        y = r.choice([x, -x, x + 1, x - 1, x ^ (1 << r.randint(0, 70)) if x > 0 else 0, rbig(r)])
        op(f"eq {hx(e_integer(x))} {hx(e_integer(y))}", f"{int(x == y)}{int(x != y)}{int(x == 0)}")
    op("w def 0", "00")
    for s in (b"", b"abc", rstr(r) + b"\xff", b"\xff" * 70):
        st = e_string(s)
        op("mv " + hx(s), f"1 {hx(st + st + bytes([5]))} 0506 0 first 2 first 1 eof {hx(s)} 0")
    got = driver(c, exe, ops, "library", d)
    fgot = driver(c, exe, files, "files", d, 1)
    if got and fgot:
        ops, exp, got = ops + files, exp + fexp, got + fgot
        for o, w, g in zip(ops, exp, got):
            kind = o.split()[0]
            c.seen(f"c++ {kind} " + ("short" if "BAD" in w else "ok"))
            c.check(g == w, f"cpp:{kind}:" + (",".join(sorted(set(o.split()[1::2])))[:40] if kind == "w" else " ".join(o.split()[2:])[:40]),
                    f"C++ pickle library: {o[:160]} gave {g[:200]}, not {w[:200]}", {"request": o, "got": g, "want": w})
    got = run_ops(c, img, "smllib", smlops)
    if got:
        for o, w, g in zip(smlops, smlexp, got):
            a = o.split("\t")
            c.seen("sml " + a[0] + " " + a[1 if a[0] == "w" else 2])
            c.check(g == w, f"sml:{a[0]}:" + a[1 if a[0] == "w" else 2],
                    f"SML pickle library: {o[:160]} gave {g[:200]}, not {w[:200]}", {"request": o, "got": g, "want": w})
    # the library's own reaction to bad pickles is to stop the program
    for h, t in (("05", "bool"), ("40", "uint"), ("-", "int"), ("0561", "string"), ("02", "int?")):
        q = c.run([exe], cwd=d, env=SANENV, input=f"die {h} {t}\n".encode(), timeout=60)
        c.scan_monitors(q, "die")
        c.seen("bad pickle stops the program")
        c.check(q.rc == 1 and "[asdl]" in q.text and "<memory>" in q.text, "cpp:die:" + t, f"reading a bad {t} pickle {h}: rc {q.rc}: {q.text[:200]}", {})


def d_integer(b):
    n = b[0] & 63
    for x in b[1:]:
        n = n << 7 | x & 127
    return -n if b[0] & 64 else n


def body(c):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    r = random.Random(seed * 7919 + 23)
    c.build(())
    d = c.dir("asdl")
    c.write(d + "/config.h", "#define SIZEOF_INT 4\n")
    inc = ["-I" + d, f"-I{ASDL}/src/lib/cpp/include"]

    def cc(src, obj):
        q = c.run([*CXX, *inc, "-c", src, "-o", obj], cwd=d, timeout=200)
        if q.rc != 0:
            c.fail_run("compile:" + os.path.basename(src), q)
        return q.rc == 0
    shutil.copytree(ASDL + "/src", d + "/src", ignore=shutil.ignore_patterns(".cm"))
    gen = spec.tools(c, d)
    if not gen:
        return
    specs = spec.generate(c, r, d, gen)
    srcs = [(HERE + "/lib.cpp", d + "/lib.o"), (ASDL + "/src/lib/cpp/asdl.cpp", d + "/asdl.o"),
            (ASDL + "/src/lib/cpp/asdl-integer.cpp", d + "/asdl-integer.o"), (d + "/gmain.cpp", d + "/gmain.o")]
    srcs += [(f"{d}/{s.file}.cpp", f"{d}/{s.file}.o") for s in specs]
    if not all(c.pmap(lambda a: cc(*a), srcs)):
        return
    exe, gexe = d + "/lib", d + "/gmain"
    for q in (c.run([*CXX, d + "/lib.o", d + "/asdl.o", d + "/asdl-integer.o", "-o", exe], cwd=d),
              c.run([*CXX, d + "/gmain.o", d + "/asdl.o", d + "/asdl-integer.o", *[f"{d}/{s.file}.o" for s in specs], "-o", gexe], cwd=d)):
        if q.rc != 0:
            return c.fail_run("link", q)
    img = c.sml_heap("lib", {"drv.sml": open(VERIF + "/lib/drv.sml").read(), "lib.sml": open(HERE + "/lib.sml").read()},
                     ["$/smlnj-lib.cm", d + "/src/lib/sml/asdl-lib.cm"])
    if img:
        library(c, r, exe, img, d)
    spec.generated(c, r, d, specs, gexe, driver)


def run():
    c = Check("C23", "ASDL pickles against the documented format: the C++ support library under ASan+UBSan, the SML support "
              "library, and the code asdlgen generates for random specifications in both languages")
    body(c)
    return c.finish()


main(run)
