import sys, os, types, fcntl, struct, threading
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))
FMT = "hhqqi4x"
SIZES = [0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 33, 255, 511, 4087, 4088, 4089, 4095, 4096, 4097, 5000, 9000, 70000]


def gen_fd(rng, base):
    """Descriptor-level history."""
    ops = ["@reset\t" + hx(base)]
    n = [0]
    hs, pr, pw = [], [], []

    def h():
        n[0] += 1
        return "h%d" % n[0]
    for _ in range(rng.randint(25, 70)):
        o = rng.choice(["open"] * (3 if len(hs) < 4 else 1) + ["pipe"] +
                       (["readv"] * 4 + ["reada"] * 3 + ["writev"] * 4 + ["writea"] * 3 + ["lseek"] * 5 +
                        ["fsync", "ftruncate", "fsize", "fsize", "getfd", "setfd", "getfl", "setfl", "dup", "dup2", "dup2w", "dupfd",
                         "close", "kind", "isreg", "poll", "poll", "poll", "poll", "spair"] if hs + pr + pw else []))
        allh = hs + pr + pw
        if o == "open":
            x = h()
            hs.append(x)
            ops.append(f"open\t{x}\t{hx('f%d' % rng.randrange(4))}\t{rng.choice('rwuuu')}\t{rng.choice(['', '', 'a', 't', 'x', 'n'])}")
        elif o == "pipe" and not any(y.startswith("setfl") for y in ops):
            a, b = h(), h()
            pr.append(a)
            pw.append(b)
            ops.append(f"pipe\t{a}\t{b}")
        elif o == "pipe":
            pass
        elif o == "spair" and not any(y.startswith("setfl") for y in ops):
            a, b = h(), h()
            pr += [a, b]
            ops.append(f"spair\t{a}\t{b}")
        elif o == "spair":
            pass
        elif o == "poll":
            l = [rng.choice(allh) for _ in range(rng.randint(0, min(9, 2 * len(allh))))]
            f = ["".join(ch for ch in "rwp" if rng.random() < .6) or "r" for _ in l]
            sure = any(x in hs and f[k] != "p" for k, x in enumerate(l)) and not any(y.startswith("dup2w") for y in ops)     # a file is always ready
            us = rng.choice([0, 0, 1, 999, 3000, 12000, 10**6 + 1 if sure else 7, -1, -1500000])
            if us == 0 and sure:
                us = "-"
            ops.append(f"poll\t{','.join(l)}\t{','.join(f)}\t{str(us).replace('-', '~') if us != '-' else us}")
        elif o == "readv":
            ops.append(f"readv\t{rng.choice(allh)}\t{rng.choice(SIZES)}")
        elif o == "reada":
            sz = rng.choice(SIZES[1:])
            i = rng.randint(0, sz)
            ops.append(f"reada\t{rng.choice(allh)}\t{sz}\t{i}\t{rng.choice([0, 1, sz - i, (sz - i) // 2]) if sz > i else 0}")
        elif o in ("writev", "writea"):
            sz = rng.choice(SIZES if rng.random() < 0.3 else SIZES[:14])
            i = rng.randint(0, sz) if rng.random() < 0.6 else 0
            ops.append(f"{o}\t{rng.choice(allh)}\t{sz}\t{rng.randrange(256)}\t{i}\t{rng.choice([sz - i, (sz - i) // 2])}")
        elif o == "lseek":
            off = rng.choice([0, 0, 0, 1, 5, 100, 4096, -1, -7, -100, rng.randrange(10000), 2**31 - 1, 2**31, 2**32 + 1, 2**40, -2**33, 2**62])
            ops.append(f"lseek\t{rng.choice(allh)}\t{str(off).replace('-', '~')}\t{rng.choice('sce')}")
        elif o == "ftruncate":
            ops.append(f"ftruncate\t{rng.choice(allh)}\t{rng.choice([0, 1, 10, 5000, 2**31 + 7, 2**33])}")
        elif o == "setfd":
            x = rng.choice(allh)
            ops += [f"setfd\t{x}\t{rng.randrange(2)}", f"getfd\t{x}"]
        elif o == "setfl":
            x = rng.choice(allh)
            f = rng.choice(["a", "n", "an", ""])
            if any(y.startswith(("pipe", "spair")) for y in ops) and "n" not in f:
                f += "n"
            ops += [f"setfl\t{x}\t{f}", f"getfl\t{x}"]
        elif o in ("dup", "dupfd", "dup2w"):
            s = rng.choice(allh)
            x = h()
            (pr if s in pr else pw if s in pw else hs).append(x)
            ops.append(f"dup\t{s}\t{x}" if o == "dup" else f"{o}\t{s}\t{x}\t{rng.choice([rng.randrange(60, 90), rng.randrange(60, 90), 0x3ff, 0x400, 0x410]):x}")
            ops.append(f"getfd\t{x}")
        elif o == "dup2":
            s, t = rng.choice(allh), rng.choice(allh)
            ops.append(f"dup2\t{s}\t{t}")
            kind = pr if s in pr else pw if s in pw else hs
            for L in (hs, pr, pw):
                if t in L:
                    L.remove(t)
            kind.append(t)
        elif o == "close":
            x = rng.choice(allh)
            ops.append(f"close\t{x}")
            if rng.random() < 0.3:
                ops.append(rng.choice([f"close\t{x}", f"readv\t{x}\t5", f"lseek\t{x}\t0\ts", f"getfl\t{x}", f"fsize\t{x}"]))
            for L in (hs, pr, pw):
                if x in L:
                    L.remove(x)
        else:
            ops.append(f"{o}\t{rng.choice(allh)}")
    return ops


class InModel:
    def __init__(self, data):
        self.d, self.p, self.saved, self.closed = data, 0, {}, False

    def rest(self):
        return self.d[self.p:]

    def check(self, l, r, exact=False):
        """returns None if r is an allowed result of op l, else the expectation"""
        o = l[0][2:]
        rest = self.rest()
        H = lambda b: hx(b)

        def opt(b):
            return "NONE" if b is None else "SOME " + H(b)
        if self.closed:
            if o in ("save", "restore", "sAll"):
                return None
            return None if r in ("-", "NONE", "true", "ok") or r.startswith(("IO", "SOME 0")) else "closed-stream behaviour"
        if o == "input":
            if not rest:
                return None if r == "-" else "empty at end of stream"
            try:
                b = unhx(r)
            except ValueError:
                return "a non-empty prefix of " + H(rest[:50])
            if b and rest.startswith(b):
                self.p += len(b)
                return None
            return "a non-empty prefix of " + H(rest[:50])
        if o == "input1":
            e = opt(rest[:1] or None)
            self.p += len(rest[:1])
        elif o == "look":
            e = opt(rest[:1] or None)
        elif o == "inputN":
            e = H(rest[:int(l[1])])
            self.p += len(rest[:int(l[1])])
        elif o == "inputAll":
            e = H(rest)
            self.p = len(self.d)
        elif o == "inputLine":
            if not rest:
                e = "NONE"
            else:
                i = rest.find(b"\n")
                x = rest if i < 0 else rest[:i + 1]
                self.p += len(x)
                e = opt(x if i >= 0 else x + b"\n")
        elif o == "eos":
            e = "true" if not rest else "false"
        elif o == "can":
            if r == "NONE":
                return None
            m = re.fullmatch(r"SOME (\d+)", r)
            if m and int(m.group(1)) <= min(int(l[1]), len(rest)):
                return None
            return f"NONE or SOME k, k <= {min(int(l[1]), len(rest))}"
        elif o == "save":
            self.saved[l[1]] = self.p
            e = "ok"
        elif o == "restore":
            if l[1] in self.saved:
                self.p = self.saved[l[1]]
                e = "ok"
            else:
                e = "none"
        elif o == "sAll":
            e = H(self.d[self.saved[l[1]]:]) if l[1] in self.saved else "none"
        elif o == "scanInt":
            m = re.match(rb"[ \t\n\r\v\f]*([-~+]?[0-9]+)", rest)
            if m:
                v = int(m.group(1).replace(b"~", b"-"))
                self.p += m.end()
                e = "SOME " + str(v).replace("-", "~")
            else:
                e = "NONE"
        elif o == "close":
            self.closed = True
            e = "ok"
        else:
            e = "?"
        return None if r == e else e


def content(rng):
    k = rng.randrange(6)
    if k == 0:
        return b""
    if k == 1:
        return bytes(rng.randrange(256) for _ in range(rng.choice([1, 10, 5000])))
    if k == 2:
        return b"\n".join(b"x" * rng.choice([0, 1, 80, 4095, 4096, 4097, 9000]) for _ in range(rng.randint(1, 8)))
    if k == 3:
        return b"".join(b"%d\n" % rng.randrange(10**rng.randint(1, 8)) for _ in range(rng.randint(1, 300)))
    if k == 4:
        return bytes(rng.randrange(256) for _ in range(rng.choice([4095, 4096, 4097, 8192, 8193, 20000])))
    return b"line one\nline two\n\nlast without newline"


def gen_in(rng, opener, binary, data, pipe=False):
    p = "b." if binary else "t."
    tag = "%x" % rng.getrandbits(40)
    ops = [opener]
    for _ in range(rng.randint(3, 25)):
        o = rng.choice(["input", "input1", "look", "inputN", "eos", "inputN"] +
                       ([] if binary else ["inputLine", "inputLine", "can", "save", "restore", "sAll" if not pipe else "save", "scanInt"]) +
                       (["inputAll"] if rng.random() < 0.2 else []))
        if o == "scanInt" and max([len(x) for x in re.findall(rb"\d+", data)] or [0]) > 15:
            continue
        a = "\t%d" % rng.choice([0, 1, 3, 10, 100, 4095, 4096, 4097, 10000]) if o in ("inputN", "can") else \
            "\t%s%d" % (tag, rng.randrange(3)) if o in ("save", "restore", "sAll") else ""
        ops.append(p + o + a)
    ops.append(p + "inputAll")
    if rng.random() < 0.5 and not pipe:
        ops += [p + "close", p + "input", p + "close"]
    return ops


def gen_out(rng, name, old, binary):
    """Output history with its model: returns (ops, list of expectation functions)."""
    p = "p." if binary else "o."
    app = rng.random() < 0.3
    ops = [(("bapp" if app else "bout") if binary else ("tapp" if app else "tout")) + "\t" + hx(name)]
    m = {"d": bytearray(old if app else b""), "p": len(old) if app else 0}
    exp = ["ok"]
    poss = []
    mode = "b"

    def put(b):
        d, q = m["d"], m["p"]
        d[q:q + len(b)] = b
        m["p"] += len(b)
    must = bytes(m["d"])          # prefix-visible floor
    for _ in range(rng.randint(5, 30)):
        o = rng.choice(["out"] * 4 + ["out1"] + ([] if binary else ["sub", "rep", "mode"]) + ["flush", "cat"] +
                       ([] if app else ["getpos", "setpos"]))
        if o == "out":
            b = rng.choice([b"", b"a", b"hello\n", b"ab\ncd", bytes(rng.randrange(256) for _ in range(rng.choice([3, 100, 4096, 5000])))])
            ops.append(f"{p}out\t{hx(b)}")
            exp.append("ok")
            put(b)
        elif o == "out1":
            b = bytes([rng.choice([10, 65, 0, 255])])
            ops.append(f"{p}out1\t{hx(b)}")
            exp.append("ok")
            put(b)
        elif o == "sub":
            b = bytes(rng.randrange(256) for _ in range(rng.choice([1, 20, 6000])))
            i = rng.randint(0, len(b))
            k = rng.randint(0, len(b) - i)
            ops.append(f"o.sub\t{hx(b)}\t{i}\t{k}")
            exp.append("ok")
            put(b[i:i + k])
        elif o == "rep":
            b = rng.choice([b"abc", b"x\n", b"0123456789" * 3])
            k = rng.choice([10, 500, 2000])
            ops.append(f"o.rep\t{hx(b)}\t{k}")
            exp.append("ok")
            put(b * k)
        elif o == "mode":
            mode = rng.choice("nlb")
            ops += [f"o.mode\t{mode}", "o.getmode"]
            exp += ["ok", mode]
        elif o == "flush":
            ops += [p + "flush", "cat\t" + hx(name)]
            exp += ["ok", hx(bytes(m["d"]))]
        elif o == "cat":
            if mode == "n" and not binary:
                ops += ["cat\t" + hx(name)]
                exp += [hx(bytes(m["d"]))]
            elif mode == "l" and not binary and m["d"].endswith(b"\n") and m["p"] == len(m["d"]) and ops[-1].startswith("o.out"):
                ops += ["cat\t" + hx(name)]
                exp += [hx(bytes(m["d"]))]
        elif o == "getpos":
            ops.append(p + "getpos")
            exp.append("ok")
            poss.insert(0, m["p"])
        elif o == "setpos" and poss:
            k = rng.randrange(len(poss))
            ops.append(f"{p}setpos\t{k}")
            exp.append("ok")
            m["p"] = poss[k]
    ops += [p + "close", "cat\t" + hx(name), p + "out\t6162", p + "close"]
    exp += ["ok", hx(bytes(m["d"])), "IO closed", "ok"]
    return ops, exp, bytes(m["d"])


def body():
    c = Check("C10", "an evaluation is one I/O call of the SML program whose result was compared with the same call made "
              "directly on the OS (descriptor level: twin process; record locks: a second lock-holding process) or with a byte-"
              "sequence model (streams); distinct = distinct (history, operation)")
    c.build(variants=("asan", "verif"))
    img = c.sml_heap("wl", {"drv.sml": open(VERIF + "/lib/drv.sml").read(), "main.sml": open(HERE + "/main.sml").read()}, [])
    if img is None:
        c.finish()
    kinds = {}

    def execute(top, lines, rtn, rargs, **kw):
        inp = c.write(f"{top}/in", "\n".join(lines) + "\n")
        if os.path.exists(f"{top}/out"):
            os.unlink(f"{top}/out")
        r = c.run_heap(img, [inp, f"{top}/out", "flush"], rt=c.rt[rtn] if rtn else None, rtargs=rargs, timeout=300, cwd=top,
                       restore_signals=False, **kw)
        got = open(f"{top}/out", encoding="latin-1", newline="\n").read().split("\n")[:-1] if os.path.exists(f"{top}/out") else []
        if r.rc != 0 or not got or got[-1] != "@@END":
            c.violation("died", f"workload ended after {len(got)} of {len(lines)} ops (rc={r.rc}, timeout={r.timeout})",
                        {"ops": [x[:200] for x in lines[max(0, len(got) - 6):len(got) + 1]], "output": r.text[-800:]})
        return got

    def note(i, k, l, e):
        o = l.split("\t")[0]
        c.seen(f"{i}-{k}-{l[:200]}", o != "@reset")
        key = o + ("!" if e.startswith(("SYSERR", "IO")) else "")
        kinds[key] = kinds.get(key, 0) + 1

    # ---- descriptors
    nq = c.n(60, 400)
    fdjobs = [(None, nq, [])] * 4 + [("asan", nq, []), ("verif", nq // 3, ["@SMLalloc=128k"]), (None, nq, ["@SMLalloc=64k"])]

    def fdjob(ij):
        i, (rtn, nh, rargs) = ij
        rng = random.Random(f"C10-fd-{c.seed}-{i}")
        top = c.dir(f"fd{i}")
        lines = []
        for k in range(nh):
            for ab in "AB":
                os.makedirs(f"{top}/{ab}/{k}")
            lines += gen_fd(rng, f"{top}/A/{k}")
        # large transfers
        for k in ("L0", "L1"):
            for ab in "AB":
                os.makedirs(f"{top}/{ab}/{k}")
            lines.append("@reset\t" + hx(f"{top}/A/{k}"))
            lines.append("open\tq\t" + hx("big") + "\tu\t")
            for _ in range(6):
                sz = rng.choice([65536, 300000, 1 << 20]) if rtn is None else rng.choice([65536, 100000])
                lines += [f"{rng.choice(['writev', 'writea'])}\tq\t{sz}\t{rng.randrange(256)}\t0\t{sz}", "fsize\tq",
                          f"lseek\tq\t{rng.randrange(sz)}\ts", f"readv\tq\t{rng.choice([sz, 2 * sz, 100])}",
                          f"lseek\tq\t{rng.randrange(sz)}\ts", f"reada\tq\t{sz + 7}\t{rng.randrange(7)}\t{sz}"]
        got = execute(top, lines, rtn, rargs)
        t = c.run([sys.executable, HERE + "/twin.py", f"{top}/in", f"{top}/exp"], timeout=300, restore_signals=False, cwd=top)
        exp = open(f"{top}/exp").read().split("\n")[:-1]
        if t.rc != 0 or exp[-1] != "@@END":
            die(f"twin failed rc={t.rc} {len(exp)}/{len(lines)} {lines[len(exp)-1][:100]} " + t.text[-500:])
        for k, l in enumerate(lines):
            if k >= len(got):
                return
            note(i, k, l, exp[k])
            if got[k] != exp[k]:
                c.violation("fd:" + l.split("\t")[0], f"[{rtn or 'prod'}] {l[:80]}: got {got[k][:200]!r}, the OS gives {exp[k][:200]!r}",
                            {"ops": [x[:120] for x in lines[max(0, k - 15):k + 1]]})
                return
        for d, _, fs in os.walk(top + "/A"):
            for f in fs:
                a = os.path.join(d, f)
                b = a.replace("/A/", "/B/")
                sa, sb = os.stat(a).st_size, os.stat(b).st_size
                same = sa == sb and (sa > 1 << 24 or open(a, "rb").read() == open(b, "rb").read())
                c.seen(f"final{i}{a}")
                c.check(same, "fd:final", f"final contents of {a} differ from the twin")
        shutil.rmtree(top, ignore_errors=True)

    # ---- locks
    def lockjob(ij):
        i, (rtn, rargs) = ij
        rng = random.Random(f"C10-lk-{c.seed}-{i}")
        top = c.dir(f"lk{i}")
        for ab in "AB":
            os.makedirs(f"{top}/{ab}/x")
            c.write(f"{top}/{ab}/x/L", b"0123456789" * 100)
        held = [(rng.choice("rw"), rng.choice([0, 5, 50, 100, 2**31 - 5, 2**32 + 8, 2**40]), rng.choice([0, 1, 10, 50, 2**33])) for _ in range(5)]
        hp = subprocess.Popen([sys.executable, HERE + "/holder.py", f"{top}/A/x/L,{top}/B/x/L",
                               ";".join(f"{t},{a},{n}" for t, a, n in held)], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        hp.stdout.read(1)
        lines = ["@reset\t" + hx(f"{top}/A/x"), "open\tq\t" + hx("L") + "\tu\t", "lseek\tq\t40\ts"]
        for _ in range(60):
            o = rng.choice(["getlk", "getlk", "setlk"])
            lines.append(f"{o}\tq\t{rng.choice('rw' if o == 'getlk' else 'rwu')}\t{rng.choice('sce')}\t" +
                         str(rng.choice([0, 5, 49, 100, 110, 2**31 - 1, 2**31, 2**32 + 9, 2**40, 2**41, -5, 3])).replace("-", "~") + "\t" +
                         str(rng.choice([0, 1, 5, 10, 100, 2**32])))
            if rng.random() < 0.05:
                lines.append("system\t" + hx(f"{sys.executable} {HERE}/probe.py {top}/A/x/L {top}/A/x/probe"))
        lines.append("system\t" + hx(f"{sys.executable} {HERE}/probe.py {top}/A/x/L {top}/A/x/probe"))
        # the twin first: both use files of their own, but the same holder
        inp = c.write(f"{top}/in", "\n".join(lines) + "\n")
        t = c.run([sys.executable, HERE + "/twin.py", inp, f"{top}/exp"], timeout=100, cwd=top)
        got = execute(top, lines, rtn, rargs)
        hp.kill()
        hp.wait()
        exp = open(f"{top}/exp").read().split("\n")[:-1]
        for k, l in enumerate(lines):
            if k >= len(got):
                return
            note(f"lk{i}", k, l, exp[k])
            if got[k] != exp[k]:
                c.violation("lock:" + l.split("\t")[0], f"[{rtn or 'prod'}] {l[:80]}: got {got[k]!r}, the OS gives {exp[k]!r}",
                            {"held_by_other": held, "ops": lines[3:k + 1][-20:]})
                return
        pa, pb = open(f"{top}/A/x/probe").read(), open(f"{top}/B/x/probe").read()
        c.check(pa == pb and pa, "lock:effective", "locks set by the program are not those another process sees", {"got": pa, "want": pb})

    def lockwait(rtn):
        top = c.dir(f"lkw{rtn}")
        f = c.write(f"{top}/W", b"x" * 100)
        hp = subprocess.Popen([sys.executable, HERE + "/holder.py", f, "w,10,20", "1.2", f + ".t"], stdout=subprocess.PIPE)
        hp.stdout.read(1)
        lines = ["@reset\t" + hx(top), "open\tq\t" + hx("W") + "\tu\t", "setlk\tq\tw\ts\t15\t1", "setlk\tq\tw\ts\t30\t5", "setlkw\tq\tr\ts\t29\t1", "now"]
        got = execute(top, lines, rtn, [])
        hp.wait()
        if len(got) >= 6:
            c.check(got[2] == "SYSERR 11" and got[3] == "ok", "lockwait", f"conflicting setlk gave {got[2:4]}")
            c.check(got[4] == "ok" and int(got[5]) >= int(open(f + ".t").read()), "lockwait2",
                    "setlkw returned before the conflicting lock was released", {"got": got})
            c.seen(f"lockwait{rtn}", count=3)

    # ---- streams
    def streamjob(ij):
        i, (rtn, nh, rargs) = ij
        rng = random.Random(f"C10-st-{c.seed}-{i}")
        top = c.dir(f"st{i}")
        d = top + "/d"
        os.makedirs(d)
        lines, exps = ["@reset\t" + hx(d)], ["ok"]
        for k in range(nh):
            data = content(rng)
            nm = f"s{k}"
            if rng.random() < 0.5:
                c.write(f"{d}/{nm}", data)
                b = rng.random() < 0.4
                how = rng.random()
                if b:
                    op = "bin\t" + hx(nm)
                elif how < 0.6:
                    op = "tin\t" + hx(nm)
                elif how < 0.8:
                    op = "tinstr\t" + hx(data)
                else:
                    lines.append(f"open\tz{k}\t{hx(nm)}\tr\t")
                    exps.append("ok")
                    op = f"tinfd\tz{k}"
                mod = InModel(data)
                ops = gen_in(rng, op, b, data)
                for o in ops:
                    lines.append(o)
                    exps.append("ok" if o == op else mod)
            else:
                c.write(f"{d}/{nm}", data)
                ops, e, fin = gen_out(rng, nm, data, rng.random() < 0.4)
                lines += ops
                exps += e
        # a full device
        lines += ["tout\t" + hx("/dev/full"), "o.out\t" + hx("abc"), "o.flush", "bout\t" + hx("/dev/full"), "p.out\t" + hx("abc"), "p.flush",
                  "tin\t" + hx("missing"), "tin\t" + hx("."), "tout\t" + hx("missing/x")]
        exps += ["ok", "ok", "IO 28", "ok", "ok", "IO 28", "IO 2", "ok?", "IO 2"]
        got = execute(top, lines, rtn, rargs)
        for k, l in enumerate(lines):
            if k >= len(got):
                return
            e = exps[k]
            note(f"st{i}", k, l, got[k])
            if isinstance(e, InModel):
                x = e.check(l.split("\t"), got[k])
                if x is None:
                    continue
                e = x
            elif e == "ok?" or got[k] == e:
                continue
            c.violation("stream:" + l.split("\t")[0], f"[{rtn or 'prod'}] {l[:60]}: got {got[k][:160]!r}, expected {str(e)[:160]!r}",
                        {"ops": [x[:100] for x in lines[max(0, k - 12):k + 1]]})
            return

    def pipejob(ij):
        """Stream input from a pipe whose writer delivers the data in arbitrary pieces."""
        i, rtn = ij
        rng = random.Random(f"C10-pi-{c.seed}-{i}")
        top = c.dir(f"pi{i}")
        data = content(rng) or b"zz"
        rd, wr = os.pipe()

        def feed():
            p = 0
            while p < len(data):
                k = rng.choice([1, 2, 10, 100, 4096, 5000])
                try:
                    os.write(wr, data[p:p + k])
                except OSError:
                    break
                p += k
                if rng.random() < 0.3:
                    time.sleep(rng.choice([0.0005, 0.004]))
            os.close(wr)
        rng2 = random.Random(f"C10-pj-{c.seed}-{i}")
        lines = ["@reset\t" + hx(top)] + gen_in(rng2, "tinfd\tstdin", False, data, pipe=True)
        mod = InModel(data)
        th = threading.Thread(target=feed)
        th.start()
        got = execute(top, lines, rtn, [], stdin=rd)
        os.close(rd)
        th.join()
        for k, l in enumerate(lines[2:], 2):
            if k >= len(got):
                return
            note(f"pi{i}", k, l, got[k])
            x = mod.check(l.split("\t"), got[k])
            if x is not None:
                c.violation("pipe:" + l.split("\t")[0], f"[{rtn or 'prod'}] {l[:60]}: got {got[k][:160]!r}, expected {str(x)[:160]!r}",
                            {"ops": [x[:100] for x in lines[max(0, k - 12):k + 1]]})
                return

    ns = c.n(60, 500)
    work = [(fdjob, x) for x in enumerate(fdjobs)]
    work += [(lockjob, x) for x in enumerate([(None, [])] * c.n(4, 20) + [("asan", []), ("verif", [])])]
    work += [(lockwait, x) for x in (None, "asan")]
    work += [(streamjob, x) for x in enumerate([(None, ns, [])] * 3 + [(None, ns, ["@SMLalloc=64k"]), ("asan", ns // 2, []), ("verif", ns // 8, [])])]
    work += [(pipejob, x) for x in enumerate([None] * c.n(20, 120) + ["asan"] * 4)]
    c.pmap(lambda fx: fx[0](fx[1]), work)
    c.sample({"operation_kinds (!=failed as the OS does)": dict(sorted(kinds.items()))})
    c.require(len(kinds) > 60 and c.evals > 5000, "too few operations compared")
    c.finish()


main(body)
