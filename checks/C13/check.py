import sys, os, calendar, datetime, decimal
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))
ZONES = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "IST-5:30", "NPT-5:45", "NZST-12NZDT,M9.5.0,M4.1.0/3",
         "HST10", "XXX-14", "NST3:30NDT,M3.2.0,M11.1.0", "LHST-10:30LHDT-11,M10.1.0,M4.1.0", "ABCDEFGH12"]
FIELDS = "aAbBcdHIjmMpSUwWxXyYZ"
EPOCH = datetime.date(1970, 1, 1).toordinal()
MAXT = 15_000_000_000      # year 2445: the end of what 64-bit unsigned nanoseconds can carry is 2554


def n2s(n):
    return "~%d" % -n if n < 0 else str(n)


def fields(st, dst, off):
    return f"{st.tm_year} {st.tm_mon} {st.tm_mday} {st.tm_hour} {st.tm_min} {st.tm_sec} {st.tm_wday} {st.tm_yday - 1} {dst} {off}"


def rtime(rng):
    k = rng.randrange(6)
    if k == 0:
        return rng.choice([0, 1, 59, 60, 3599, 3600, 86399, 86400, 951782400, 951868799, 951868800, 2**31 - 1, 2**31, 2**32 - 1, 2**32,
                           4107542399, 4107542400, 1583650799, 1583650800, 1604210400, 1604214000])
    if k == 1:   # around new year / month ends
        y, m = rng.randint(1970, 2440), rng.randint(1, 12)
        return max(0, calendar.timegm((y, m, 1, 0, 0, 0)) + rng.randint(-90000, 90000))
    if k == 2:
        return rng.randrange(MAXT)
    # around the usual changes of clock
    y = rng.randint(1990, 2060)
    m = rng.choice([3, 4, 9, 10, 11])
    return calendar.timegm((y, m, rng.randint(1, 31) if m in (3, 10) else rng.randint(1, 30), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)))


def fmt_oracle(f, st):
    """Date.fmt: the listed conversions, %c for any other c is c itself, %% is %"""
    out, i = [], 0
    while i < len(f):
        ch = f[i]
        if ch == "%":
            if i + 1 == len(f):
                out.append("%")
            elif f[i + 1] in FIELDS:
                out.append(time.strftime("%" + f[i + 1], st))
            else:
                out.append(f[i + 1])
            i += 2
        else:
            out.append(ch)
            i += 1
    return "".join(out)


def rfmt(rng):
    k = rng.randrange(4)
    parts = []
    n = rng.randint(1, 12) if k else rng.randint(30, 120)
    for _ in range(n):
        j = rng.randrange(10)
        if j < 6:
            parts.append("%" + rng.choice(FIELDS))
        elif j == 6:
            parts.append("%%")
        elif j == 7:
            parts.append("%" + rng.choice("qQ-.z1 "))
        else:
            parts.append("".join(rng.choice("abcdYHM :/-,_") for _ in range(rng.choice([1, 2, 10, 40] if k else [100, 300, 505, 520, 700]))))
    if rng.random() < 0.1:
        parts.append("%")
    return "".join(parts)


def plain_local(y, mo, d, h, mi, s):
    """local time -> the one matching instant, or None if the clock changed around it"""
    try:
        t = time.mktime((y, mo, d, h, mi, s, 0, 0, -1))
    except (OverflowError, ValueError):
        return None
    st = time.localtime(t)
    if tuple(st)[:6] != (y, mo, d, h, mi, s):
        return None
    for dt in (-7200, -3600, -1800, 1800, 3600, 7200):
        if tuple(time.localtime(t + dt))[:6] == (y, mo, d, h, mi, s):
            return None
    # near a change the library call may legitimately resolve either way
    if len({time.localtime(t + dt).tm_gmtoff for dt in (-10800, 0, 10800)}) != 1:
        return None
    return int(t)


def norm_date(y, mo, d, h, mi, s, off):
    """Date.date: normalised fields, or None for Date"""
    if off is not None:
        q = abs(off) // 86400
        h += (q if off >= 0 else -q) * 24
        off = (abs(off) % 86400) * (1 if off >= 0 else -1)
    mi, s = mi + s // 60, s % 60
    h, mi = h + mi // 60, mi % 60
    dd, h = h // 24, h % 24
    try:
        ordn = datetime.date(y, mo, 1).toordinal() + d - 1 + dd
        if ordn <= 0:
            return None
        x = datetime.date.fromordinal(ordn)
    except (ValueError, OverflowError):
        return "skip"
    return x.year, x.month, x.day, h, mi, s, x.weekday(), x.timetuple().tm_yday - 1, off


def gen(rng, n):
    """-> [(op, set of expected, key)] under the current zone"""
    out = []
    mx = 0
    for _ in range(n):
        k = rng.randrange(13)
        t = rtime(rng)
        if k == 0:
            out.append((f"show\tu,{t}", fields(time.gmtime(t), "false", 0), "univ"))
        elif k == 1:
            st = time.localtime(t)
            out.append((f"show\tl,{t}", fields(st, "true" if st.tm_isdst else "false", "-"), "local"))
        elif k == 2:
            out.append((f"totime\t{rng.choice('ul')},{t}", str(t), "roundtrip"))
        elif k == 3:
            u = t * 1000000 + rng.choice([0, 1, 999999, 500000, rng.randrange(1000000)])
            st = time.localtime(t)
            out.append((f"univus\t{u}", fields(time.gmtime(t), "false", 0), "univ-us"))
            out.append((f"locus\t{u}", fields(st, "true" if st.tm_isdst else "false", "-"), "local-us"))
        elif k in (4, 5):
            f = rfmt(rng)
            if rng.random() < 0.5:
                out.append((f"fmt\t{hx(f)}\tl,{t}", hx(fmt_oracle(f, time.localtime(t))), "fmt-local"))
            else:
                st = time.gmtime(t)
                # the zone name of an UTC date is not specified further: leave %Z out
                f = f.replace("Z", "Y")
                out.append((f"fmt\t{hx(f)}\tu,{t}", hx(fmt_oracle(f, st)), "fmt-univ"))
        elif k in (6, 7, 8):
            y = rng.choice([rng.randint(1971, 2400), rng.randint(1, 2400), 2000, 1900, 2100, 2024])
            mo = rng.randint(1, 12)
            big = rng.random() < 0.4
            d = rng.randint(-400, 800) if big else rng.randint(1, 28)
            h = rng.randint(-100, 200) if big else rng.randint(0, 23)
            mi = rng.randint(-2000, 2000) if big else rng.randint(0, 59)
            s = rng.randint(-200000, 200000) if big else rng.randint(0, 59)
            off = None if rng.random() < 0.5 else rng.choice([0, 3600, -3600, 19800, -20700, 86399, -86399, 86400, 90000, -90000, 200000, rng.randint(-300000, 300000)])
            x = norm_date(y, mo, d, h, mi, s, off)
            if x == "skip":
                continue
            spec = "d," + ",".join(n2s(v) for v in (y, mo, d, h, mi, s)) + "," + ("-" if off is None else n2s(off))
            if x is None:
                out.append((f"show\t{spec}", "EXN Date", "date-bc"))
                continue
            Y, M, D, H, MI, S, W, J, o2 = x
            out.append((f"show\t{spec}", f"{Y} {M} {D} {H} {MI} {S} {W} {J} - {'-' if o2 is None else n2s(o2)}", "date"))
            if o2 is None:
                t2 = plain_local(Y, M, D, H, MI, S) if Y >= 1970 else None
                if t2 is not None and t2 >= 0:
                    out.append((f"totime\t{spec}", str(t2), "date-totime"))
            else:
                t2 = calendar.timegm((Y, M, D, H, MI, S)) + o2
                out.append((f"totime\t{spec}", str(t2) if t2 >= 0 else "EXN Date", "date-totime-offset"))
            # formatting does not depend on the zone (leave zone names to the local dates)
            st = time.struct_time((Y, M, D, H, MI, S, W, J + 1, 0))
            if Y >= 1000:
                f = rfmt(rng).replace("Z", "Y")
                out.append((f"fmt\t{hx(f)}\t{spec}", hx(fmt_oracle(f, st)), "fmt-date" + ("-old" if Y < 1972 else "")))
                txt = time.strftime("%a %b %d %H:%M:%S %Y", st)
                out.append((f"str\t{spec}", hx(txt), "str" + ("-old" if Y < 1972 else "")))
                out.append((f"parse\t{hx(txt)}", f"{Y} {M} {D} {H} {MI} {S} {W} {J} - -", "parse"))
                if o2 is None and Y > 1971:
                    t3 = plain_local(Y, M, D, H, MI, S)
                    if t3 is not None:
                        out.append((f"fmt\t{hx('%Z')}\t{spec}", hx(time.strftime("%Z", time.localtime(t3))), "fmt-zone"))
        elif k == 9:
            t2 = rng.choice([t, t + 1, t - 1, t + 86400, rtime(rng), t + 31 * 86400])
            if t2 < 0:
                continue
            out.append((f"cmp\tu,{t}\tu,{t2}", "EQUAL" if t == t2 else "LESS" if t < t2 else "GREATER", "compare"))
        elif k in (10, 11):
            a, b = [rng.choice([0, 1, -1, 999999, 1000000, -1000000, 10**15, -10**15, rng.randint(-10**12, 10**12), rng.randint(-10**7, 10**7), rng.randrange(100) * 500000]) for _ in "ab"]
            out.append((f"tadd\t{n2s(a)}\t{n2s(b)}", n2s(a + b), "time+"))
            out.append((f"tsub\t{n2s(a)}\t{n2s(b)}", n2s(a - b), "time-"))
            o = (a > b) - (a < b)
            B = lambda x: "true" if x else "false"
            out.append((f"tcmp\t{n2s(a)}\t{n2s(b)}", ["EQUAL", "GREATER", "LESS"][o] + B(a < b) + B(a <= b) + B(a > b) + B(a >= b) + B(a == b), "timecmp"))
            p = rng.randint(0, 9)
            with decimal.localcontext() as cx:
                cx.prec = 60
                v = decimal.Decimal(abs(a)) / 1000000
                q = v.quantize(decimal.Decimal(1).scaleb(-p), rounding=decimal.ROUND_HALF_EVEN)
                exact2 = (v * 2 * 10 ** p)
            tie = exact2 == exact2.to_integral_value() and int(exact2) % 2 == 1
            if not tie:      # the rounding of exact ties is not specified
                out.append((f"tfmt\t{p}\t{n2s(a)}", {("~" if a < 0 else "") + f"{q:f}", ("~" if a < 0 and q != 0 else "") + f"{q:f}"}, "timefmt"))
            out.append((f"tto\t{n2s(a)}", " ".join(n2s(int(decimal.Decimal(a) / dv)) for dv in (1000000, 1000)) + f" {n2s(a)} {n2s(a * 1000)}", "timeto"))
            m = {"s": 1000000, "m": 1000, "u": 1}
            u = rng.choice("smu")
            out.append((f"tfrom\t{u}\t{n2s(b)}", n2s(b * m[u]), "timefrom"))
            out.append((f"tfrom\tn\t{n2s(b * 1000)}", n2s(b), "timefrom"))
        else:
            a = rng.choice([0, 1, 999999, rng.randrange(10**12)])
            digs = rng.randint(0, 6)
            fr = f"{a % 1000000:06d}"[:digs]
            sg = rng.choice(["", "~", "-", "+"])
            txt = rng.choice(["", "  "]) + sg + str(a // 1000000) + ("." + fr if fr else "") + rng.choice(["", "x", " 1"])
            v = (a // 1000000) * 1000000 + (int(fr.ljust(6, "0")) if fr else 0)
            out.append((f"tparse\t{hx(txt)}", n2s(-v if sg in ("~", "-") else v), "timeparse"))
    return out


def clocks(c, img, name, kw, rng):
    """clocks and timers against the kernel's"""
    p = c.proc_heap(img, env={"TZ": "EST5EDT,M3.2.0,M11.1.0"}, **kw)
    tck = os.sysconf("SC_CLK_TCK")

    def bad(key, msg):
        c.violation("clock:" + key, msg, {"config": name, "ops": p.hist[-6:]})

    def ask(*f):
        r = p.ask("\t".join(str(x) for x in f), 60)
        if r is None:
            bad("died", f"{p.dead} in {f}")
            raise EOFError
        c.seen(f"clock {f[0]} {name}")
        return r
    try:
        def stat():
            w = open(f"/proc/{p.pid}/stat").read().rsplit(")", 1)[1].split()
            return (int(w[11]) + int(w[12])) * 1e6 / tck, [int(x) * 1e6 / tck for x in w[11:15]]
        ask("tstart")
        s0, _ = stat()
        first = None
        last_now = 0
        base = None
        for i in range(14):
            a = time.time_ns() // 1000
            v = int(ask("now"))
            b = time.time_ns() // 1000
            if not a - 2 <= v <= b + 2:
                bad("now", f"current time {v} is outside [{a}, {b}] (microseconds)")
            if v < last_now:
                bad("now-monotone", f"{v} after {last_now}")
            last_now = v
            a = time.time()
            v = int(ask("ptime"))
            if not (int(a) - 1) * 1000000 <= v <= (time.time() + 1) * 1e6:
                bad("ptime", f"Posix time {v}, clock {a}")
            o = int(ask("offset").replace("~", "-"))
            if o not in (18000, 14400):
                bad("offset", f"local offset {o}")
            k = rng.choice(["spin", "sys", "gc", "sleep"]) if i > 3 else ["spin", "sys", "gc", "sleep"][i]
            w0 = time.time(); c0 = [int(x.replace("~", "-")) for x in ask("cpu").split()]
            if k == "spin":
                ask("spin", rng.choice([3000000, 20000000]))
            elif k == "sys":
                ask("sys", 30000)
            elif k == "gc":
                ask("gc", 12)
            else:
                d = rng.choice([1000, 20000, 50000])
                e = int(ask("sleep", d))
                if e < d:
                    bad("sleep", f"slept {e} us instead of {d}")
            lo, x0 = stat()
            c1 = [int(x.replace("~", "-")) for x in ask("cpu").split()]
            hi, x1 = stat()
            w1 = time.time()
            usr, sysn, gc, real, u2, s2, gu, gs, nu, ns = c1
            tot = usr + sysn
            if base is None:
                base = (lo + hi) / 2 - tot      # start-up before the timer's origin
                if base < -60000:
                    bad("cpu-total", f"CPU timer shows {tot} us, the kernel {hi} us")
            # kernel ticks are 10 ms; allow three of them each way
            if not lo - base - 45000 <= tot <= hi - base + 45000:
                bad("cpu-total", f"CPU timer shows usr+sys={tot} us, kernel says between {lo - base} and {hi - base} us")
            if not (usr + sysn <= gu + nu + gs + ns <= usr + sysn + 50000 and gc <= gu <= gc + 50000):
                bad("cpu-parts", f"parts do not add up: {c1}")
            if not (0 <= gc <= usr + 45000):
                bad("gc-share", f"garbage collection {gc} us of {usr} us user time")
            if any(y < x for x, y in zip(c0[:6], c1[:6])):
                bad("monotone", f"timers went back: {c0} -> {c1}")
            if k in ("spin", "sleep") and False:
                pass
            el = c1[3] - c0[3]
            if el > (w1 - w0) * 1e6 + 5000:
                bad("real", f"real timer advanced {el} us in {(w1 - w0) * 1e6:.0f} us")
            tm = [int(x.replace("~", "-")) for x in ask("times").split()]
            for x, y, z, nm in zip(x0, tm[1:], stat()[1], ("utime", "stime", "cutime", "cstime")):
                if not x - 11000 <= y <= z + 11000:
                    bad("times", f"{nm} = {y} us, kernel between {x} and {z}")
            up = float(open("/proc/uptime").read().split()[0])
        # collections that pass full seconds of CPU time
        c0 = [int(x.replace("~", "-")) for x in ask("cpu").split()]
        ask("gccross", 3, "-")
        c1 = [int(x.replace("~", "-")) for x in ask("cpu").split()]
        if not (c1[0] - c0[0]) * .5 - 45000 <= c1[2] - c0[2] <= c1[0] - c0[0] + 45000:
            bad("gc-share", f"garbage collection took {c1[2] - c0[2]} us of {c1[0] - c0[0]} us user time of a program that only collects")
        r = ask("nowdate")
        t, d = r.split("|")
        os.environ["TZ"] = "EST5EDT,M3.2.0,M11.1.0"
        time.tzset()
        st = time.localtime(int(t))
        if d != fields(st, "true" if st.tm_isdst else "false", "-"):
            bad("nowdate", r)
        e1 = [int(x.replace("~", "-")) for x in ask("times").split()][0]
        time.sleep(0.1)
        e2 = [int(x.replace("~", "-")) for x in ask("times").split()][0]
        if not 80000 <= e2 - e1 <= 30000000:
            bad("elapsed", f"elapsed real time advanced {e2 - e1} us during a 100 ms pause")
    except EOFError:
        pass
    p.close()


def body():
    c = Check("C13", "distinct (operation class, zone, result)")
    c.build(("asan", "verif"))
    img = c.sml_heap("w", {"drv.sml": open(HERE + "/../../lib/drv.sml").read(), "main.sml": open(HERE + "/main.sml").read()}, [])
    if img is None:
        c.finish()
    rng = random.Random(c.seed)
    V = c.rt["verif"]
    jobs = []
    per = c.n(2500, 20000)
    os.environ["LC_ALL"] = "C"
    for i, z in enumerate(ZONES):
        os.environ["TZ"] = z
        time.tzset()
        items = gen(rng, per)
        jobs.append((z, "prod", {}, items))
        jobs.append((z, "asan", dict(rt=c.rt["asan"]), gen(rng, per // 6)))
        jobs.append((z, "verif", dict(rt=V), gen(rng, per // 8)))
    c.cov["classes"] = {}

    def one(job):
        z, nm, kw, items = job
        res = run_ops(c, img, f"{nm}-{ZONES.index(z)}", [x[0] for x in items], shards=1, env={"TZ": z}, **kw)
        if res is None:
            return
        for (op, want, key), got in zip(items, res):
            c.seen(f"{key}|{z}|{got}")
            c.cov["classes"][key] = c.cov["classes"].get(key, 0) + 1
            if got not in (want if isinstance(want, set) else {want}):
                f = op.split("\t")
                c.violation(key, f"TZ={z} ({nm}) {f}: got {got!r}, expected {want!r}",
                            {"fmt": unhx(f[1]).decode("latin-1")} if f[0] == "fmt" else None)
    c.pmap(one, jobs)
    for nm, kw in [("prod", {}), ("asan", dict(rt=c.rt["asan"])), ("small", dict(rtargs=["@SMLalloc=128k"]))]:
        clocks(c, img, nm, kw, rng)
    c.sample({"zones": ZONES, "operations": {k: v for k, v in c.cov["classes"].items()}})
    c.require(len(c.cov["classes"]) > 20, "classes of operations missing")
    c.finish()


main(body)
