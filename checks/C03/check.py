import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))


def body():
    c = Check("C03", "an evaluation is one serialise/deserialise round of a random value graph or scalar (in one process, or "
              "written by one process and read by another), every copy re-validated and compared with the original by a "
              "checksum over contents, sharing and cycles, originals and bystanders re-checked; or one damaged byte string "
              "offered for reading; distinct = distinct (graph seed, size, runtime, options)")
    c.build(variants=("asan", "verif", "heap"))
    img = c.sml_heap("wl", {"main.sml": open(HERE + "/../C01/main.sml").read(), "drv.sml": open(VERIF + "/lib/drv.sml").read(),
                            "blast.sml": open(HERE + "/blast.sml").read()}, [], main="Blast.main")
    if img is None:
        c.finish()
    rng = c.rng
    R = [(None, ["@SMLalloc=16m"]), (None, ["@SMLalloc=4m", "@SMLngens=2"]), (None, ["@SMLalloc=16m", "@SMLngens=9"]),
         (None, ["@SMLalloc=8m", "@SMLvmcache=1"]), ("heap", ["@SMLalloc=16m"]), ("verif", ["@SMLalloc=8m"]),
         ("asan", ["@SMLalloc=16m"]), ("heap", ["@SMLalloc=4m", "@SMLngens=3"]), (None, ["@SMLalloc=1m"])]

    def drive(k, lines, rtc):
        f, o = f"{c.scratch}/in{k}", f"{c.scratch}/out{k}"
        c.write(f, "".join(l + "\n" for l in lines))
        r = c.run_heap(img, [f, o], rt=c.rt[rtc[0]] if rtc[0] else None, rtargs=rtc[1], timeout=c.n(150, 600))
        try:
            out = open(o, "rb").read().decode("latin-1").split("\n")
        except FileNotFoundError:
            out = []
        if r.rc != 0 or "@@END" not in out:
            n = len([l for l in out if l and l != "@@END"])
            c.violation("died", f"process died (rc={r.rc}, timeout={r.timeout}) at or before op {lines[n] if n < len(lines) else '?'}",
                        {"runtime": rtc, "out": r.text[-700:], "last": lines[max(0, n - 2):n + 1]})
        return out

    # ---- one process
    jobs = []
    for k in range(c.n(18, 160)):
        rtc = R[k % len(R)]
        small = rtc[1][0] == "@SMLalloc=1m"
        mx = 60 if small else 900
        jobs.append((len(jobs), [f"round\t{rng.choice([1, 2, 5, 30, mx // 3, mx])}\t{rng.randrange(10**6)}\t{rng.randint(2, 6)}"
                                 for _ in range(c.n(8, 20))], rtc))
    for (k, lines, rtc), out in zip(jobs, c.pmap(lambda j: drive(*j), jobs)):
        for l, o in zip(lines, out):
            c.seen(f"{l} {rtc}", count=int(l.split("\t")[3]) if l.startswith("round") else 1)
            if l.startswith("round"):
                c.check(not o.startswith(("BAD", "EXN", "SysErr")), "round:" + o.split(":")[0][:30], f"{l!r}: {o}", {"runtime": rtc})
            else:
                c.check(o in ("ok", "refused"), "code:" + o[:10], f"value with code: {o}", {"runtime": rtc})
    # ---- two processes: every reader has another address space layout and configuration
    d = c.dir("x")
    nscal = int(drive(9000, ["scals"], R[0])[0])
    gs = [(rng.choice([1, 3, 40, 300, 1200]), rng.randrange(10**6), rng.randrange(5)) for _ in range(c.n(24, 200))]
    wl = [f"write\t{n}\t{s}\t{g}\t{hx(f'{d}/g{i}')}" for i, (n, s, g) in enumerate(gs)] + \
         [f"scalw\t{k}\t{hx(f'{d}/s{k}')}" for k in range(nscal)]
    sums = drive(9001, wl, R[0])
    names = sums[len(gs):len(gs) + nscal]
    for i, s in enumerate(sums[:len(gs)]):
        c.check(":" in s and not s.startswith(("BAD", "EXN", "SysErr")), "write", f"{wl[i]!r}: {s}", {})
    rl = [f"read\t{hx(f'{d}/g{i}')}" for i in range(len(gs))] + [f"scalr\t{k}\t{hx(f'{d}/s{k}')}" for k in range(nscal)]
    for rtc, out in zip(R, c.pmap(lambda j: drive(9100 + j[0], rl, j[1]), list(enumerate(R)))):
        for i, o in enumerate(out[:len(gs)]):
            c.seen(f"x{i} {rtc}")
            c.check(o == sums[i], "other-process", f"graph {gs[i]} read in another process: {o}, written {sums[i]}", {"runtime": rtc})
        for k, o in enumerate(out[len(gs):len(gs) + nscal]):
            c.seen(f"scal {names[k]} {rtc}")
            c.check(o == names[k] + " true", "scalar:" + names[k], f"value {names[k]} read in another process: {o}", {"runtime": rtc})
    # ---- damaged input is refused
    bl = []
    for i in list(range(min(6, len(gs)))):
        if not os.path.exists(f"{d}/g{i}"):
            continue
        data = open(f"{d}/g{i}", "rb").read()
        N = len(data)
        for cut in [0, 1, 8, 11, 16, 24, 40, 60, 100, N - 1, N - 8, N // 2] + [rng.randrange(N) for _ in range(c.n(4, 40))]:
            if 0 <= cut < N:
                f = f"{d}/cut{i}-{cut}"
                c.write(f, data[:cut])
                bl.append((f"{N}-byte form cut to {cut}", f))
        for off, b in ((4, b"\0\0\0\0"), (8, b"\x55\0\0\0"), (0, b"abcd")):
            f = f"{d}/hdr{i}-{off}"
            c.write(f, data[:off] + b + data[off + 4:])
            bl.append((f"header word at {off} replaced", f))
    c.write(d + "/txt", b"not a serialised value\n" * 10)
    bl.append(("text", d + "/txt"))
    # one process per input, so that one failure does not hide the others
    def bad1(j):
        k, (what, f) = j
        p = f"{c.scratch}/b{k}"
        c.write(p, f"bad\t{hx(f)}\nround\t20\t{k}\t1\n")
        rt = (c.rt["asan"], None, c.rt["verif"])[k % 3]
        r = c.run_heap(img, [p, p + ".out"], rt=rt, rtargs=["@SMLalloc=4m"], timeout=100)
        try:
            return what, r, open(p + ".out").read().split("\n")
        except FileNotFoundError:
            return what, r, []
    for what, r, out in c.pmap(bad1, list(enumerate(bl))):
        c.seen("damaged " + what)
        c.check(r.rc == 0 and out[:1] == ["SysErr"] and ":" in (out + ["", ""])[1] and not out[1].startswith("BAD"), "damaged",
                f"{what}: {out[:2]} (rc={r.rc})", {"out": r.text[-400:]})
    c.sample({"graphs": gs[:6], "sums": sums[:3], "scalars": names})
    c.require(c.evals > 300, "too few rounds")
    c.finish()


main(body)
