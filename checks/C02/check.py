import sys, os, resource, struct
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))
SFX = ".amd64-linux"
BAD = ("BAD", "EXN", "bad plan")


def body():
    c = Check("C02", "an evaluation is one log line (checksum over every reachable object with all contents "
              "re-validated, result of calling every C library, signal deliveries, arguments) of a program that "
              "continued from an exported image, compared with the same program run without exports, or one "
              "damaged/unwritable image attempt; distinct = distinct (plan, position, runtime, options) continuations")
    c.build(variants=("asan", "verif", "heap"))
    img = c.sml_heap("wl", {"main.sml": open(HERE + "/../C01/main.sml").read(),
                            "img.sml": open(HERE + "/img.sml").read()}, [], main="Img.main")
    if img is None:
        c.finish()
    # a second start image made by exportML from the interactive system (a program exported by exportFn has
    # given up the initialisation hooks that reinstall its signal handlers)
    bd = os.path.dirname(img)
    c.write(bd + "/base.sml", 'val _ = CM.make "wl.cm";\n')
    c.write(bd + "/base2.sml", 'val _ = Img.base "base";\n')
    r = c.run([SML, "base.sml", "base2.sml"], cwd=bd)
    mlimg = bd + "/base" + SFX
    if not os.path.exists(mlimg):
        c.fail_run("base image", r)
        c.finish()
    rng = c.rng
    rts = [(None, ["@SMLalloc=1m"]), (None, ["@SMLalloc=128k"]), (None, ["@SMLngens=14", "@SMLalloc=64k"]),
           (None, ["@SMLvmcache=0"]), (None, ["@SMLngens=2"]), (None, []),
           ("asan", []), ("verif", ["@SMLalloc=256k"]), ("heap", ["@SMLngens=6"]), ("heap", ["@SMLalloc=64k"]),
           ("verif", ["@SMLngens=7"]), ("asan", ["@SMLngens=9", "@SMLalloc=128k"])]
    env = {"PROBE_ENV": "value of \u00e9 env"}

    def gen(r, sigs):
        nexp = r.choice([1, 1, 2, 2, 3])
        plan = []
        for k in range(nexp + 1):
            for _ in range(r.randint(1, 3)):
                plan.append(r.choice(["S%d" % r.choice([1, 50, 400, 1500]), "G%d" % r.choice([0, 1, 2, 3, 7]), "W%d" % r.choice([1, 40]),
                                      "B%d" % r.choice([5, 512, 513, 1000, 5000, 70000]), "D1", "P"] + (["K", "U%d" % r.randrange(50), "V", "U3"] if sigs else [])))
            if k < nexp:
                plan.append(r.choice("FM") + r.choice(["i%d", "im age%d", "x.y%d", "sub/i%d", "q%d" + SFX]) % k)
        plan.append("S200")
        if sigs:    # handlers are installed once and survive every exportML
            plan = ["H"] + [p for p in plan if p[0] != "F"] + ["K", "V"]
        return plan

    def launch(exe_img, out, rtc, args, cwd):
        return c.run_heap(exe_img, args, rt=c.rt[rtc[0]] if rtc[0] else None, rtargs=rtc[1], cwd=cwd, timeout=c.n(150, 400), env=env)

    def case(k):
        r = random.Random(f"C02-{c.seed}-{k}")
        sigs = k % 4 == 3
        start = mlimg if sigs else img
        plan, seed = gen(r, sigs), r.randrange(10**6)
        d = c.dir(f"case{k}")
        clean = [p for p in plan if p[0] not in "FM"]
        ref = launch(start, d, (None, ["@SMLalloc=400m"]), [d + "/ref", str(seed)] + clean, d)
        rl = readlog(d + "/ref")
        if ref.rc != 0 or rl[-1:] != ["@@END"]:
            c.violation("ref-died", f"program without exports failed rc={ref.rc}", {"plan": plan, "tail": rl[-2:], "out": ref.text[-500:]})
            return
        todo = [(start, 0, None)]
        nrun = 0
        while todo:
            im, pos, extra = todo.pop()
            nrun += 1
            cwd = f"{d}/r{nrun}"
            os.makedirs(cwd + "/sub")
            out = cwd + "/log"
            rtc = r.choice(rts)
            if extra is None:
                args, name = [out, str(seed)] + plan, None
            else:
                args = [out] + extra
                name = r.choice([None, "cmd name"])
                if name:
                    rtc = (rtc[0], rtc[1] + ["@SMLcmdname=" + name])
            imarg = im
            if extra is not None and im.endswith(SFX) and r.random() < .5 and not os.path.exists(im[:-len(SFX)]):
                imarg = im[:-len(SFX)]
            res = launch(imarg, out, rtc, args, cwd)
            log = readlog(out)
            if extra is not None:
                kind = "fn" if plan[pos - 1][0] == "F" else "ml"
                exe = c.rt[rtc[0]].exe if rtc[0] else REPO + "/bin/.run/run.amd64-linux"
                want = "|".join([kind, name or exe] + extra)
                c.check(log[:1] == [want], "arguments", f"imported program saw {log[:1]}, started as {want!r}", {"plan": plan})
                log = log[1:]
            expect = rl[len([p for p in plan[:pos] if p[0] not in "FM"]):]
            nextF = next((i for i in range(pos, len(plan)) if plan[i][0] == "F"), None)
            if nextF is not None:
                expect = expect[:len([p for p in plan[pos:nextF] if p[0] not in "FM"])]
            for i, (a, b) in enumerate(zip(log, expect)):
                c.seen(f"{k}-{nrun}-{i}-{rtc}")
                if a != b:
                    c.violation("state:" + a[:1], f"after import at {pos}: step {i} gave {a!r}, expected {b!r}",
                                {"plan": plan, "seed": seed, "runtime": rtc})
                    return
            if len(log) != len(expect) or res.rc != 0:
                c.violation("died", f"continuation from {im and os.path.basename(im)} ended early: {len(log)}/{len(expect)} steps, rc={res.rc} timeout={res.timeout}",
                            {"plan": plan, "seed": seed, "runtime": rtc, "tail": log[-2:], "out": res.text[-900:]})
                return
            for i in range(pos, len(plan)):
                if plan[i][0] in "FM":
                    nm = plan[i][1:]
                    f = cwd + "/" + (nm if nm.endswith(SFX) else nm + SFX)
                    if not os.path.exists(f):
                        c.violation("missing", f"export of {nm!r} left no image", {"plan": plan})
                        return
                    todo.append((f, i + 1, [r.choice(["a", "-x", "@SMLx"[1:], "two words", "@foo", "--"]) for _ in range(r.randrange(3))]))
                    if plan[i][0] == "F":
                        break
        c.sample({"plan": plan, "processes": nrun})
        shutil.rmtree(d, ignore_errors=True)

    def readlog(f):
        try:
            return open(f, errors="surrogateescape").read().split("\n")[:-1]
        except FileNotFoundError:
            return []

    c.pmap(case, range(c.n(36, 300)))

    # ------------------------------------------------ exports that cannot be completed
    d = c.dir("fault")
    good = ["S300", "B5000", "W3"]
    for p, d2 in (("M", d + "/gm"), ("F", d + "/gf")):
        os.makedirs(d2)
        r = c.run_heap(img, [d2 + "/log", "7"] + good + [p + "im", "S50"], cwd=d2, env=env)
        c.require(os.path.exists(d2 + "/im" + SFX), "no image to damage")
    ref = readlog(d + "/gm/log")
    size = os.path.getsize(d + "/gm/im" + SFX)

    def limited(job):
        kind, lim, n = job
        w = f"{d}/lim{n}"
        os.makedirs(w)

        def pre():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
        r = c.run_heap(img, ["/dev/stdout", "7"] + good + [("m" if kind == "M" else "F") + "im", "S50", "P"], cwd=w, env=env,
                       preexec_fn=pre, rt=c.rt["asan"] if n % 5 == 0 else None)
        return job, r, w
    sz = {"M": size, "F": os.path.getsize(d + "/gf/im" + SFX)}
    jobs = []
    for kind in "MF":
        N = sz[kind]
        for lim in [0, 100, 4096, N - 1, N - 2, N - 4095, N - 4096, N - 4097, N + 4096] + [rng.randrange(N) for _ in range(c.n(5, 60))]:
            jobs.append((kind, lim, len(jobs)))
    for (kind, lim, n), r, w in c.pmap(limited, jobs):
        c.seen(f"limit {kind} {lim}")
        lines = r.text.split("\n")
        f = w + "/im" + SFX
        actual = os.path.getsize(f) if os.path.exists(f) else -1
        ok = "exported" in lines if kind == "M" else r.rc == 0
        if ok and lim < sz[kind] * 0.99:
            c.violation("short-export", f"an image that could only be written up to {lim} bytes was reported as exported",
                        {"limit": lim, "kind": kind, "file_size": actual, "out": r.text[-400:]})
        elif ok:
            r2 = c.run_heap(f, ["/dev/stdout"], cwd=w, env=env)
            c.check("@@END" in r2.text, "short-export", f"export reported success (limit {lim}, file {actual}) but the image does not run",
                    {"limit": lim, "kind": kind, "rc": r2.rc, "out": r2.text[-400:]})
        else:
            c.check(lim <= sz[kind] + 4000, "spurious-failure", f"export failed although {lim} bytes could be written (image: {sz[kind]})", {"out": r.text[-300:]})
            c.check(r.rc is not None and r.rc >= 0, "crash-export", f"process died with {r.rc} on a failed export", {"limit": lim, "kind": kind, "out": r.text[-400:]})
        if kind == "M":     # the exporting program itself goes on, whatever happened
            tail = [l for l in lines if l.startswith("S50")]
            c.check("@@END" in lines and tail == [l for l in ref if l.startswith("S50")], "exporter-damaged",
                    f"the exporting program did not continue correctly (limit {lim})", {"out": r.text[-500:], "want": ref[-3:], "rc": r.rc})
        shutil.rmtree(w, ignore_errors=True)
    # unwritable targets
    w = d + "/unw"
    os.makedirs(w + "/isdir" + SFX)
    os.symlink("/dev/full", w + "/full" + SFX)
    for t in ("nodir/x", "isdir", "full", "a" * 300):
        r = c.run_heap(img, ["/dev/stdout", "7"] + good + ["m" + t, "S50"], cwd=w, env=env)
        lines = r.text.split("\n")
        c.seen("unwritable " + t)
        c.check(any(l.startswith("refused") for l in lines), "unwritable", f"exportML to {t!r} did not raise SysErr", {"out": r.text[-500:]})
        c.check("@@END" in lines and [l for l in lines if l.startswith("S50")] == [l for l in ref if l.startswith("S50")],
                "exporter-damaged", f"the program did not continue after exportML to {t!r} failed", {"out": r.text[-500:]})
        r = c.run_heap(img, ["/dev/stdout", "7"] + good + ["f" + t], cwd=w, env=env)
        c.seen("unwritable fn " + t)
        c.check((r.rc > 0 or "refused" in r.text), "unwritable", f"exportFn to {t!r} was not reported (rc={r.rc})", {"out": r.text[-500:]})

    # ------------------------------------------------ damaged images are refused, not run
    def damaged(job):
        n, what, data = job
        f = f"{d}/dmg{n}"
        with open(f, "wb") as fh:
            fh.write(data)
        r = c.run_heap(f, [d + f"/dmg{n}.log"], cwd=d, env=env, timeout=60, rt=c.rt["asan"] if n % 4 == 0 else None)
        os.unlink(f)
        return what, r, readlog(d + f"/dmg{n}.log")
    jobs = []
    for kind in ("gm", "gf"):
        data = open(f"{d}/{kind}/im{SFX}", "rb").read()
        N = len(data)
        for cut in [0, 1, 4, 15, 16, 64, 100, 200, 400, 1000, 4096, N - 1, N - 2, N - 4096, N - 4097] + \
                [rng.randrange(N) for _ in range(c.n(8, 200))]:
            jobs.append((len(jobs), f"{kind} truncated to {cut}/{N}", data[:cut]))
        for off, val in ((0, b"\xff\xff\xff\xff"), (4, b"\x00\x00\x00\x00"), (4, b"zzzz"), (8, b"\x77\x00\x00\x00"), (0, data[3::-1])):
            if data[off:off + 4] != val:
                jobs.append((len(jobs), f"{kind} header at {off} = {val!r}", data[:off] + val + data[off + 4:]))
    jobs.append((len(jobs), "a text file", b"val it = 0;\n" * 5000))
    jobs.append((len(jobs), "an executable", open(REPO + "/bin/.run/run.amd64-linux", "rb").read(200000)))
    for what, r, log in c.pmap(damaged, jobs):
        c.seen("damaged " + what)
        c.check(r.rc is not None and r.rc > 0 and not r.timeout and log == [], "damaged-image",
                f"{what}: not refused cleanly (rc={r.rc}, timeout={r.timeout})", {"log": log[:3], "out": r.text[-300:]})
    for missing in (d + "/no-such-image", d):
        r = c.run_heap(missing, [d + "/x.log"], cwd=d, timeout=60)
        c.seen("missing " + missing[-5:])
        c.check(r.rc > 0 and "Fatal error" in r.text, "missing-image", f"loading {missing}: rc={r.rc}", {"out": r.text[-300:]})

    # ------------------------------------------------ stand-alone executables (heap2asm + runtime)
    h = c.dir("h2a")
    shutil.copy(REPO + "/heap2asm/heap2asm.sml", h)
    c.write(h + "/h.cm", "Group is\n $/basis.cm\n heap2asm.sml\n")
    c.write(h + "/b.sml", 'val _ = CM.make "h.cm";\n')
    c.write(h + "/c.sml", "val _ = OS.Process.exit (Main.main (\"h\", [\"%s\", \"img.s\"]));\n" % (d + "/gf/im" + SFX))
    r = c.run([SML, "b.sml", "c.sml"], cwd=h)
    if not os.path.exists(h + "/img.s"):
        c.fail_run("heap2asm", r)
    else:
        for v in ("verif", "asan"):
            o = os.path.dirname(c.rt[v].exe)
            xd = VARIANTS[v].get("xdefs", "")
            c.run(["gcc", "-c", "-o", f"{o}/img.o", h + "/img.s"])
            cmd = ["make", "-f", "mk.amd64-linux", "CC=gcc -std=gnu99 -w", f"CFLAGS={VARIANTS[v]['cc_flags']} -m64", "XOBJS=img.o",
                   "RUNTIME=run.incore", "LD_LIBS=-lm -ldl -Wl,--export-dynamic"] + ([f"XDEFS={xd}"] if xd else [])
            r = c.run(cmd, cwd=o, env={"ASAN_OPTIONS": "detect_leaks=0"})
            if not os.path.exists(o + "/run.incore"):
                die("could not link the stand-alone executable: " + r.text[-800:])
            out = h + "/log-" + v
            r = c.run([o + "/run.incore", out, "one"], cwd=h, env=dict(env, **c.rt[v].env(c.scratch + "/verif.log")))
            c.scan_monitors(r, "stand-alone")
            log = readlog(out)
            want = [f"fn|{o}/run.incore|one"] + [l for l in ref if l.startswith("S50")] + ["@@END"]
            c.seen("incore " + v)
            c.check(log == want and r.rc == 0, "incore", f"stand-alone executable: {log[:3]}, expected {want}", {"rc": r.rc, "out": r.text[-600:]})
    c.require(c.evals > 150, "too few continuations observed")
    c.finish()


main(body)
