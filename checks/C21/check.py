import sys, os, time, random, re
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))
KB = 1024


def parse(s):
    m = re.fullmatch(r"(\d+) (NONE|SOME \d+) (\d+) (\d+) \[([\d,]*)\]", s)
    return (int(m[1]), int(m[3]), int(m[4]), [int(x) for x in m[5].split(",") if x]) if m else None


def body():
    c = Check("C21", "an evaluation is one reading of a counter, control or profile array after a known amount of work (allocation, collections, processor time), "
              "compared with what the work must have produced; distinct = distinct programs of actions")
    c.build(variants=("asan", "verif"))
    img = c.sml_heap("wl", {"main.sml": open(HERE + "/main.sml").read(), "drv.sml": open(VERIF + "/lib/drv.sml").read()}, [])
    if img is None:
        c.finish()
    CONF = [(None, "256k", 5, None), (None, "1m", 3, 2), (None, "128k", 14, 14), (None, "4m", 7, 0), (None, "512k", 1, 5), (None, "64k", 2, 1),
            ("asan", "256k", 5, 3), ("verif", "512k", 4, 2)]
    SZ = {"64k": 64 * KB, "128k": 128 * KB, "256k": 256 * KB, "512k": 512 * KB, "1m": 1 << 20, "4m": 4 << 20}

    def session(k):
        rt, al, ng, vm = CONF[k % len(CONF)]
        r = random.Random(c.seed * 1000 + k)
        p = c.proc_heap(img, rt=c.rt[rt] if rt else None, rtargs=[f"@SMLalloc={al}", f"@SMLngens={ng}"] + ([f"@SMLvmcache={vm}"] if vm is not None else []), env={"VERIF_GC_PERIOD": "0"})
        tag = f"{rt or 'std'},{al},{ng}"
        size = SZ[al]
        lastvm = [None]
        kept = []
        msgs = [False]
        want_lines = [0]
        vers = []

        def ask(prog, timeout=120):
            a = p.recv_ask("prog\t" + prog, timeout) if hasattr(p, "recv_ask") else (p.send("prog\t" + prog), p.recv(timeout))[1]
            c.seen(f"{tag}|{prog}")
            if a is None or a.startswith("EXN") or "?" in a:
                c.violation("run", f"[{tag}] program did not complete: {p.dead or a}", {"prog": prog, "hist": p.hist[-8:]})
                return None
            return a

        a = ask("gens nsize")
        if a is None:
            p.close()
            return
        g, n = a.split(";")
        # an image with more generations than asked for keeps its own number
        c.check(int(g) == ng if ng >= 5 else ng <= int(g) <= 5, "gens", f"[{tag}] reports {g} generations", None)
        ng = int(g)
        c.check(int(n) >= size and int(n) <= max(size, 512 * KB) and int(n) % 1024 == 0, "nsize", f"[{tag}] reports a nursery of {n} bytes", None)
        size = int(n)

        def summ():
            v = 0
            for l in reversed(kept):
                v += 1
                for x in range(1, l + 1):
                    v = (v * 31 + x) % 1000000007
            return v

        def counters(big):
            """reset; a list of actions; read (several times)"""
            acts, al_lo, al1, ngc, sure_p, slack = [], 0, 0, [0] * (ng + 1), 0, 6 * KB
            deep = r.random() < .5
            for _ in range(r.randint(1, 6)):
                x = r.random()
                if x < .4:
                    m = r.choice([1, 100, 5000, 40000, 150000 if big else 60000])
                    acts.append(f"cons:{m}")
                    al_lo += 24 * m
                elif x < .6:
                    m = r.choice([600, 2000, 10000, 60000, 300000 if big else 70000])
                    q = r.randint(1, 8)
                    acts.append(f"array:{m}:{q}")
                    al1 += q * 8 * (m + 1)
                    slack += q * 128
                elif x < .75:
                    m = r.choice([8 * 600, 8 * 600 + 3, 100001, 1000000])
                    q = r.randint(1, 5)
                    acts.append(f"bytes:{m}:{q}")
                    al1 += q * 8 * ((m + 7) // 8 + 1)
                    slack += q * 128
                elif x < .95:
                    lv = r.choice([0, 0, 1, 2, ng, ng + 1, -1]) if deep else r.choice([0, -1])
                    acts.append(f"gc:{lv}".replace("-", "~"))
                    lv = max(0, min(ng, lv))
                    for i in range(lv + 1):
                        ngc[i] += 1
                else:
                    m = r.choice([10, 3000, 20000])
                    acts.append(f"keep:{m} gc:0")
                    kept.append(m)
                    al_lo += 24 * m
                    sure_p += 16 * m
                    ngc[0] += 1
            nread = r.randint(1, 4)
            pre = "reset:" + r.choice(["true", "false"])
            prog = " ".join([pre] + acts + ["read"] * nread + ["gc:0"] + ["read"] * nread + ["sum"])
            a = ask(prog)
            if a is None:
                return False
            *rs, s = a.split(";")
            c.check(int(s) == summ(), "sum", f"[{tag}] kept data changed", prog)
            rs = [parse(x) for x in rs]
            ok = c.check(all(x is not None for x in rs) and len(rs) == 2 * nread, "form", f"[{tag}] malformed counters", a[:300])
            if not ok:
                return False
            wit = {"prog": prog, "read": rs, "expected_alloc": al_lo, "expected_alloc1": al1, "collections": ngc}
            first = rs[0]
            for n_, x in enumerate(rs):
                c.seen(f"{tag}|{prog}#{n_}")
                # slack: the list of results and the interpretation of the actions allocate a little themselves
                lim = slack + 8 * KB * (n_ + 2 + len(acts))
                c.check(al_lo <= x[0] <= al_lo * 4 // 3 + lim, "alloc", f"[{tag}] {al_lo} bytes allocated in the nursery, reading {n_} says {x[0]}", wit)
                c.check(al1 <= x[1] + 8 and x[1] <= al1 + 16 * 40, "alloc1", f"[{tag}] {al1} bytes of large objects allocated, reading says {x[1]}", wit)
                gcs = x[3] + [0] * (ng + 1 - len(x[3]))
                c.check(len(x[3]) <= ng + 1, "ngcs-len", f"[{tag}] counts for {len(x[3])} generations", wit)
                extra = 1 if n_ >= nread else 0
                c.check(all(gcs[i] >= gcs[i + 1] for i in range(ng)), "ngcs-mono", f"[{tag}] an older generation was collected more often than a younger one", wit)
                c.check(all(gcs[i] >= ngc[i] + (extra if i == 0 else 0) for i in range(ng + 1)), "ngcs", f"[{tag}] requested collections are missing from the counts", wit)
                # a list cell takes 24 bytes, or 32 when aligned
                lo = (al_lo // size) - 2
                hi = al_lo * 4 // 3 // max(1, size - 32 * KB) + sum(ngc[:1]) + extra + 2 + sum(int(z.split(":")[2]) for y in acts for z in y.split() if z.startswith(("array", "bytes")))
                c.check(lo <= gcs[0] <= hi, "ngcs-rate", f"[{tag}] {gcs[0]} nursery collections for {al_lo} bytes", wit)
                if len(x[3]) <= 1:
                    c.check(sure_p <= x[2] <= x[0] + 2 * KB, "promote", f"[{tag}] {x[2]} bytes promoted", wit)
                c.check(all(u <= v for u, v in zip(first[:3], x[:3])), "backwards", f"[{tag}] counters ran backwards", wit)
            if len(rs) > 1:
                for u, v in zip(rs, rs[1:]):
                    c.check(v[0] - u[0] < 12 * KB, "reread", f"[{tag}] two readings in a row differ by {v[0]-u[0]} bytes", wit)
            return True

        def control():
            x = r.random()
            if x < .35:
                seq = [r.choice([0, 1, 2, 3, ng, 14, 20, -3]) for _ in range(r.randint(1, 6))]
                prog = " ".join(f"vm:{v}".replace("-", "~") + r.choice([" cons:20000", " gc:1", " gc:5", " keep:5000 gc:2", " array:70000:3", ""]) for v in seq)
                kept.extend(5000 for w in prog.split() if w.startswith("keep"))
                a = ask(prog + " sum")
                if a is None:
                    return False
                *olds, s = a.split(";")
                c.check(int(s) == summ(), "sum", f"[{tag}] kept data changed", prog)
                prev = lastvm[0]
                for v, o in zip(seq, olds):
                    if prev is not None:
                        c.check(int(o.replace("~", "-")) == prev, "vmcache", f"[{tag}] cache level was {prev}, reported {o}", {"prog": prog, "answer": a})
                    elif vm is not None:
                        c.check(int(o) == min(vm, 14), "vmcache", f"[{tag}] initial cache level {o}", prog)
                    prev = max(0, min(14, v))
                lastvm[0] = prev
            elif x < .5:
                lv = r.choice([0, 1, ng, 9])
                a = ask(f"multi:{lv} sum")
                if a is None:
                    return False
                v, s = a.split(";")
                gg, ss, old = v.split(",")
                c.check(int(gg) == ng and int(ss) == size and (lastvm[0] is None or int(old) == lastvm[0]), "multi", f"[{tag}] list of controls", a)
                c.check(int(s) == summ(), "sum", f"[{tag}] kept data changed", lv)
                lastvm[0] = max(0, min(14, lv))
            elif x < .75:
                on = r.random() < .6
                lv = [r.choice([0, 1, 2, ng]) for _ in range(r.randint(1, 5))]
                a = ask(f"msg:false reset:false msg:{'true' if on else 'false'} " + " ".join(f"gc:{v}" for v in lv) + " msg:false read gc:1")
                if a is None:
                    return False
                x = parse(a)
                if on and x:
                    want_lines[0] += x[3][1] if len(x[3]) > 1 else 0
                    vers.append(tuple(min(v, ng) for v in lv))
            elif x < .9:
                l = r.choice([0, 1])
                a = ask(f"limit:{l} keep:3000 gc:2 cons:50000 gc:{ng} sum")
                if a is None:
                    return False
                kept.append(3000)
                c.check(int(a) == summ(), "sum", f"[{tag}] kept data changed", a)
            else:
                if ask("drop gc:9 sum") not in ("0", None):
                    c.violation("sum", f"[{tag}] dropped data still there", None)
                kept.clear()
            return True

        for _ in range(c.n(40, 300)):
            if not (counters(rt is None) if r.random() < .6 else control()):
                break
            if len(kept) > 10:
                ask("drop")
                kept.clear()
        p.close()
        lines = [l for l in p.err.decode("latin-1").splitlines() if "GC #" in l]
        if not p.dead:
            c.check(len(lines) == want_lines[0], "messages", f"[{tag}] {want_lines[0]} collections with messages on, {len(lines)} messages", {"lines": lines[:10]})
            prev = None
            for l in lines:
                m = re.search(r"GC #([\d.]+):\s*\(?", l)
                v = [int(x) for x in m[1].split(".")] if m else None
                if not c.check(m is not None and len(v) == ng + 1, "messages-form", f"[{tag}] message {l[:80]!r}", None):
                    break
                # oldest generation first; nursery count last
                if prev is not None:
                    c.check(all(x >= y for x, y in zip(v, prev)) and v[-1] > prev[-1], "messages-order", f"[{tag}] collection numbers do not increase: {prev} {v}", lines[:6])
                prev = v
                c.seen(f"{tag}|{l}")
        c.sample({"session": tag, "messages": lines[:2]})

    c.pmap(session, range(c.n(8, 24)), jobs=8)

    # time profile: each tick of the virtual timer is counted once, against the current index
    def prof(k):
        r = random.Random(c.seed * 77 + k)
        rt = [None, None, "asan", None][k % 4]
        p = c.proc_heap(img, rt=c.rt[rt] if rt else None, rtargs=["@SMLalloc=" + r.choice(["128k", "512k", "1m"])])

        def ask(s):
            p.send("prog\t" + s)
            return p.recv(120)
        q = ask("quantum")
        c.check(q is not None and 1000 <= int(q) <= 100000, "quantum", f"profiling quantum {q}", None)
        q = int(q or 10000) / 1000.0
        for rnd in range(c.n(4, 20)):
            order = [r.choice([3, 4, 0]) for _ in range(r.randint(1, 3))]
            ms = [r.choice([120, 250, 400]) for _ in order]
            prog = "off zero on " + " ".join(f"cur:{o} " + (f"burn:{m}" if r.random() < .75 else f"cons:20000 burn:{m}") + (f" gc:{r.choice([0,1,5])}" if r.random() < .4 else "") for o, m in zip(order, ms))
            a = ask(prog + " cur:3 off times burn:60 times same")
            c.seen(f"prof {prog}")
            if a is None:
                c.violation("prof-run", f"profiled program died: {p.dead}", prog)
                break
            *burned, t1, _, t2, bad = a.split(";")
            t1, t2 = [[int(x.replace("~", "-")) for x in t[1:-1].split(",")] for t in (t1, t2)]
            exp = [0.0] * len(t1)
            for o, b in zip(order, burned):
                exp[o] += int(b) / q
            wit = {"prog": prog, "burned": burned, "ticks": t1, "expected": exp}
            c.check(t1 == t2, "prof-off", "ticks counted while profiling was off", {"before": t1, "after": t2})
            c.check(bad == "0", "prof-values", "strange values in the profile array", t1)
            for o in (0, 3, 4):
                # user time includes collections and C code, which are charged elsewhere; the timer itself may lose some ticks on a loaded machine
                c.check(exp[o] * .6 - 4 <= t1[o] <= exp[o] * 1.25 + 4 + (sum(exp) * .1), "prof-ticks", f"index {o}: {t1[o]} ticks, processor time accounts for {exp[o]:.1f}", wit)
            c.check(sum(t1) <= sum(exp) * 1.25 + 8, "prof-total", f"{sum(t1)} ticks for {sum(exp):.1f} quanta", wit)
        # collections are charged to the collector
        a = ask("off zero keep:200000 gc:5 cur:3 on gcburn:300 off times")
        if a is not None:
            b, t = a.split(";")
            t = [int(x) for x in t[1:-1].split(",")]
            c.seen(f"profgc {rt} {t}")
            c.check(t[1] + t[2] >= int(b) / q * .5 - 3 and t[2] > 0, "prof-gc", "time in collections is not charged to the collector", {"burned": b, "ticks": t})
        # the times in the messages: what the collections took, also where a second of processor time ends within one
        a = ask("keep:600000 gc:0 msg:true gcburn:2300 msg:false drop")
        p.close()
        if a is not None and not p.dead:
            ms = [int(x) for x in re.findall(r"GC #.*?\((-?\d+) ms\)", p.err.decode("latin-1"))]
            c.seen(f"msgtime {rt} {len(ms)}")
            c.check(len(ms) > 3 and min(ms) >= 0 and int(a) * .4 - 2 * len(ms) <= sum(ms) <= int(a) + 100, "messages-time",
                    f"{len(ms)} messages say {sum(ms)} ms for {a} ms spent in collections", {"times": ms[:400]})
            c.sample({"collections": len(ms), "reported_ms": sum(ms), "user_ms": int(a)})
    c.pmap(prof, range(c.n(4, 8)), jobs=3)
    c.require(c.evals > 500, "too few readings")
    c.finish()


main(body)
