import sys, os, time, random
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))
# kilobytes of live data of each kind's window, units per phase
CHURN = {"bigstring": (14000, 120), "bigarray": (40000, 120), "bigarrays": (40000, 120), "code": (4000, 3000), "code2": (200, 20000), "vector": (1500, 1500), "real": (2000, 2500),
         "bytes": (600, 5000), "deep": (5000, 800), "list": (2000, 4000), "tree": (1500, 6000), "blast": (1000, 2500), "intinf": (100, 1200), "string": (100, 20000), "array": (100, 30000),
         "cycle": (1500, 5000), "closure": (1200, 6000), "cont": (100, 20000), "weak": (600, 6000), "susp": (600, 8000), "exn": (500, 8000), "update": (100, 10000)}


def body():
    c = Check("C04", "an evaluation is one measured phase of a long-running workload: resident and virtual memory and open descriptors compared with the previous phase, "
              "or one group of weak pointers examined after collections; distinct = distinct (workload, configuration)")
    c.build(variants=("verif",))
    img = c.sml_heap("wl", {"main.sml": open(HERE + "/main.sml").read(), "drv.sml": open(VERIF + "/lib/drv.sml").read()}, [])
    if img is None:
        c.finish()

    def start(k, rtargs, rt=None, env=None):
        d = c.dir(f"w{k}")
        os.mkdir(d + "/d")
        os.mkdir(d + "/d/e")
        open(d + "/f", "w").write("hello\n" * 500)
        open(d + "/g", "w").write("x")
        os.symlink("f", d + "/l")
        return c.proc_heap(img, rt=c.rt[rt] if rt else None, rtargs=rtargs, cwd=d, env=dict({"TMPDIR": d}, **(env or {})))

    def mem(p):
        s = {l.split(":")[0]: l.split(":")[1].split()[0] for l in open(f"/proc/{p.pid}/status") if ":" in l and l.split(":")[1].split()}
        return int(s["VmRSS"]), int(s["VmSize"]), int(s["VmHWM"]), len(os.listdir(f"/proc/{p.pid}/fd"))

    def ask(p, s, timeout=300):
        p.send(s.replace(" ", "\t"))
        a = p.recv(timeout)
        if a is None or a.startswith("EXN") or a == "?":
            c.violation("run", f"workload stopped: {p.dead or a}", {"op": s, "hist": p.hist[-10:]})
            return None
        return a

    CONF = [["@SMLalloc=512k"], ["@SMLalloc=128k", "@SMLngens=7"], ["@SMLalloc=1m", "@SMLvmcache=3"], ["@SMLalloc=256k", "@SMLvmcache=0"], ["@SMLalloc=2m"], ["@SMLalloc=64k"]]
    stats = {}

    def slackof(conf):          # the generations' arenas are sized in multiples of the nursery
        a = conf[0].split("=")[1]
        return 14000 + 24 * (int(a[:-1]) * (1024 if a.endswith("m") else 1))

    def churn(job):
        k, name = job
        r = random.Random(c.seed * 1000 + k)
        conf = CONF[(k + c.seed) % len(CONF)]
        tag = f"{name} {' '.join(conf)}"
        p = start(k, conf)
        slack = slackof(conf)
        live, n = CHURN.get(name, (2000, 2000))
        reps = c.n(3, 8)
        base = mem(p)

        def phase():
            if ask(p, f"churn {name} {n}") is None:
                return None
            top = mem(p)
            for _ in range(2):
                if ask(p, "gc 14") is None:
                    return None
            return mem(p), top
        first = phase()
        hist = [first]
        while hist[-1] is not None and len(hist) < reps:
            hist.append(phase())
        if hist[-1] is not None:
            for m, top in hist:
                c.seen(f"{tag}")
                c.check(top[0] <= base[0] + 10 * live + 16000 + slack, "peak:" + name, f"[{tag}] resident size grew to {top[0]} kB with about {live} kB of live data", {"phases": hist})
            # a leak goes on growing; first uses of arenas do not
            m = len(hist)
            while hist[-1] is not None and hist[-1][0][0] > hist[0 if len(hist) == m else -3][0][0] + live // 4 + 1000 and len(hist) < m + 8:
                hist.append(phase())
            if hist[-1] is None:
                return
            c.check(len(hist) < m + 8, "rss:" + name, f"[{tag}] resident size after collection grows: {[h[0][0] for h in hist]} kB", {"phases": hist, "live_kB": live})
            c.check(hist[-1][0][1] <= first[0][1] + 4 * live + slack, "vm:" + name, f"[{tag}] virtual size after collection grows: {[h[0][1] for h in hist]} kB", {"phases": hist, "live_kB": live})
            c.check(hist[-1][0][3] <= base[3], "fd:" + name, f"[{tag}] open descriptors grow", {"phases": hist})
            ask(p, "clear")
            ask(p, "gc 14")
            ask(p, "gc 14")
            end = mem(p)
            stats[tag] = {"rss_kB": [h[0][0] for h in hist] + [end[0]], "live_kB": live}
            c.check(end[0] <= base[0] + live // 3 + slack, "freed:" + name, f"[{tag}] {end[0]} kB resident after everything was dropped ({base[0]} at start)", {"phases": hist, "end": end})
        p.close()

    p = start("n", [])
    names = (ask(p, "names") or "").split(",")
    prims = [x.split(":") for x in (ask(p, "pnames") or "").split(",")]
    p.close()
    c.require(len(names) > 15 and len(prims) > 50, "workload lists")

    # calls into the runtime's libraries, successful and failing: nothing may be left behind
    def primset(job):
        k, lst = job
        conf = CONF[(k * 5 + c.seed) % len(CONF)]
        p = start(f"p{k}", conf)
        for name, cost in lst:
            n = {"textOut": 8000, "mkrmDir": 15000, "creat": 20000, "localDate": 20000}.get(name, 40000 if int(cost) < 30 else 15000) * c.n(1, 4)
            if ask(p, f"prim {name} {n // 4}") is None or ask(p, "gc 5") is None:
                break
            a = mem(p)
            for _ in range(4):          # a leak shows in every phase; first uses of arenas do not
                if ask(p, f"prim {name} {n}") is None or ask(p, "gc 5") is None:
                    break
                b = mem(p)
                c.seen(f"prim {name}", count=n)
                if b[0] - a[0] < 400 or _ == 3:
                    break
                a = b
            if p.dead:
                break
            c.check(b[0] - a[0] < 400, "leak:" + name, f"{n} calls of {name} left {b[0]-a[0]} kB behind", {"before": a, "after": b, "conf": conf})
            c.check(b[3] == a[3], "fdleak:" + name, f"{n} calls of {name}: {b[3]-a[3]} more open descriptors", {"before": a, "after": b})
        p.close()
    jobs = [(churn, (k, n)) for k, n in enumerate(names)]
    q = 8
    jobs += [(primset, (k, prims[k::q])) for k in range(q)]
    jobs.sort(key=lambda j: 0 if j[0] is primset or j[1][1].startswith("big") else 1)
    c.pmap(lambda j: j[0](j[1]), jobs, jobs=8)

    # weak pointers: dead targets are given up, live ones are kept
    def weak(k):
        r = random.Random(c.seed * 31 + k)
        rt = [None, "verif"][k % 2]
        conf = r.choice(CONF)
        p = start(f"k{k}", conf, rt)
        for _ in range(c.n(6, 30)):
            n = r.choice([1, 5, 20, 60])
            a = ask(p, f"weak {n} 14")
            c.seen(f"weak {n} {rt} {conf}")
            if a is None:
                break
            c.check(a == f"{n} 0 0 0 0 {n*(n-1)//2}", "weak", "weak pointers after full collections: live refs, dead refs, dead arrays, dead strings, dead code, sum", {"n": n, "got": a, "conf": conf, "rt": rt})
            ages = [r.randrange(6) for _ in range(r.randrange(1, 7))]
            a = ask(p, f"aged {n} {','.join(map(str, ages))}")
            c.seen(f"aged {n} {ages} {rt} {conf}")
            if a is None:
                break
            c.check(a == "ok", "weak-aged", "weak pointers to promoted objects, half of them dropped (1: while all live, 2: after full collections)", {"n": n, "ages": ages, "got": a, "conf": conf, "rt": rt})
        p.close()
    c.pmap(weak, range(c.n(6, 16)), jobs=8)

    # memory taken by a large live set is given back
    def bulk(k):
        conf = CONF[(k + c.seed) % len(CONF)]
        p = start(f"b{k}", conf)
        base = mem(p)
        tops = []
        for rnd in range(c.n(3, 8)):
            if ask(p, f"keep {1500 + 1500 * (rnd % 3)}") is None:
                break
            t = mem(p)
            ask(p, "drop")
            ask(p, "gc 14")
            if ask(p, "gc 14") is None:
                break
            e = mem(p)
            tops.append((t[0], e[0]))
            c.seen(f"bulk {conf} {rnd}")
            c.check(e[0] <= base[0] + slackof(conf) + (t[0] - base[0]) // 4, "bulk", f"{conf}: {e[0]} kB resident after {t[0]} kB were dropped", tops)
        p.close()
        c.sample({"bulk": conf, "kB with and without the data": tops})
    c.pmap(bulk, range(len(CONF)), jobs=6)
    c.sample(dict(list(stats.items())[:6]))
    c.finish(prims=len(prims), churned_kinds=len(names))


main(body)
