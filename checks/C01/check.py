import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))


def body():
    c = Check("C01", "an evaluation is one checkpoint (checksum over every reachable object, all contents "
              "re-validated) of a mutator run under one collector configuration, compared with the run that "
              "never collects; distinct = distinct (seed, configuration) runs whose collections ran")
    c.build(variants=("verif", "heap"))
    img = c.sml_heap("wl", {"main.sml": open(HERE + "/main.sml").read()}, [])
    if img is None:
        c.finish()
    nseeds = c.n(2, 12)
    steps = c.n(9000, 30000)
    every = 300
    prod = REPO + "/bin/.run/run.amd64-linux"
    jobs = []
    for k in range(nseeds):
        sd = c.seed * 1000 + k
        jobs.append((sd, "ref", None, ["@SMLalloc=1000m"], "none"))
        cfgs = [("p-none-%s" % a, None, ["@SMLalloc=" + a], "none") for a in ("64k", "128k", "256k", "1m", "8m")]
        cfgs += [("p-%s-%s" % (m, a), None, ["@SMLalloc=" + a], m) for m in ("rand", "minor", "deep")
                 for a in ("128k", "512k")]
        cfgs += [("p-gens%d-%s" % (g, m), None, ["@SMLalloc=128k", "@SMLngens=%d" % g], m)
                 for g, m in ((1, "rand"), (2, "deep"), (3, "rand"), (14, "rand"), (6, "deep"))]
        cfgs += [("p-vm%s" % v, None, ["@SMLalloc=256k", "@SMLvmcache=%s" % v], "deep") for v in ("0", "1", "2")]
        cfgs += [("heap-%s-%s" % (m, a), "heap", ["@SMLalloc=" + a], m)
                 for m, a in (("none", "128k"), ("rand", "256k"), ("deep", "64k"))]
        cfgs += [("verif-%s-%s" % (m, a), "verif", ["@SMLalloc=" + a], m)
                 for m, a in (("none", "64k"), ("none", "128k"), ("minor", "256k"), ("deep", "512k"), ("rand", "2m"))]
        jobs += [(sd,) + x for x in cfgs]

    hj = []
    for k in range(c.n(9, 40)):
        a = ("64k", "128k", "256k", "512k", "1m")[k % 5]
        rt = (None, None, "verif", None, None, "heap")[k % 6]
        hj.append((c.seed * 1000 + k, "huge-%d-%s" % (k, rt), rt, ["@SMLalloc=" + a, "@SMLngens=%d" % (2 + k % 5)],
                   "none" if k % 3 == 0 else "max" if k % 4 == 1 else "gc"))

    out = c.dir("out")

    def go(j):
        sd, name, rt, ra, mode = j
        f = f"{out}/{sd}-{name}"
        a = [str(sd), "40", "huge", mode, f] if name.startswith("huge") else [str(sd), str(steps), str(every), mode, f]
        r = c.run_heap(img, a, rt=c.rt[rt] if rt else None, rtargs=ra, timeout=c.n(150, 500))
        try:
            return r, open(f).read().split("\n")
        except FileNotFoundError:
            return r, []
    res = c.pmap(go, jobs)
    for j, (r, lines) in zip(hj, c.pmap(go, hj, 4)):
        c.seen(repr(j), count=40)
        if lines[:1] != ["ok"]:
            c.violation("huge:" + " ".join(lines[:1])[:20], f"large objects: {lines[:1]} (rc={r.rc}, timeout={r.timeout})",
                        {"cfg": j, "out": r.text[-800:]})
    # code objects: definitions compiled, promoted, dropped and called at run time by the interactive system
    rng = c.rng
    prog = ["fun gc n = SMLofNJ.Internals.GC.doGC n;", "val acc = ref ([] : (unit -> int) list);"]
    nd = c.n(50, 200)
    for i in range(nd):
        prog.append(rng.choice([
            f"fun f{i} x = if x > {i} then [x + {i}, x * {i}] else f{i} (x + 1);",
            f"val f{i} = fn x => List.tabulate (x + {i}, fn j => j * x + size \"{'ab' * rng.randint(1, 40)}\");",
            f"exception E{i} of int * string;\nfun f{i} x = (raise E{i} (x, \"q{i}\")) handle E{i} (y, s) => [y, size s];",
            f"local datatype t = A of int | B of t * t fun mk 0 = A {i} | mk n = B (mk (n-1), A n) fun s (A n) = n | s (B (a, b)) = s a + s b in fun f{i} x = [s (mk (x + {i % 7}))] end;",
        ]))
        if rng.random() < 0.5:
            prog.append(f"val _ = acc := (fn () => length (f{i} 3)) :: !acc;")
        if rng.random() < 0.4:
            prog.append(f"val _ = gc {rng.randrange(9)};")
        if rng.random() < 0.2:
            k = rng.randrange(i + 1)
            prog.append(f"fun f{k} (x : int) = [x, {i}];")     # the old code becomes garbage
    tot = "+".join(f"length (f{i} 5) + foldl op+ 0 (f{i} 4)" for i in range(nd))
    prog += [f"val s = {tot};", "val _ = (gc 9; gc 9; gc 9);", f"val s2 = {tot};",
             "val s3 = foldl (fn (f, a) => a * 31 mod 1000003 + f ()) 0 (!acc);",
             'val _ = print ("\\n@@SUM " ^ Int.toString s ^ " " ^ Int.toString s2 ^ " " ^ Int.toString s3 ^ "\\n");']
    cd = c.dir("code")
    c.write(cd + "/t.sml", "\n".join(prog) + "\n")
    cj = [(None, ["@SMLalloc=1000m"])] + [(None, ["@SMLngens=%d" % g, "@SMLalloc=" + a]) for g, a in
          ((1, "1m"), (2, "256k"), (3, "64k"), (5, "256k"), (7, "128k"), (14, "512k"))] + \
        [("heap", ["@SMLngens=3", "@SMLalloc=256k"]), ("verif", ["@SMLngens=4", "@SMLalloc=128k"])]
    cres = c.pmap(lambda j: c.run_heap(REPO + "/bin/.heap/sml.amd64-linux", ["t.sml"], rt=c.rt[j[0]] if j[0] else None,
                                       rtargs=j[1], cwd=cd, timeout=c.n(200, 600)), cj)
    sums = [re.search(r"@@SUM (\d+) (\d+) (\d+)", r.text) for r in cres]
    want = None
    for j, r, m in zip(cj, cres, sums):
        c.seen("code" + repr(j), count=nd)
        if not m or r.rc != 0:
            c.violation("code-died", f"interactive session ended early (rc={r.rc}, timeout={r.timeout})",
                        {"cfg": j, "out": r.text[-1200:]})
            continue
        want = want or m.groups()
        c.check(m.group(1) == m.group(2) and m.groups() == want, "code-differs",
                f"compiled functions compute {m.groups()}, expected {want}", {"cfg": j})
    refs = {}
    for j, (r, lines) in zip(jobs, res):
        if j[1] == "ref":
            refs[j[0]] = lines
            if not (r.rc == 0 and "@@END" in lines):
                c.violation("ref-died", f"reference run (one huge nursery) failed rc={r.rc}",
                            {"cfg": j, "tail": lines[-4:], "out": r.text[-800:]})
            for l in lines:
                if l.startswith(("BAD", "EXN")) or " false" in l:
                    c.violation("ref-bad", "reference run observed corrupted contents: " + l, {"cfg": j})
    for j, (r, lines) in zip(jobs, res):
        if j[1] == "ref":
            continue
        ref = refs[j[0]]
        for i, l in enumerate(lines):
            if l and l != "@@END":
                c.seen(f"{j[0]}-{j[1]}-{i}")
            if i < len(ref) and l != ref[i]:
                c.violation("differs:" + j[1].split("-")[0], f"checkpoint {i}: expected {ref[i]!r} (no collection), got {l!r}",
                            {"cfg": j})
                break
        else:
            if r.rc != 0 or "@@END" not in lines:
                c.violation("died:" + j[1].split("-")[0], f"run ended early rc={r.rc} timeout={r.timeout} after {len(lines)} checkpoints",
                            {"cfg": j, "tail": lines[-3:], "out": r.text[-800:]})
    c.sample({"configs": [j[1] for j in jobs[:30]]})
    c.sample({"reference_log_head": refs[jobs[0][0]][:3], "tail": refs[jobs[0][0]][-4:]})
    c.require(c.evals > 500, "too few checkpoints observed")
    c.finish(configurations=len(jobs), mutator_steps=steps)


main(body)
