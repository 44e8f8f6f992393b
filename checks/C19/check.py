import sys, os, random, re, shutil
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))
PAGE = 64 * 1024
BOOT = REPO + "/base/system/sml.boot.amd64-unix"
PROG = """val x = List.foldl op + 0 (List.tabulate (1000, fn i => i * i));
structure T = struct datatype t = A of int | B of string * real fun f (A n) = B (Int.toString n, Real.fromInt n / 7.0) | f (B (s, r)) = A (size s + Real.floor r) end;
val y = (case T.f (T.f (T.A 12345)) of T.A n => n | _ => ~1);
val s = String.concat (List.tabulate (50, fn i => Int.toString (i * 37)));
val z = IntInf.toString (IntInf.pow (3, 200));
val () = TextIO.print ("\\nRESULT " ^ Int.toString x ^ " " ^ Int.toString y ^ " " ^ s ^ " " ^ z ^ "\\n");
val () = TextIO.print ("ARGS " ^ String.concatWith "," (CommandLine.arguments ()) ^ "\\n");
"""
RESULT = "RESULT %d %d %s %d" % (sum(i * i for i in range(1000)), 5 + int(12345 / 7.0), "".join(str(i * 37) for i in range(50)), 3 ** 200)


def body():
    c = Check("C19", "an evaluation is one start of the runtime: with an argument list (its view of name, arguments and heap parameters compared with an independent reading of the "
              "command line), with a bad option or image (must be refused), or booting the system from (possibly damaged) object files; distinct = distinct command lines or boot inputs")
    c.build(variants=("asan", "verif"))
    img = c.sml_heap("wl", {"main.sml": open(HERE + "/main.sml").read(), "drv.sml": open(VERIF + "/lib/drv.sml").read()}, [])
    if img is None:
        c.finish()
    PROD = REPO + "/bin/.run/run.amd64-linux"
    EXE = {"std": PROD, "asan": c.rt["asan"].exe, "verif": c.rt["verif"].exe}

    def launch(rt, line, argv0=None, env=None, **kw):
        e = {} if rt == "std" else c.rt[rt].env(c.scratch + "/verif.log")
        e.update(SENV)
        e.update(env or {})
        x = c.run([EXE[rt] if argv0 is None else argv0] + line, executable=EXE[rt], env=e, **kw)
        c.scan_monitors(x, str(line)[:300])
        return x
    r = random.Random(c.seed)
    SENV = {"VERIF_GC_PERIOD": "40"}
    imgdir = os.path.dirname(img)

    def mkarg(r):
        x = r.random()
        if x < .45:
            return r.choice(["", "a", "-x", "--", "-", "@", "@S", "@SM", "@sml", "@SMl", "x@SMLload=1", "=", "@@SML", "file.sml", "$x", "a b", "\t", "\n", "-m", "-32", "\\", "*"]).encode()
        if x < .9:
            return bytes(r.randint(1, 255) for _ in range(r.choice([1, 3, 7, 8, 9, 40])))
        return bytes(r.choice(b"abc @SML=") for _ in range(r.choice([1000, 4095, 4096, 9000, 60000])))

    def mkopt(r, P):
        x = r.random()
        if x < .2:
            k = r.choice([128, 129, 150, 200, 256, 500, 512, 1000, 1024, 3000])
            s = r.choice([f"{k}k", f"{k}K", f"{k}", "1m", "2M"])
            P["alloc"] = {"m": 1 << 20, "M": 1 << 20}.get(s[-1], 1024) * int(s.rstrip("kKmM"))
            return f"@SMLalloc={s}".encode()
        if x < .35:
            n = r.choice([-3, 0, 1, 3, 5, 6, 9, 14, 15, 100])
            P["gens"] = max(5, min(14, n))
            return f"@SMLngens={n}".encode()
        if x < .5:
            n = r.choice([-1, 0, 1, 4, 14, 15])
            P["vm"] = max(0, min(14, n))
            return f"@SMLvmcache={n}".encode()
        if x < .6:
            P["name"] = r.choice([b"prog", b"/a/b c/d", b"\xff\xfe", b"x" * 300, b"@SMLq", b"a=b"])
            return b"@SMLcmdname=" + P["name"]
        if x < .65:
            return b"@SMLunlimited-heap"
        if x < .75:
            return r.choice([b"@SMLquiet", b"@SMLverbose", b"@SMLobjects"])
        if x < .8:
            P["msgs"] = True
            return b"@SMLgcmessages"
        if x < .85:
            P["debug"] = True
            return b"@SMLdebug=" + P["dbg"]
        return r.choice([b"@SML", b"@SML=", b"@SMLunknown", b"@SMLfoo=bar", b"@SMLunknown-option-with-a-rather-long-name-" + b"x" * r.choice([1, 20, 21, 22, 23, 24, 100, 5000]) + r.choice([b"", b"=1"]),
                         b"@SMLload", b"@SMLALLOC=1", b"@SMLallocx=5", b"@SMLallo"][:5] + [b"@SMLALLOC=1", b"@SMLallocx=5", b"@SMLallo"])

    # ---- arguments and options
    def args(k):
        r = random.Random(c.seed * 10000 + k)
        rt = ["std", "std", "asan", "verif"][k % 4]
        P = {"dbg": f"{c.scratch}/dbg{k}".encode()}
        args, line = [], []
        for _ in range(r.choice([0, 1, 2, 5, 12, 60])):
            if r.random() < .4:
                line.append(mkopt(r, P))
            else:
                a = mkarg(r)
                args.append(a)
                line.append(a)
        line.insert(r.randint(0, len(line)), b"@SMLload=" + img.encode())
        if r.random() < .2:
            line.insert(0, b"@SMLload=/nosuch")         # the last one counts
            if line[-1] == b"@SMLload=/nosuch":
                line.append(b"@SMLload=" + img.encode())
        argv0 = r.choice([PROD.encode(), b"sml", b"", b"a b", b"\xc3\xa9", b"@SMLalloc=1"])
        if argv0.startswith(b"@SML") and r.random() < .5:
            argv0 = b"x"
        x = launch(rt, line, argv0=argv0, timeout=120)
        key = f"{rt} {argv0!r} {line!r}"
        c.seen(key)
        wit = {"argv": [a[:80].decode("latin-1") for a in [argv0] + line], "rt": rt, "out": x.out[-1500:].decode("latin-1")}
        if argv0.startswith(b"@SML"):
            return          # an option as program name: either reading is fine, it only must not crash
        if not c.check(x.rc == 0, "args:rc", f"status {x.rc}", wit):
            return
        got = {}
        for l in x.out.split(b"\n"):
            w = l.split(b" ")
            if w[0] in (b"name", b"args", b"cname", b"cargs", b"cmd", b"raw", b"gens", b"nursery", b"vm", b"all", b"shifted"):
                got[w[0].decode()] = w[1:]
        h = lambda l: [hx(a).encode() if a else b"-" for a in l]
        name = P.get("name", argv0)

        def want(f, v):
            c.check(got.get(f) == v, "args:" + f, f"{f}: got {str(got.get(f))[:200]}, expected {str(v)[:200]}", wit)
        none = [b""]
        want("name", h([name]))
        want("args", h(args) or none)
        want("cname", h([name]))
        want("cargs", h(args) or none)
        want("cmd", h([name]))
        want("raw", h([argv0] + line))
        want("shifted", h(args[1:]) or none)
        c.check(got.get("gens") == [b"%d" % P.get("gens", 5)], "args:gens", f"{got.get('gens')} generations", wit)
        if "alloc" in P:
            n = int(got["nursery"][0]) if got.get("nursery") else -1
            c.check(P["alloc"] <= n < P["alloc"] + PAGE + 1, "args:alloc", f"nursery of {n} bytes, asked for {P['alloc']}", wit)
        if "vm" in P:
            c.check(got.get("vm") == [b"%d" % P["vm"]], "args:vm", f"cache level {got.get('vm')}", wit)
        msgs = x.out.count(b"GC #")
        if P.get("debug"):
            c.check(msgs == 0, "args:debug", "messages were not sent to the file", wit)
            try:
                msgs = open(P["dbg"], "rb").read().count(b"GC #")
            except OSError:
                msgs = -1
        c.check(P.get("msgs") or msgs == 0, "args:messages", f"{msgs} collector messages", wit)
    c.pmap(args, range(c.n(400, 4000)), jobs=8)

    # ---- what cannot work is refused with a message and a failure status
    bad = []
    for o in ("alloc", "ngens", "vmcache", "load", "cmdname", "boot", "debug"):
        for t in ("@SML%s", "@SML%s="):
            for pos in (0, 1, 2):
                l = ["@SMLload=" + img, "arg"]
                l.insert(pos, t % o)
                bad.append((f"missing {t % o} {pos}", l, "missing argument"))
    for v in ("x", "12x", "k", "-5", "1g", "4096m", "8193m", "99999999999", "4194304k", "18446744073709551617"):
        bad.append((f"alloc {v}", ["@SMLalloc=" + v, "@SMLload=" + img], "alloc"))
    bad.append(("debug", ["@SMLdebug=/nosuch/dir/f", "@SMLload=" + img], "debug"))
    bad.append(("noimg", ["@SMLload=/nosuch"], "nosuch"))
    bad.append(("dir", ["@SMLload=" + imgdir], None))
    bad.append(("text", ["@SMLload=" + c.write(c.scratch + "/text", "#!/bin/sh\n" * 100)], None))
    bad.append(("empty", ["@SMLload=" + c.write(c.scratch + "/empty", "")], None))

    def refuse(j):
        what, line, msg = j
        for rt in ("std", "asan"):
            x = launch(rt, line, timeout=60)
            c.seen(f"refuse {what} {rt}")
            o = x.out.decode("latin-1")
            ok = c.check(x.rc == 1 and "args " not in o, "refuse:" + what.split()[0], f"{what}: status {x.rc}, not refused", {"line": line, "out": o[-600:]})
            if ok:
                c.check("bogus fault" not in o and ("rror" in o) and (msg is None or msg in o), "refuse-msg:" + what.split()[0], f"{what}: no proper message", {"line": line, "out": o[-600:]})
    c.pmap(refuse, bad, jobs=8)
    # a small allocation area is raised to the minimum, with a message
    for v in ("1", "64k", "0", "127"):
        x = launch("std", ["@SMLalloc=" + v, "@SMLload=" + img], timeout=60)
        c.seen("small " + v)
        m = re.search(rb"nursery (\d+)", x.out)
        c.check(x.rc == 0 and m and int(m[1]) == 128 * 1024 and b"too small" in x.out, "alloc-min", f"@SMLalloc={v}", x.out[-300:].decode("latin-1"))

    # ---- booting the system from its object files
    lines = open(BOOT + "/BOOTLIST").read().splitlines()
    prog = c.write(c.scratch + "/prog.sml", PROG)

    def tree(k):
        d = c.dir(f"boot{k}")
        run_ok = c.run(["cp", "-rs", BOOT + "/.", d], timeout=60)
        return d if run_ok.rc == 0 else None

    def tryimage(key, f, rt, opts, wit):
        with open(prog) as i:
            x = launch(rt, ["@SMLload=" + f] + opts, timeout=200, stdin=i)
        o = x.out.decode("latin-1")
        c.check(x.rc == 0 and RESULT in o and "\nARGS \n" in o, key, f"the booted system does not work (status {x.rc})", dict(wit, out=o[-800:]))

    def boot(k):
        r = random.Random(c.seed * 777 + k)
        rt = ["std", "asan", "verif", "std"][k % 4]
        opts = r.choice([[], ["@SMLalloc=128k"], ["@SMLalloc=4m", "@SMLngens=7"], ["@SMLalloc=256k", "@SMLvmcache=3"], ["@SMLngens=14"]])
        verb = r.random() < .5
        d = BOOT
        lst = "BOOTLIST"
        if r.random() < .4:             # without the size line: the defaults must do
            lst = c.write(f"{c.scratch}/list{k}", "\n".join(l for l in lines if not l.startswith("%")) + "\n")
        out = f"{c.scratch}/booted{k}"
        x = launch(rt, ["@SMLboot=" + lst, "@SMLheap=" + out] + opts + (["@SMLverbose"] if verb else r.choice([[], ["@SMLquiet"]])), cwd=d, timeout=300, env={"VERIF_GC_PERIOD": "300"})
        o = x.out.decode("latin-1")
        wit = {"rt": rt, "opts": opts, "list": lst, "out": o[-800:]}
        c.seen(f"boot {rt} {opts} {verb} {lst}")
        f = out + ".amd64-linux"
        if not c.check(x.rc == 0 and os.path.exists(f), "boot", f"booting failed (status {x.rc})", wit):
            return
        if verb:
            loaded = re.findall(r"\[Loading (.*)\]", o)
            exp = [(l.split("@", 1)[1].split(":", 1)[1] if "@" in l and ":" in l.split("@", 1)[1] else l) for l in lines if l and l[0] not in "%#"]
            c.check(loaded == exp, "boot-order", f"{len(loaded)} of {len(exp)} units loaded, in list order", wit)
        tryimage("boot-image", f, r.choice(["std", "std", "asan"]), r.choice([[], ["@SMLalloc=128k"]]), wit)
        os.unlink(f)
    c.pmap(boot, range(c.n(6, 24)), jobs=6)

    # ---- damaged boot files are refused
    def damage(k):
        r = random.Random(c.seed * 999 + k)
        rt = ["std", "std", "asan"][k % 3]
        kind = ["nolist", "emptylist", "badsize", "missing", "trunc", "trunc", "trunc", "trunc0", "nopid", "toomany", "twice", "trunc", "badsize2", "trunclast"][k % 14]
        d = tree(f"d{k}")
        lst = list(lines)
        wit = {"kind": kind, "rt": rt}
        files = [(i, l) for i, l in enumerate(lst) if l and l[0] not in "%#"]
        name = "BOOTLIST"

        def put(l):
            os.unlink(d + "/BOOTLIST")
            open(d + "/BOOTLIST", "w").write("\n".join(l) + "\n" if l else "")

        def cut(rel, n):
            data = open(d + "/" + rel, "rb").read()
            os.unlink(d + "/" + rel)
            open(d + "/" + rel, "wb").write(data[:n])
        if kind == "nolist":
            name = "NOSUCH"
        elif kind == "emptylist":
            put([])
        elif kind == "badsize":
            put([r.choice(["%", "%874", "%abc", "%%", "%874\t145"])] + lst[1:])
        elif kind == "badsize2":
            put([r.choice(["%10 145", "%1 145", "%0 145", "%873 145"])] + lst[1:])
        elif kind == "toomany":
            put([l for l in lst if not l.startswith("%")] + [files[0][1]] * 3000)
        elif kind == "missing":
            i, l = r.choice(files)
            os.unlink(d + "/" + l.split("@")[0])
            wit["file"] = l
        elif kind == "nopid":
            put([l for l in lst if not l.startswith("#")])
        elif kind == "twice":
            p = [l for l in lst if l.startswith("#")][0]
            put(lst[:5] + [p] + lst[5:])
        else:
            i, l = files[-1] if kind == "trunclast" else r.choice(files)
            rel = l.split("@")[0]
            off = int(l.split("@")[1].split(":")[0]) if "@" in l else 0
            size = os.path.getsize(d + "/" + rel)
            if kind == "trunc0":
                n = 0
            else:
                n = off + r.choice([0, 1, 20, 63, 64, 70, 100, 300]) if r.random() < .6 else r.randint(0, size - 1)
                # the unit at the end of the file must be affected: find a unit that starts before and does not end
                n = min(n, size - 1)
            # the last unit of the file always extends to the end of its code, before the environment
            wit.update(file=l, cut=n, size=size)
            cut(rel, min(n, max([int(x.split("@")[1].split(":")[0]) for _, x in files if x.split("@")[0] == rel and "@" in x] + [0]) + r.choice([0, 10, 60, 80, 120])))
        out = f"{c.scratch}/dmg{k}"
        x = launch(rt, ["@SMLboot=" + name, "@SMLheap=" + out, "@SMLquiet"], cwd=d, timeout=120)
        o = x.out.decode("latin-1")
        wit["out"] = o[-500:]
        c.seen(f"damage {kind} {wit.get('file')} {wit.get('cut')} {rt}")
        c.check(x.rc == 1 and not os.path.exists(out + ".amd64-linux"), "damage:" + kind, f"damaged boot files ({kind}): status {x.rc}", wit)
        c.check("bogus fault" not in o and "rror" in o, "damage-msg:" + kind, f"damaged boot files ({kind}): no proper message", wit)
        shutil.rmtree(d, ignore_errors=True)
    c.pmap(damage, range(c.n(42, 280)), jobs=8)
    c.require(c.evals > 300, "too few starts")
    c.finish(argument_lists=c.n(400, 4000), refused=len(bad) * 2)


main(body)
