import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
from vlib import *
import stat as S
HERE = os.path.dirname(os.path.abspath(__file__))
WEIRD = [b"x" * 255, b"sp ace", b"new\nline", bytes(range(128, 160)), b"-", b"a\tb", b"...", b"\xff\xfe"]
NOBODY = 65534


def sml(n):
    return str(n).replace("-", "~")


def gen(rng, root, base):
    """One history of operations; root: runs as root (chown, absolute/real paths)."""
    fifo = rng.random() < 0.25
    names = [b"d0", b"d1", b"f0", b"f1", b"l0", rng.choice(WEIRD), b"e%d" % rng.randrange(3)]
    ops = [("@reset", hx(base))]
    hs, n, ds = [], 0, []
    touched = []

    def path():
        r = rng.random()
        if touched and r < 0.45:
            p = rng.choice(touched)
        elif r < 0.75:
            p = rng.choice(names)
        else:
            p = b"/".join(rng.choice(names) for _ in range(rng.randint(2, 3)))
        r = rng.random()
        if r < 0.03:
            p = p + b"/"
        elif r < 0.06:
            p = b"./" + p
        elif r < 0.09:
            p = rng.choice([b"d0", b"d1"]) + b"/../" + p
        elif r < 0.11:
            p = p.replace(b"/", b"//")
        elif r < 0.125:
            p = p + b"/" + b"y" * 256
        elif r < 0.13:
            p = b""
        elif r < 0.14:
            p = b"/".join([b"d0"] * 1400)
        if p[:1] == b"/":
            p = b"d0"
        return p     # never absolute

    def new(p):
        touched.append(p)
        return p
    for _ in range(rng.randint(30, 80)):
        o = rng.choice(["createf"] * 5 + ["mkdir"] * 5 + ["symlink"] * 3 + ["link"] * 2 + ["rename"] * 3 +
                       ["unlink", "oremove", "rmdir", "rmdir", "stat", "stat", "lstat", "lstat", "size", "isdir", "islink",
                        "access", "oaccess", "access", "chmod", "chmod", "utime", "settime", "ls", "ols", "dir", "chdir",
                        "readlink", "readlink", "umask", "open", "creat", "sameid", "pathconf", "orename", "omkdir"] +
                       (["write"] * 3 + ["ftruncate"] * 2 + ["fstat", "fchmod", "close", "fpathconf"] if hs else []) +
                       (["mkfifo"] * 2 if fifo else []) +
                       (["chown", "fchown", "fullpath", "fullpath", "realpath"] if root else []))
        md = "%x" % rng.choice([0o777, 0o700, 0o644, 0o600, 0o755, 0o444, 0o000, 0o111, 0o4755, 0o2755, 0o1777, rng.randrange(0o7777)])
        tm = lambda: sml(rng.choice([0, 1, 999, 1000, 999999999, 10**9, 1234567890123456789, 2**31 * 10**9, (2**32 + 5) * 10**9 + 7001,
                                     -1000, -10**9, -10**9 - 1000, -86400 * 10**9 * 365 + 123000, rng.randrange(4 * 10**18),
                                     rng.randrange(2 * 10**9) * 10**9 + rng.randrange(10**9)]))
        if o == "createf":
            n += 1
            hs.append(str(n))
            ops.append((o, str(n), hx(new(path())), rng.choice("rwu"), "n" + rng.choice(["", "x", "t", "a", "s", "xt"]), md))
        elif o == "open":
            n += 1
            hs.append(str(n))
            ops.append((o, str(n), hx(path()), rng.choice("rwu"), "n" + rng.choice(["", "t", "a"])))
        elif o == "creat":
            if not fifo:
                n += 1
                hs.append(str(n))
                ops.append((o, str(n), hx(new(path())), md))
        elif o in ("mkdir", "mkfifo"):
            if rng.random() < 0.7:
                md = "%x" % rng.choice([0o777, 0o755, 0o700])
            ops.append((o, hx(new(path())), md))
        elif o == "omkdir":
            ops.append((o, hx(new(path()))))
        elif o == "symlink":
            t = rng.choice([path(), path(), b"nowhere", b"l0", b".", b"t" * rng.choice([1000, 4000, 4095, 4096, 4097, 3])])
            ops.append((o, hx(t), hx(new(path()))))
        elif o in ("link", "rename", "orename"):
            ops.append((o, hx(path()), hx(new(path()))))
        elif o == "sameid":
            ops.append((o, hx(path()), hx(path())))
        elif o in ("access", "oaccess"):
            ops.append((o, hx(path()), rng.choice(["", "r", "w", "x", "rw", "rx", "wx", "rwx"])))
        elif o == "chmod":
            ops.append((o, hx(path()), md))
        elif o == "chown":
            ops.append((o, hx(path()), "%x" % rng.choice([0, 1, 1000, 65534, 70000, 2**31, 2**32 - 2]), "%x" % rng.choice([0, 5, 100, 2**31 + 1])))
        elif o == "fchown":
            if hs: ops.append((o, rng.choice(hs), "%x" % rng.choice([0, 1, 1000, 70000, 2**32 - 2]), "%x" % rng.choice([0, 5, 2**31 + 1])))
        elif o == "utime":
            p = hx(path())
            ops += [(o, p, tm(), tm()), ("times", p)] if rng.random() < 0.8 else [("utimenow", p)]
        elif o == "settime":
            p = hx(path())
            ops += [(o, p, tm()), ("modtime", p)]
        elif o == "dir":
            n += 1
            h = str(n)
            p = hx(rng.choice([b".", path(), b"d0"]))
            ops.append(("opendir", h, p))
            if rng.random() < 0.7:
                ops.append(("readdir", h, str(rng.choice([0, 1, 2, 500]))))
                if rng.random() < 0.5:
                    ops.append(("createf", "z" + h, hx(new(path())), "w", "n", "1a4"))
            ops += [("rewindls", h), ("closedir", h)]
            if rng.random() < 0.5:
                ops += [("closedir", h), ("readclosed", h)]
        elif o in ("ls", "ols"):
            ops.append((o, hx(rng.choice([b".", path()]))))
        elif o == "chdir":
            ops += [(o, hx(path())), (rng.choice(["getcwd", "ogetdir"]),)]
            if rng.random() < 0.6:
                ops.append(("chdir", hx(b"..")))
        elif o == "umask":
            ops.append((o, "%x" % rng.choice([0, 0o22, 0o77, 0o777, rng.randrange(0o1000)])))
        elif o == "pathconf":
            ops.append((o, hx(path()), rng.choice(["LINK_MAX", "NAME_MAX", "PATH_MAX", "PIPE_BUF", "NO_TRUNC", "CHOWN_RESTRICTED",
                                                   "MAX_CANON", "MAX_INPUT", "VDISABLE", "BOGUS", "A", "ZZZ", "NAME_MA", "NAME_MAXX"])))
        elif o == "fpathconf":
            ops.append((o, rng.choice(hs), rng.choice(["LINK_MAX", "NAME_MAX", "PATH_MAX", "PIPE_BUF", "BOGUS"])))
        elif o in ("write", "fstat", "close", "fchmod", "ftruncate"):
            h = rng.choice(hs)
            if o == "write":
                if not fifo:
                    ops.append((o, h, hx(bytes(rng.randrange(256) for _ in range(rng.choice([1, 7, 64, 300]))))))
            elif o == "fchmod":
                ops.append((o, h, md))
            elif o == "ftruncate":
                ops.append((o, h, str(rng.choice([0, 1, 100, 4096, 70000, 2**31 - 1, 2**31, 2**32 + 3, 2**40 + 1]))))
            else:
                ops.append((o, h))
                if o == "close":
                    hs.remove(h)
        elif o in ("fullpath", "realpath"):
            ops.append((o, hx(path() or b".")))
        else:
            ops.append((o, hx(path())))
    return ["\t".join(x) for x in ops]


def deep(base, total, arc):
    ops = ["@reset\t" + hx(base)]
    ln = 0
    while ln < total:
        ops += [f"mkdir\t{hx(arc)}\t1c0", f"chdir\t{hx(arc)}"]
        ln += len(arc) + 1
        if ln > 3500 and len(ops) % 3 == 0:
            ops.append("getcwd")
    ops += ["getcwd", "ogetdir", "createf\tq\t" + hx(b"leaf") + "\tw\tn\t1a4", "stat\t" + hx(b"leaf"), "ls\t" + hx(b".")]
    return ops


def bigdir(rng, base, k):
    ops = ["@reset\t" + hx(base)]
    for i in range(k):
        nm = b"%d-" % i + b"n" * rng.randrange(0, 250)
        ops.append(f"mkdir\t{hx(nm)}\t1c0" if i % 7 == 0 else f"createf\tb{i}\t{hx(nm)}\tw\tn\t1a4")
        if i % 7:
            ops.append(f"close\tb{i}")
    return ops + ["ls\t2e", "ols\t2e", "opendir\tD\t2e", f"readdir\tD\t{k // 2}", "rewindls\tD", "closedir\tD", "readclosed\tD"]


def snapshot(top):
    """(relative path -> comparable facts) of a real tree, by the OS."""
    res = {}

    def walk(fd, rel, depth):
        for nm in os.listdir(fd):
            nm = os.fsencode(nm)
            p = rel + b"/" + nm
            s = os.lstat(nm, dir_fd=fd)
            f = [S.S_IFMT(s.st_mode), s.st_mode & 0o7777, s.st_nlink, s.st_uid, s.st_gid, s.st_size]
            if S.S_ISLNK(s.st_mode):
                f.append(os.readlink(nm, dir_fd=fd))
            elif S.S_ISREG(s.st_mode) and s.st_size < 1 << 17:
                g = os.open(nm, os.O_RDONLY | os.O_NOATIME, dir_fd=fd)
                f.append(os.read(g, 1 << 17))
                os.close(g)
            res[p] = f
            if S.S_ISDIR(s.st_mode) and depth < 400:
                g = os.open(nm, os.O_RDONLY | os.O_DIRECTORY | os.O_NOATIME, dir_fd=fd)
                walk(g, p, depth + 1)
                os.close(g)
    g = os.open(top, os.O_RDONLY)
    walk(g, b"", 0)
    os.close(g)
    return res


def body():
    c = Check("C09", "an evaluation is one file-system call made by the SML program whose result (value, error code) was "
              "compared with the same call made directly on the OS in a twin tree, or one file of the final trees compared "
              "in all its attributes; distinct = distinct (history, operation)")
    c.build(variants=("asan", "verif"))
    img = c.sml_heap("wl", {"drv.sml": open(VERIF + "/lib/drv.sml").read(), "main.sml": open(HERE + "/main.sml").read()},
                     ["$/smlnj-lib.cm"])
    if img is None:
        c.finish()
    sys.setrecursionlimit(5000)
    jobs = []
    nq = c.n(22, 150)
    for grp in range(4):
        jobs += [("root", None, nq, []), ("nobody", None, nq, [])]
    jobs += [("root", "asan", nq, []), ("nobody", "asan", nq, []), ("root", "verif", nq // 2, ["@SMLalloc=128k"]),
             ("root", None, nq, ["@SMLalloc=64k"])]
    kinds = {}

    def go(ij):
        i, (who, rtn, nh, rargs) = ij
        rng = random.Random(f"C09-{c.seed}-{i}")
        top = c.dir(f"t{i}")
        hist = []
        for k in range(nh):
            base = f"{top}/A/{k}/r/r/r".encode()
            hist.append((base, gen(rng, who == "root", base)))
        if rtn != "verif":
            for j, (tot, arc) in enumerate(((5000, b"q" * 250), (rng.choice([4080, 4090, 4095, 4096, 4100]), b"w" * 99), (9000, b"e" * 200),
                                            (20000, b"r" * 255))):
                base = f"{top}/A/deep{j}/r/r/r".encode()
                hist.append((base, deep(base, tot, arc)))
            base = f"{top}/A/big/r/r/r".encode()
            hist.append((base, bigdir(rng, base, rng.choice([150, 700]))))
        for ab in "AB":
            for b, _ in hist:
                p = b.decode().replace("/A/", f"/{ab}/")
                os.makedirs(p)
        if who == "nobody":
            c.run(["chown", "-R", "65534:65534", top])
        lines = [l for _, h in hist for l in h]
        inp = c.write(f"{top}/in", "\n".join(lines) + "\n")
        user = NOBODY if who == "nobody" else None
        os.chmod(top, 0o777)
        rt = c.rt[rtn] if rtn else None
        r = c.run_heap(img, [inp, f"{top}/out", "flush"], rt=rt, rtargs=rargs, user=user, timeout=400, cwd=c.dir("cwd"))
        t = c.run([sys.executable, HERE + "/twin.py" if os.access("/verif", os.X_OK) and user is None else c.scratch + "/twin.py",
                   inp, f"{top}/exp"], user=user, timeout=400, cwd=c.dir("cwd"))
        if t.rc != 0:
            die("twin failed: " + t.text[-800:])
        got = open(f"{top}/out", encoding="latin-1", newline="\n").read().split("\n")[:-1] if os.path.exists(f"{top}/out") else []
        exp = open(f"{top}/exp", encoding="latin-1", newline="\n").read().split("\n")[:-1]
        tag = f"{who}/{rtn or 'prod'}"
        for k, l in enumerate(lines):
            if k >= len(got) or k >= len(exp):
                c.violation("died", f"[{tag}] workload ended after {len(got)} of {len(lines)} ops (rc={r.rc})",
                            {"next_op": lines[len(got)][:300], "output": r.text[-800:]})
                return
            o = l.split("\t")[0]
            e = exp[k]
            if e == "?" or o == "utimenow" and e == got[k]:
                continue
            if o in ("getcwd", "ogetdir", "fullpath") and not e.startswith("SYS"):
                e = hx(unhx(e).replace(b"/B/", b"/A/", 1))
            g = got[k]
            if o in ("fullpath", "realpath") and e.startswith("SYSERR") and g.startswith("SYSERR"):
                g = e
            c.seen(f"{i}-{k}-{l}", o != "@reset")
            kinds[o + ("!" if e.startswith("SYSERR") else "")] = kinds.get(o + ("!" if e.startswith("SYSERR") else ""), 0) + 1
            if g != e:
                c.violation(f"{o}", f"[{tag}] {o}: got {g[:200]!r}, the OS gives {e[:200]!r}",
                            {"ops": [x[:200] for x in lines[max(0, k - 12):k + 1]]})
                # after a divergence the twin trees differ: stop looking at this job
                return
        if r.rc != 0 or got[-1] != "@@END":
            c.violation("exit", f"[{tag}] rc={r.rc} at end", {"output": r.text[-800:]})
        # final states
        a, b = snapshot(top + "/A"), snapshot(top + "/B")
        for p in sorted(set(a) | set(b)):
            if a.get(p) != b.get(p):
                c.violation("tree", f"[{tag}] final trees differ at {p[:120]!r}: {str(a.get(p))[:200]} vs {str(b.get(p))[:200]}",
                            {"path": repr(p)[:300]})
                break
            c.seen(b"tree%d" % i + p)
        # all attributes of every object, against the OS
        ps = [p for p in a if len(p) + len(top) < 3900]
        l2 = ["@reset\t" + hx(top.encode())]
        l2 += [f"{k}\t{hx((top + '/A').encode() + p)}" for p in ps for k in ("fullstat", "fulllstat")]
        l2 += [f"{k}\t{hx(p)}" for p in ("/dev/null", "/dev/tty", "/", "/proc/self/exe", "/dev/full") for k in ("fullstat", "fulllstat")]
        c.write(f"{top}/in2", "\n".join(l2) + "\n")
        r = c.run_heap(img, [f"{top}/in2", f"{top}/out2", "flush"], rt=rt, rtargs=rargs, timeout=400, cwd=c.dir("cwd"))
        got = open(f"{top}/out2").read().split("\n")
        for l, g in zip(l2[1:], got[1:]):
            o, p = l.split("\t")
            p = unhx(p)
            try:
                s = os.stat(p) if o == "fullstat" else os.lstat(p)
                e = twin.full(s)
            except OSError as x:
                e = f"SYSERR {x.errno}"
            c.seen(b"full%d" % i + p)
            if p.startswith((b"/dev", b"/proc")) or p == b"/":
                e, g = " ".join(e.split()[:2]), " ".join(g.split()[:2])
            if g != e:
                c.violation("attr", f"[{tag}] {o}: got {g}, the OS says {e}", {"path": repr(p)})
                break
        shutil.rmtree(top, ignore_errors=True)

    shutil.copy(HERE + "/twin.py", c.scratch + "/twin.py")
    os.chmod(c.scratch + "/twin.py", 0o755)
    import importlib.util
    src = open(HERE + "/twin.py").read().split("with open(sys.argv[1])")[0]
    import types
    twin = types.ModuleType("twin")
    exec(src, twin.__dict__)
    c.pmap(go, list(enumerate(jobs)))

    # temporary names
    tmpd = c.dir("tmpd")
    for td, rtn in ((tmpd, None), (tmpd, "asan"), (tmpd + "/nope", None), (tmpd + "/" + "x" * 5000, None)):
        k = 30
        c.write(c.scratch + "/ti", "tmpname\n" * k)
        for f in os.listdir(tmpd):
            os.unlink(tmpd + "/" + f)
        r = c.run_heap(img, [c.scratch + "/ti", c.scratch + "/to", "flush"], env={"TMPDIR": td}, rt=c.rt[rtn] if rtn else None)
        names = [unhx(x) for x in open(c.scratch + "/to").read().split("\n")[:k] if not x.startswith(("SYS", "EXN", "@"))]
        c.check(len(names) == k and len(set(names)) == k, "tmpname-unique", "tmpName gave duplicate or missing names", {"names": names[:5]})
        for nm in names:
            want = td.encode() if td == tmpd else b"/tmp"
            try:
                s = os.lstat(nm)
                ok = S.S_ISREG(s.st_mode) and s.st_size == 0 and os.path.dirname(nm) == want and s.st_mode & 0o077 == 0
            except OSError:
                ok = False
            c.check(ok, "tmpname", f"tmpName result {nm!r} is not a fresh private empty file in {want!r}")
            c.seen(b"tmp" + nm)
            if ok and os.path.basename(nm).startswith(b"SMLNJ-"):
                os.unlink(nm)
    # "now"
    p = c.write(c.scratch + "/nowf", "x")
    os.utime(p, (5, 5))
    c.write(c.scratch + "/ti", f"utimenow\t{hx(p)}\ntimes\t{hx(p)}\n")
    t0 = time.time_ns()
    c.run_heap(img, [c.scratch + "/ti", c.scratch + "/to"])
    s = os.stat(p)
    c.check(t0 - 10**9 < s.st_mtime_ns < time.time_ns() + 10**9 and t0 - 10**9 < s.st_atime_ns, "utime-now", "utime NONE did not set the current time")
    c.check(open(c.scratch + "/to").read().split("\n")[1] == f"{s.st_atime_ns // 1000 * 1000} {s.st_mtime_ns // 1000 * 1000}", "utime-now2", "times differ from the OS")
    c.sample({"operation_kinds (!=failed on both sides)": dict(sorted(kinds.items()))})
    c.require(len(kinds) > 60 and c.evals > 3000, "too few operations compared")
    c.finish(histories=sum(j[2] for j in jobs), jobs=[f"{j[0]}/{j[1] or 'prod'} x{j[2]}" for j in jobs])


main(body)
