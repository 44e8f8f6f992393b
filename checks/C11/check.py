import sys, os, platform
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))
LETHAL = [1, 3, 9, 10, 12, 14, 15, 16, 24, 26, 27, 29, 30, 34, 35, 63, 64]


def hl(l):
    return ",".join(hx(x) for x in l)


def rb(rng, n):
    return bytes(rng.randrange(1, 256) for _ in range(n))


def gen_children(rng):
    """Children, waits and signals with an exact model of what each wait may return.  -> [(op, judge)]"""
    ops, kids, n = [], {}, [0]
    tag = "%x" % rng.getrandbits(32)

    def ex(op, want):
        ops.append((op, want))

    def alive():
        return [k for k in kids if kids[k]["st"] == "run"]

    def select(how, a):
        if how == "any":
            return [k for k in kids if kids[k]["st"] != "gone"]
        if how == "child":
            return [k for k in [a] if kids[k]["st"] != "gone"]
        if how == "same":
            return [k for k in kids if kids[k]["st"] != "gone" and kids[k]["grp"] == "-"]
        return [k for k in kids if kids[k]["st"] != "gone" and kids[k]["grp"] == a]

    def wait(how, a, nh):
        c = select(how, a)
        z = [k for k in c if kids[k]["st"] == "dead"]
        if not nh and c and not z:
            return
        op = ("waitnh" if nh else "wait") + f"\t{how}\t{a}"
        if not c:
            ex(op, {"SYSERR child"})
        elif not z:
            ex(op, {"NONE"})
        elif len(z) == 1:
            ex(op, {f"{z[0]} {kids[z[0]]['end']}"})
            kids[z[0]]["st"] = "gone"
        elif how == "child":
            pass
        else:
            # several candidates: take them all, the set must match
            ex(["multi", op, len(z)], sorted(f"{k} {kids[k]['end']}" for k in z))
            for k in z:
                kids[k]["st"] = "gone"

    def settle(k):
        ex(f"settle\t{k}", {"ok"})
        kids[k]["st"] = "dead"

    def release(k):
        ex(f"go\t{k}", {"ok"})
    for _ in range(rng.randint(10, 30)):
        o = rng.choice(["spawn"] * 3 + ["end"] * 2 + ["wait"] * 4 + ["kill", "killg", "stop", "kill0"])
        run = alive()
        if o == "spawn" and len(run) < 8:
            n[0] += 1
            k = f"{tag}k{n[0]}"
            leaders = [x for x in run if kids[x]["grp"] == x]
            pg = rng.choice(["-", "0"] + leaders)
            how = rng.choice(["exit", "exit", "sig"])
            v = rng.choice([0, 1, 2, 42, 127, 128, 254, 255]) if how == "exit" else rng.choice(LETHAL)
            ex(f"spawn\t{k}\t{pg}\t{how}\t{v}", {"ok"})
            kids[k] = {"st": "run", "grp": k if pg == "0" else pg, "end": f"{how} {v}"}
        elif o == "end" and run:
            k = rng.choice(run)
            release(k)
            settle(k)
        elif o == "kill" and run:
            k, s = rng.choice(run), rng.choice(LETHAL)
            ex(f"kill\tproc\t{k}\t{s}", {"ok"})
            kids[k]["end"] = f"sig {s}"
            settle(k)
            release(k)
        elif o == "killg":
            ls = [k for k in kids if kids[k]["st"] != "gone" and kids[k]["grp"] == k]
            if ls:
                k, s = rng.choice(ls), rng.choice(LETHAL)
                ex(f"kill\tgroup\t{k}\t{s}", {"ok"})
                for m in run:
                    if kids[m]["grp"] == k:
                        kids[m]["end"] = f"sig {s}"
                        settle(m)
                        release(m)
        elif o == "kill0" and kids:
            k = rng.choice(list(kids))
            if kids[k]["st"] == "gone":
                ex(f"kill\tdead\t{k}\t0", {"SYSERR srch"})
            else:
                ex(f"kill\tproc\t{k}\t0", {"ok"})
        elif o == "stop" and run:
            k, s = rng.choice(run), 19
            ex(f"stopped\t{k}\t{s}", {f"stop {s}"})
        elif o == "wait":
            how = rng.choice(["any", "child", "same", "group"])
            if how in ("child", "group"):
                ks = [k for k in kids if how == "child" or kids[k]["grp"] == k]
                if not ks:
                    continue
                if how == "group":
                    # a group whose number was reused cannot occur: pids are not recycled this fast
                    wait(how, rng.choice(ks), rng.random() < 0.5)
                else:
                    wait(how, rng.choice(ks), rng.random() < 0.5)
            else:
                wait(how, rng.choice("-w") if how == "any" else "-", rng.random() < 0.5)
    for k in alive():
        release(k)
        settle(k)
    while any(v["st"] != "gone" for v in kids.values()):
        wait("any", "-", False)
    ex("wait\tany\t-", {"SYSERR child"})
    ex("waitnh\tany\t-", {"SYSERR child"})
    return ops


class Session:
    """One driver process fed a list of (op line, judge)."""

    def __init__(self, c, img, name, rt=None, rtargs=(), env=None, user=None, popen=None):
        self.c, self.img, self.name, self.rt, self.rtargs, self.env, self.user = c, img, name, rt, rtargs, env, user
        self.popen = popen or {}
        self.items = []

    def add(self, op, judge, ctx=None):
        """judge: set of allowed strings, or function result -> None | message"""
        self.items.append((op, judge, ctx))

    def run(self):
        c = self.c
        d = c.dir("s-" + self.name)
        os.chmod(d, 0o777)
        lines = []
        for op, j, x in self.items:
            if isinstance(op, list):
                lines += [op[1]] * op[2]
            else:
                lines.append(op)
        c.write(d + "/in", "\n".join(lines) + "\n")
        r = c.run_heap(self.img, ["in", "out"], rt=self.rt, rtargs=self.rtargs, env=self.env, cwd=d, user=self.user,
                       timeout=200, **self.popen)
        try:
            got = open(d + "/out", encoding="latin-1", newline="\n").read().split("\n")
        except FileNotFoundError:
            got = []
        ended = len(got) >= 2 and got[-2] == "@@END" and r.rc == 0
        i = 0
        for op, j, x in self.items:
            k = op[2] if isinstance(op, list) else 1
            res = got[i:i + k]
            if len(res) < k or (not ended and i + k >= len(got)):
                break
            i += k
            key = (op[1] if isinstance(op, list) else op).split("\t")[0]
            c.seen(f"{self.name}{op}{res}"[:3000])
            if isinstance(op, list):
                bad = None if sorted(res) == j else f"got {sorted(res)}, expected {j}"
                # exactly once, each
            elif isinstance(j, set):
                bad = None if res[0] in j else f"got {res[0]!r:.400}, expected {' or '.join(sorted(j))!r:.400}"
            else:
                bad = j(res[0])
            if bad:
                c.violation(f"{key}", f"[{self.name}] {str(op)[:200]}: {bad}", {"ctx": str(x)[:800]})
        if not ended:
            c.violation(f"died:{self.name.split('-')[0]}", f"[{self.name}] process ended (rc={r.rc}, timeout={r.timeout}) "
                        f"after {len(got)-1} of {len(lines)} operations",
                        {"next": lines[max(0, len(got) - 2):len(got) + 1], "out": r.text[-1200:]})


def body():
    c = Check("C11", "an evaluation is one process operation (fork/exec/wait/kill/environment/identity/sleep/exit) "
              "whose result was compared with the kernel's view or the model; distinct = distinct (configuration, operation, result)")
    c.build(variants=("asan", "verif"))
    img = c.sml_heap("wl", {"drv.sml": open(VERIF + "/lib/drv.sml").read(), "main.sml": open(HERE + "/main.sml").read()}, ["$smlnj/init/init.cmi"][:0])
    if img is None:
        c.finish()
    hd = c.dir("helpers")
    echo = hd + "/echo prog"
    subprocess.run(["gcc", "-O1", "-o", echo, HERE + "/echo.c"], check=True)
    shutil.copy(echo, hd + "/vecho")
    c.write(hd + "/noexec", "x")
    c.write(hd + "/junk", b"\0\1\2\3junk")
    c.write(hd + "/script", "#!/bin/sh\necho script \"$@\"\n")
    c.write(hd + "/plain", "echo plain \"$@\"\n")
    for f in ("junk", "script", "plain"):
        os.chmod(hd + "/" + f, 0o755)
    os.makedirs(hd + "/adir")
    rng = c.rng
    sessions = []
    cfgs = [("prod", None, []), ("prod64k", None, ["@SMLalloc=128k"]), ("asan", c.rt["asan"], []),
            ("verif", c.rt["verif"], ["@SMLalloc=128k"])]
    envs = {}
    for k, (nm, rt, ra) in enumerate(cfgs):
        for rep in range(c.n(1, 4)):
            # ---- environment and exec
            big = {}
            for i in range([3, 700, 60, 1500][(k + rep) % 4]):
                big["V%d_%s" % (i, "x" * rng.randrange(0, 30))] = rb(rng, rng.choice([0, 1, 7, 8, 20, 200])).decode("latin-1")
            big["LONG"] = "L" * rng.choice([4000, 70000, 120000])
            big["EMPTY"] = ""
            big["EQ"] = "a=b=c"
            big["PATH"] = f"/nonexistent:{hd}/adir:{hd}:/usr/bin:/bin"
            benv = {a.encode("latin-1"): b.encode("latin-1") for a, b in big.items()}
            s = Session(c, img, f"env-{nm}-{rep}", rt, ra, env=None)
            s.benv = benv
            st = {}

            def j_environ(r, st=st, benv=benv):
                l, p = r.split("@")
                got = [unhx(x) for x in l[1:-1].split(",")]
                want = unhx(p).split(b"\0")[:-1]
                st["env"] = want
                if not set(a + b"=" + b for a, b in benv.items()) <= set(want):
                    return "harness: environment not passed"
                if got != want:
                    d = [(a, b) for a, b in zip(got, want) if a != b][:1]
                    return f"environ differs from the process's environment ({len(got)} vs {len(want)} entries) {str(d)[:300]}"
            s.add("environ", j_environ)
            names = rng.sample(sorted(benv), min(40, len(benv))) + [b"LONG", b"EMPTY", b"EQ", b"PATH"]
            for a in names:
                v = "SOME " + hx(benv[a])
                s.add("getenv\t" + hx(a), {v + " " + v})
            for a in (b"", b"NOPE", b"PAT", b"V0", b"LON"):
                if a not in benv:
                    s.add("getenv\t" + hx(a), {"NONE NONE"})
            outs = []
            for i in range(c.n(26, 80)):
                how = rng.choice(["exec", "execp", "exece", "exece"])
                na = rng.choice([0, 1, 2, 5, 30, 300, 600, 2500])
                args = [b"argv0"] + [rb(rng, rng.choice([0, 1, 2, 7, 8, 9, 16, 100] if na > 100 else [0, 1, 8, 1000, 5000])) for _ in range(na)]
                if rng.random() < 0.3:
                    args[1:2] = [b"rc=%02d" % rng.randrange(100)]
                env2 = [b"A%d=%s" % (q, rb(rng, rng.choice([0, 5, 300]))) for q in range(rng.choice([0, 1, 10, 400, 900]))]
                if rng.random() < 0.3:
                    env2 += [b"noequals", b"A0=dup", b"=x"]
                kind = rng.choice(["ok"] * 6 + ["missing", "noexec", "dir", "junk", "script", "toolong", "plain", "enotdir"])
                path = {"ok": hd + "/echo prog", "missing": hd + "/nothing", "noexec": hd + "/noexec", "dir": hd + "/adir",
                        "junk": hd + "/junk", "script": hd + "/script", "toolong": hd + "/vecho", "plain": hd + "/plain",
                        "enotdir": hd + "/noexec/x"}[kind]
                if how == "execp" and kind == "ok":
                    path = rng.choice(["vecho", hd + "/vecho"])
                if how == "execp" and kind == "missing":
                    path = "nothing-here"
                if kind == "toolong":
                    args.append(b"z" * 131072)
                if kind in ("script", "plain"):
                    args = [b"s", b"x y", b"", b"$HOME"]
                out = f"o{i}"
                err = {"missing": "noent", "noexec": "acces", "dir": "acces", "toolong": "toobig", "enotdir": "notdir"}.get(kind)
                if kind in ("junk", "plain") and how != "execp":
                    err = "noexec"
                if kind == "junk" and how == "execp":
                    continue
                rc = 99 if err else (int(args[1][3:5]) if kind == "ok" and len(args) > 1 and args[1].startswith(b"rc=") else 0)
                s.add(f"exec\t{how}\t{hx(path)}\t{hl(args)}\t{hl(env2)}\t{hx(out)}", {f"exit {rc}"})
                outs.append((out, how, kind, args, env2, err))
            s.outs, s.st = outs, st
            sessions.append(s)
            # ---- children
            s = Session(c, img, f"kids-{nm}-{rep}", rt, ra)
            for _ in range(c.n(4, 12)):
                for op, w in gen_children(rng):
                    s.add(op, w)
            for e in (0, 1, 2, 127, 128, 200, 255):
                s.add(f"exit\t{e}", {f"exit {e}"})
            for g in LETHAL:
                s.add(f"selfkill\t{g}", {f"sig {g}"})
            s.add("samegroup\t10", {"exit 0;sig 10"})
            for n in (10, 3000, 40000):
                s.add(f"isolate\t{n}", {"exit 7 true"})
            sessions.append(s)
            # ---- identities, limits, system, Unix
            user = [None, 4242, None, 999][(k + rep) % 4]
            grps = rng.sample(range(1, 65000), [0, 3, 200, 30][(k + rep) % 4])
            s = Session(c, img, f"ids-{nm}-{rep}", rt, ra)
            s.uidgrp = (user, grps)

            def j_ids(r, user=user, grps=grps, pre=None):
                if pre is not None:
                    p, r = r.split(pre, 1)
                f, p = r.split("@")
                w = f.split(" ")
                d = dict(zip(w[::2], w[1::2]))
                pid, ppid, pgrp, sid, u, g, gr = p.split("|")
                u, g = u.split(), g.split()
                want = {"pid": pid, "ppid": ppid, "pgrp": pgrp, "uid": u[0], "euid": u[1], "gid": g[0], "egid": g[1]}
                bad = {k: (d[k], v) for k, v in want.items() if d[k] != v}
                if bad:
                    return f"(reported, kernel) {bad}"
                if sorted(d["groups"][1:-1].split(",")) != sorted(",".join(gr.split()).split(",")):
                    return f"groups {d['groups'][:200]} kernel {gr[:200]}"
            s.add("ids", j_ids)
            s.add("childids", lambda r, j=j_ids: j(r[5:]) if r.startswith("true ") else "child's parent id is wrong: " + r[:100])

            def j_become(what, n=None):
                def j(r):
                    a, rest = r.split("@", 1)
                    b = j_ids(rest)
                    if b:
                        return b
                    pid, ppid, pgrp, sid, u, g, gr = rest.split("@")[1].split("|")
                    root = u_user is None
                    if what == "uid":
                        if root and (a != "ok" or set(u.split()) != {str(n)}):
                            return f"setuid {n}: {a} uids {u}"
                        if not root and n != u_user and a != "SYSERR perm":
                            return f"unprivileged setuid {n}: {a}"
                    elif what == "gid":
                        if root and (a != "ok" or set(g.split()) != {str(n)}):
                            return f"setgid {n}: {a} gids {g}"
                        if not root and n != u_user and a != "SYSERR perm":
                            return f"unprivileged setgid {n}: {a}"
                    elif what == "sid" and not (a == "ok" and sid == pid == pgrp):
                        return f"setsid: {a} pid {pid} pgrp {pgrp} sid {sid}"
                    elif what in ("pgid0", "pgidself") and not (a == "ok" and pgrp == pid):
                        return f"setpgid: {a} pid {pid} pgrp {pgrp}"
                    elif what == "pgidbad" and a != "SYSERR perm":
                        return f"setpgid to a group that does not exist: {a}"
                u_user = user
                return j
            for n in (1, 1234, 65534, 70000, 2**31 + 5):
                s.add("become\tuid\t%x" % n, j_become("uid", n))
                s.add("become\tgid\t%x" % n, j_become("gid", n))
            for w in ("sid", "pgid0", "pgidself", "pgidbad"):
                s.add(f"become\t{w}\t-", j_become(w))
            for n in sorted(os.sysconf_names):
                if n in ("SC_AVPHYS_PAGES", "SC_IOV_MAX", "SC_PAGE_SIZE"):
                    continue
                try:
                    v = os.sysconf(n)
                    if v < -1:
                        continue
                    want = {"SYSERR none"} if v == -1 else {str(v)}
                except OSError:
                    want = {"SYSERR inval"}
                s.add("sysconf\t" + hx(n[3:]), want)
            for n in ("", "A", "ZZZ", "ARG_MA", "ARG_MAXX", "arg_max", "CLK_TC", "_SC_ARG_MAX", "\xff"):
                s.add("sysconf\t" + hx(n), {"SYSERR inval"})
            u = os.uname()
            s.add("uname", {"[" + ",".join(hx(a) + ":" + hx(b) for a, b in
                                           (("sysname", u.sysname), ("nodename", u.nodename), ("release", u.release),
                                            ("version", u.version), ("machine", u.machine))) + "]"})
            s.add("time", lambda r: None if abs(int(r) - time.time()) < 200 else f"{r} vs {time.time()}")
            s.add("cburn\t40000000", {"exit 0"})

            def j_times(r, hist=[]):
                a, t, b, e = r.split(";")
                a, b, t = [int(x) for x in a.split()], [int(x) for x in b.split()], [int(x) for x in t.split()]
                for x, y, z, nme in zip(a, t, b, ("utime", "stime", "cutime", "cstime")):
                    if not (x * 10 <= y <= z * 10):
                        return f"{nme} = {y} ms, kernel {x*10}..{z*10} ms"
            for n in (20000000, 0, 30000000):
                s.add(f"times\t{n}", j_times)

            def j_system(rc):
                return {f"exit {rc} {'true' if rc == 0 else 'false'}"}
            for cmd, rc in (("exit 0", 0), ("exit 7", 7), ("exit 255", 255), ("exit 256", 0), ("true && false", 1),
                            ("test 'a b' = \"a b\"", 0), ("nonexistent-command-xyz 2>/dev/null", 127), ("kill -9 $$", 1),
                            ("# " + "x" * 200000, 127), ("test -t 9", 1), (": " + "y" * 100000, 0)):
                s.add("system\t" + hx(cmd), j_system(rc))
            s.add("system\t" + hx("echo \"sys $((6*7))\" > sysout; exit 3"), j_system(3))
            s.sysout = True

            def near(lo, hi, rem=0):
                return lambda r: None if lo <= int(r.split()[0]) <= hi and (len(r.split()) < 2 or int(r.split()[1]) == rem) else \
                    f"elapsed/remaining {r} ms, expected {lo}.. / {rem}"
            s.add("sleep\t60", near(60, 20000))
            s.add("sleep\t0", near(0, 20000))
            s.add("sleep\t1100", near(1100, 20000))
            s.add("ossleep\t70", near(70, 20000))

            def j_int(n, rem):
                def j(r):
                    el, re_, got, s1, s2 = r.split()
                    el, re_ = int(el), int(re_)
                    if (got, s1, s2) != ("1", "exit", "0"):
                        return f"handler ran {got} times, sender {s1} {s2}"
                    if rem and not (n - 50 <= el + re_ <= n + 20000 and 0 < re_ <= n):
                        return f"interrupted sleep of {n} ms: slept {el}, remaining {re_}"
                return j
            s.add("interrupted\tsleep\t150\t2300", j_int(2300, True))
            s.add("interrupted\tsleep\t100\t30000", j_int(30000, True))
            s.add("interrupted\tpause\t150\t0", j_int(0, False))
            al = lambda lo, hi: (lambda r: None if lo <= int(r) <= hi and int(r) % 1000 == 0 else f"remaining alarm {r} ms, expected {lo}..{hi}")
            s.add("alarm\t100", al(0, 0))
            s.add("alarm\t5000", al(50000, 100000))
            s.add("alarm\t3000000", al(4900000, 5000000))
            s.add("alarm\t0", al(2990000 * 1000, 3000000 * 1000))
            s.add("alarm\t0", al(0, 0))
            s.add("fds", lambda r, s=s: setattr(s, "fd0", r))
            data = rb(rng, 3000)
            s.add(f"unix\t{hx('/bin/cat')}\t\tinherit\t{hx(data)}\ttext", {hx(data) + " exit 0 true"})
            s.add(f"unix\t{hx('/bin/cat')}\t{hx('-')}\t\t-\ttext", {"- exit 0 true"})
            s.add(f"unix\t{hx('/bin/sh')}\t{hl(['-c', 'cat >/dev/null; printf %s $Q-$#; exit 9', 'a', 'b c'])}\t{hl(['Q=zed'])}\t{hx(data)}\ttext",
                  {hx("zed-1") + " exit 9 true"})
            s.add(f"unix\t{hx('/bin/sh')}\t{hl(['-c', 'echo hi; exit 200'])}\tinherit\t-\tread", {hx("hi\n") + " exit 200 true"})
            s.add(f"unix\t{hx('/bin/sleep')}\t{hl(['20'])}\tinherit\t-\tkill", {"- sig 15 true"})
            s.add(f"unix\t{hx('/nonexistent/prog')}\t\tinherit\t-\tread", {"- exit 127 true"})
            bd = bytes(rng.randrange(256) for _ in range(20000))
            s.add(f"bin\t{hx('/bin/cat')}\t\t{hx(bd)}", {hx(bd) + " exit 0"})
            s.add("fds", lambda r, s=s: None if r == s.fd0 else f"descriptors leaked: {s.fd0} before, {r} after")
            sessions.append(s)

    def go(s):
        if hasattr(s, "benv"):
            # bypass the str-only environment: bytes values via os.fsdecode
            s.env = {os.fsdecode(a): os.fsdecode(b) for a, b in s.benv.items()}
        if hasattr(s, "uidgrp"):
            user, grps = s.uidgrp
            if user is None:
                s.popen = {"extra_groups": grps}
            else:
                s.user = user
        s.run()
        d = c.dir("s-" + s.name)
        for out, how, kind, args, env2, err in getattr(s, "outs", []):
            try:
                t = open(f"{d}/{out}", "rb").read()
            except FileNotFoundError:
                continue
            c.seen(f"{s.name}-{out}")
            if err:
                c.check(t == b"SYSERR " + err.encode() + b"\n", f"exec-error:{how}:{kind}",
                        f"[{s.name}] {how} of a {kind} file: {t[:200]!r}, expected SYSERR {err}")
                continue
            if kind == "script":
                ex = ("script x y  $HOME\n").encode()
                c.check(t == ex, "exec-script", f"[{s.name}] {how} of a script printed {t[:200]!r}, expected {ex!r}")
                continue
            if kind == "plain":
                c.check(t == b"plain x y  $HOME\n", "exec-plain", f"[{s.name}] {how} printed {t[:200]!r}")
                continue
            l = t.split(b"\n")
            try:
                i = l.index(b"env")
            except ValueError:
                c.violation("exec-out", f"[{s.name}] {how}: program printed {t[:200]!r}")
                continue
            ga = [unhx(x.decode()) for x in l[1:i]]
            ge = [unhx(x.decode()) for x in l[i + 1:-2]]
            c.check(ga == args, "exec-args:" + how, f"[{s.name}] program saw {len(ga)} arguments, given {len(args)}; first difference "
                    f"{next(((j, a[:50], b[:50]) for j, (a, b) in enumerate(zip(ga, args)) if a != b), None)}")
            we = env2 if how == "exece" else s.st.get("env")
            if we is not None:
                c.check(ge == we, "exec-env:" + how, f"[{s.name}] program saw {len(ge)} environment entries, expected {len(we)}; "
                        f"{next(((j, a[:50], b[:50]) for j, (a, b) in enumerate(zip(ge, we)) if a != b), None)}")
        if getattr(s, "sysout", False) and s.user is None:
            try:
                t = open(d + "/sysout").read()
            except FileNotFoundError:
                t = None
            c.check(t == "sys 42\n", "system-out", f"[{s.name}] system command output {t!r}")
    c.pmap(go, sessions)

    # ---- ways of ending the process
    ends = []
    for i in range(c.n(40, 200)):
        regs, k = [], rng.randrange(0, 6)
        args, want_out, stack = [], "", []
        for q in range(k):
            w = rng.choice(["reg", "reg", "regexn", "regnest", "out"])
            nm = "h%d" % q
            args += [w, nm]
            if w == "out":
                want_out += nm
            else:
                stack.append((w, nm))
        if rng.random() < 0.2:
            args += ["regexit", "hx", rng.choice("01")]
            stack.append(("regexit", "hx", args[-1]))
        how = rng.choice([["exit", "0"], ["exit", "1"], ["term", "0"], ["term", "1"], ["unixexit", str(rng.choice([0, 3, 255]))],
                          ["return", "0"], ["return", "1"], ["sysret", "42"], ["raise"]])
        args += how
        rc = int(how[1]) if how[0] != "raise" else 1
        if how[0] == "raise" and any(x == "regexit" for x in args):
            continue
        cleanup = how[0] not in ("term", "unixexit")
        tail = ""
        if cleanup:
            for e in reversed(stack):
                if e[0] == "reg":
                    tail += f"<{e[1]}>"
                elif e[0] == "regexn":
                    tail += f"<!{e[1]}>"
                elif e[0] == "regnest":
                    tail += f"<{e[1]}><{e[1]}'>"
                else:
                    tail += f"<{e[1]}>"
                    rc = int(e[2])
        ends.append((args, rc, want_out, tail, cleanup))

    def end(e):
        args, rc, o, tail, cleanup = e
        r = c.run_heap(img, ["exit"] + args, cwd=c.dir("ends"))
        c.seen("end" + " ".join(args))
        t = r.text
        c.check(r.rc == rc, "exit-status:" + (args[-2] if len(args) > 1 else args[-1]), f"process ended with {r.rc}, expected {rc}", {"args": args, "out": t[:300]})
        if args[-1] == "raise":
            t = t[:len(o + tail)]
        if cleanup:
            c.check(t == o + tail, "atExit", f"output {t!r}, expected {o + tail!r}", {"args": args})
        else:
            c.check(tail == "" and "<" not in t, "terminate", f"exit actions ran: {t!r}", {"args": args})
    c.pmap(end, ends)
    c.sample({"sessions": [s.name for s in sessions], "first_ops": [str(x[0])[:120] for x in sessions[1].items[:12]]})
    c.require(c.evals > 1000, "too few operations observed")
    c.finish(sessions=len(sessions))


main(body)
