import sys, os, signal, random, time
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))
SIGS = ["HUP", "INT", "QUIT", "USR1", "USR2", "PIPE", "ALRM", "TERM", "CHLD", "CONT", "TSTP", "TTIN", "TTOU", "URG", "VTALRM", "WINCH", "IO"]
NUM = {s: int(getattr(signal, "SIG" + s)) for s in SIGS}
STOP, QUIET = {"TSTP", "TTIN", "TTOU"}, {"CHLD", "CONT", "URG", "WINCH"}
KINDS = ["H", "H", "Hg", "Ha", "Hn"]


def bits(pid, field):
    for l in open(f"/proc/{pid}/status"):
        if l.startswith(field + ":"):
            v = int(l.split()[1], 16)
            return {s for s in SIGS if v >> (NUM[s] - 1) & 1}
    return set()


class Model:
    def __init__(self, ign=()):
        self.act = {s: "I" if s in ign else "D" for s in SIGS}
        self.mask = {s: 0 for s in SIGS}
        self.gcmask = 0
        self.pend, self.held, self.cnt = set(), {s: 0 for s in SIGS}, {}

    def add(self, s, n=1):
        k = s + self.act[s][1:]
        self.cnt[k] = self.cnt.get(k, 0) + n

    def send(self, s):
        if s == "CONT":
            self.pend -= STOP
        elif s in STOP:
            self.pend.discard("CONT")
        if self.mask[s]:
            self.pend.add(s)
        elif self.act[s][0] == "H":
            self.add(s)

    def fatal(self, s):
        return self.act[s] == "D" and s not in QUIET

    def set(self, s, a):
        if a == "I" or (a == "D" and s in QUIET):
            self.pend.discard(s)
        if a[0] != "H":
            self.held[s] = 0
        self.act[s] = a

    def unmask(self, l):
        out = []
        for s in set(l):
            if self.mask[s]:
                self.mask[s] -= 1
                if not self.mask[s]:
                    out.append(s)
        for s in out:
            if self.act[s][0] == "H":
                n = self.held[s] + (s in self.pend)
                if n:
                    self.add(s, n)
            self.held[s] = 0
            self.pend.discard(s)


def parse(st):
    a, b, bad = st.split("|")
    return {x.split("=")[0]: int(x.split("=")[1]) for x in a.split() if x[-2:] != "=0"}, b, bad


def body():
    c = Check("C06", "an evaluation is one operation of a signal history (installing, masking, sending, timing, interrupted "
              "computations, blocked calls, storms from another process) whose result, handler counts and kernel-visible masks and "
              "dispositions were compared with a model of the signals; distinct = distinct (operation, runtime, seed) texts")
    c.build(variants=("asan", "verif"))
    files = {"sig.sml": open(HERE + "/sig.sml").read(), "drv.sml": open(VERIF + "/lib/drv.sml").read()}
    img = c.sml_heap("wl", files, ["$/smlnj-lib.cm"], main="Sig.main")
    if img is None:
        c.finish()
    RTS = [(None, ["@SMLalloc=1m"]), (None, ["@SMLalloc=128k", "@SMLngens=2"]), ("asan", ["@SMLalloc=512k"]), ("verif", ["@SMLalloc=1m"]), (None, [])]

    def start(rtc, ign=(), image=None, env=None):
        def init():
            for s in SIGS:
                signal.signal(NUM[s], signal.SIG_IGN if s in ign else signal.SIG_DFL)
            signal.pthread_sigmask(signal.SIG_SETMASK, [])
        return c.proc_heap(image or img, rt=c.rt[rtc[0]] if rtc[0] else None, rtargs=rtc[1], preexec_fn=init, env={"VERIF_GC_PERIOD": "40", **(env or {})})

    def compare(p, m, what):
        """handler counts, monitors and the kernel's masks and dispositions against the model"""
        st = p.ask("counts")
        if st is None:
            return False
        cnt, dep, bad = parse(st)
        cnt.pop("GC", None)
        want = {k: v for k, v in m.cnt.items() if v}
        c.check(cnt == want, "counts", f"after {what}: handlers saw {cnt}, expected {want}", {"ops": p.hist[-14:]})
        m.cnt = dict(cnt)
        c.check(dep.split()[0] == "0" and int(dep.split()[1]) <= 1, "nesting", f"after {what}: handler depth {dep}", {"ops": p.hist[-8:]})
        c.check(not bad, "handler", f"after {what}: {bad}", {"ops": p.hist[-8:]})
        blk, ign, cgt = bits(p.pid, "SigBlk"), bits(p.pid, "SigIgn"), bits(p.pid, "SigCgt")
        c.check(blk == {s for s in SIGS if m.mask[s]}, "kernel-mask", f"after {what}: blocked in the kernel {sorted(blk)}, model {sorted(s for s in SIGS if m.mask[s])}", {"ops": p.hist[-8:]})
        c.check(ign == {s for s in SIGS if m.act[s] == "I"}, "kernel-ignored", f"after {what}: ignored {sorted(ign)}", {"ops": p.hist[-8:]})
        c.check(cgt == {s for s in SIGS if m.act[s][0] == "H"}, "kernel-caught", f"after {what}: caught {sorted(cgt)}", {"ops": p.hist[-8:]})
        return True

    def maskname(m):
        l = [s for s in SIGS if m.mask[s]] + (["GC"] if m.gcmask else [])
        return "ALL" if len(l) == len(SIGS) + 1 else set(l)

    def history(k):
        r = random.Random(c.seed * 1000 + k)
        ign = set(r.sample(["HUP", "INT", "QUIT", "USR2", "TSTP", "PIPE"], r.randrange(4)))
        rtc = RTS[k % len(RTS)]
        p = start(rtc, ign)
        m = Model(ign)
        ls = p.ask("list")
        if ls is not None:
            c.check(set(ls.split(",")) == set(SIGS) | {"GC"}, "list", f"signals listed: {ls}", {})
        for s in SIGS:
            a = p.ask("inq\t" + s)
            if a is not None:
                c.check(a == m.act[s][0], "inherited", f"{s} inherited as {m.act[s]} but reported {a}", {})
        gc = False
        for step in range(c.n(60, 300)):
            what, want = None, "ok"
            x = r.random()
            if x < .2:
                s, a = r.choice(SIGS), r.choice(KINDS + ["I", "D"])
                if a == "D" and s in m.pend and s not in QUIET:
                    continue
                over = r.random() < .3
                what, want = f"{'over' if over else 'set'}\t{s}\t{a}", m.act[s][0]
                if not (over and m.act[s] == "I"):
                    m.set(s, a)
            elif x < .35:
                if r.random() < .15:
                    l, what = SIGS, "mask\tALL"
                    m.gcmask += 1
                else:
                    l = r.sample(SIGS, r.randint(0, 5))
                    what = "mask\t" + ",".join(l + l[:r.randrange(2)])
                for s in l:
                    m.mask[s] += 1
            elif x < .55:
                if r.random() < .25:
                    l, what = SIGS, "unmask\tALL"
                    ga = True
                else:
                    l = [s for s in SIGS if m.mask[s] and r.random() < .6] or r.sample(SIGS, 2)
                    what, ga = "unmask\t" + ",".join(l), False
                if any(s in m.pend and m.fatal(s) for s in l):
                    continue
                if ga:
                    m.gcmask = max(0, m.gcmask - 1)
                m.unmask(l)
            elif x < .75:
                l = [s for s in (r.choice(SIGS) for _ in range(r.randint(1, 8))) if not m.fatal(s)]
                if not l:
                    continue
                what = "kill\t" + ",".join(l)
                for s in l:
                    m.send(s)
            elif x < .85:
                first = [s for s in SIGS if m.act[s] == "Hn" and not m.mask[s]]
                snd = [s for s in SIGS if m.act[s][0] == "H" and m.act[s] != "Hn"]
                if not first or not snd:
                    continue
                f, s = r.choice(first), r.choice(snd)
                n, mode, a = r.randint(1, 3), r.choice(["none", "mask", "act"]), r.choice(["H", "Ha", "I"])
                what = f"killfrom\t{f}\t{','.join([s] * n)}\t{mode}\t{a}"
                m.send(f)
                if mode == "none" or m.mask[s]:
                    for _ in range(n):
                        m.send(s)
                    if mode == "mask":
                        m.mask[s] += 1
                    elif mode == "act":
                        m.set(s, a)
                elif mode == "mask":
                    m.held[s] += n
                    if s in STOP:
                        m.pend.discard("CONT")
                    elif s == "CONT":
                        m.pend -= STOP
                    m.mask[s] += 1
                else:
                    if s in STOP:
                        m.pend.discard("CONT")
                    elif s == "CONT":
                        m.pend -= STOP
                    m.set(s, a)
                    if a[0] == "H":
                        m.add(s, n)
            elif x < .9:
                a = p.ask("masked")
                if a is None:
                    break
                w = maskname(m)
                c.check(a == w if isinstance(w, str) else set(a.split(",")) - {""} == w, "masked", f"masked() = {a}, model {w}", {"ops": p.hist[-8:]})
                s = r.choice(SIGS)
                what, want = "inq\t" + s, m.act[s][0]
            elif x < .94:
                s = r.choice([s for s in SIGS if s not in STOP])
                if m.act[s] not in ("H", "I", "D"):
                    continue
                what = "forkkill\t" + s
                if m.mask[s] or m.act[s] == "I" or (m.act[s] == "D" and s in QUIET):
                    want = "exit 0"
                else:
                    want = "exit 1" if m.act[s] == "H" else f"signal {NUM[s]}"
                if m.act["CHLD"] == "I":
                    want = "SysErr child"          # no zombies are kept
                # the child's end is itself a signal to the parent
                m.send("CHLD")
            elif x < .97:
                if m.mask["ALRM"] or m.act["ALRM"][0] != "H":
                    continue
                us = r.choice([300, 1000, 3000])
                a = p.ask(f"calc\t{r.randrange(9)}\t{r.randint(3, 12)}\t{us}\t{c.n(40, 150)}", timeout=90)
                c.seen(f"calc {p.hist[-1]} {rtc}")
                if a is None:
                    break
                w = a.split(" ")
                c.check(w[0] == "same", "computation", f"result of an interrupted computation: {a}", {"ops": p.hist[-8:]})
                c.check(int(w[-2]) >= 1, "timer", f"no timer signal was handled: {a}", {"ops": p.hist[-8:]})
                st = parse(p.ask("counts") or "||")[0]
                kk = "ALRM" + m.act["ALRM"][1:]
                n = st.get(kk, 0) - m.cnt.get(kk, 0)
                c.check(1 <= n <= int(w[-1]) / us + 2, "timer", f"{n} timer signals in {w[-1]} us with interval {us}", {"ops": p.hist[-8:]})
                m.cnt[kk] = st.get(kk, 0)
                continue
            else:
                # collections as signals
                a = p.ask("set\tGC\tH")
                n0 = parse(p.ask("counts") or "||")[0].get("GC", 0)
                thr = r.randint(0, 4)
                gl = [r.randint(0, 5) for _ in range(r.randint(1, 4))]
                a = p.ask(f"gcs\t{thr}\t{','.join(map(str, gl))}")
                if a is None:
                    break
                least = sum(1 for g in gl if min(g, 2 if "@SMLngens=2" in rtc[1] else 9) >= thr)
                c.seen(f"gc {thr} {gl} {rtc}")
                if m.gcmask:
                    c.check(a == "0", "gc-masked", f"{a} collection signals handled while masked", {"ops": p.hist[-8:]})
                else:
                    c.check(int(a) >= least, "gc-signal", f"{a} collection signals for {gl} with threshold {thr}, at least {least} expected", {"ops": p.hist[-8:]})
                p.ask("set\tGC\tD")
                continue
            a = p.ask(what)
            c.seen(f"{what} {rtc} {k}")
            if a is None:
                break
            c.check(a == want, "result:" + what.split("\t")[0], f"{what!r}: {a}, expected {want}", {"ops": p.hist[-8:]})
            if not compare(p, m, what):
                break
        if p.dead:
            c.violation("died", f"{p.dead}", {"ops": p.hist[-12:], "runtime": rtc})
        p.close()
    c.pmap(history, range(c.n(20, 120)))

    # ---- storms from another process, while computing and while masking
    def storm(k):
        r = random.Random(c.seed * 77 + k)
        rtc = RTS[k % len(RTS)]
        p = start(rtc)
        m = Model()
        use = r.sample([s for s in SIGS], 6)
        for s in use:
            p.ask(f"set\t{s}\t{r.choice(['H', 'Hg', 'Ha']) if k % 2 == 0 else 'H'}")
        if k % 2 == 0:
            p.send(f"calc\t{r.randrange(9)}\t{r.randint(3, 12)}\t0\t{c.n(700, 2500)}")
        else:
            p.send(f"maskstorm\t{','.join(use)}\t{c.n(700, 2500)}\t{r.randrange(10**6)}")
        sent = {s: 0 for s in use}
        end = time.time() + c.n(.8, 3)
        pause = r.choice([0, 0, .0002, .002])
        try:
            while time.time() < end:
                s = r.choice(use)
                os.kill(p.pid, NUM[s])
                sent[s] += 1
                if pause:
                    time.sleep(pause)
        except ProcessLookupError:
            pass
        a = p.recv(60)
        if a is not None and k % 2 == 0:
            c.check(a.startswith("same"), "computation", f"result of a computation under a signal storm: {a}", {"ops": p.hist[-9:], "runtime": rtc})
        elif a is not None:
            c.check(a.split(" ", 1)[1:] == [""], "storm-mask", f"mask left behind: {a}", {"runtime": rtc})
        st = p.ask("counts")
        c.seen(f"storm {k} {rtc}", count=sum(sent.values()))
        if st is not None:
            cnt, dep, bad = parse(st)
            tot = {s: sum(v for q, v in cnt.items() if q in (s, s + "g", s + "a")) for s in use}
            c.check(all(1 <= tot[s] <= sent[s] for s in use if sent[s]), "storm-counts", f"handled {tot}, sent {sent}", {"runtime": rtc})
            c.check(dep.split()[0] == "0" and int(dep.split()[1]) <= 1, "nesting", f"handler depth {dep}", {})
            c.check(not bad, "storm-handler", bad[:300], {"runtime": rtc, "seed": k})
            # afterwards delivery still works
            s = use[0]
            if s not in STOP:
                b = p.ask("kill\t" + ",".join([s] * 3))
                cnt2 = parse(p.ask("counts") or "||")[0]
                t2 = sum(v for q, v in cnt2.items() if q in (s, s + "g", s + "a"))
                c.check(t2 == tot[s] + 3, "storm-after", f"after the storm three {s}: {tot[s]} -> {t2}", {})
        p.close()
        if p.dead:
            c.violation("storm-died", p.dead, {"ops": p.hist[-9:], "runtime": rtc, "sent": sent, "stderr": p.err.decode("latin-1")[-500:]})
    c.pmap(storm, range(c.n(20, 100)), jobs=4)

    # ---- no signal keeps another one waiting
    def starve(k):
        r = random.Random(c.seed * 131 + k)
        p = start(RTS[k % len(RTS)])
        for _ in range(c.n(12, 60)):
            a, b = r.sample([s for s in SIGS if s not in STOP], 2)
            x = p.ask(f"starve\t{a}\t{b}\t400")
            if x is None:
                break
            c.seen(f"starve {a} {b}", count=400)
            n, at = map(int, x.split())
            c.check(n >= 400 and 0 <= at <= 200, "starved", f"{a}, sent again by its own handler, was handled {n} times; {b}, pending all along, after {at} of them", {"a": a, "b": b})
        if p.dead:
            c.violation("died", p.dead, {"ops": p.hist[-4:]})
        p.close()
    c.pmap(starve, range(c.n(4, 16)), jobs=4)

    # ---- the interval timer as the kernel has it (an extra handler, loaded with the runtime, reads it on demand)
    sd = c.dir("itimer")
    src = c.write(sd + "/shim.c", r'''
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
static void h (int s) {
    struct itimerval v; char b[200];
    int fd = open (getenv ("VERIF_ITIMER"), O_WRONLY|O_APPEND), n;
    getitimer (ITIMER_REAL, &v);
    n = sprintf (b, "%ld %ld\n", v.it_interval.tv_sec * 1000000L + v.it_interval.tv_usec, v.it_value.tv_sec * 1000000L + v.it_value.tv_usec);
    if (write (fd, b, n) != n) abort ();
    close (fd);
}
__attribute__((constructor)) static void init (void) {
    struct sigaction a = { .sa_handler = h, .sa_flags = SA_RESTART };
    if (getenv ("VERIF_ITIMER")) sigaction (SIGRTMIN + 5, &a, 0);
}
''')
    r = c.run(["gcc", "-shared", "-fPIC", "-o", sd + "/shim.so", src], timeout=100)
    c.require(r.rc == 0, "shim: " + r.text[-300:])

    def itimer(k):
        r = random.Random(c.seed * 17 + k)
        log = c.write(f"{sd}/log{k}", "")
        p = start((None, []), env={"LD_PRELOAD": sd + "/shim.so", "VERIF_ITIMER": log})
        p.ask("set\tALRM\tH")
        pos = 0
        for us in ["1000", "999999", "1000000", "1000001", "-", "1999998", "2000000", "59999999", "3600000001"] + [str(r.choice([r.randrange(1000, 10**6), r.randrange(10**6, 10**10)])) for _ in range(c.n(30, 200))] + ["-"]:
            t0 = time.time()
            if p.ask("tset\t" + us) is None:
                break
            os.kill(p.pid, signal.SIGRTMIN + 5)
            for _ in range(2000):
                b = open(log).read()
                if b.count("\n") > pos:
                    break
                time.sleep(.002)
            el = (time.time() - t0) * 1e6
            if b.count("\n") <= pos:
                c.require(False, "the timer could not be read")
            itv, val = map(int, b.split("\n")[pos].split())
            pos = b.count("\n")
            c.seen("itimer " + us)
            w = 0 if us == "-" else int(us)
            c.check(itv == w and val <= w + 4000 and (val >= w - el - 2000 or w < el + 2000), "itimer", f"interval timer set to {us} us: the kernel has interval {itv}, next expiration in {val} (after at most {el:.0f} us)", {"us": us})
        if p.dead:
            c.violation("died", p.dead, {"ops": p.hist[-4:]})
        p.close()
    c.pmap(itimer, range(c.n(2, 8)), jobs=2)

    # ---- blocked calls, abandoned computations, timers, defaults
    def waitblocked(pid):
        last, n = None, 0
        for _ in range(400):
            f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
            cur = (f[0], f[11], f[12])
            n = n + 1 if cur == last and f[0] == "S" else 0
            last = cur
            if n >= 8:
                return
            time.sleep(.01)

    def blocked(k):
        rtc = RTS[k % 4]
        p = start(rtc)
        for s in ("USR1", "USR2"):
            p.ask(f"set\t{s}\tH")
        n = 0
        for w, want in (("pause", ["returned"]), ("read", ["SysErr intr"]), ("readarr", ["SysErr intr"]), ("poll", ["SysErr intr"]), ("ppause", ["returned", "SysErr intr"]),
                        ("wait", ["SysErr intr"]), ("accept", ["SysErr intr"])):
            p.send("block\t" + w)
            waitblocked(p.pid)
            try:
                os.kill(p.pid, NUM["USR1"])
            except ProcessLookupError:
                pass
            a = p.recv(20)
            c.seen(f"blocked {w} {rtc}")
            if a is None:
                break
            n += 1
            c.check(a in want, "blocked:" + w, f"{w} interrupted by a signal: {a}, expected {want}", {"runtime": rtc})
            st = parse(p.ask("counts") or "||")[0]
            c.check(st == {"USR1": n}, "blocked-counts", f"{w}: handlers saw {st}, expected {n} of USR1", {"runtime": rtc})
        for us in (2000, 20000):
            a = p.ask(f"abort\t{us}\t8", timeout=40)
            c.seen(f"abort {us} {rtc}")
            c.check(a == "interrupted" or a is None, "abandon", f"computation abandoned from a handler: {a}", {"runtime": rtc})
            p.ask("kill\tUSR2")
        st = parse(p.ask("counts") or "||")[0]
        c.check(st == {"USR1": n, "USR2": 2} or p.dead, "abandon-after", f"signals after an abandoned computation: {st}", {"runtime": rtc})
        p.ask("set\tALRM\tH")
        for us, ms in ((2000, 120), (20000, 200)):
            a = p.ask(f"timer\t{us}\t{ms}")
            if a is None:
                break
            cnt, el = map(int, a.split())
            c.seen(f"timer {us} {rtc}")
            c.check(1 <= cnt <= el // us + 1 and cnt >= el // us // 20, "interval", f"{cnt} expirations in {el} us, interval {us}", {"runtime": rtc})
        if p.dead:
            c.violation("died", f"{p.dead}", {"ops": p.hist[-6:], "runtime": rtc})
        p.close()
    c.pmap(blocked, range(c.n(8, 24)))

    def default(s):
        p = start(RTS[0])
        p.ask("set\t" + s + "\tH")
        p.ask("kill\t" + s)
        a = p.ask("set\t" + s + "\tD")
        c.check(a == "H", "default", f"previous action of {s}: {a}", {})
        p.ask("mask\t" + s)
        p.ask("kill\t" + s)
        b = p.ask("inq\t" + s)
        c.check(b == "D", "default", f"masked default signal: {b}", {})
        p.send("unmask\t" + s)
        p.recv(10)
        try:
            p.p.wait(5)
        except Exception:
            pass
        c.seen("default " + s)
        c.check(p.p.returncode == -NUM[s], "default", f"{s} with default action unmasked: exit status {p.p.returncode}", {})
        p.close()
    c.pmap(default, ["HUP", "INT", "USR1", "USR2", "ALRM", "TERM", "PIPE", "VTALRM", "IO"])

    # ---- masks and handlers survive an exported system
    bd = c.dir("base")
    for f, t in files.items():
        c.write(f"{bd}/{f}", t)
    c.write(bd + "/wl.cm", "Group is\n $/basis.cm\n $/smlnj-lib.cm\n drv.sml\n sig.sml\n")
    c.write(bd + "/b1.sml", 'val _ = CM.make "wl.cm";\n')
    c.write(bd + "/b2.sml", 'val _ = Sig.base "base";\n')
    c.run([REPO + "/bin/sml", "b1.sml", "b2.sml"], cwd=bd)
    base = bd + "/base.amd64-linux"
    c.require(os.path.exists(base), "no base image")

    def exported(k):
        r = random.Random(c.seed * 31 + k)
        p = start(RTS[k % 4], image=base)
        m = Model()
        for s in SIGS:                        # the interactive system's own handlers
            if p.ask("inq\t" + s) != "D":
                p.ask(f"set\t{s}\tD")
        for s in r.sample(SIGS, 6):
            a = r.choice(["H", "Ha", "I"])
            p.ask(f"set\t{s}\t{a}")
            m.set(s, a)
        for _ in range(r.randrange(3)):
            l = r.sample(SIGS, 3)
            p.ask("mask\t" + ",".join(l))
            for s in l:
                m.mask[s] += 1
        if k % 3 == 0:
            p.ask("mask\tALL")
            m.gcmask += 1
            for s in SIGS:
                m.mask[s] += 1
        a = p.ask(f"export\t{bd}/x{k}")
        c.check(a == "exported", "export", f"export: {a}", {})
        p.close()
        q = start(RTS[(k + 1) % 4], image=f"{bd}/x{k}.amd64-linux")
        a = q.recv()
        c.check(a == "imported", "export", f"imported: {a}", {})
        c.seen(f"exported {k}")
        a = q.ask("masked") or ""
        w = maskname(m)
        c.check(a == w if isinstance(w, str) else set(a.split(",")) - {""} == w, "export-mask", f"masked() after import = {a}, before {w}", {"ops": p.hist})
        compare(q, m, "import")
        l = [s for s in SIGS if m.act[s][0] == "H"]
        q.ask("kill\t" + ",".join(l))
        for s in l:
            m.send(s)
        compare(q, m, "signals after import")
        while any(m.mask.values()) or m.gcmask:
            m.gcmask = max(0, m.gcmask - 1)
            m.unmask(SIGS)
            q.ask("unmask\tALL")
            if not compare(q, m, "unmasking after import"):
                break
        if q.dead:
            c.violation("died", q.dead, {"ops": q.hist})
        q.close()
        os.unlink(f"{bd}/x{k}.amd64-linux")
    c.pmap(exported, range(c.n(6, 40)), jobs=4)
    c.sample({"signals": NUM})
    c.require(c.evals > 1000, "too few operations")
    c.finish()


main(body)
