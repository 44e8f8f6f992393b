import select, sys, os, time, termios, fcntl, struct, random, errno, signal, tty
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))
ERR = {errno.ENOTTY: "notty", errno.EBADF: "badf", errno.EINVAL: "inval", errno.EIO: "io", errno.EPERM: "perm", errno.ESRCH: "srch", errno.EAGAIN: "again"}
TCGETS = 0x5401
SPEEDS = [termios.B0, termios.B50, termios.B75, termios.B110, termios.B134, termios.B150, termios.B200, termios.B300, termios.B600, termios.B1200,
          termios.B1800, termios.B2400, termios.B4800, termios.B9600, termios.B19200, termios.B38400]
IF = [getattr(termios, x) for x in "BRKINT ICRNL IGNBRK IGNCR IGNPAR INLCR INPCK ISTRIP IXOFF IXON PARMRK IXANY IUTF8 IMAXBEL".split() if hasattr(termios, x)]
OF = [getattr(termios, x) for x in "OPOST ONLCR OCRNL ONOCR ONLRET OFILL".split()]
CF = [getattr(termios, x) for x in "CLOCAL CREAD CSTOPB HUPCL PARENB PARODD".split()]
LF = [getattr(termios, x) for x in "ECHO ECHOE ECHOK ECHONL ICANON IEXTEN ISIG NOFLSH TOSTOP".split()]
HOW = {"now": termios.TCSANOW, "drain": termios.TCSADRAIN, "flush": termios.TCSAFLUSH}


def raw(fd):
    return fcntl.ioctl(fd, TCGETS, b"\0" * 60)[:36]      # flags, line discipline, control characters


def cget(fd):
    """termios as the C library presents it: flags, control characters (all of them), speeds"""
    i, o, cf, l, isp, osp, cc = termios.tcgetattr(fd)
    b = raw(fd)
    return i, o, cf, l, b[17:36] + b"\0" * 13, isp, osp


def pkt(m):
    """control bytes of a master in packet mode"""
    o = []
    while select.select([m], [], [], 0)[0] or select.select([], [], [m], 0)[2]:
        try:
            d = os.read(m, 1000)
        except OSError:
            break
        if d[:1] != b"\0":
            o.append(d[0])
        if len(o) > 20:
            break
    return o


def body():
    c = Check("C18", "an evaluation is one terminal operation (attributes, speeds, control characters, queues, flow, foreground group, window size) on a "
              "pseudo-terminal, its result and the terminal's kernel-visible state compared with a twin terminal to which the C library's call was applied; distinct = distinct operations")
    c.build(variants=("asan", "verif"))
    img = c.sml_heap("wl", {"main.sml": open(HERE + "/main.sml").read(), "drv.sml": open(VERIF + "/lib/drv.sml").read()}, [])
    if img is None:
        c.finish()
    RTS = [(None, []), (None, ["@SMLalloc=128k"]), ("asan", ["@SMLalloc=128k"]), ("verif", ["@SMLalloc=256k"])]

    def session(k):
        r = random.Random(c.seed * 100 + k)
        rtc = RTS[k % 4]
        m1, s1 = os.openpty()
        m2, s2 = os.openpty()
        for f in (m1, m2, s1, s2):
            os.set_blocking(f, False)
        plain = os.open(c.write(f"{c.scratch}/plain{k}", "x"), os.O_RDWR)
        name = os.ttyname(s1)
        lead = k % 2 == 0

        def init():
            for sg in (signal.SIGTTOU, signal.SIGTTIN, signal.SIGTSTP, signal.SIGINT, signal.SIGQUIT):
                signal.signal(sg, signal.SIG_IGN)
            if lead:
                fcntl.ioctl(s1, termios.TIOCSCTTY, 0)
        p = c.proc_heap(img, rt=c.rt[rtc[0]] if rtc[0] else None, rtargs=rtc[1], pass_fds=(s1, plain), preexec_fn=init)
        p.ask("ignore")

        def avail(f):
            out = b""
            try:
                while True:
                    b = os.read(f, 4096)
                    if not b:
                        break
                    out += b
            except BlockingIOError:
                pass
            except OSError as e:
                out += b"<%d>" % e.errno
            return out

        def twin(f):
            try:
                x = f()
                return "ok" if x is None else x
            except OSError as e:
                return "SysErr " + ERR.get(e.errno, str(e.errno))
            except termios.error as e:
                return "SysErr " + ERR.get(e.args[0], str(e.args[0]))

        def step(op, want, key=None):
            a = p.ask(op)
            c.seen(op + (" lead" if lead else ""))
            if a is None:
                return None
            c.check(a == want, "result:" + (key or op.split("\t")[0]), f"{op!r}: {a}, expected {want}", {"ops": p.hist[-6:], "runtime": rtc})
            return a

        kids, saved = [], {}
        for _ in range(c.n(120, 600)):
            if p.dead:
                break
            x = r.random()
            bad = r.random() < .08
            f1 = r.choice([plain, 199]) if bad else s1
            f2 = f1 if bad else s2
            if f1 == 199:
                f2 = 199
            how = r.choice(list(HOW))
            racy = False
            if x < .03 and f1 == s1:
                # the kernel tells the other side what was flushed or stopped (packet mode)
                for m in (m1, m2):
                    fcntl.ioctl(m, termios.TIOCPKT, struct.pack("i", 1))
                    pkt(m)
                for _ in range(r.randint(1, 4)):
                    if r.random() < .6:
                        q = r.choice(["i", "o", "io"])
                        step(f"flush\t{s1}\t{q}", twin(lambda: termios.tcflush(s2, {"i": termios.TCIFLUSH, "o": termios.TCOFLUSH, "io": termios.TCIOFLUSH}[q])))
                    else:
                        q = r.choice(["ooff", "oon"])
                        step(f"flow\t{s1}\t{q}", twin(lambda: termios.tcflow(s2, {"ooff": termios.TCOOFF, "oon": termios.TCOON}[q])))
                    a, b = pkt(m1), pkt(m2)
                    c.check(a == b, "packet", f"{p.hist[-1]!r}: the other side is told {a}, the C library's call gives {b}", {"ops": p.hist[-6:], "runtime": rtc})
                for m, sl in ((m1, s1), (m2, s2)):
                    fcntl.ioctl(m, termios.TIOCPKT, struct.pack("i", 0))
                step(f"flow\t{s1}\toon", twin(lambda: termios.tcflow(s2, termios.TCOON)))
                racy = True
            elif x < .15:
                w = twin(lambda: (lambda t: f"{t[0]} {t[1]} {t[2]} {t[3]} {t[4].hex()} {t[5]} {t[6]} true")(cget(f2)))
                step(f"get\t{f1}", w)
            elif x < .4:
                pick = lambda l: sum(v for v in l if r.random() < .5)
                ifl, ofl, lfl = pick(IF), pick(OF), pick(LF)
                cfl = pick(CF) | r.choice([termios.CS5, termios.CS6, termios.CS7, termios.CS8])
                cc = bytes(r.randrange(256) for _ in range(19))
                osp = r.choice(SPEEDS[1:])
                isp = osp if r.random() < .7 else r.choice(SPEEDS + [12345] * (f1 == s1))
                if r.random() < .05 and f1 == s1:
                    osp = 77777
                def app():
                    termios.tcsetattr(f2, HOW[how], [ifl, ofl, cfl, lfl, isp, osp, [bytes([b]) for b in cc] + [b"\0"] * 13])
                w = twin(app)
                step(f"set\t{f1}\t{how}\t{ifl}\t{ofl}\t{cfl}\t{lfl}\t{cc.hex()}\t{isp}\t{osp}", w)
            elif x < .46:
                k1, ch = r.randrange(17), r.randrange(256)
                def app():
                    t = termios.tcgetattr(f2)
                    ccs = [bytes([b]) for b in cget(f2)[4]]
                    ccs[k1] = bytes([ch])
                    termios.tcsetattr(f2, HOW[how], t[:6] + [ccs])
                step(f"setcc\t{f1}\t{how}\t{k1}\t{ch}", twin(app))
            elif x < .5:
                osp = r.choice(SPEEDS[1:])
                def app():
                    t = termios.tcgetattr(f2)
                    ccs = [bytes([b]) for b in cget(f2)[4]]
                    termios.tcsetattr(f2, HOW[how], t[:4] + [osp, osp, ccs])
                step(f"setspeed\t{f1}\t{how}\t{osp}\t{osp}", twin(app))
            elif x < .55:
                n = r.choice("abc")
                if n in saved and r.random() < .6:
                    t, cc = saved[n]
                    step(f"restore\t{f1}\t{how}\t{n}", twin(lambda: termios.tcsetattr(f2, HOW[how], t[:6] + [cc])))
                else:
                    if step(f"save\t{s1}\t{n}", "ok") == "ok":
                        saved[n] = (termios.tcgetattr(s2), [bytes([b]) for b in cget(s2)[4]])
            elif x < .65:
                # data waiting in both directions, then a flush
                txt = bytes(r.choice(b"abc xyz") for _ in range(r.randint(1, 12))) + b"\n"
                if r.random() < .7:
                    os.write(m1, txt)
                    os.write(m2, txt)
                    time.sleep(.01)              # the kernel passes input on in a worker
                if r.random() < .4:
                    wout = twin(lambda: str(os.write(s2, txt)))
                    step(f"write\t{s1}\t{txt.hex()}", wout)
                if r.random() < .7:
                    q = r.choice(["i", "o", "io"])
                    racy = "o" in q             # output may or may not have left for the other side
                    step(f"flush\t{f1}\t{q}", twin(lambda: termios.tcflush(f2, {"i": termios.TCIFLUSH, "o": termios.TCOFLUSH, "io": termios.TCIOFLUSH}[q])))
                fg = p.pid if not lead else struct.unpack("i", fcntl.ioctl(m1, termios.TIOCGPGRP, b"\0" * 4))[0]
                if fg != p.pid:
                    step(f"read\t{s1}\t100", "SysErr io", "read-background")
                    twin(lambda: (os.read(s1, 1000), os.read(s2, 1000)))
                elif r.random() < .6:
                    w = twin(lambda: (os.read(s2, 100).hex() or "-"))
                    step(f"read\t{s1}\t100", w)
            elif x < .72:
                q = r.choice(["ooff", "oon", "ioff", "ion"])
                step(f"flow\t{f1}\t{q}", twin(lambda: termios.tcflow(f2, {"ooff": termios.TCOOFF, "oon": termios.TCOON, "ioff": termios.TCIOFF, "ion": termios.TCION}[q])))
                if q == "ooff":
                    step(f"write\t{s1}\t{b'stopped'.hex()}", twin(lambda: str(os.write(s2, b"stopped"))))
                    if r.random() < .8:
                        step(f"flow\t{s1}\toon", twin(lambda: termios.tcflow(s2, termios.TCOON)))
            elif x < .76:
                avail(m1), avail(m2)
                step(f"flow\t{s1}\toon", twin(lambda: termios.tcflow(s2, termios.TCOON)))
                avail(m1), avail(m2)
                if f1 == s1:
                    step(f"drain\t{s1}", "ok")
                else:
                    step(f"drain\t{f1}", twin(lambda: termios.tcdrain(f2)))
            elif x < .78:
                step(f"break\t{f1}\t0", twin(lambda: termios.tcsendbreak(f2, 0)))
            elif x < .86:
                rows, cols = r.choice([(0, 0), (24, 80), (65535, 1), (r.randrange(65536), r.randrange(65536))])
                for f in (m1, m2):
                    fcntl.ioctl(f, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
                step(f"win\t{f1}", "NONE" if f1 != s1 else f"{rows} {cols}")
            elif x < .95:
                y = r.random()
                if bad:
                    w = twin(lambda: str(os.tcgetpgrp(f1)))
                    step(f"pgrp\t{f1}", w, "pgrp-error")
                elif lead:
                    if y < .3 and len(kids) < 3:
                        kid = p.ask("kid")
                        if kid is not None and kid.isdigit():
                            kids.append(int(kid))
                    elif y < .6:
                        g = r.choice(kids + [p.pid])
                        if step(f"setpgrp\t{s1}\t{g}", "ok") == "ok":
                            fg = struct.unpack("i", fcntl.ioctl(m1, termios.TIOCGPGRP, b"\0" * 4))[0]
                            c.check(fg == g, "foreground", f"foreground group is {fg} after setting {g}", {"ops": p.hist[-6:]})
                    elif y < .7:
                        step(f"setpgrp\t{s1}\t{os.getpid()}", "SysErr perm", "setpgrp-error")
                    else:
                        fg = struct.unpack("i", fcntl.ioctl(m1, termios.TIOCGPGRP, b"\0" * 4))[0]
                        step(f"pgrp\t{s1}", str(fg))
                else:
                    step(f"pgrp\t{s1}", "SysErr notty", "pgrp-error")
                    step(f"setpgrp\t{s1}\t{p.pid}", "SysErr notty", "setpgrp-error")
            else:
                step(f"isatty\t{f1}", "true tty" if f1 == s1 else "false other" if f1 == plain else p.ask(f"isatty\t{f1}"))
                step(f"ttyname\t{s1}", name.encode().hex())
                step("ctermid", b"/dev/tty".hex())
            if p.dead:
                break
            a, b = raw(s1), raw(s2)
            c.check(a == b, "state", f"terminal state after {p.hist[-1]!r}: {a.hex()}, the C library's call gives {b.hex()}", {"ops": p.hist[-6:], "runtime": rtc})
            if a != b:
                break
            oa, ob = avail(m1), avail(m2)
            if racy:
                time.sleep(.02)
                avail(m1), avail(m2)
                continue
            for _ in range(50):
                if oa == ob:
                    break
                time.sleep(.01)
                oa, ob = oa + avail(m1), ob + avail(m2)
            c.check(oa == ob, "output", f"output after {p.hist[-1]!r}: {oa[:100]}, expected {ob[:100]}", {"ops": p.hist[-6:], "runtime": rtc})
        if lead and not p.dead:
            p.ask(f"setpgrp\t{s1}\t{p.pid}")
            p.ask("reap")
        if p.dead:
            c.violation("died", p.dead, {"ops": p.hist[-6:], "runtime": rtc})
        p.close()
        for f in (m1, m2, s1, s2, plain):
            os.close(f)
    c.pmap(session, range(c.n(32, 200)))

    g = lambda s: " ".join(str(getattr(termios, x)) for x in s.split())
    want = "|".join([" ".join(map(str, SPEEDS)), g("VEOF VEOL VERASE VINTR VKILL VMIN VQUIT VSUSP VTIME VSTART VSTOP") + " 32",
                     g("BRKINT ICRNL IGNBRK IGNCR IGNPAR INLCR INPCK ISTRIP IXOFF IXON PARMRK"), g("OPOST"),
                     g("CLOCAL CREAD CSIZE CS5 CS6 CS7 CS8 CSTOPB HUPCL PARENB PARODD"), g("ECHO ECHOE ECHOK ECHONL ICANON IEXTEN ISIG NOFLSH TOSTOP")])
    got = run_ops(c, img, "consts", ["consts", "cmpspeed"], shards=1)
    if got:
        c.seen("consts")
        c.check(got[0] == want, "constants", f"{got[0]}, expected {want}", {})
        c.check(got[1] == "LESS EQUAL GREATER", "constants", got[1], {})
    c.require(c.evals > 1500, "too few operations")
    c.finish()


main(body)
