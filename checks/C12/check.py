import sys, os, socket, threading, errno, struct
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
from vlib import *
import faulthandler
faulthandler.register(signal.SIGUSR1, all_threads=True)
HERE = os.path.dirname(os.path.abspath(__file__))


def pat(n, k):
    return bytes((i * 7 + k + i // 251) % 256 for i in range(n))


def dig(v):
    h = 2166136261
    for b in v:
        h = ((h ^ b) * 16777619) & 0xffffffff
    return f"{len(v)}:{h:X}"


def show(v):
    return hx(v) if len(v) <= 64 else dig(v)


def arr(n):
    return bytes((i * 3 + 1) % 256 for i in range(n))


class Bad(Exception):
    pass


class E:
    """One session: the system under test on one side, this process as its peer on the other."""

    def __init__(self, c, img, probe, name, rng, **kw):
        self.c, self.rng, self.name, self.probe = c, rng, name, probe
        self.d = c.dir("s-" + name)
        self.p = c.proc_heap(img, cwd=self.d, **kw)
        self.n = 0
        self.socks = []

    def fresh(self, p="s"):
        self.n += 1
        return f"{p}{self.n}"

    def fail(self, key, msg):
        self.c.violation(key, msg, {"session": self.name, "ops": self.p.hist[-12:]})
        raise Bad

    def ask(self, *f, timeout=40):
        r = self.p.ask("\t".join(str(x) for x in f), timeout)
        if r is None:
            e = os.pread(self.p.errf.fileno(), 4000, 0).decode("latin-1")
            self.fail(f"died:{f[0]}", f"{self.p.dead} in {f[0]}: {e[-600:]}")
        self.c.seen(f"{f[0]}|{r[:40]}|{self.name[0]}")
        return r

    def ex(self, want, *f, key=None):
        r = self.ask(*f)
        if callable(want):
            m = want(r)
            if m:
                self.fail(f"{key or f[0]}", f"{f}: {m}")
        elif r not in (want if isinstance(want, (set, frozenset)) else {want}):
            self.fail(f"{key or f[0]}", f"{f}: got {r!r}, expected {want!r}")
        return r

    def keep(self, s):
        self.socks.append(s)
        s.settimeout(30)
        return s

    def done(self):
        for s in self.socks:
            s.close()
        self.socks = []

    def nread(self, h, n):
        for _ in range(400):
            r = self.ask("nread", h)
            if r == str(n):
                return
            time.sleep(0.005)
        self.fail("nread", f"bytes available on {h}: {r}, but the peer has sent {n}")

    def kernel(self, h):
        f = os.path.join(self.d, "probe.out")
        self.ex("1", "probe", f"{self.probe} probe.out", h)
        return {l.split()[0]: int(l.split()[1]) for l in open(f)}


def astr(a, fam):
    if fam == socket.AF_INET:
        return f"i:{a[0]}:{a[1]}"
    return "u:" + hx(a if isinstance(a, bytes) else os.fsencode(a))


def rdata(rng, big=False):
    """a data spec for the driver, its bytes, and a slice of it"""
    n = rng.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 63, 64, 65, 255, 256, 1000, 4095, 4096, 4097, 20000] if not big
                   else [65536, 100000, 131072, 262143, 400000])
    k = rng.randrange(256)
    if n <= 65 and rng.random() < 0.5:
        b = bytes(rng.randrange(256) for _ in range(n))
        spec = "x:" + hx(b)
    else:
        b, spec = pat(n, k), f"p:{n}:{k}"
    off = rng.choice([0, 0, rng.randint(0, n)])
    ln = rng.choice([n - off, n - off, rng.randint(0, n - off)])
    return spec, off, ln, b[off:off + ln]


def stream_pair(e):
    """connect the system and the peer by a stream in one of the possible ways -> (handle, peer socket)"""
    rng = e.rng
    fam = rng.choice([socket.AF_INET, socket.AF_UNIX])
    fs = "inet" if fam == socket.AF_INET else "unix"
    h = e.fresh()

    def addr_for(n):
        return ("127.0.%d.%d" % (rng.randrange(3), rng.randint(1, 3)), 0) if fam == socket.AF_INET else e.fresh("path" + "x" * rng.choice([0, 1, 2, 3, 5, 11, 60]))
    if rng.random() < 0.5:        # the system connects
        ls = e.keep(socket.socket(fam, socket.SOCK_STREAM))
        ls.bind(addr_for(0) if fam == socket.AF_INET else os.path.join(e.d, a := addr_for(0)))
        la = ls.getsockname() if fam == socket.AF_INET else a
        ls.listen(5)
        e.ex("ok", "new", h, fs, "s")
        mine = None
        if rng.random() < 0.5:
            ba = addr_for(1)
            e.ex("ok", "bind", h, astr(ba, fam))
            mine = ba
        if rng.random() < 0.5:
            e.ex("ok", "connect", h, astr(la, fam))
            s = e.keep(ls.accept()[0])
        else:
            r = e.ex({"true", "false"}, "connectNB", h, astr(la, fam))
            s = e.keep(ls.accept()[0])
            if r == "false":
                e.ex(lambda r: None if r.startswith(f";{h};;") else "socket not reported writable after connect: " + r,
                     "select", "-", h, "-", "5000")
            e.ex("false", "error", h)
        # addresses seen from both ends
        if fam == socket.AF_INET:
            e.ex(astr(s.getpeername(), fam), "name", h)
            e.ex(astr(s.getsockname(), fam), "peer", h)
            if mine and s.getpeername()[0] != mine[0]:
                e.fail("bind", f"bound to {mine}, peer sees {s.getpeername()}")
        else:
            pn = s.getpeername()
            if (pn if isinstance(pn, str) else pn.decode()) != (mine or ""):
                e.fail("bind", f"bound to {mine!r}, peer sees {pn!r}")
            e.ex(astr(mine or "", fam), "name", h, key="name:unix")
            e.ex(astr(os.path.join(e.d, la), fam), "peer", h, key="peer:unix")
        ls.close()
    else:                         # the system accepts
        l = e.fresh()
        e.ex("ok", "new", l, fs, "s")
        a = addr_for(0)
        e.ex("ok", "bind", l, astr(a, fam))
        e.ex("ok", "listen", l, rng.choice([1, 5, 128]))
        if fam == socket.AF_INET:
            nm = e.ask("name", l)
            w = nm.split(":")
            if w[:2] != ["i", a[0]] or not 0 < int(w[2]) < 65536:
                e.fail("name", f"listening on {a}: name is {nm}")
            ta = (a[0], int(w[2]))
        else:
            e.ex(astr(a, fam), "name", l)
            ta = os.path.join(e.d, a)
        if rng.random() < 0.5:
            e.ex("NONE", "acceptNB", l, h)
        s = e.keep(socket.socket(fam, socket.SOCK_STREAM))
        named = None
        if fam == socket.AF_UNIX and rng.random() < 0.5:
            named = os.path.join(e.d, addr_for(1))
            s.bind(named)
        s.connect(ta)
        want = astr(s.getsockname(), fam) if fam == socket.AF_INET else astr(named or "", fam)
        key = "accept:" + fs
        if rng.random() < 0.5:
            e.ex(want, "accept", l, h, key=key)
        else:
            e.ex("SOME " + want, "acceptNB", l, h, key=key)
        e.ex(want, "peer", h, key="peer:" + fs)
        k = e.kernel(h)
        if k["nonblock"]:
            e.fail("accepted-mode", "an accepted socket is non-blocking")
        e.ex("ok", "close", l)
    e.c.sample(f"{e.name}: stream over {fs}, {'connected' if True else ''} with addresses checked at both ends")
    return h, s, fam


def pump(e, h, s, fam):
    rng = e.rng
    pend = b""            # sent by the peer, not yet consumed by the system
    for _ in range(rng.randint(6, 14)):
        o = rng.choice(["send"] * 3 + ["sendN", "peersend", "peersend", "recv", "recv", "recv", "peek", "recvN", "big", "bigrecv", "sel", "mode"])
        if o in ("send", "sendN"):
            spec, off, ln, b = rdata(rng)
            v = rng.choice(["V", "A"])
            nb = "N" if o == "sendN" else ""
            if rng.random() < 0.4:
                e.ex(str(ln), f"send{v}{nb}'", h, spec, off, ln, rng.choice(["-", "-", "r"]) if fam == socket.AF_INET else "-")
            else:
                e.ex(str(ln), f"send{v}{nb}", h, spec, off, ln)
            got = b""
            while len(got) < ln:
                x = s.recv(ln - len(got))
                if not x:
                    e.fail("send", f"peer saw end of stream after {len(got)} of {ln} bytes")
                got += x
            if got != b:
                e.fail("send-bytes", f"peer received other bytes: {got[:60]!r} != {b[:60]!r} ({ln} bytes)")
            s.setblocking(False)
            try:
                x = s.recv(100)
                e.fail("send-extra", f"peer received extra bytes {x!r}")
            except BlockingIOError:
                pass
            s.settimeout(30)
        elif o == "big":
            spec, off, ln, b = rdata(rng, True)
            got = bytearray()
            stop = []

            def rd():
                while not stop or len(got) < stop[0]:
                    try:
                        x = s.recv(50000)
                    except socket.timeout:
                        return
                    if not x:
                        return
                    got.extend(x)
            t = threading.Thread(target=rd)
            s.settimeout(0.3)
            t.start()
            done, stalls = 0, 0
            nb = rng.random() < 0.5
            v = rng.choice("VA")
            while done < ln:
                r = e.ask(f"send{v}{'N' if nb else ''}", h, spec, off + done, ln - done)
                if nb and r == "NONE":
                    stalls += 1
                    time.sleep(0.01)
                    if stalls > 2000:
                        e.fail("sendNB", "non-blocking send never makes progress")
                    continue
                if not r.isdigit() or not 0 < int(r) <= ln - done:
                    e.fail("send-count", f"sending {ln - done} bytes: {r}")
                if not nb and fam == socket.AF_INET and int(r) != ln - done and False:
                    pass
                done += int(r)
            stop.append(ln)
            t.join(60)
            s.settimeout(30)
            if bytes(got) != b:
                e.fail("send-bytes", f"peer received {len(got)} bytes, {ln} were reported as sent; equal prefix {os.path.commonprefix([bytes(got), b])[:0]!r}")
            e.c.seen(f"big-send {ln} {nb}")
        elif o == "peersend" and len(pend) < 30000:
            spec, off, ln, b = rdata(rng)
            s.sendall(b)
            pend += b
            e.nread(h, len(pend))
        elif o == "bigrecv":
            n = rng.choice([50000, 131072, 300001])
            b = pat(n, rng.randrange(256))
            t = threading.Thread(target=lambda: s.sendall(b))
            t.start()
            all_, pos = pend + b, 0
            while pos < len(all_):
                m = rng.choice([1, 7, 4096, 65536, 70000, 200000])
                if rng.random() < 0.5:
                    r = e.ask("recvV", h, m)
                    L = len(unhx(r)) if ":" not in r else int(r.split(":")[0])
                    if not (0 < L <= m and pos + L <= len(all_)) or r != show(all_[pos:pos + L]):
                        e.fail("recv-bytes", f"recvVec {m} at stream position {pos}: {r[:80]}")
                else:
                    pad = rng.randint(0, 3)
                    r = e.ask("recvA", h, m + pad + 2, pad, m)
                    L = int(r.split()[0])
                    a0 = arr(m + pad + 2)
                    if not (0 < L <= m) or r.split()[1] != show(a0[:pad] + all_[pos:pos + L] + a0[pad + L:]):
                        e.fail("recv-bytes", f"recvArr {m} at stream position {pos}: {r[:80]}")
                pos += L
            t.join()
            pend = b""
            e.c.seen(f"big-recv {n}")
        elif o in ("recv", "peek", "recvN"):
            n = rng.choice([0, 1, 2, 7, 8, 9, 63, 64, 65, 100, 4096, 20000, 100000])
            if not pend and n and o != "recvN":
                continue
            exp = pend[:n]
            v = rng.choice("VA")
            if v == "V":
                if o == "peek":
                    e.ex(show(exp), "recvV'", h, n, "p")
                elif o == "recvN":
                    e.ex(show(exp) if pend or not n else "NONE", *(("recvVN", h, n) if rng.random() < 0.5 else ("recvVN'", h, n, "-")))
                else:
                    e.ex(show(exp), *(("recvV", h, n) if rng.random() < 0.5 else ("recvV'", h, n, "-")))
            else:
                pad, post = rng.choice([0, 1, 5, 8]), rng.choice([0, 1, 3, 8])
                a0 = arr(n + pad + post)
                a1 = a0[:pad] + exp + a0[pad + len(exp):]
                sz = n + pad + post
                if o == "peek":
                    e.ex(f"{len(exp)} {show(a1)}", "recvA'", h, sz, pad, n, "p")
                elif o == "recvN":
                    e.ex(f"{len(exp) if pend or not n else 'NONE'} {show(a1)}", "recvAN", h, sz, pad, n)
                else:
                    e.ex(f"{len(exp)} {show(a1)}", *(("recvA", h, sz, pad, n) if rng.random() < 0.5 else ("recvA'", h, sz, pad, n, "-")))
            if o != "peek":
                pend = pend[len(exp):]
            e.nread(h, len(pend))
        elif o == "sel":
            r = e.ask("select", h, rng.choice(["-", h]), "-", rng.choice(["0", "30"]))
            w = r.split(";")
            if (w[0] == h) != bool(pend):
                e.fail("select", f"{len(pend)} bytes pending, select says {r}")
        elif o == "mode":
            k = e.kernel(h)
            r = e.ask("recvVN" if not pend else "nread", h, *([5] if not pend else []))
            k = e.kernel(h)
            if not pend and (r != "NONE" or k["nonblock"] != 1):
                e.fail("nonblock", f"non-blocking receive on an empty stream: {r}, kernel mode {k['nonblock']}")
            if k["type"] != 1 or k["domain"] != fam or k["listening"]:
                e.fail("sockkind", f"wrong kind of socket {k}")
            e.ex("STREAM", "type", h)
    # ending
    w = rng.choice(["peer-eof", "shut-w", "shut-r", "close", "oob", "shut-rw"])
    if w == "oob" and fam == socket.AF_INET:
        oob(e, h, s, pend)
    elif w == "peer-eof":
        s.shutdown(socket.SHUT_WR)
        left = len(pend)
        e.ex(show(pend), "recvV", h, left + 10) if left else None
        for _ in range(2):
            e.ex("-", "recvV", h, 10)
            e.ex("0 " + show(arr(9)), "recvA", h, 9, 2, 5)
    elif w == "shut-w":
        e.ex("ok", "shutdown", h, "w")
        if s.recv(10) != b"":
            e.fail("shutdown", "peer does not see the end of the stream")
        s.sendall(b"still")
        e.nread(h, len(pend) + 5)
        e.ex(show(pend + b"still"), "recvV", h, len(pend) + 100)
    elif w == "shut-r" and not pend:
        e.ex("ok", "shutdown", h, "r")
        e.ex("-", "recvV", h, 10)
        e.ex("5", "sendV", h, "x:" + hx(b"abcde"), 0, 5)
        if s.recv(10) != b"abcde":
            e.fail("shutdown", "sending after shutting down the receiving side")
    elif w == "shut-rw":
        e.ex("ok", "shutdown", h, "b")
        if not pend and s.recv(10) != b"":
            e.fail("shutdown", "peer does not see the end of the stream")
    e.ex("ok", "close", h)
    if w == "close" and not pend:
        if s.recv(10) != b"":
            e.fail("close", "peer does not see the end of the stream")


def oob(e, h, s, pend):
    rng = e.rng
    # to the peer
    b = bytes([rng.randrange(256)])
    e.ex("1", rng.choice(["sendV'", "sendA'", "sendVN'", "sendAN'"]), h, "x:" + hx(b), 0, 1, rng.choice(["o", "ro"]))
    s.setblocking(False)
    for _ in range(100):
        try:
            got = s.recv(1, socket.MSG_OOB)
            break
        except OSError:
            time.sleep(0.01)
    else:
        got = None
    s.settimeout(30)
    if got != b:
        e.fail("oob-send", f"peer got urgent byte {got!r}, not {b!r}")
    # from the peer: "front" URG(b) "back"
    if pend:
        e.ex(show(pend), "recvV", h, len(pend))
    inline = rng.random() < 0.4
    if inline:
        e.ex("ok", "set", "oobinline", h, "true")
    front = bytes(rng.randrange(256) for _ in range(rng.randint(0, 20)))
    back = bytes(rng.randrange(256) for _ in range(rng.randint(1, 20)))
    if front:
        s.sendall(front)
    s.send(b, socket.MSG_OOB)
    time.sleep(0.02)
    s.sendall(back)
    time.sleep(0.05)
    r = e.ask("select", "-", "-", h, "2000")
    if r.split(";")[2] != h:
        e.fail("select-oob", f"urgent data pending, select says {r}")
    e.ex("false" if front else "true", "atmark", h)
    if not inline:                              # the urgent byte can be looked at while normal data wait
        a0 = arr(6)
        for w in rng.sample(["V", "A", "N"], rng.randint(1, 3)):
            if w == "V":
                e.ex(show(b), "recvV'", h, rng.choice([1, 5]), "op")
            elif w == "N":
                e.ex(show(b), "recvVN'", h, rng.choice([1, 5]), "op")
            else:
                e.ex("1 " + show(a0[:2] + b + a0[3:]), "recvA'", h, 6, 2, rng.choice([1, 3]), "op")
    if front:
        e.ex(show(front), "recvV", h, 1000)
        e.ex("true", "atmark", h)
    if inline:
        e.ex(show(b + back), "recvV", h, 1000)
    else:
        if rng.random() < 0.5:
            e.ex(show(b), rng.choice(["recvV'", "recvVN'"]), h, 1, "o")
        else:
            a0 = arr(4)
            e.ex("1 " + show(a0[:2] + b + a0[3:]), "recvA'", h, 4, 2, 1, "o")
        e.ex(show(back), "recvV", h, 1000)
    e.ex("false", "atmark", h)


def dgrams(e):
    rng = e.rng
    fam = rng.choice([socket.AF_INET, socket.AF_UNIX])
    fs = "inet" if fam == socket.AF_INET else "unix"
    h = e.fresh()
    e.ex("ok", "new", h, fs, "d")
    peers = []
    for i in range(2):
        s = e.keep(socket.socket(fam, socket.SOCK_DGRAM))
        if fam == socket.AF_INET:
            s.bind((f"127.0.{rng.randrange(3)}.{rng.randint(1, 3)}", 0))
            peers.append((s, s.getsockname(), astr(s.getsockname(), fam)))
        else:
            a = e.fresh("dg" + "y" * rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 30]))
            cwd_path = os.path.join(e.d, a)
            s.bind(cwd_path)
            peers.append((s, a, astr(cwd_path, fam)))
    if fam == socket.AF_INET:
        e.ex("ok", "bind", h, rng.choice([f"i:127.0.0.1:0", "any:0"]))
        port = int(e.ask("name", h).split(":")[2])
        me = ("127.0.0.1", port)
    else:
        a = e.fresh("me" + "z" * rng.choice([0, 1, 2, 3, 4, 5, 6, 7]))
        e.ex("ok", "bind", h, astr(a, fam))
        e.ex(astr(a, fam), "name", h)
        me = os.path.join(e.d, a)
    anon = e.keep(socket.socket(fam, socket.SOCK_DGRAM))
    q = []
    for _ in range(rng.randint(5, 15)):
        o = rng.choice(["to", "to", "from", "from", "in", "in", "peek", "nb"])
        if o == "to":
            s, a, st = rng.choice(peers)
            spec, off, ln, b = rdata(rng)
            if ln == 0:
                continue
            v = rng.choice("VA")
            to = astr(a, fam)
            k = rng.randrange(3)
            if k == 0:
                e.ex("ok", f"sendto{v}", h, to, spec, off, ln)
            elif k == 1:
                e.ex("ok", f"sendto{v}'", h, to, spec, off, ln, "-")
            else:
                e.ex("true", f"sendto{v}N", h, to, spec, off, ln)
            got, src = s.recvfrom(100000)
            if got != b:
                e.fail("sendto-bytes", f"datagram arrived as {got[:60]!r}, sent {b[:60]!r}")
            wsrc = e.ask("name", h)
            if fam == socket.AF_INET:
                if src[1] != me[1]:
                    e.fail("sendto-source", f"datagram arrived from {src}, sent from {wsrc}")
            elif os.path.basename(src) != os.path.basename(me):
                e.fail("sendto-source", f"datagram arrived from {src!r}, sent from {me!r}")
        elif o == "from" and len(q) < 5:
            if rng.random() < 0.25:
                s, st = anon, None
            else:
                s, _, st = rng.choice(peers)
            n = rng.choice([0, 1, 2, 8, 63, 64, 65, 1000, 9000])
            b = bytes(rng.randrange(256) for _ in range(n)) if n < 70 else pat(n, rng.randrange(256))
            s.sendto(b, me)
            if st is None and fam == socket.AF_INET:
                st = f"i:127.0.0.1:{s.getsockname()[1]}"
            q.append((b, st))
        elif o in ("in", "peek", "nb"):
            if not q:
                e.ex("NONE", *rng.choice([("rfVN", h, 10), ("rfAN", h, 20, 3, 10)]))
                continue
            if rng.random() < .2 and fam == socket.AF_UNIX:
                # local datagrams have no urgent data: refused, and nothing is lost
                f = rng.choice(["o", "po"])
                e.ex("SYSERR 95", *rng.choice([("rfV'", h, 10, f), ("rfA'", h, 20, 3, 10, f)]), key="rf-oob")
                continue
            b, st = q[0]
            n = rng.choice([1, 8, 64, 65, 9000, 20000])
            exp = b[:n]
            # a datagram from an unnamed local socket carries no address at all
            def ok(data):
                if st is not None:
                    return {f"{data} {st}"}
                return {f"{data} u:-", f"{data} f:UNSPEC", f"{data} f:<UNKNOWN>"}
            if rng.random() < 0.5:
                r = ("rfV'", h, n, "p") if o == "peek" else ("rfVN", h, n) if o == "nb" else rng.choice([("rfV", h, n), ("rfV'", h, n, "-")])
                e.ex(ok(show(exp)), *r, key="rfV" + ("" if st else ":unnamed"))
            else:
                pad, post = rng.choice([0, 1, 5, 8]), rng.choice([0, 1, 3, 8])
                a0 = arr(n + pad + post)
                r = ("rfA'", h, n + pad + post, pad, n, "p") if o == "peek" else ("rfAN", h, n + pad + post, pad, n) if o == "nb" else ("rfA", h, n + pad + post, pad, n)
                e.ex(ok(f"{len(exp)} {show(a0[:pad] + exp + a0[pad + len(exp):])}"), *r, key="rfA" + ("" if st else ":unnamed"))
            if st and rng.random() < 0.6 and o != "peek":
                # answer to the address just received
                for s, a, sst in peers:
                    if sst == st:
                        e.ex("ok", "sendtoV", h, "held:last", "x:" + hx(b"reply"), 0, 5)
                        if s.recvfrom(100)[0] != b"reply":
                            e.fail("reply", "answer to the sender's address did not arrive")
                        e.ex("true", "same", "held:last", st if fam == socket.AF_INET else astr(os.path.join(e.d, a), fam))
            if o != "peek":
                q.pop(0)
    e.ex("DGRAM", "type", h)
    # connected datagram socket
    while q:
        e.ask("rfV", h, 100)
        q.pop(0)
    s, a, st = rng.choice(peers)
    e.ex("ok", "connect", h, astr(a, fam))
    e.ex(astr(a, fam) if fam == socket.AF_INET else st, "peer", h)
    e.ex("3", "sendV", h, "x:" + hx(b"con"), 0, 3)
    if s.recv(10) != b"con":
        e.fail("connected-dgram", "wrong data")
    e.ex("ok", "close", h)


def addresses(e):
    rng = e.rng
    for _ in range(25):
        ip = ".".join(str(rng.choice([0, 1, 127, 128, 254, 255, rng.randrange(256)])) for _ in range(4))
        port = rng.choice([0, 1, 80, 255, 256, 257, 32767, 32768, 65534, 65535, rng.randrange(65536)])
        e.ex(f"INET i:{ip}:{port}", "addr", f"i:{ip}:{port}")
        e.ex(f"INET i:0.0.0.0:{port}", "addr", f"any:{port}")
        p2 = rng.choice([port, port ^ 1, port ^ 0x100])
        e.ex("true" if p2 == port else "false", "same", f"i:{ip}:{port}", f"i:{ip}:{p2}")
    for _ in range(25):
        n = rng.choice([1, 2, 3, 5, 6, 7, 13, 14, 15, 21, 22, 23, 53, 54, 100, 106, 107, 108, 109, 200])
        b = bytes(rng.randrange(1, 256) for _ in range(n))
        if n > 107:
            e.ex(f"SYSERR {errno.ENAMETOOLONG}", "addr", "u:" + hx(b))
        else:
            e.ex(f"UNIX u:{hx(b)}", "addr", "u:" + hx(b))
            e.ex("ok", "hold", "x", "a", "u:" + hx(b))
            e.ex("true", "same", "held:x", "u:" + hx(b))
            b2 = b[:-1] + bytes([b[-1] % 255 + 1])
            e.ex("false", "same", "held:x", "u:" + hx(b2))
            if n > 1:
                e.ex("false", "same", "held:x", "u:" + hx(b[:-1]))
    # names of bound sockets, all lengths
    for n in rng.sample(range(1, 92), 6) + [91]:
        p = "q%d" % e.n
        e.n += 1
        p = (p + "n" * 200)[:max(n, len(p))]
        h = e.fresh()
        e.ex("ok", "new", h, "unix", rng.choice("sd"))
        e.ex("ok", "bind", h, "u:" + hx(p))
        if not os.path.exists(os.path.join(e.d, p)):
            e.fail("bind", f"no socket file {p}")
        e.ex("u:" + hx(p), "name", h)
        e.ex("ok", "hold", "n", "name", h)
        e.ex("true", "same", "held:n", "u:" + hx(p))
        e.ex("ok", "close", h)
    # unnamed sockets and pairs
    a, b = e.fresh(), e.fresh()
    ty = rng.choice("sd")
    e.ex("ok", "pair", a, b, ty)
    for h in (a, b):
        e.ex("u:-", "name", h, key="name:unnamed")
        e.ex("u:-", "peer", h, key="peer:unnamed")
        e.ex("STREAM" if ty == "s" else "DGRAM", "type", h)
    spec, off, ln, d = rdata(rng)
    if ln:
        e.ex(str(ln), "sendV", a, spec, off, ln)
        e.ex(show(d), "recvV", b, ln + 5)
        e.ex(str(ln), "sendA", b, spec, off, ln)
        e.ex(show(d), "recvV", a, ln + 5)
    e.ex("ok", "close", a)
    e.ex("ok", "close", b)


BOOLS = ["reuseaddr", "keepalive", "dontroute", "broadcast", "oobinline", "nodelay", "debug"]


def options(e):
    rng = e.rng
    ss = []
    for _ in range(2):
        h = e.fresh()
        ty = rng.choice("sd")
        e.ex("ok", "new", h, "inet", ty)
        ss.append((h, ty))
    ref = {}
    for _ in range(22):
        h, ty = rng.choice(ss)
        o = rng.choice(BOOLS + ["linger", "sndbuf", "rcvbuf", "linger", "sndbuf", "rcvbuf"])
        if o == "nodelay" and ty == "d":
            e.ex(lambda r: None if r.startswith("SYSERR") else "TCP option accepted on UDP: " + r, "get", o, h)
            continue
        if o in ("sndbuf", "rcvbuf"):
            before = e.kernel(h)
            n = rng.choice([5000, 8192, 10000, 65536, 100000])
            e.ex("ok", "seti", o, h, n)
            k = e.kernel(h)
            # the kernel doubles the request, within its limits; the twin is a socket of ours
            t = socket.socket(socket.AF_INET, socket.SOCK_STREAM if ty == "s" else socket.SOCK_DGRAM)
            t.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF if o == "sndbuf" else socket.SO_RCVBUF, n)
            want = t.getsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF if o == "sndbuf" else socket.SO_RCVBUF)
            t.close()
            other = "rcvbuf" if o == "sndbuf" else "sndbuf"
            if k[o] != want or k[other] != before[other]:
                e.fail("set-" + o, f"set {o} to {n}: kernel has {o}={k[o]} (expected {want}), {other} {before[other]}->{k[other]}")
            e.ex(str(want), "geti", o, h, key="get-" + o)
            e.ex(str(k[other]), "geti", other, h, key="get-" + other)
        elif o == "linger":
            v = rng.choice(["-", 0, 1, 2, 7, 100, 32767])
            e.ex("ok", "set", o, h, v)
            k = e.kernel(h)
            if (v == "-") == bool(k["lingeron"]) or (v != "-" and k["linger"] != v):
                e.fail("set-linger", f"set linger {v}: kernel has {k['lingeron']} {k['linger']}")
            e.ex("NONE" if v == "-" else str(v), "get", o, h)
        else:
            v = rng.random() < 0.5
            before = e.kernel(h)
            r = e.ask("set", o, h, "true" if v else "false")
            if r != "ok":
                t = socket.socket(socket.AF_INET, socket.SOCK_STREAM if ty == "s" else socket.SOCK_DGRAM)
                try:
                    t.setsockopt(socket.SOL_SOCKET, socket.SO_DEBUG, int(v))
                    e.fail("set-" + o, f"{r}")
                except PermissionError as x:
                    if o != "debug" or r != f"SYSERR {x.errno}":
                        e.fail("set-" + o, f"{r}")
                continue
            k = e.kernel(h)
            ch = {x for x in k if k[x] != before[x]} - {o}
            if bool(k[o]) != v or ch:
                e.fail("set-" + o, f"set {o} to {v}: kernel has {k[o]}; other options changed: {sorted(ch)}")
            e.ex("true" if v else "false", "get", o, h)
    for h, ty in ss:
        k = e.kernel(h)
        for o in BOOLS:
            if k[o] >= 0:
                e.ex("true" if k[o] else "false", "get", o, h)
        if k["type"] != (1 if ty == "s" else 2) or k["domain"] != 2:
            e.fail("socket-kind", str(k))
        e.ex("ok", "close", h)
    h = e.fresh()
    for af, ty, proto in [("INET", "STREAM", 6), ("INET", "DGRAM", 17), ("UNIX", "SEQPACKET", 0)]:
        e.ex("ok", "newp", h, af, ty, proto)
        k = e.kernel(h)
        if (k["domain"], k["type"], k["protocol"]) != ({"INET": 2, "UNIX": 1}[af], {"STREAM": 1, "DGRAM": 2, "SEQPACKET": 5}[ty], proto):
            e.fail("socket-kind", f"{af} {ty} {proto}: {k}")
        e.ex(ty, "type", h)
        e.ex("ok", "close", h)


def errors(e):
    rng = e.rng
    S = lambda x: f"SYSERR {x}"
    # a port nobody listens on
    t = socket.socket()
    t.bind(("127.0.0.1", 0))
    busy = t.getsockname()[1]
    h = e.fresh()
    for dom, ty in [("inet", "s"), ("inet", "d"), ("unix", "s"), ("unix", "d")]:
        e.ex("ok", "new", h, dom, ty)
        tests = [("peer", h)] + ([("recvV", h, 5), ("recvA", h, 5, 0, 5)] if ty == "s" else [])
        for q in tests:
            want = errno.ENOTCONN if not (dom == "unix" and q[0] != "peer") else errno.EINVAL
            e.ex(S(want), *q)
        if ty == "d":
            e.ex(S(errno.EOPNOTSUPP), "listen", h, 5)
            e.ex(S(errno.EOPNOTSUPP), "accept", h, "zz")
        else:
            e.ex(S(errno.EINVAL), "accept", h, "zz")
        e.ex("EXN Size", "recvV", h, "~1")
        if dom == "inet":
            e.ex(S(errno.EADDRINUSE) if ty == "s" else "ok", "bind", h, f"i:127.0.0.1:{busy}")
            if ty == "s":
                e.ex(S(errno.EADDRNOTAVAIL), "bind", h, "i:8.8.8.8:0")
                e.ex(S(errno.ECONNREFUSED), "connect", h, f"i:127.0.0.1:{busy}")
            e.ex(S(errno.EINVAL if ty == "s" else errno.EAFNOSUPPORT), "bind", h, "u:" + hx("p")) if False else None
        else:
            e.ex(S(errno.ENOENT), "connect", h, "u:" + hx("no-such-socket"))
            e.ex(S(errno.ENOENT), "bind", h, "u:" + hx("no-dir/sock"))
            open(os.path.join(e.d, "plain"), "w").close()
            e.ex(S(errno.ECONNREFUSED), "connect", h, "u:" + hx("plain"))
            e.ex(S(errno.EADDRINUSE), "bind", h, "u:" + hx("plain"))
        e.ex("ok", "close", h)
    # refused, seen through a non-blocking connect
    e.ex("ok", "new", h, "inet", "s")
    r = e.ask("connectNB", h, f"i:127.0.0.1:{busy}")
    if r == "false":
        e.ask("select", "-", h, "-", "5000")
        e.ex("true", "error", h)
        e.ex("false", "error", h)
    elif r != S(errno.ECONNREFUSED):
        e.fail("connectNB", f"connecting to a closed port: {r}")
    e.ex("ok", "closekeep", h)
    bad = [("name", h), ("peer", h), ("nread", h), ("type", h), ("error", h), ("get", "reuseaddr", h), ("set", "linger", h, 3),
           ("recvV", h, 3), ("sendV", h, "x:6161", 0, 2), ("bind", h, "any:0"), ("listen", h, 3), ("connect", h, f"i:127.0.0.1:{busy}"),
           ("shutdown", h, "b"), ("closekeep", h), ("accept", h, "zz"), ("atmark", h)]
    for q in bad:
        e.ex(S(errno.EBADF), *q, key="closed:" + q[0])
    t.close()
    if os.path.exists(os.path.join(e.d, "plain")):
        os.unlink(os.path.join(e.d, "plain"))


def selects(e):
    """readiness of several sockets at once"""
    rng = e.rng
    n = rng.randint(1, 5)
    prs = []
    for _ in range(n):
        a, b = e.fresh(), e.fresh()
        e.ex("ok", "pair", a, b, "s")
        prs.append([a, b, 0])
    for _ in range(6):
        p = rng.choice(prs)
        if rng.random() < 0.5:
            e.ex("3", "sendV", p[0], "x:616263", 0, 3)
            p[2] += 3
        elif p[2]:
            m = rng.randint(1, p[2])
            e.ask("recvV", p[1], m)
            p[2] -= m
        sub = [q for q in prs if rng.random() < 0.8]
        rng.shuffle(sub)
        wr = [q[rng.randrange(2)] for q in prs if rng.random() < 0.4]
        want = [q[1] for q in sub if q[2]]
        t = rng.choice([0, 40, 90])
        r = e.ask("select", ",".join(q[1] for q in sub) or "-", ",".join(wr) or "-", "-", t)
        w = r.split(";")
        if w[0] != ",".join(want) or w[1] != ",".join(wr) or w[2]:
            e.fail("select-set", f"readable {want}, writable {wr}; select says {r}")
        if not want and not wr and int(w[3]) < t:
            e.fail("select-timeout", f"select returned nothing after {w[3]} ms, timeout {t} ms")
        e.c.seen(f"select {len(sub)} {len(want)} {len(wr)} {t}")
    # a wait without limit ends when data arrives
    s1, s2 = socket.socketpair()
    for a, b, _ in prs:
        e.ex("ok", "close", a)
        e.ex("ok", "close", b)
    s1.close()
    s2.close()


def one(job):
    c, img, probe, name, seed, kw, n = job
    rng = random.Random(seed)
    e = E(c, img, probe, name, rng, **kw)
    try:
        free0 = e.ask("nofd")
        for i in range(n):
            k = rng.choice(["stream"] * 4 + ["dgram"] * 3 + ["addr", "opt", "err", "sel"]) if i >= 7 else ["addr", "opt", "err", "sel", "stream", "dgram", "stream"][i]
            if k == "stream":
                pump(e, *stream_pair(e))
            elif k == "dgram":
                dgrams(e)
            elif k == "addr":
                addresses(e)
            elif k == "opt":
                options(e)
            elif k == "err":
                errors(e)
            else:
                selects(e)
            e.done()
            e.ex(free0, "nofd", key="fd-leak:" + k)
            e.c.seen(f"episode {k}")
    except Bad:
        pass
    except (OSError, socket.timeout) as x:
        c.violation("peer:" + type(x).__name__, f"the peer's operation failed: {x!r}", {"session": name, "ops": e.p.hist[-12:]})
    finally:
        e.done()
        rc = e.p.close()
    if rc not in (0, None):
        c.violation("exit", f"session {name} ended with {rc}", {"ops": e.p.hist[-5:]})


def body():
    c = Check("C12", "distinct (operation, result shape, configuration) observations")
    c.build(("asan", "verif"))
    probe = c.scratch + "/probe"
    r = c.run(["gcc", "-O1", "-o", probe, HERE + "/probe.c"])
    if r.rc:
        die("probe does not compile: " + r.text)
    img = c.sml_heap("w", {"drv.sml": open(HERE + "/../../lib/drv.sml").read(), "main.sml": open(HERE + "/main.sml").read()}, [])
    if img is None:
        c.finish()
    rng = random.Random(c.seed)
    V = c.rt["verif"]
    cfg = [("prod", {}), ("prod", {}), ("small", dict(rtargs=["@SMLalloc=64k"])), ("asan", dict(rt=c.rt["asan"])),
           ("asan", dict(rt=c.rt["asan"], rtargs=["@SMLalloc=64k"])),
           ("verif", dict(rt=V, env={"VERIF_GC_PERIOD": "7"})), ("verif", dict(rt=V, env={"VERIF_GC_EVERY": "3"}))]
    jobs = []
    for k in range(c.n(1, 6)):
        for i, (nm, kw) in enumerate(cfg):
            jobs.append((c, img, probe, f"{nm}{i}-{k}", rng.getrandbits(32), kw, c.n(22, 60)))
    c.pmap(one, jobs)
    # the tables of names
    res = c.run_heap(img, ["/dev/stdin", "/dev/stdout"], input=b"aflist\nstlist\naf\tINET\naf\tUNIX\naf\tNOSUCH\n")
    ls = res.text.split("\n")
    c.check(len(ls) > 4 and "INET" in ls[0] and "UNIX" in ls[0] and all(x in ls[1] for x in ("STREAM", "DGRAM", "RAW", "SEQPACKET")) and
            ls[2:5] == ["INET", "UNIX", "NONE"], "tables", "tables of families and types", ls[:6])
    c.require(c.evals > 1500, f"only {c.evals} operations observed")
    c.finish(sessions=len(jobs), configurations=[x[0] for x in cfg])


main(body)
