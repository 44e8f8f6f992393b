"""Twin oracle for the descriptor-level operations: the same ops, directly on the system calls."""
import os, sys, errno, fcntl, struct
def unhx(s): return b"" if s == "-" else bytes.fromhex(s)
def hx(b): return b.hex() or "-"
fds = {}
OM = {"r": os.O_RDONLY, "w": os.O_WRONLY, "u": os.O_RDWR}
OF = {"a": os.O_APPEND, "x": os.O_EXCL, "t": os.O_TRUNC, "n": os.O_NONBLOCK, "s": os.O_SYNC}
WH = {"s": 0, "c": 1, "e": 2}
LT = {"r": fcntl.F_RDLCK, "w": fcntl.F_WRLCK, "u": fcntl.F_UNLCK}
FMT = "hhqqi4x"
def dig(v):
    h = 2166136261
    for b in v: h = (h ^ b) * 16777619 & 0xffffffff
    return "%d:%X" % (len(v), h)
def show(v): return hx(v) if len(v) <= 64 else dig(v)
def pat(n, k): return bytes((i * 7 + k + i // 251) & 255 for i in range(n))
def fill(n): return bytearray((i * 3 + 1) & 255 for i in range(n))
def num(s): return int(s.replace("~", "-"))
def sml(n): return str(n).replace("-", "~")
def B(b): return "true" if b else "false"
def fl(s):
    r = 0
    for c in s: r |= OF[c]
    return r
class NoFD(Exception): pass
def op(l):
    o = l[0]
    def fd(i):
        if l[i] not in fds: raise NoFD()
        return fds[l[i]]
    if o == "@reset":
        for k, f in list(fds.items()):
            if k != "stdin":
                try: os.close(f)
                except OSError: pass
        fds.clear(); fds["stdin"] = 0
        os.chdir(unhx(l[1]).replace(b"/A/", b"/B/")); return "ok"
    if o == "open": fds[l[1]] = os.open(unhx(l[2]), OM[l[3]] | os.O_CREAT | fl(l[4]), 0o644); os.set_inheritable(fds[l[1]], True); return "ok"
    if o == "pipe":
        a, b = os.pipe(); fds[l[1]], fds[l[2]] = a, b
        os.set_blocking(a, False); os.set_blocking(b, False)
        for x in (a, b): os.set_inheritable(x, True)
        return "ok"
    if o == "bpipe":
        fds[l[1]], fds[l[2]] = os.pipe(); return "ok"
    if o == "close": os.close(fd(1)); return "ok"
    if o == "dup": fds[l[2]] = fcntl.fcntl(fd(1), fcntl.F_DUPFD, 0); return "ok"
    if o == "dup2": os.dup2(fd(1), fd(2)); return "ok"
    if o == "dup2w": os.dup2(fd(1), int(l[3], 16)); fds[l[2]] = int(l[3], 16); return "ok"
    if o == "dupfd": fds[l[2]] = fcntl.fcntl(fd(1), fcntl.F_DUPFD, int(l[3], 16)); return "%X" % fds[l[2]]
    if o == "readv": f = fd(1); return show(os.read(f, num(l[2]))) if num(l[2]) else "-"
    if o == "reada":
        a = fill(num(l[2])); i, n = num(l[3]), num(l[4])
        k = os.readv(fd(1), [memoryview(a)[i:i + n]])
        return f"{k} {show(bytes(a))}"
    if o in ("writev", "writea"):
        v = pat(num(l[2]), num(l[3])); i, m = num(l[4]), num(l[5])
        return str(os.write(fd(1), v[i:i + m]))
    if o == "lseek": return sml(os.lseek(fd(1), num(l[2]), WH[l[3]]))
    if o == "fsync": os.fsync(fd(1)); return "ok"
    if o == "ftruncate": os.ftruncate(fd(1), num(l[2])); return "ok"
    if o == "fsize": return str(os.fstat(fd(1)).st_size)
    if o == "getfd": return B(fcntl.fcntl(fd(1), fcntl.F_GETFD) & fcntl.FD_CLOEXEC)
    if o == "setfd": fcntl.fcntl(fd(1), fcntl.F_SETFD, fcntl.FD_CLOEXEC if l[2] == "1" else 0); return "ok"
    if o == "getfl":
        f = fcntl.fcntl(fd(1), fcntl.F_GETFL)
        return "".join(n for n in "ans" if f & OF[n] == OF[n]) + "/" + {0: "r", 1: "w", 2: "u"}[f & 3]
    if o == "setfl": fcntl.fcntl(fd(1), fcntl.F_SETFL, fl(l[2])); return "ok"
    if o in ("getlk", "setlk", "setlkw"):
        a = struct.pack(FMT, LT[l[2]], WH[l[3]], num(l[4]), num(l[5]), 0)
        r = fcntl.fcntl(fd(1), {"getlk": fcntl.F_GETLK, "setlk": fcntl.F_SETLK, "setlkw": fcntl.F_SETLKW}[o], a)
        if o != "getlk": return "ok"
        t, w, s, n, p = struct.unpack(FMT, r)
        return " ".join([{0: "r", 1: "w", 2: "u"}[t], "sce"[w], sml(s), sml(n), "%X" % p])
    if o == "isreg":
        import stat; return B(stat.S_ISREG(os.fstat(fd(1)).st_mode))
    if o == "kind":
        import stat; m = os.fstat(fd(1)).st_mode
        return "file" if stat.S_ISREG(m) else "dir" if stat.S_ISDIR(m) else "pipe" if stat.S_ISFIFO(m) else "device" if stat.S_ISCHR(m) else "socket" if stat.S_ISSOCK(m) else "other"
    if o == "spair":
        import socket
        for h, x in zip(l[1:], socket.socketpair(socket.AF_UNIX, socket.SOCK_STREAM)):
            fds[h] = x.detach(); os.set_blocking(fds[h], False); os.set_inheritable(fds[h], True)
        return "ok"
    if o == "poll":
        import select
        hs, fg = [x for x in l[1].split(",") if x], [x for x in l[2].split(",") if x]
        for h in hs:
            if h not in fds: raise NoFD()
        if l[3] != "-" and num(l[3]) < 0: raise OSError(errno.EINVAL, "")
        pick = lambda ch: [fds[h] for h, f in zip(hs, fg) if ch in f]
        if any(fds[h] >= 1024 for h in hs): raise OSError(errno.EINVAL, "")
        a = select.select(pick("r"), pick("w"), pick("p"), None if l[3] == "-" else num(l[3]) / 1e6)
        out = []
        for h, f in zip(hs, fg):
            r = "".join(ch for ch, y in zip("rwp", a) if ch in f and fds[h] in y)
            if r: out.append("%X%s" % (fds[h], r))
        return ",".join(out)
    if o == "system": return B(os.system(unhx(l[1]).replace(b"/A/", b"/B/").decode()) == 0)
    return "BADOP"
if __name__ == "__main__":
    with open(sys.argv[1]) as i, open(sys.argv[2], "w") as o:
        for line in i:
            l = line.rstrip("\n").split("\t")
            try: r = op(l)
            except NoFD: r = "FAIL fd"
            except OSError as e: r = f"SYSERR {e.errno}"
            o.write(r + "\n"); o.flush()
        o.write("@@END\n")
