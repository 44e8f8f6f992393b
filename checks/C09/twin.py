"""Twin oracle: executes the same op file with Python's os module (i.e. directly on the system calls) in a
second, initially identical tree."""
import os, sys, errno
def unhx(s): return b"" if s == "-" else bytes.fromhex(s)
def hx(b): return b.hex() or "-"
fds, dirs = {}, {}
OM = {"r": os.O_RDONLY, "w": os.O_WRONLY, "u": os.O_RDWR}
OF = {"a": os.O_APPEND, "x": os.O_EXCL, "t": os.O_TRUNC, "n": os.O_NONBLOCK, "s": os.O_SYNC}
AM = {"r": os.R_OK, "w": os.W_OK, "x": os.X_OK}
def fl(s):
    r = 0
    for c in s: r |= OF.get(c, 0)
    return r
def am(s):
    r = 0
    for c in s: r |= AM.get(c, 0)
    return r
def X(n): return "%X" % n
import stat as S
TY = {S.S_IFDIR: "d", S.S_IFCHR: "c", S.S_IFBLK: "b", S.S_IFREG: "r", S.S_IFIFO: "f", S.S_IFLNK: "l", S.S_IFSOCK: "s"}
BITS = 0o777 | 0o4000 | 0o2000
def st(s): return " ".join([TY[S.S_IFMT(s.st_mode)], X(s.st_mode & BITS), str(s.st_nlink), X(s.st_uid), X(s.st_gid), str(s.st_size)])
def sml(n): return str(n).replace("-", "~")
def tr(n): return sml(n // 1000 * 1000)     # Time.time has microsecond resolution
def full(s): return " ".join([st(s), X(s.st_ino), X(s.st_dev), tr(s.st_atime_ns), tr(s.st_mtime_ns), tr(s.st_ctime_ns)])
def ns(s): return int(s.replace("~", "-"))
def us(s): return ns(s) // 1000 * 1000
def B(b): return "true" if b else "false"
def ls(p): return "[" + ",".join(hx(n) for n in sorted(os.listdir(p))) + "]"
def real(p):
    f = os.open(p, os.O_PATH)
    try: return os.readlink(b"/proc/self/fd/%d" % f)
    finally: os.close(f)
class Skip(Exception): pass
def op(l):
    o = l[0]
    P = lambda i: unhx(l[i])
    if o == "@reset":
        for f in fds.values():
            try: os.close(f)
            except OSError: pass
        fds.clear(); dirs.clear(); os.umask(0o22); os.umask(0x12); os.chdir(unhx(l[1]).replace(b"/A/", b"/B/")); return "ok"
    if o == "open": fds[l[1]] = os.open(P(2), OM[l[3]] | fl(l[4])); return "ok"
    if o == "createf": fds[l[1]] = os.open(P(2), os.O_CREAT | OM[l[3]] | fl(l[4]), int(l[5], 16)); return "ok"
    if o == "creat": fds[l[1]] = os.open(P(2), os.O_CREAT | os.O_WRONLY | os.O_TRUNC, int(l[3], 16)); return "ok"
    if o in ("close", "write", "ftruncate", "fstat", "fchmod", "fchown", "fpathconf"):
        if l[1] not in fds: return "FAIL fd"
        f = fds[l[1]]
        if o == "close": del fds[l[1]]; os.close(f); return "ok"
        if o == "write": return str(os.write(f, P(2)))
        if o == "ftruncate": os.ftruncate(f, int(l[2])); return "ok"
        if o == "fstat": return st(os.fstat(f))
        if o == "fchmod": os.fchmod(f, int(l[2], 16)); return "ok"
        if o == "fchown": os.fchown(f, int(l[2], 16), int(l[3], 16)); return "ok"
        if o == "fpathconf": return pc(os.fpathconf, f, l[2])
    if o == "chown": os.chown(P(1), int(l[2], 16), int(l[3], 16)); return "ok"
    if o == "umask": return X(os.umask(int(l[1], 16)))
    if o == "link": os.link(P(1), P(2), follow_symlinks=False); return "ok"
    if o == "symlink": os.symlink(P(1), P(2)); return "ok"
    if o in ("rename", "orename"): os.rename(P(1), P(2)); return "ok"
    if o == "mkdir": os.mkdir(P(1), int(l[2], 16)); return "ok"
    if o == "omkdir": os.mkdir(P(1), 0o777); return "ok"
    if o == "mkfifo": os.mkfifo(P(1), int(l[2], 16)); return "ok"
    if o in ("unlink", "oremove"): os.unlink(P(1)); return "ok"
    if o == "rmdir": os.rmdir(P(1)); return "ok"
    if o == "readlink": return hx(os.readlink(P(1)))
    if o == "stat": return st(os.stat(P(1)))
    if o == "lstat": return st(os.lstat(P(1)))
    if o in ("fullstat", "fulllstat"): raise Skip()
    if o == "size": return str(os.stat(P(1)).st_size)
    if o == "isdir": return B(S.S_ISDIR(os.stat(P(1)).st_mode))
    if o == "islink": return B(S.S_ISLNK(os.lstat(P(1)).st_mode))
    if o in ("access", "oaccess"): return B(os.access(P(1), am(l[2])))
    if o == "chmod": os.chmod(P(1), int(l[2], 16)); return "ok"
    if o == "utime": os.utime(P(1), ns=(us(l[2]), us(l[3]))); return "ok"
    if o == "utimenow": os.utime(P(1)); return "ok"
    if o == "settime": os.utime(P(1), ns=(us(l[2]), us(l[2]))); return "ok"
    if o == "times": s = os.stat(P(1)); return tr(s.st_atime_ns) + " " + tr(s.st_mtime_ns)
    if o == "modtime": return tr(os.stat(P(1)).st_mtime_ns)
    if o in ("ls", "ols"): return ls(P(1))
    if o == "opendir":
        f = os.open(P(2), os.O_RDONLY | os.O_DIRECTORY | os.O_NONBLOCK); dirs[l[1]] = f; return "ok"
    if o in ("readdir", "rewindls", "closedir", "readclosed"):
        if l[1] not in dirs: return "FAIL dir"
        f = dirs[l[1]]
        if o == "readdir": return str(min(int(l[2]), len(os.listdir(f)))) if f is not None else "SYSERR -"
        if o == "rewindls": return "[" + ",".join(hx(n.encode("latin-1") if 0 else os.fsencode(n)) for n in sorted(os.listdir(f), key=os.fsencode)) + "]"
        if o == "closedir":
            if f is not None: os.close(f)
            dirs[l[1]] = None; return "ok"
        if o == "readclosed": return "SYSERR -" if f is None else "read"
    if o == "chdir": os.chdir(P(1)); return "ok"
    if o in ("getcwd", "ogetdir"): return hx(os.getcwdb())
    if o == "fullpath": return hx(real(P(1)))
    if o == "realpath":
        return hx(real(P(1)) if P(1).startswith(b"/") else (os.path.relpath(real(P(1)), real(b"."))))
    if o == "sameid":
        a, b = os.stat(P(1)), os.stat(P(2)); e = (a.st_dev, a.st_ino) == (b.st_dev, b.st_ino); return f"{B(e)} {B(e)} true"
    if o == "pathconf": return pc(os.pathconf, P(1), l[2])
    return "BADOP"
def pc(f, x, name):
    if "PC_" + name not in os.pathconf_names: raise OSError(errno.EINVAL, "")
    v = f(x, "PC_" + name)
    return "NONE" if v == -1 else "SOME " + X(v)
with open(sys.argv[1]) as i, open(sys.argv[2], "w") as o:
    for line in i:
        l = line.rstrip("\n").split("\t")
        try: r = op(l)
        except Skip: r = "?"
        except OSError as e: r = f"SYSERR {e.errno}"
        except ValueError as e: r = "VALUEERR " + str(e)
        o.write(r + "\n")
    o.write("@@END\n")
