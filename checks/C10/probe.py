"""Reports, from another process, the record locks held on a file."""
import fcntl, os, struct, sys
FMT = "hhqqi4x"
f = os.open(sys.argv[1], os.O_RDWR)
out = []
for s, n in ((0, 1), (0, 0), (5, 10), (100, 1), (99, 1), (200, 50), (2**31, 1), (2**32 + 10, 5), (2**40, 0)):
    for t in (fcntl.F_RDLCK, fcntl.F_WRLCK):
        r = struct.unpack(FMT, fcntl.fcntl(f, fcntl.F_GETLK, struct.pack(FMT, t, 0, s, n, 0)))
        out.append(str(r[:4] if r[0] != fcntl.F_UNLCK else "free"))
open(sys.argv[2], "a").write("\n".join(out) + "\n--\n")
