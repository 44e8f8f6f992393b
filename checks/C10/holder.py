"""Takes record locks: holder.py 'file,file' 'type,start,len;...' [release-after-seconds time-file]; then waits."""
import fcntl, os, struct, sys, time
fs = []
for p in sys.argv[1].split(","):
    f = os.open(p, os.O_RDWR)
    fs.append(f)
    for x in sys.argv[2].split(";"):
        t, s, n = x.split(",")
        fcntl.fcntl(f, fcntl.F_SETLK, struct.pack("hhqqi4x", {"r": 0, "w": 1}[t], 0, int(s), int(n), 0))
print("k", flush=True)
if len(sys.argv) > 3:
    time.sleep(float(sys.argv[3]))
    open(sys.argv[4], "w").write(str(time.time_ns() // 1000))
else:
    sys.stdin.read()
