import sys, os, pwd, grp, socket, errno, signal, random
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))
NAMES = """toobig acces again badf badmsg busy canceled child deadlk dom exist fault fbig inprogress intr inval io isdir loop mfile mlink msgsize
nametoolong nfile nodev noent noexec nolck nomem nospc nosys notdir notempty notsup notty nxio perm pipe range rofs spipe srch xdev""".split()
ERR = {n: getattr(errno, "E2BIG" if n == "toobig" else "E" + n.upper()) for n in NAMES}
BYNUM = {v: k for k, v in ERR.items()}
H = lambda s: hx(s)
HL = lambda l: ",".join(H(x) for x in l)


def rname(r, n=None):
    return "".join(r.choice("abcdefghijklmnopqrstuvwxyz0123456789-_.\xe9") for _ in range(n or r.choice([1, 3, 7, 8, 9, 15, 16, 17, 31, 40, 250])))


def gen(r, big):
    """A random set of databases."""
    db = {k: [] for k in ("pw", "gr", "host", "serv", "prot", "net")}
    ids = lambda: r.choice([0, 1, 1000, 65534, 65536, 2**31 - 1, 2**31, 2**32 - 2, r.randrange(2**32 - 1)])
    some = lambda: [rname(r) for _ in range(r.choice([0, 0, 1, 2, 5, 30]))]
    ip = lambda: [r.choice([0, 1, 10, 127, 128, 192, 255, r.randrange(256)]) for _ in range(4)]
    for _ in range(12):
        db["pw"].append((rname(r), ids(), ids(), "/" + rname(r, r.choice([1, 6, 7, 8, 100, 900])), r.choice(["", "/bin/sh", rname(r, 300)])))
        db["gr"].append((rname(r), ids(), some() if r.random() < .6 else [rname(r, r.randint(1, 12)) for _ in range(r.choice(big))]))
        db["host"].append((rname(r), some(), [ip() for _ in range(r.choice([1, 1, 2, 8, 35]))] if r.random() < .8 else [ip() for _ in range(r.choice([1, 60, 120]))]))
        db["serv"].append((rname(r), some(), r.choice([0, 1, 7, 80, 256, 443, 513, 32768, 65280, 65535, r.randrange(65536)]), r.choice(["tcp", "udp", "sctp", rname(r, 20)])))
        db["prot"].append((rname(r), some(), r.choice([0, 1, 6, 17, 255, 256, r.randrange(256)])))
        db["net"].append((rname(r), some(), ip()))
    # several protocols for one service, several entries for one number
    n, a, p, _ = db["serv"][0]
    db["serv"] += [(n, a, p, "udp"), (n, ["other"], 12345, "xdp"), ("zz", [n], p, "tcp")]
    return db


def dump(db):
    o = []
    for n, u, g, d, s in db["pw"]:
        o.append(f"pw\t{H(n)}\t{u}\t{g}\t{H(d)}\t{H(s)}")
    for n, g, m in db["gr"]:
        o.append(f"gr\t{H(n)}\t{g}\t{HL(m)}")
    for n, a, ips in db["host"]:
        o.append(f"host\t{H(n)}\t{HL(a)}\t{','.join(bytes(x).hex() for x in ips)}")
    for n, a, p, q in db["serv"]:
        o.append(f"serv\t{H(n)}\t{HL(a)}\t{p}\t{H(q)}")
    for n, a, p in db["prot"]:
        o.append(f"prot\t{H(n)}\t{HL(a)}\t{p}")
    for n, a, x in db["net"]:
        o.append(f"net\t{H(n)}\t{HL(a)}\t{int.from_bytes(bytes(x), 'big')}")
    return "\n".join(o) + "\n"


dot = lambda x: ".".join(map(str, x))
NOTFOUND = "not found"


def first(l, f, show, none):
    for e in l:
        if f(e):
            return show(e)
    return none


def queries(r, db, n, missing=True):
    spw = lambda e: f"{H(e[0])} {e[1]} {e[2]} {H(e[3])} {H(e[4])}"
    sgr = lambda e: f"{H(e[0])} {e[1]} {HL(e[2])}"
    sho = lambda e: f"SOME {H(e[0])} {HL(e[1])} INET {','.join(map(dot, e[2]))} {dot(e[2][0])}"
    sse = lambda e: f"SOME {H(e[0])} {HL(e[1])} {e[2]} {H(e[3])}"
    spr = lambda e: f"SOME {H(e[0])} {HL(e[1])} {e[2]}"
    sne = lambda e: f"SOME {H(e[0])} {HL(e[1])} INET {dot(e[2])}"
    out = []
    for _ in range(n):
        k = r.randrange(12 if missing else 2)
        miss = missing and r.random() < .2
        pick = lambda kind, i: r.choice(db[kind])[i]
        if k == 0:
            x = rname(r, 5) if miss else pick("pw", 0)
            out.append((f"pwnam\t{H(x)}", first(db["pw"], lambda e: e[0] == x, spw, NOTFOUND)))
            u = r.randrange(2**32 - 1) if miss else pick("pw", 1)
            out.append((f"pwuid\t{u}", first(db["pw"], lambda e: e[1] == u, spw, NOTFOUND)))
        elif k == 1:
            x = rname(r, 5) if miss else pick("gr", 0)
            out.append((f"grnam\t{H(x)}", first(db["gr"], lambda e: e[0] == x, sgr, NOTFOUND)))
            u = r.randrange(2**32 - 1) if miss else pick("gr", 1)
            out.append((f"grgid\t{u}", first(db["gr"], lambda e: e[1] == u, sgr, NOTFOUND)))
        elif k in (2, 3):
            e = r.choice(db["host"])
            x = rname(r, 5) if miss else r.choice([e[0]] + e[1])
            out.append((f"hostby\t{H(x)}", first(db["host"], lambda e: x == e[0] or x in e[1], sho, "NONE")))
            a = r.choice(e[2])
            out.append((f"hostaddr\t{dot(a)}", first(db["host"], lambda e: a in e[2], sho, "NONE")))
        elif k in (4, 5, 6):
            e = r.choice(db["serv"])
            x = rname(r, 5) if miss else r.choice([e[0]] + e[1])
            p = r.choice([None, e[3], "tcp", "nope"])
            out.append((f"servby\t{H(x)}\t{H(p) if p else '-'}", first(db["serv"], lambda e: (x == e[0] or x in e[1]) and p in (None, e[3]), sse, "NONE")))
            o = r.randrange(65536) if miss else e[2]
            out.append((f"servport\t{o}\t{H(p) if p else '-'}", first(db["serv"], lambda e: e[2] == o and p in (None, e[3]), sse, "NONE")))
        elif k in (7, 8):
            e = r.choice(db["prot"])
            x = rname(r, 5) if miss else r.choice([e[0]] + e[1])
            out.append((f"protby\t{H(x)}", first(db["prot"], lambda e: x == e[0] or x in e[1], spr, "NONE")))
            o = r.randrange(1000) if miss else e[2]
            out.append((f"protnum\t{o}", first(db["prot"], lambda e: e[2] == o, spr, "NONE")))
        elif k in (9, 10):
            e = r.choice(db["net"])
            x = rname(r, 5) if miss else r.choice([e[0]] + e[1])
            out.append((f"netby\t{H(x)}", first(db["net"], lambda e: x == e[0] or x in e[1], sne, "NONE")))
            a = e[2]
            out.append((f"netaddr\t{dot(a)}", first(db["net"], lambda e: a == e[2], sne, "NONE")))
        else:
            g = r.sample(db["gr"], 2)
            first_of = lambda n: next(e for e in db["gr"] if e[0] == n)
            for e in g:
                out.append((f"grkeep\t{H(e[0])}", str(len(first_of(e[0])[2]))))
            out.append(("kept", ";".join(HL(first_of(e[0])[2]) for e in reversed(g))))
    return out


def body():
    c = Check("C17", "an evaluation is one lookup in a user, group, host, service, protocol or network database, or of an error code or "
              "system constant, compared with the database served to the C library or the operating system's own tables; distinct = distinct queries")
    c.build(variants=("asan", "verif"))
    img = c.sml_heap("wl", {"main.sml": open(HERE + "/main.sml").read(), "drv.sml": open(VERIF + "/lib/drv.sml").read()}, ["$/smlnj-lib.cm"])
    if img is None:
        c.finish()
    shim = c.scratch + "/shim.so"
    r = c.run(["gcc", "-O1", "-shared", "-fPIC", "-o", shim, HERE + "/shim.c"])
    c.require(os.path.exists(shim), "shim: " + r.text[-500:])
    RTS = [(None, []), (None, ["@SMLalloc=128k"]), ("asan", ["@SMLalloc=128k"]), ("verif", ["@SMLalloc=256k"])]

    def compare(tag, pairs, got):
        if got is None:
            return
        for (q, want), a in zip(pairs, got):
            if want == NOTFOUND:
                ok = a.startswith("SysErr ")
            else:
                ok = a == want
            c.seen(q)
            c.check(ok, tag + ":" + q.split("\t")[0], f"{q[:200]!r}: {a[:300]}, expected {want[:300]}", {"query": q[:500], "got": a[:1500], "expected": want[:1500]})

    # ---- arbitrary databases behind the C library's interface
    def served(k):
        rg = random.Random(c.seed * 100 + k)
        rtc = RTS[k % len(RTS)]
        db = gen(rg, [0, 1, 3, 300, 5000] if rtc[0] is None else [0, 1, 3, 300, 1500])
        f = c.write(f"{c.scratch}/db{k}", dump(db))
        qs = queries(rg, db, c.n(150, 800))
        host = rname(rg, rg.choice([1, 8, 30, 63, 64])).replace("\xe9", "e")
        qs.append(("hostname", H(host)))
        env = {"LD_PRELOAD": shim, "VERIF_DB": f, "VERIF_HOST": host, "VERIF_GC_PERIOD": "60"}
        rt = c.rt[rtc[0]] if rtc[0] else None
        if rtc[0] == "asan":
            env["ASAN_OPTIONS"] = rt.env("")["ASAN_OPTIONS"] + ":verify_asan_link_order=0"
        got = run_ops(c, img, f"db{k}", [q for q, _ in qs], shards=1, rt=rt, rtargs=rtc[1], env=env)
        compare("served", qs, got)
    c.pmap(served, range(c.n(16, 100)))

    # ---- the operating system's own databases
    qs = []
    for e in pwd.getpwall()[:60]:
        s = f"{H(e.pw_name)} {e.pw_uid} {e.pw_gid} {H(e.pw_dir)} {H(e.pw_shell)}"
        qs.append((f"pwnam\t{H(e.pw_name)}", s))
        f = pwd.getpwuid(e.pw_uid)
        qs.append((f"pwuid\t{e.pw_uid}", f"{H(f.pw_name)} {f.pw_uid} {f.pw_gid} {H(f.pw_dir)} {H(f.pw_shell)}"))
    for e in grp.getgrall()[:60]:
        qs.append((f"grnam\t{H(e.gr_name)}", f"{H(e.gr_name)} {e.gr_gid} {HL(e.gr_mem)}"))
        f = grp.getgrgid(e.gr_gid)
        qs.append((f"grgid\t{e.gr_gid}", f"{H(f.gr_name)} {f.gr_gid} {HL(f.gr_mem)}"))
    qs += [("pwnam\t" + H("no-such-user"), NOTFOUND), ("grnam\t" + H("no-such-group"), NOTFOUND), ("pwuid\t987654321", NOTFOUND), ("grgid\t987654321", NOTFOUND)]
    qs.append(("hostname", H(socket.gethostname())))
    compare("system", qs, run_ops(c, img, "system", [q for q, _ in qs], shards=2))
    names = ["http", "ssh", "domain", "smtp", "telnet", "ftp", "https", "ntp", "snmp", "nope"]
    lines, wants = [], []
    for n in names:
        for p in ("tcp", "udp"):
            try:
                port = socket.getservbyname(n, p)
            except OSError:
                port = None
            lines.append(f"servby\t{H(n)}\t{H(p)}")
            wants.append(port)
    for l, w, g in zip(lines, wants, run_ops(c, img, "serv", lines, shards=1) or []):
        c.seen(l)
        c.check((g == "NONE") == (w is None) and (w is None or g.split(" ")[3] == str(w)), "system:serv", f"{l!r}: {g}, port {w}", {"query": l})
    lines, wants = [], []
    for o in [7, 22, 53, 80, 443, 123, 25, 514, 60001]:
        for p in ("tcp", "udp"):
            try:
                n = socket.getservbyport(o, p)
            except OSError:
                n = None
            lines.append(f"servport\t{o}\t{H(p)}")
            wants.append(n)
    for l, w, g in zip(lines, wants, run_ops(c, img, "port", lines, shards=1) or []):
        c.seen(l)
        c.check((g == "NONE") == (w is None) and (w is None or g.split(" ")[1] == H(w)), "system:serv", f"{l!r}: {g}, name {w}", {"query": l})
    lines = ["hostby\t" + H("localhost"), "protby\t" + H("tcp"), "protby\t" + H("udp"), "protnum\t1", "netaddr\t127.0.0.0"]
    got = run_ops(c, img, "misc", lines, shards=1)
    if got:
        c.check("127.0.0.1" in got[0], "system:host", f"localhost: {got[0]}", {})
        try:
            c.check(got[1].startswith("SOME ") and got[1].endswith(f" {socket.getprotobyname('tcp')}"), "system:prot", f"tcp: {got[1]}", {})
            c.check(got[2].startswith("SOME ") and got[2].endswith(f" {socket.getprotobyname('udp')}"), "system:prot", f"udp: {got[2]}", {})
        except OSError:
            pass

    # ---- written forms of addresses
    rg, qs = random.Random(c.seed), []
    num = lambda v: rg.choice([str(v), hex(v), "0X%X" % v, "0%o" % v])
    for _ in range(c.n(300, 3000)):
        x = rg.choice([0, 1, 2**32 - 1, 2**31, 0x7f000001, rg.randrange(2**32)])
        b = list(x.to_bytes(4, "big"))
        k = rg.randint(1, 4)
        t = ".".join([num(v) for v in b[:k - 1]] + [num(int.from_bytes(bytes(b[k - 1:]), "big"))])
        qs.append((f"inaddr\t{H(t)}", "SOME " + dot(b)))
        qs.append((f"netscan\t{H(t)}", "SOME " + dot(b)))
    compare("written", qs, run_ops(c, img, "written", [q for q, _ in qs]))

    # ---- error codes and constants
    qs = []
    for n in list(range(0, 140)) + [200, 9999, 2**31 - 1]:
        m = os.strerror(n)
        qs.append((f"err\t{n}", f"{H(m)} {BYNUM.get(n, '<UNKNOWN>')} {H(m)} {BYNUM.get(n, '<UNKNOWN>')} {n}"))
    for n in NAMES + ["", "nope", "ACCES", "acce", "access"]:
        w = f"SOME {ERR[n]}" if n in ERR else "NONE"
        qs.append((f"syserr\t{H(n)}", f"{w} {w}"))
    qs.append(("errconsts", " ".join(str(ERR[n]) for n in NAMES)))
    qs.append(("sigs", " ".join(str(int(getattr(signal, "SIG" + n))) for n in "ABRT ALRM BUS CHLD CONT FPE HUP ILL INT KILL PIPE QUIT SEGV STOP TERM TSTP TTIN TTOU USR1 USR2".split())))
    for rtc in RTS:
        compare("errors", qs, run_ops(c, img, "errors%s" % RTS.index(rtc), [q for q, _ in qs], shards=1, rt=c.rt[rtc[0]] if rtc[0] else None, rtargs=rtc[1], env={"VERIF_GC_PERIOD": "60"}))
    c.sample({"databases": c.n(16, 100), "error codes": len(qs)})
    c.require(c.evals > 2000, "too few lookups")
    c.finish()


main(body)
