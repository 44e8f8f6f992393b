"""C15: Concurrent ML.  Threads record what they do; the logs are judged against the semantics of events."""
import sys, os, random
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))


# --- event expressions ------------------------------------------------------------------------------
def gen(r, depth, ids, nch):
    """a random event expression: (text, tree)"""
    k = r.random()
    if depth == 0 or k < 0.12:
        w = r.randrange(10)
        if w < 2:
            n = r.randrange(100)
            return ("A", n)
        if w < 4:
            return ("C", r.randrange(nch))
        if w < 6:
            return ("S", r.randrange(nch))
        if w < 7:
            return ("T", r.randrange(100))
        return ("N",) if w < 8 else ("E",)
    if k < 0.55:
        return ("X", [gen(r, depth - 1, ids, nch) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))])
    ids[0] += 1
    return (r.choice("WWGGKKHR"), ids[0], gen(r, depth - 1, ids, nch))


def text(t):
    if t[0] == "X":
        return f"X {len(t[1])} " + " ".join(text(u) for u in t[1]) if t[1] else "X 0"
    if t[0] in "WGKHR":
        return f"{t[0]} {t[1]} {text(t[2])}"
    return " ".join(str(x) for x in t)


def leaves(t, path=()):
    if t[0] == "X":
        for u in t[1]:
            yield from leaves(u, path)
    elif t[0] in "WGKHR":
        yield from leaves(t[2], path + ((t[0], t[1]),))
    else:
        yield t, path


def forced(t, up=()):
    """(label, labels that must come before it) of every guard and withNack"""
    if t[0] == "X":
        for u in t[1]:
            yield from forced(u, up)
    elif t[0] in "WGKHR":
        me = ()
        if t[0] in "GK":
            yield t[0].lower() + str(t[1]), up
            me = (t[0].lower() + str(t[1]),)
        yield from forced(t[2], up + me)


def blocking(t, r):
    """the same expression with other alternatives in place of those always enabled"""
    if t[0] == "X":
        return ("X", [blocking(u, r) for u in t[1]])
    if t[0] in "WGKHR":
        return (t[0], t[1], blocking(t[2], r))
    return r.choice([("E",), ("T", t[1])]) if t[0] == "A" else t


def outcomes(t, nch, late):
    ls = list(leaves(t))
    if late:        # the partners come later than the synchronization, or than its timeouts, as a rule
        on = [x for x in ls if x[0][0] in ("ACS" if any(y[0][0] == "A" for y in ls) else "CST")]
    else:
        on = [x for x in ls if x[0][0] in "ACS"] or [x for x in ls if x[0][0] == "T"]
    allk = {p[1] for _, path in ls for p in path if p[0] == "K"} | {int(l[1:]) for l, _ in forced(t) if l[0] == "k"}
    for leaf, path in on:
        v, exn, log = {"A": leaf[1], "C": 300 + leaf[1], "S": 700 + leaf[1], "T": leaf[1]}[leaf[0]], None, []
        for kind, n in reversed(path):
            if kind == "W" and exn is None:
                log.append(f"w{n}")
                v += 1
            elif kind == "R" and exn is None:
                log.append(f"r{n}")
                exn = n
            elif kind == "H" and exn is not None:
                log.append(f"h{n}")
                v, exn = exn + 1000, None
        nacks = sorted(allk - {n for kind, n in path if kind == "K"})
        sent, got = [0] * nch, [0] * nch
        if leaf[0] == "C":
            sent[leaf[1]] = 1
        if leaf[0] == "S":
            got[leaf[1]] = 500 + leaf[1]
        yield (str(v) if exn is None else f"!{exn}", log, nacks, sent, got)


def judge_expr(t, nch, late, out):
    f = out.split(";")
    if len(f) != 5:
        return "no result"
    sp = lambda s: s.split(",") if s else []
    log = sp(f[1])
    fl = list(forced(t))
    k = len(fl)
    if sorted(log[:k]) != sorted(l for l, _ in fl):
        return f"guards evaluated: {log[:k]}, expected each of {sorted(l for l, _ in fl)} once, before any action"
    for l, up in fl:
        for u in up:
            if log.index(u) > log.index(l):
                return f"{l} evaluated before {u} around it"
    got = (f[0], log[k:], sorted(map(int, sp(f[2]))), list(map(int, sp(f[3]))), list(map(int, sp(f[4]))))
    os_ = list(outcomes(t, nch, late))
    return None if got in os_ else f"observed {got}, possible {os_[:6]}"


# --- histories -----------------------------------------------------------------------------------------
def judge_msgs(a, out, box):
    seed, np_, nc, nch, nm = a
    sent, recd = Counter(), Counter()
    order = {}
    for part in out.split(";"):
        who, wraps, items = part.split(":")
        l = [tuple(map(int, x.split("/"))) for x in items.split(",") if x]
        if who[0] == "P":
            sent.update(l)
            if [m for m, _ in l] != [int(who[1:]) * 1000000 + i for i in range(nm)]:
                return f"{who} did not complete its sends"
            if not box and int(wraps) != nm:
                return f"{who}: {wraps} actions for {nm} sends"
        else:
            recd.update(l)
            last = {}
            for m, ch in l:
                k = (m // 1000000, ch)
                if m <= last.get(k, -1):
                    return f"{who} received {m} after {last[k]} on channel {ch}"
                last[k] = m
    if sent != recd:
        return f"lost {list((sent - recd).items())[:3]}, duplicated or invented {list((recd - sent).items())[:3]}"
    return None


def judge(name, a, out, q=20000):
    if out.startswith(("EXN", "FAILED")) and name != "dead":
        return "the scenario failed: " + out[:200]
    if name in ("chans", "boxes"):
        return judge_msgs(a, out, name == "boxes")
    parts = out.split(";")
    if name == "ivars":
        seed, nt, rounds = a
        win = {}
        for p in parts:
            if p[0] == "P":
                w, l = p[1:].split(":")
                for k, x in enumerate(l.split(",")):
                    if x == str(k):
                        if k in win:
                            return f"two writes to variable {k}"
                        win[k] = int(w) * 1000 + k
                    elif x != f"x{k}":
                        return "bad log " + p
        if sorted(win) != list(range(rounds)):
            return "a variable was not written"
        for p in parts:
            if p[0] == "G" and p.split(":")[1] != ",".join(str(win[k]) for k in range(rounds)):
                return f"reader saw {p}, written {win}"
        return None if len(parts) == 2 * nt else "missing threads"
    if name == "mvars":
        seed, nt, k = a
        return None if out == f"{nt * k};yes;0;0;e,e,e" else f"expected {nt * k};yes;0;0;e,e,e"
    if name == "sleep":
        for p in parts:
            kind, d, el = map(int, p.split("/"))
            # a relative time counts from the scheduler's idea of the current time, which is read once in a time slice
            if el < d - (0 if kind in (1, 3) else q + 100000):
                return f"a wait of {d} us (kind {kind}) ended after {el} us"
            if el > d + 20000000:
                return f"a wait of {d} us (kind {kind}) ended only after {el} us"
        return None if len(parts) == a[1] else "missing threads"
    if name == "tree":
        seed, depth, width = a
        n = sum(width ** i for i in range(depth + 1))
        if parts[0] != "0":
            return f"{parts[0]} joins returned before the thread ended"
        return None if sorted(map(int, parts[1].split(","))) == list(range(n)) else "a thread ran not exactly once"
    if name == "ids":
        exp = sorted(f"{i}/0/{i + 1}/{'t' if i % 2 == 0 else 'f'}" for i in range(a[1]))
        return None if parts[0] == "distinct" and sorted(parts[1].split(",")) == exp else "thread identities or properties mixed up"
    if name == "barrier":
        vals, x = [], 0
        for _ in range(a[2]):
            if x == 364:
                vals += ["!364", "364"]
            else:
                x = 3 * x + 1
                vals += [str(x)] * 2
        for p in parts:
            k, l = p.split(":")
            if l.split(",") != vals[:2 * int(k)] + ["R"]:
                return f"a thread with {k} rounds saw {l}, expected {vals[:2 * int(k)] + ['R']}"
        return None if len(parts) == a[1] else "missing threads"
    if name == "multi":
        seed, ns, npo, nm = a
        if len(set(parts)) != 1 or len(parts) != npo + 1:
            return "ports saw different sequences"
        l = list(map(int, parts[0].split(",")))
        for s in range(ns):
            if [m for m in l if m // 1000000 == s] != [s * 1000000 + i for i in range(nm)]:
                return f"messages of sender {s} lost, repeated or out of order"
        return None if len(l) == ns * nm else "extra messages"
    if name == "rpc":
        seed, nc, k = a
        if parts[0] != str(nc * k):
            return f"server handled {parts[0]} of {nc * k} calls"
        st = []
        for c_, p in enumerate(parts[1:]):
            l = [tuple(map(int, x.split("/"))) for x in p.split(",")]
            if [(x, y) for x, y, _ in l] != [(c_ * 1000 + i, c_ * 1000 + i) for i in range(k)]:
                return "a call got another call's reply"
            if [s for _, _, s in l] != sorted(s for _, _, s in l):
                return "replies out of order"
            st += [s for _, _, s in l]
        return None if sorted(st) == list(range(nc * k)) else "a state was used twice"
    if name == "dead":
        return None if out.startswith("FAILED NORESULT") else "a deadlocked program did not end with failure"
    return "?"


def scenarios(r, n):
    for i in range(n):
        q = r.choice([500, 1000, 1500, 2000, 5000, 10000, 20000])
        s = r.randrange(1 << 20)
        name = r.choice(["chans", "chans", "chans", "boxes", "boxes", "ivars", "mvars", "sleep", "tree", "ids", "barrier", "barrier", "multi", "rpc", "dead"])
        a = {"chans": [s, r.randint(1, 8), r.randint(1, 8), r.randint(1, 4), r.choice([5, 30, 200, 600])],
             "boxes": [s, r.randint(1, 8), r.randint(1, 8), r.randint(1, 4), r.choice([5, 30, 200, 600])],
             "ivars": [s, r.randint(1, 8), r.choice([1, 20, 100])],
             "mvars": [s, r.randint(1, 10), r.choice([5, 50, 300])],
             "sleep": [s, r.randint(1, 20)],
             "tree": [s, r.randint(0, 4), r.randint(1, 4)],
             "ids": [s, r.randint(1, 40)],
             "barrier": [s, r.randint(1, 10), r.randint(0, 9)],
             "multi": [s, r.randint(1, 5), r.randint(1, 6), r.choice([3, 40, 150])],
             "rpc": [s, r.randint(1, 8), r.choice([3, 40, 150])],
             "dead": [s]}[name]
        yield name, q, a


def body():
    c = Check("C15", "an evaluation is one thread program run: its recorded log (messages, reads, waits, joins, barrier rounds, guards, nacks, actions) judged against the semantics of events; distinct by program and log")
    c.build(("asan", "verif", "heap"))
    src = open(f"{HERE}/main.sml").read()
    drv = open(f"{HERE}/../../lib/drv.sml").read()
    img = c.sml_heap("cml", {"drv.sml": drv, "main.sml": src}, ["$cml/cml.cm", "$cml/cml-lib.cm"])
    if not img:
        return
    r = random.Random(c.seed * 7919 + 15)
    nh, ne, odd, steps = 0, 0, 0, Counter()
    confs = [("std", None, (), {}), ("std2", None, ("@SMLalloc=32k",), {}), ("asan", c.rt["asan"], ("@SMLalloc=128k",), {}),
             ("verif", c.rt["verif"], ("@SMLalloc=256k",), {})]
    for name, rt, rtargs, env in confs:
        slow = name in ("asan", "verif")
        ops, items = [], []
        for nm, q, a in scenarios(r, c.n(160, 3000) // (3 if slow else 1)):
            ops.append(f"{nm}\t{q}\t" + "\t".join(map(str, a)))
            items.append((nm, q, a))
        for _ in range(c.n(240, 6000) // (3 if slow else 1)):
            while True:
                nch = r.randint(1, 3)
                t = gen(r, r.randint(1, 6), [0], nch)
                n = sum(1 for _ in leaves(t))
                if n <= 40 and any(x[0][0] in "ACST" for x in leaves(t)):
                    break
            q = r.choice([1000, 2000, 10000])
            late = int(r.random() < .5)
            if late and r.random() < .8:
                t2 = blocking(t, r)
                if any(x[0][0] in "CST" for x in leaves(t2)):
                    t = t2
            ops.append(f"expr\t{q}\t{text(t)}\t{nch}\t{late}")
            items.append(("expr", q, (t, nch, late)))
        z = list(zip(ops, items))
        r.shuffle(z)
        res = run_ops(c, img, name, [o for o, _ in z], rt=rt, rtargs=rtargs, env=env, timeout=400)
        if res is None:
            continue
        for (op, (nm, q, a)), out in zip(z, res):
            if nm == "expr":
                why = "the scenario failed: " + out[:200] if out.startswith(("EXN", "FAILED")) else judge_expr(*a, out)
                c.seen((text(a[0]), a[2], out))
                ne += 1
                if why is not None and odd < 3:
                    # the partners are given 5 ms to block and 25 ms to report; on a busy machine that can be too little, so ask again
                    again = run_ops(c, img, name, [op] * 3, rt=rt, rtargs=rtargs, env=env, timeout=400)
                    if again and not any(o.startswith(("EXN", "FAILED")) or judge_expr(*a, o) for o in again):
                        odd += 1
                        why = None
            else:
                try:
                    why = judge(nm, a, out, q)
                except (ValueError, IndexError) as e:
                    why = f"unreadable log ({e})"
                c.seen((nm, tuple(a), out))
                steps[nm] += out.count(",") + 1
                nh += 1
            c.check(why is None, nm, f"{nm}: {why}", {"operation": op, "runtime": name, "output": out[:3000]})
    c.require(nh >= c.n(150, 2000) and ne >= c.n(200, 4000), "too few histories judged")
    c.finish(histories=nh, event_expressions=ne, asked_again=odd, steps_by_kind=dict(steps))


main(body)
