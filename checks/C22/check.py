import sys, os, math
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
from vlib import *
HERE = os.path.dirname(os.path.abspath(__file__))

MAPS = ["BM", "RM", "SM", "LM", "IBM", "ILM", "IRM", "WRM", "ABM", "ARM"]
SETS = ["BS", "RS", "SS", "LS", "IBS", "ILS", "IRS", "WRS", "ABS", "ARS"]
UNORD = {"ABM", "ARM", "ABS", "ARS"}


def cmod(a, b):  # SML mod with positive b == python mod
    return a % b


def p2(a, b):
    return (a * 7 + b * 3) % 1009


def i(n):
    return ("~" + str(-n)) if n < 0 else str(n)


def L(xs):
    return "[" + ",".join(xs) + "]"


def mrg(m, q, x, y):
    if x is None and y is None:
        return -1
    if y is None:
        return (x + q) % 1009 if m % 2 == 0 else None
    if x is None:
        return (y * 5 + q) % 1009 if m // 2 % 2 == 0 else None
    return None if (x + y + q) % 3 == m % 3 else (p2(x, y) + q) % 1009


class MapModel:
    def __init__(s):
        s.r = [dict() for _ in range(8)]

    def show(s, d, m):
        s.r[d] = m
        return f"n={len(m)} " + L([f"{i(k)}:{i(m[k])}" for k in sorted(m)])

    def step(s, o):
        n, a = o[0], [x if isinstance(x, int) else x for x in o[1:]]
        r = s.r
        ks = lambda m: sorted(m)
        if n == "empty": return s.show(a[0], {})
        if n == "singleton": return s.show(a[0], {a[1]: a[2]})
        if n in ("insert", "insert'"): m = dict(r[a[1]]); m[a[2]] = a[3]; return s.show(a[0], m)
        if n == "insertWith":
            m = dict(r[a[1]]); m[a[2]] = p2(m[a[2]], a[3]) if a[2] in m else a[3]; return s.show(a[0], m)
        if n == "insertWithi":
            m = dict(r[a[1]]); m[a[2]] = (a[2] + p2(m[a[2]], a[3])) % 1009 if a[2] in m else a[3]; return s.show(a[0], m)
        if n == "find": return f"SOME {i(r[a[0]][a[1]])}" if a[1] in r[a[0]] else "NONE"
        if n == "lookup": return i(r[a[0]][a[1]]) if a[1] in r[a[0]] else "EXN NotFound"
        if n == "inDomain": return "true" if a[1] in r[a[0]] else "false"
        if n in ("findAndRemove", "remove"):
            m = dict(r[a[1]])
            if a[2] not in m: return "NONE" if n == "findAndRemove" else "EXN NotFound"
            v = m.pop(a[2]); return i(v) + " " + s.show(a[0], m)
        if n == "first": m = r[a[0]]; return f"SOME {i(m[min(m)])}" if m else "NONE"
        if n == "firsti": m = r[a[0]]; return f"SOME {i(min(m))}:{i(m[min(m)])}" if m else "NONE"
        if n == "isEmpty": return "true" if not r[a[0]] else "false"
        if n == "numItems": return str(len(r[a[0]]))
        if n in ("listItems", "app"): m = r[a[0]]; return L([i(m[k]) for k in ks(m)])
        if n in ("listItemsi", "appi"): m = r[a[0]]; return L([f"{i(k)}:{i(m[k])}" for k in ks(m)])
        if n == "listKeys": return L([i(k) for k in ks(r[a[0]])])
        if n == "wf": return "true"
        if n in ("unionWith", "unionWithi"):
            x, y = r[a[1]], r[a[2]]; m = {}
            for k in set(x) | set(y):
                if k in x and k in y:
                    v = p2(x[k], y[k]); m[k] = v if n == "unionWith" else (k + v) % 1009
                else: m[k] = x.get(k, y.get(k))
            return s.show(a[0], m)
        if n in ("intersectWith", "intersectWithi"):
            x, y = r[a[1]], r[a[2]]
            return s.show(a[0], {k: (p2(x[k], y[k]) if n == "intersectWith" else (k + p2(x[k], y[k])) % 1009)
                                 for k in set(x) & set(y)})
        if n in ("mergeWith", "mergeWithi"):
            x, y = r[a[1]], r[a[2]]; m = {}
            for k in set(x) | set(y):
                v = mrg(a[3], k if n == "mergeWithi" else 0, x.get(k), y.get(k))
                if v is not None: m[k] = v
            return s.show(a[0], m)
        if n == "equiv":
            x, y = r[a[0]], r[a[1]]
            return "true" if set(x) == set(y) and all(x[k] % 5 == y[k] % 5 for k in x) else "false"
        if n == "extends":
            x, y = r[a[0]], r[a[1]]
            # SIGNATURE: rngEx(g x, f x) in the comment; see ext flag
            return "true" if set(y) <= set(x) and all(s.ext(x[k], y[k]) for k in y) else "false"
        if n == "collate":
            x = [(k, r[a[0]][k]) for k in ks(r[a[0]])]; y = [(k, r[a[1]][k]) for k in ks(r[a[1]])]
            return "LESS" if x < y else "GREATER" if x > y else "EQUAL"
        if n in ("map", "mapi"):
            return s.show(a[0], {k: (v * 31 + (7 if n == "map" else k)) % 1009 for k, v in r[a[1]].items()})
        if n in ("foldl", "foldli", "foldr", "foldri"):
            m = r[a[0]]; acc = 17
            for k in (ks(m) if n.startswith("foldl") else ks(m)[::-1]):
                acc = (acc * 31 + m[k] + (7 * k if n[-1] == "i" else 0)) % 1000003
            return str(acc)
        if n == "filter": return s.show(a[0], {k: v for k, v in r[a[1]].items() if v % a[2] == 0})
        if n == "filteri": return s.show(a[0], {k: v for k, v in r[a[1]].items() if (k + v) % a[2] != 0})
        if n == "mapPartial": return s.show(a[0], {k: v + 1 for k, v in r[a[1]].items() if v % a[2] != 0})
        if n == "mapPartiali": return s.show(a[0], {k: v + k for k, v in r[a[1]].items() if (k + v) % a[2] == 0})
        if n in ("exists", "existsi", "all", "alli"):
            m = r[a[0]]; vis = []; ex = n.startswith("ex"); ind = n[-1] == "i"; res = not ex
            for k in ks(m):
                vis.append(f"{i(k)}:{i(m[k])}" if ind else i(m[k]))
                hit = ((k if ind else 0) + m[k]) % a[1] == 0
                if hit:
                    res = ex
                    break
            return ("true" if res else "false") + L(vis)
        if n == "bulk":
            m = {}
            for j in range(a[1]): m[j * a[2] % a[3]] = j % 1009
            s.r[a[0]] = m; return f"n={len(m)}"
        if n == "bulkdel":
            m = dict(r[a[1]])
            for j in range(a[2]): m.pop(j * a[3] % a[4], None)
            s.r[a[0]] = m; return f"n={len(m)}"
        raise KeyError(n)

    def ext(s, fx, gx):
        return fx % 5 <= gx % 5


class SetModel:
    def __init__(s):
        s.r = [frozenset() for _ in range(8)]

    def show(s, d, m):
        s.r[d] = frozenset(m)
        return f"n={len(m)} " + L([i(k) for k in sorted(m)])

    def step(s, o):
        n, a, r = o[0], o[1:], s.r
        B = lambda b: "true" if b else "false"
        if n == "empty": return s.show(a[0], set())
        if n == "singleton": return s.show(a[0], {a[1]})
        if n == "fromList": return s.show(a[0], set(a[1]))
        if n in ("add", "add'"): return s.show(a[0], r[a[1]] | {a[2]})
        if n == "addList": return s.show(a[0], r[a[1]] | set(a[2]))
        if n in ("subtract", "subtract'"): return s.show(a[0], r[a[1]] - {a[2]})
        if n == "subtractList": return s.show(a[0], r[a[1]] - set(a[2]))
        if n == "delete": return s.show(a[0], r[a[1]] - {a[2]}) if a[2] in r[a[1]] else "EXN NotFound"
        if n == "member": return B(a[1] in r[a[0]])
        if n == "isEmpty": return B(not r[a[0]])
        if n == "minItem": return i(min(r[a[0]])) if r[a[0]] else "EXN Empty"
        if n == "maxItem": return i(max(r[a[0]])) if r[a[0]] else "EXN Empty"
        if n == "equal": return B(r[a[0]] == r[a[1]])
        if n == "compare":
            x, y = sorted(r[a[0]]), sorted(r[a[1]])
            return "LESS" if x < y else "GREATER" if x > y else "EQUAL"
        if n == "isSubset": return B(r[a[0]] <= r[a[1]])
        if n == "disjoint": return B(not (r[a[0]] & r[a[1]]))
        if n == "numItems": return str(len(r[a[0]]))
        if n in ("toList", "listItems", "app"): return L([i(k) for k in sorted(r[a[0]])])
        if n == "wf": return "true"
        if n == "union": return s.show(a[0], r[a[1]] | r[a[2]])
        if n == "intersection": return s.show(a[0], r[a[1]] & r[a[2]])
        if n == "difference": return s.show(a[0], r[a[1]] - r[a[2]])
        if n == "combineWith":
            x, y = r[a[1]], r[a[2]]; m = set()
            for k in x | y:
                p, q = k in x, k in y
                bit = (4 if q else 1) if p else (2 if q else 8)
                if ((p != q) if k % 7 == 0 else a[3] // bit % 2 == 1): m.add(k)
            return s.show(a[0], m)
        if n == "map": return s.show(a[0], {(k * 5 + 3) % a[2] for k in r[a[1]]})
        if n == "mapPartial": return s.show(a[0], {(k * 5 + 3) % a[2] for k in r[a[1]] if k % 3})
        if n in ("foldl", "foldr"):
            acc = 17
            for k in (sorted(r[a[0]]) if n == "foldl" else sorted(r[a[0]])[::-1]): acc = (acc * 31 + k) % 1000003
            return str(acc)
        if n == "partition":
            x = r[a[2]]; return s.show(a[0], {k for k in x if k % a[3] == 0}) + s.show(a[1], {k for k in x if k % a[3]})
        if n == "filter": return s.show(a[0], {k for k in r[a[1]] if k % a[2] == 0})
        if n in ("exists", "all"):
            vis = []; ex = n == "exists"; res = not ex
            for k in sorted(r[a[0]]):
                vis.append(i(k))
                if k % a[1] == 0: res = ex; break
            return B(res) + L(vis)
        if n == "find": return "SOME true" if any(k % a[1] == 0 for k in r[a[0]]) else "NONE"
        if n == "bulk":
            m = {j * a[2] % a[3] for j in range(a[1])}; s.r[a[0]] = frozenset(m); return f"n={len(m)}"
        if n == "bulkdel":
            m = r[a[1]] - {j * a[3] % a[4] for j in range(a[2])}; s.r[a[0]] = frozenset(m); return f"n={len(m)}"
        raise KeyError(n)


def gen_map(rng, univ, unord, length, big):
    R = lambda: rng.randrange(8)
    K = lambda: rng.randrange(univ)
    V = lambda: rng.randrange(1009)
    ops = []
    if big:
        ops.append(["bulk", 0, rng.choice([200, 1000, 1500]), rng.choice([1, 7, 997, 1999]), rng.choice([1501, 2003, 4001])])
        ops.append(["bulkdel", 1, 0, rng.choice([100, 400, 1200]), rng.choice([1, 3, 7, 1999]), rng.choice([1501, 2003])])
    choices = ["singleton"] + ["insert", "insert'"] * 8 + ["insertWith", "insertWithi"] * 2 + \
        ["find", "lookup", "inDomain"] * 3 + ["findAndRemove", "remove"] * 7 + \
        ["first", "firsti", "isEmpty", "numItems", "listItems", "listItemsi", "listKeys", "wf", "app", "appi"] + \
        ["unionWith", "unionWithi", "intersectWith", "intersectWithi", "mergeWith", "mergeWithi"] * 2 + \
        ["equiv", "collate", "extends"] * 2 + ["map", "mapi", "foldl", "foldli", "foldr", "foldri"] + \
        ["filter", "filteri", "mapPartial", "mapPartiali", "exists", "existsi", "all", "alli"]
    hot = R()
    for _ in range(length):
        n = rng.choice(choices)
        if rng.random() < 0.05: hot = R()
        S = lambda: hot if rng.random() < 0.6 else R()
        D = lambda: hot if rng.random() < 0.6 else R()
        if n in ("empty",): o = [n, R()]
        elif n == "singleton": o = [n, R(), K(), V()]
        elif n.startswith("insert"): o = [n, D(), S(), K(), V()]
        elif n in ("find", "lookup", "inDomain"): o = [n, S(), K()]
        elif n in ("findAndRemove", "remove"): o = [n, D(), S(), K()]
        elif n in ("unionWith", "unionWithi", "intersectWith", "intersectWithi"): o = [n, R(), R(), R()]
        elif n.startswith("mergeWith"): o = [n, R(), R(), R(), rng.randrange(4)]
        elif n in ("equiv", "collate", "extends"):
            o = [n, R(), R()]
        elif n in ("map", "mapi"): o = [n, R(), S()]
        elif n in ("filter", "filteri", "mapPartial", "mapPartiali"): o = [n, R(), S(), rng.choice([2, 3, 5])]
        elif n in ("exists", "existsi", "all", "alli"): o = [n, S(), rng.choice([2, 3, 7, 50])]
        else: o = [n, S()]
        ops.append(o)
    return ops


def gen_set(rng, univ, unord, length, big):
    R = lambda: rng.randrange(8)
    K = lambda: rng.randrange(univ)
    def LST():
        n = rng.choice([0, 1, 2, 3, 5, 8, 15, 30])
        l = [K() for _ in range(n)]
        if rng.random() < .2: l.sort()
        if rng.random() < .1: l.sort(reverse=True)
        return l
    ops = []
    if big:
        ops.append(["bulk", 0, rng.choice([200, 1000, 1500]), rng.choice([1, 7, 997, 1999]), rng.choice([1501, 2003, 4001])])
        ops.append(["bulkdel", 1, 0, rng.choice([100, 400, 1200]), rng.choice([1, 3, 7, 1999]), rng.choice([1501, 2003])])
    choices = ["singleton", "fromList", "fromList", "addList", "addList", "subtractList", "subtractList"] + ["add", "add'"] * 7 + \
        ["subtract", "subtract'", "delete"] * 5 + ["member"] * 3 + ["isEmpty", "minItem", "maxItem", "numItems", "toList", "listItems", "app", "wf"] + \
        ["equal", "compare", "isSubset", "disjoint"] * 2 + ["union", "intersection", "difference", "combineWith"] * 2 + \
        ["map", "mapPartial", "foldl", "foldr", "partition", "filter", "exists", "all", "find"]
    hot = R()
    for _ in range(length):
        n = rng.choice(choices)
        if rng.random() < 0.05: hot = R()
        S = lambda: hot if rng.random() < 0.6 else R()
        D = lambda: hot if rng.random() < 0.6 else R()
        if n == "singleton": o = [n, R(), K()]
        elif n == "fromList": o = [n, R(), LST()]
        elif n in ("addList", "subtractList"): o = [n, R(), S(), LST()]
        elif n in ("add", "add'", "subtract", "subtract'", "delete"): o = [n, D(), S(), K()]
        elif n == "member": o = [n, S(), K()]
        elif n in ("equal", "compare", "isSubset", "disjoint"): o = [n, R(), R()]
        elif n in ("union", "intersection", "difference"): o = [n, R(), R(), R()]
        elif n == "combineWith": o = [n, R(), R(), R(), rng.randrange(8)]
        elif n in ("map", "mapPartial"): o = [n, R(), S(), rng.choice([univ, 17, 101])]
        elif n == "partition": o = [n, *rng.sample(range(8), 2), S(), rng.choice([2, 3, 5])]
        elif n == "filter": o = [n, R(), S(), rng.choice([2, 3, 5])]
        elif n in ("exists", "all", "find"): o = [n, S(), rng.choice([2, 3, 7, 50])]
        else: o = [n, S()]
        ops.append(o)
    return ops


def enc(o):
    return "\t".join((",".join(map(str, x))) if isinstance(x, list) else str(x) for x in o)


def canon(s, unord):
    if not unord: return s
    return re.sub(r"\[([^\]]*)\]", lambda m: "[" + ",".join(sorted(m.group(1).split(","))) + "]", s)


def body():
    c = Check("C22", "random persistent-register histories (8 versions live) over every ordered map/set implementation; "
              "each op is compared with a Python dict/frozenset model; a case is non-trivial if it returns a non-empty "
              "collection or a lookup hit; key comparisons are counted for the balance monitor",
              assumptions=["Python dict/frozenset/sort as reference model"])
    c.build()
    img = c.sml_heap("w", {"drv.sml": open(VERIF + "/lib/drv.sml").read(), "main.sml": open(HERE + "/main.sml").read()},
                     ["$/smlnj-lib.cm"])
    if img is None: c.finish()
    lines, exp = [], []
    nseq = c.n(70, 700)
    for impl in MAPS + SETS:
        unord = impl in UNORD
        for q in range(nseq):
            rng = random.Random(f"{c.seed}-{impl}-{q}")
            univ = rng.choice([4, 12, 25, 60, 200])
            big = q % 7 == 3
            g = (gen_map if impl in MAPS else gen_set)(rng, univ, unord, rng.choice([60, 200, 350]) if not big else 30, big)
            m = MapModel() if impl in MAPS else SetModel()
            lines.append("@reset\t" + impl); exp.append((impl, ["@reset"], "ok", q))
            for o in g:
                if unord and o[0] in ("first", "firsti", "collate", "compare", "minItem", "maxItem", "foldl", "foldr", "foldli", "foldri",
                                      "exists", "existsi", "all", "alli"):
                    continue
                lines.append(enc(o)); exp.append((impl, o, m.step(o), q))
    got = run_ops(c, img, "main", lines)
    perop, dead = {}, set()
    if got is not None:
        for idx, ((impl, o, want, q), g) in enumerate(zip(exp, got)):
            u = impl in UNORD
            if (impl, q) in dead: continue
            c.seen(f"{impl}{o}{want}", nontrivial=("[" in want and "[]" not in want) or want.startswith("SOME"))
            perop[o[0]] = perop.get(o[0], 0) + 1
            if canon(g, u) != canon(want, u):
                if o[0] not in ("all", "alli", "exists", "existsi", "equiv", "collate", "extends", "compare"): dead.add((impl, q))
                c.violation(f"{impl}:{o[0]}", f"{impl} {o}: got {g[:200]!r}, model says {want[:200]!r}",
                            {"impl": impl, "sequence": q, "op": o, "ops_before": lines[max(0, idx - 12):idx]})
            elif idx % 9973 == 5: c.sample({"impl": impl, "op": o, "result": g[:120]})
    # balance monitor: comparisons per operation stay logarithmic after adversarial insertions/deletions
    lines, meta = [], []
    for impl in ("BM", "RM", "BS", "RS"):
        for n, mul in ((1000, 1), (4000, 1), (4000, 3999), (3000, 7)):
            for dele in (0, 1):
                lines.append("@reset\t" + impl); meta.append(None)
                lines.append(f"bulk\t0\t{n}\t{mul}\t4001"); meta.append(None)
                size = n
                if dele:
                    lines.append(f"bulkdel\t0\t0\t{n*3//4}\t{mul}\t4001"); meta.append(None)
                    size = n - n * 3 // 4
                for k in range(0, 4001, 97):
                    op = ("inDomain" if impl.endswith("M") else "member")
                    lines.append(f"cost\t{op}\t0\t{k}"); meta.append((impl, n, mul, dele, size, k))
                for k in range(5000, 5003):
                    op = f"insert\t1\t0\t{k}\t1" if impl.endswith("M") else f"add\t1\t0\t{k}"
                    lines.append("cost\t" + op); meta.append((impl, n, mul, dele, size, k))
    got = run_ops(c, img, "cost", lines)
    mx = 0
    if got is not None:
        for mt, g in zip(meta, got):
            if mt is None: continue
            c.evals += 1
            bound = 4 * math.log2(mt[4] + 2) + 8
            mx = max(mx, int(g) / math.log2(mt[4] + 2))
            if int(g) > bound:
                c.violation(f"balance:{mt[0]}", f"{g} key comparisons for one operation on {mt[4]} items (bound {bound:.0f})", mt)
    c.require(c.evals > 20000, "too few operations observed")
    c.finish(ops_per_kind=perop, implementations=len(MAPS + SETS), max_comparisons_over_log2=round(mx, 2))


main(body)
