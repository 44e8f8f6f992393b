import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
sys.path.insert(0, os.path.dirname(__file__))
sys.setrecursionlimit(20000)
from vlib import *
import gen
from gen import *

ARG = ("tup", (I, I, S, ("list", I), B))


def inputs(r):
    i = lambda: r.choice([0, 1, 2, -1, 3, 7, 100, INT_MAX, INT_MIN, r.randint(-50, 50), r.randint(-10**9, 10**9)])
    s = r.choice(["", "a", "abc", "hello", "abcdefgh", "\n", "z" * r.randint(0, 20)])
    return (i(), i(), s, [i() for _ in range(r.choice([0, 1, 2, 3, 5]))], r.random() < .5)


def unit(r, idx, nfun, depth):
    """one compilation unit with nfun functions; returns (text, [(name, python run)])"""
    g = G(r)
    out = [f"structure U{idx} = struct\nopen P\n{g.dtdecls()}\n"]
    runs = []
    for k in range(nfun):
        rt = g.rty(2) if r.random() < .4 else ("tup", tuple(g.rty(1) for _ in range(r.choice([2, 3, 4]))))
        x = [g.sym("a") for _ in range(5)]
        env = list(zip(x, ARG[1]))
        b, fb = g.e(rt, env, r.choice(depth))
        if len(b) > 9000:
            continue
        nm = f"f{k}"
        pats = ", ".join(f"{v} : {ty(t)}" for v, t in env)
        style = r.randrange(4)
        if style == 0:        # behind a functor and an opaque signature
            out.append(f"functor F{k} (X : sig type t val n : int end) :> sig val f : {ty(ARG)} -> {ty(rt)} end = struct fun f ({pats}) : {ty(rt)} = {b} end\n"
                       f"structure S{k} = F{k} (type t = int val n = {k})\nval {nm} = S{k}.f\n")
        elif style == 1:
            out.append("fun " + nm + "' " + " ".join(f"({v} : {ty(t)})" for v, t in env) + f" : {ty(rt)} = {b}\nfun {nm} ({', '.join(x)}) = {nm}' {' '.join(x)}\n")
        else:
            out.append(f"fun {nm} ({pats}) : {ty(rt)} = {b}\n")

        def call(a, fb=fb, x=x):
            return fb(dict(zip(x, a)))
        g.funs.append((nm, ARG, rt, call))

        def run(a, call=call, rt=rt, g=g):
            St.fuel, St.log = 8000, []
            try:
                v = call(a)
                s = g.pshow(rt, v)
            except Exn as e:
                s = "!" + e.name
            except RecursionError:
                raise Fuel()
            return "|".join(St.log) + ">" + s
        runs.append((nm, run))
        out.append(f"fun r_{nm} a = (({g.show(rt)}) ({nm} a))\n")
    out.append("val tab = #[" + ", ".join("r_" + n for n, _ in runs) + "]\nend\n")
    return "".join(out), runs


MAIN = '''
structure Main = struct
  fun go (tab, k, a) = let
        val _ = P.buf := []
        val s = Vector.sub (tab, k) a handle e => "!" ^ exnName e
        in String.concatWith "|" (rev (!P.buf)) ^ ">" ^ s end
  fun ints "-" = [] | ints s = List.map Drv.int (String.tokens (fn c => c = #",") s)
  fun f [u, k, a, b, s, l, t] = let
        val arg = (Drv.int a, Drv.int b, Drv.unhex s, ints l, t = "T")
        in case u of %s | _ => "?" end
    | f _ = "?"
  val main = Drv.main f
end
'''


def prepare(c, units):
    """generate some units and their cases"""
    members = {"drv.sml": open(VERIF + "/lib/drv.sml").read(), "prelude.sml": gen.PRELUDE}
    lines, want, texts = [], [], {}
    skipped = 0
    for u in units:
        r = random.Random(f"{c.seed}-{u}")
        t, runs = unit(r, u, c.n(45, 60), [2, 3, 4, 5, 6])
        members[f"u{u}.sml"] = t
        texts[u] = t
        for k, (nm, run) in enumerate(runs):
            for _ in range(c.n(14, 30)):
                a = inputs(r)
                try:
                    w = run(a)
                except Fuel:
                    skipped += 1
                    continue
                if len(w) > 20000:
                    continue
                lines.append(f"{u}\t{k}\t{ilit(a[0])}\t{ilit(a[1])}\t{hx(a[2].encode('latin1'))}\t{','.join(map(ilit, a[3])) or '-'}\t{'T' if a[4] else 'F'}")
                want.append((u, nm, w))
    members["main.sml"] = MAIN % " | ".join(f'"{u}" => go (U{u}.tab, Drv.int k, arg)' for u in units)
    return f"wl{units[0]}", members, lines, want, texts, skipped


def execute(c, g, members, lines, want, texts, skipped):
    """compile and run them as one image"""
    img = c.sml_heap(g, members, [], pre="Control.MC.matchRedundantError := false; Control.MC.matchRedundantWarn := false; "
                     "Control.MC.matchNonExhaustiveWarn := false; Control.MC.matchNonExhaustiveError := false; Control.MC.bindNonExhaustiveWarn := false; Control.Print.signatures := 0;\n")
    if img is None:
        return
    sub = list(range(0, len(lines), 4))
    for tag, rt, args, idx in (("std", None, [], range(len(lines))), ("small", None, ["@SMLalloc=128k"], range(len(lines))),
                               ("asan", c.rt["asan"], [], sub), ("verif", c.rt["verif"], [], sub[::4])):
        idx = list(idx)
        got = run_ops(c, img, f"{tag}-{g}", [lines[i] for i in idx], shards=2, rt=rt, rtargs=args)
        if not got:
            continue
        for i, o in zip(idx, got):
            u, nm, w = want[i]
            c.seen(w)
            c.check(o == w, "result:" + ("exception" if w.split(">")[-1].startswith("!") or o.split(">")[-1].startswith("!") else "value"),
                    f"unit {u} function {nm} on {lines[i]!r}: got {o[:300]}, expected {w[:300]}",
                    {"rt": tag, "line": lines[i], "function": nm, "unit": texts[u][:200000]})


def body():
    c = Check("C05", "an evaluation is one application of a generated function whose result, exception and order of effects were compared with the evaluator's; distinct = distinct outcomes")
    c.build(variants=("asan", "verif"))
    nu, per = c.n(12, 120), c.n(3, 6)
    work = [prepare(c, list(range(b, min(nu, b + per)))) for b in range(0, nu, per)]
    cases, skipped = sum(len(w[2]) for w in work), sum(w[5] for w in work)
    c.pmap(lambda w: execute(c, *w), work)
    c.require(cases > 200 * nu, "too few cases")
    c.note = f"{cases} applications of {nu} units, {skipped} skipped (too long for the evaluator)"
    c.finish()


main(body)
