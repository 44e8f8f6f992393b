"""random ASDL specifications, values of them, and their pickles"""
import os
from vlib import *
import __main__ as M

BASE = ["bool", "int", "uint", "integer", "string"]


class Spec:
    """module of types; self.types: name -> ("enum", [cons]) | ("sum", attrs, [(con, fields)]) | ("prod", fields);
    a field is (label or None, type name, suffix '' | '?' | '*')"""

    def __init__(self, r, i, big):
        self.file, self.mod = f"spec{i}", f"Spec{i}"
        self.types, self.r, n = {}, r, 0
        names = [f"t{i}_{k}" for k in range(r.randint(4, 9))]
        nc = 0

        def con():
            nonlocal nc
            nc += 1
            return f"C{nc}x{i}"
        self.kinds = {nm: "enum" if k == 0 else "sum" if k == 1 else "bigsum" if k == 2 and big else
                      r.choice(["enum", "enum1", "sum", "sum", "sum1", "prod", "prod"]) for k, nm in enumerate(names)}
        for k, nm in enumerate(names):
            kind = self.kinds[nm]
            if kind == "enum":
                self.types[nm] = ("enum", [con() for _ in range(300 if big and k == 0 else r.choice([2, 3, 5, 255]))])
            elif kind == "enum1":
                self.types[nm] = ("enum", [con()])
            elif kind == "prod":
                self.types[nm] = ("prod", self.fields(names, k, r.randint(1, 6), sums=False))
            else:
                attrs = self.fields(names, k, r.randint(1, 2), "a", True) if r.random() < .3 else []
                cons = []
                for j in range({"sum1": 1, "bigsum": 260}.get(kind, r.choice([2, 3, 6]))):
                    # the first constructor ends the recursion
                    f = self.fields(names, k if j == 0 else k + 1, r.randint(1 if kind == "sum1" else 0, 4) if kind != "bigsum" else r.randint(0, 1), lab=bool(attrs))
                    cons.append((con(), f))
                if not any(f for _, f in cons):
                    cons[-1] = (cons[-1][0], [(None, "int", "")])
                self.types[nm] = ("sum", attrs, cons)
        self.root = f"root{i}"
        fs = []
        for j, nm in enumerate(names):
            for suf in r.sample(["", "?", "*"], 2):
                # options and sequences of single constructors are not implemented for C++
                if nm in self.types and self.types[nm][0] == "enum" and len(self.types[nm][1]) == 1:
                    suf = ""
                if any(f[1:] == (nm, suf) for f in fs):
                    continue
                fs.append((f"r{j}{ {'': 'p', '?': 'o', '*': 'q'}[suf]}", nm, suf))
        fs += [(f"b{j}", b, s) for j, (b, s) in enumerate((b, s) for b in BASE for s in ("", "?"))]
        self.types[self.root] = ("prod", fs)
        self.text = f"module {self.mod} {{\n" + "".join(self.decl(nm) for nm in self.types) + "}\n"

    def fields(self, names, k, n, pre="f", lab=False, sums=True):
        r, out = self.r, []
        lab = lab or r.random() < .5
        okref = lambda m: not sums or not self.kinds[m].startswith("prod")
        for j in range(n):
            x = r.random()
            if x < .4:
                t, s = r.choice(BASE), r.choice(["", "", "?"])
            elif x < .7 and k > 0 and [m for m in names[:k] if okref(m)]:
                t, s = r.choice([m for m in names[:k] if okref(m)]), ""
            else:
                # SML has no recursion through type abbreviations: products refer back, sums to sums
                t, s = r.choice([m for m in (names if sums else names[:k] or names[:1]) if self.kinds[m] != "enum1" and okref(m)]), r.choice("?*")
            out.append((f"{pre}{j}" if lab else None, t, s))
        return out

    def fs(self, fields):
        return ", ".join(t + s + (" " + l if l else "") for l, t, s in fields)

    def decl(self, nm):
        d = self.types[nm]
        if d[0] == "enum":
            return f"  {nm} = " + " | ".join(d[1]) + "\n"
        if d[0] == "prod":
            return f"  {nm} = ({self.fs(d[1])})\n"
        return f"  {nm} = " + " | ".join(c + (f"({self.fs(f)})" if f else "") for c, f in d[2]) + \
            (f" attributes({self.fs(d[1])})" if d[1] else "") + "\n"

    def tag(self, n, k):
        return b"" if n == 1 else bytes([k + 1]) if n < 256 else M.e_uint(k + 1)

    def enc(self, r, nm, depth, sml):
        """the pickle of a random value of the type"""
        if nm in BASE:
            return M.prim(r, nm)[3]
        d = self.types[nm]
        if d[0] == "enum":
            return self.tag(len(d[1]), r.randrange(len(d[1])))
        if d[0] == "prod":
            return self.encfs(r, d[1], depth - 1, sml)
        k = 0 if depth <= 0 else r.randrange(len(d[2]))
        return self.tag(len(d[2]), k) + self.encfs(r, d[1], depth - 1, sml) + self.encfs(r, d[2][k][1], depth - 1, sml)

    def encfs(self, r, fs, depth, sml):
        out = b""
        for _, t, s in fs:
            if s == "":
                out += self.enc(r, t, depth, sml)
            elif s == "?":
                en = t in self.types and self.types[t][0] == "enum"
                one = en and len(self.types[t][1]) == 1
                # SML writes these options in its own way: a known finding
                if depth <= 0 or r.random() < .4 or (sml and (t == "bool" or en and not one)):
                    out += b"\0"
                elif one:
                    out += b"\1"
                elif en or t == "bool":
                    out += self.enc(r, t, depth, sml)
                else:
                    out += b"\1" + self.enc(r, t, depth, sml)
            else:
                n = 0 if depth <= 0 else r.choice([0, 1, 1, 2, 3])
                out += M.e_uint(n) + b"".join(self.enc(r, t, depth, sml) for _ in range(n))
        return out


def tools(c, d):
    """build asdlgen from the copy of its sources in d/src"""
    g = d + "/src/asdlgen"
    t = open(g + "/common/config_sml.in").read()
    c.write(g + "/common/config.sml", re.sub(r"@[A-Za-z_]*@", "x", t))
    c.write(g + "/mk.sml", 'val _ = MkFrags.mkFragments "back-end/sml";\n')
    q = c.run([SML, "../gen/fragments/sources.cm", "mk.sml"], cwd=g, input=b"", timeout=120)
    if not os.path.exists(g + "/back-end/sml/fragments.sml"):
        return c.fail_run("fragments", q)
    q = c.run([REPO + "/bin/ml-build", "driver/sources.cm", "Main.main", "asdlgen"], cwd=g, input=b"", timeout=300)
    img = g + "/asdlgen.amd64-linux"
    if not os.path.exists(img):
        return c.fail_run("asdlgen", q)
    return img


CPP = """#include <iostream>
#include <string>
#include <cstdlib>
#include <new>
%(inc)s
static long live = 0;
void *operator new (std::size_t n) { live++; return std::malloc(n ? n : 1); }
void operator delete (void *p) noexcept { if (p) live--; std::free(p); }
void operator delete (void *p, std::size_t) noexcept { if (p) live--; std::free(p); }
static std::string hex (std::string const &s)
{ static const char d[] = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r.empty() ? "-" : r; }
static std::string unhex (std::string const &h)
{ std::string r; if (h != "-") for (size_t i = 0; i + 1 < h.size(); i += 2) r += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16)); return r; }
struct bad { };
struct in : public asdl::memory_instream {
    explicit in (std::string const &s) : asdl::memory_instream(s) { }
    [[noreturn]] void invalidTag (unsigned int, std::string_view) override { throw bad(); }
    [[noreturn]] void invalidIOState (std::ios_base::iostate) override { throw bad(); }
};
template <typename T> static std::string go (std::string const &h, bool whole)
{
    in is(unhex(h));
    T *x = T::read(is);
    size_t left = 0;
    try { for (;;) { is.getb(); left++; } } catch (bad const &) { }
    asdl::memory_outstream os;
    x->write(os);
    delete x;
    return hex(os.get_pickle()) + " " + std::to_string(left);
}
int main ()
{
    std::string l;
    while (std::getline(std::cin, l)) {
	size_t k = l.find(' ');
	std::string m = l.substr(0, k), out;
	long before = live;
	try {
	    std::string h = l.substr(k + 1);
	    std::string r;
%(go)s
	    out = r;
	} catch (bad const &) { std::cout << "BAD\\n" << std::flush; continue; }
	{ std::string().swap(m); std::string t = out; std::string().swap(out); long d = live - before; std::cout << t << " " << (d > 1 ? d : 0) << "\\n" << std::flush; }
    }
}
"""


def generate(c, r, d, gen):
    n = c.n(6, 24)
    specs = [Spec(r, i, big=(i == 0)) for i in range(n)]
    # the ways of SML that differ from the documented format (known findings)
    big = " | ".join(f"P{i}" for i in range(300))
    c.write(f"{d}/probe.asdl", f"module Probe {{\n  color = RED | GREEN | BLUE\n  big = {big}\n  ob = (bool? f)\n  oe = (color? f)\n  bg = (big f)\n}}\n")
    q = c.run([SML, "@SMLload=" + gen, "sml", "probe.asdl"], cwd=d, timeout=100)
    if q.rc != 0:
        c.fail_run("asdlgen:probe", q)

    def one(s):
        c.write(f"{d}/{s.file}.asdl", s.text)
        for lang in ("c++", "sml"):
            q = c.run([SML, "@SMLload=" + gen, lang, s.file + ".asdl"], cwd=d, timeout=100)
            if q.rc != 0 or q.text.strip():
                c.violation("asdlgen:" + lang, f"asdlgen {lang} failed (rc {q.rc}): {q.text[:300]}", {"spec": s.text})
    c.pmap(one, specs)
    c.write(d + "/gmain.cpp", CPP % {
        "inc": "\n".join(f'#include "{s.file}.hpp"' for s in specs),
        "go": "\n".join(f'\t    if (m == "{s.mod}") r = go<{s.mod}::{s.root}>(h, true);' for s in specs)})
    return specs


def generated(c, r, d, specs, gexe, driver):
    ops, exp = [], []
    for s in specs:
        for k in range(c.n(60, 300)):
            p = s.enc(r, s.root, r.randint(1, 6), False)
            extra = r.choice([b"", b"\0"])
            ops.append(f"{s.mod} {hx(p + extra)}")
            exp.append(f"{hx(p)} {len(extra)} 0")
            if r.random() < .3:
                ops.append(f"{s.mod} {hx(p[:r.randint(0, len(p) - 1)])}")
                exp.append("BAD")
    got = driver(c, gexe, ops, "generated", d)
    if got:
        for o, w, g in zip(ops, exp, got):
            m = o.split()[0]
            c.seen("generated c++ " + ("short" if w == "BAD" else "ok"))
            c.check(g == w, f"gen-cpp:{'short' if w == 'BAD' else 'leak' if g.split()[:2] == w.split()[:2] else 'pickle'}",
                    f"generated C++ for {m}: {o[:160]} gave {g[:160]}, not {w[:160]}",
                    {"spec": next(s.text for s in specs if s.mod == m), "request": o, "got": g, "want": w})
    # the same for SML
    files = {"drv.sml": open(VERIF + "/lib/drv.sml").read()}
    use = [s for s in specs[1:]]
    class Probe: pass
    probes = []
    for t, p, key in (("ob", "01", "sml-option-bool"), ("ob", "02", "sml-option-bool"), ("oe", "03", "sml-option-enum"), ("bg", "05", "sml-big-tag"), ("bg", "412c", "sml-big-tag")):
        b = Probe()
        b.file, b.mod, b.root, b.pickle, b.key = "probe", "Probe", t, p, key
        probes.append(b)
    src = "structure Main = struct\n  val doit = fn\n"
    roots = {(s.mod, s.root): s for s in use + probes}
    for i, s in enumerate(roots.values()):
        for suf in (".sml", "-pickle.sig", "-memory-pickle.sml"):
            files[s.file + suf] = open(f"{d}/{s.file}{suf}").read()
        src += ("    | " if i else "      ") + f"""["{s.mod}", "{s.root}", h] => let
          val is = ASDLMemoryPickle.openVector (Byte.stringToBytes (Drv.unhex h))
          val x = {s.mod}MemoryPickle.read_{s.root} is
          fun left n = (ASDLMemoryPickle.input1 is; left (n+1)) handle ASDL.DecodeError => Int.toString n
          in Drv.hex (Byte.bytesToString (ASDLMemoryPickle.toVector {s.mod}MemoryPickle.write_{s.root} x)) ^ " " ^ left 0 end
"""
    src += "    | _ => \"?\"\n  val main = Drv.main (fn a => doit a handle ASDL.DecodeError => \"BAD\")\nend\n"
    files["gmain.sml"] = src
    img = c.sml_heap("gen", files, ["$/smlnj-lib.cm", d + "/src/lib/sml/asdl-lib.cm"])
    if not img:
        return
    ops, exp = [], []
    for s in use:
        for k in range(c.n(60, 300)):
            p = s.enc(r, s.root, r.randint(1, 6), True)
            extra = r.choice([b"", b"\0"])
            ops.append(f"{s.mod}\t{s.root}\t{hx(p + extra)}")
            exp.append(f"{hx(p)} {len(extra)}")
            if r.random() < .3:
                ops.append(f"{s.mod}\t{s.root}\t{hx(p[:r.randint(0, len(p) - 1)])}")
                exp.append("BAD")
    got = run_ops(c, img, "gen", ops + [f"Probe\t{b.root}\t{b.pickle}" for b in probes])
    if got:
        for b, g in zip(probes, got[len(ops):]):
            c.check(g == b.pickle + " 0", b.key, f"generated SML reads and writes the documented pickle {b.pickle} as {g}", {})
        for o, w, g in zip(ops, exp, got):
            m = o.split()[0]
            c.seen("generated sml " + ("short" if w == "BAD" else "ok"))
            c.check(g == w, f"gen-sml:{'short' if w == 'BAD' else 'pickle'}",
                    f"generated SML for {m}: {o[:160]} gave {g[:160]}, not {w[:160]}",
                    {"spec": next(s.text for s in specs if s.mod == m), "request": o, "got": g, "want": w})
