"""Common machinery of the runtime-monitoring checks (see DESIGN.md).

A check = workload driver + real SML/NJ built from /repo + monitors/oracles here.
Exit codes: 0 held on everything observed, 1 violation, 2 harness error / inconclusive.
"""
import atexit, fnmatch, hashlib, json, os, random, re, select, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SML = REPO + "/bin/sml"
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


# Instrumented builds of the C runtime.  "asan": AddressSanitizer + UBSan; "verif": the SMLNJ_VERIF monitors
# (forced collections, nursery poisoning, nursery-use check), the runtime's own assertions and heap checker.
VARIANTS = {
    "asan": dict(cc_flags="-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined "
                          "-fno-sanitize=alignment,shift,nonnull-attribute,vptr"),
    "verif": dict(cc_flags="-O1 -g", xdefs="-DSMLNJ_VERIF -DASSERT_ON"),
    "heap": dict(cc_flags="-O1 -g", xdefs="-DASSERT_ON", check_heap=True),
}
ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:handle_segv=0:handle_sigfpe=0:handle_sigill=0:handle_sigbus=0:"
                            "use_sigaltstack=0:allocator_may_return_null=1",
            "UBSAN_OPTIONS": "print_stacktrace=0"}


def _default_signals():
    """Ignored signals and the mask are inherited (a caller that runs the check in the background
    ignores INT and QUIT): start from the defaults, so that every workload sees the same."""
    import signal
    for s in signal.valid_signals():
        if s in (signal.SIGKILL, signal.SIGSTOP, signal.SIGPIPE, signal.SIGXFSZ):
            continue
        try:
            if signal.getsignal(s) == signal.SIG_IGN:
                signal.signal(s, signal.default_int_handler if s == signal.SIGINT else signal.SIG_DFL)
        except (OSError, ValueError):
            pass
    signal.pthread_sigmask(signal.SIG_SETMASK, [])


_default_signals()


class RT:
    """An instrumented runtime: executable + what to put on its command line / environment."""
    def __init__(self, name, exe):
        self.name, self.exe = name, exe

    def env(self, log=None):
        if self.name == "asan":
            return dict(ASAN_ENV)
        if self.name == "verif":
            return {"VERIF_LOG": log or "/dev/null"}
        return {}

    def args(self):
        return ["@SMLdebug=/dev/null"] if self.name == "heap" else []


def die(msg):
    print("HARNESS-ERROR: " + msg, flush=True)
    sys.exit(2)


def tree_hash():
    p = subprocess.run(["git", "-c", "safe.directory=" + REPO, "ls-files", "-z", "-c", "-o", "--exclude-standard"],
                       cwd=REPO, stdout=subprocess.PIPE)
    h = hashlib.sha256()
    for f in sorted(set(p.stdout.split(b"\0"))):
        if not f or f.startswith(b".vp-build/"):
            continue
        try:
            with open(os.path.join(REPO.encode(), f), "rb") as fh:
                h.update(f + b"\0" + hashlib.sha256(fh.read()).digest())
        except (FileNotFoundError, IsADirectoryError):
            pass
    return h.hexdigest()


class Check:
    current = None

    def __init__(self, pid, rule, level="exploration", assumptions=()):
        Check.current = self
        self._fin = threading.Lock()
        self.groups = set()
        self.built = False
        self.pid = pid
        self.rule = rule
        self.level = level
        self.assumptions = list(assumptions)
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            self.tier = sys.argv[1]
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.viol = {}          # key -> first detail
        self.nviol = 0
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.cov = {}
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        os.chmod(self.scratch, 0o755)
        open(self.scratch + "/verif.log", "w").close()
        os.chmod(self.scratch + "/verif.log", 0o666)
        atexit.register(self._cleanup)
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
        try:
            self.known = [k for k in json.load(open(VERIF + "/known_findings.json"))["findings"]
                          if k["property"] == pid and k.get("status") == "open"]
        except FileNotFoundError:
            self.known = []

    def _cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # ---------------------------------------------------------------- sizes
    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 8) if self.thorough else quick

    # ---------------------------------------------------------------- build
    def build(self, variants=()):
        """Rebuild /repo from its working tree (content-hashed, incremental); at the same time build the
        named instrumented variants of the C runtime (see VARIANTS) out of tree -> self.rt[name]."""
        self.rt = {}
        jobs = [(v, self._copy_runtime(v)) for v in variants]
        ex = ThreadPoolExecutor(len(jobs) + 1)
        futs = [(v, ex.submit(self._make_runtime, v, d, **VARIANTS[v])) for v, d in jobs]
        self._build_main()
        for v, f in futs:
            self.rt[v] = f.result()
        ex.shutdown()
        self.built = True
        if not self.thorough:
            threading.Thread(target=self._watch, daemon=True).start()

    def _watch(self):
        """Once a violation is on record the check has two more minutes (the program may hang everywhere)."""
        since = None
        while True:
            time.sleep(2)
            if not any(not self._listed(k) for k in list(self.viol)):
                continue
            since = since or time.time()
            if time.time() - since < 120:
                continue
            if not self._fin.acquire(blocking=False):
                return
            code = None
            try:
                self._finish()
            except SystemExit as e:
                code = e.code
            except BaseException:
                self._fin.release()
                continue
            for g in list(self.groups):
                try:
                    os.killpg(g, signal.SIGKILL)
                except OSError:
                    pass
            sys.stdout.flush()
            subprocess.Popen(["rm", "-rf", "--", self.scratch], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                             stderr=subprocess.DEVNULL, start_new_session=True)
            os._exit(code if isinstance(code, int) else 2)

    def _listed(self, key):
        return any(fnmatch.fnmatchcase(key, pat) for kf in self.known for pat in kf["keys"])

    def _build_main(self):
        if os.environ.get("VERIF_NOBUILD") == "1":
            return
        t = time.time()
        p = None
        # build.sh keys the compiler/boot stage on base/ and config/version only, although the boot
        # files also contain smlnj-lib, MLRISC and the ml-yacc library: force that stage when anything changed.
        st = REPO + "/.vp-build"
        cur = tree_hash()
        try:
            same = open(st + "/verif.stamp").read() == cur
        except FileNotFoundError:
            same = False
        if not same:
            for f in ("base.stamp", "all.stamp", "verif.stamp"):
                if os.path.exists(f"{st}/{f}"):
                    os.unlink(f"{st}/{f}")
        for attempt in (1, 2):
            p = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=1500)
            if p.returncode == 0:
                break
        if p.returncode != 0:
            print(p.stdout.decode("utf-8", "replace")[-3000:])
            die("build of /repo failed")
        if not same:
            with open(st + "/verif.stamp", "w") as f:
                f.write(cur)
        self.cov["build_s"] = round(time.time() - t, 1)
        print(f"[{self.pid}] build ok in {time.time()-t:.1f}s", flush=True)

    def _copy_runtime(self, name):
        d = os.path.join(self.scratch, "rt-" + name)
        shutil.copytree(REPO + "/base/runtime", d, symlinks=True,
                        ignore=shutil.ignore_patterns("*.o", "*.a", "run.*", "v-*"))
        for f in ("gen-sizes", "gen-offsets", "gen-unix-signals", "gen-unix-sigtbl", "ml-sizes.h",
                  "mlstate-offsets.h", "system-signals.h", "unix-sigtbl.c", "prim.s", "reg-mask.h"):
            p = d + "/objs/" + f
            if os.path.exists(p):
                os.unlink(p)
        return d

    def _make_runtime(self, name, d, cc_flags="-O1 -g", xdefs="", check_heap=False, env=None, cc="gcc"):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0"
        e.update(env or {})
        cmd = ["make", "-f", "mk.amd64-linux", f"CC={cc} -std=gnu99 -w", f"CFLAGS={cc_flags} -m64"]
        if check_heap:
            cmd += ["CHECK_HEAP=check-heap.o"]
            xdefs += " -DCHECK_HEAP"
        if xdefs:
            cmd += [f"XDEFS={xdefs}"]
        p = subprocess.run(cmd, cwd=d + "/objs", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL)
        exe = d + "/objs/run.amd64-linux"
        if p.returncode != 0 or not os.path.exists(exe):
            print(p.stdout.decode("utf-8", "replace")[-3000:])
            os._exit(2)
        return RT(name, exe)

    # ---------------------------------------------------------------- running
    def dir(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    def write(self, path, text):
        mode = "wb" if isinstance(text, bytes) else "w"
        with open(path, mode) as f:
            f.write(text)
        return path

    def run(self, cmd, cwd=None, env=None, timeout=300, stdin=None, input=None, user=None, stderr=subprocess.STDOUT, **popen):
        e = dict(os.environ)
        e["CM_VERBOSE"] = "false"
        e["HOME"] = self.scratch
        e["LANG"] = "C.UTF-8"
        e["PATH"] = REPO + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
        for k in ("SMLNJ_HOME", "CM_PATHCONFIG", "CM_LOCAL_PATHCONFIG"):
            e.pop(k, None)
        e.update(env or {})
        kw = dict(user=user, group=user, extra_groups=[]) if user is not None else {}
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=stderr,
                             stdin=stdin if stdin is not None else
                             subprocess.PIPE if input is not None else subprocess.DEVNULL,
                             start_new_session=True, **kw, **popen)
        self.groups.add(p.pid)
        if not self.thorough:
            timeout = min(timeout, 240)
        try:
            out, _ = p.communicate(input, timeout=timeout)
            to = False
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            out, _ = p.communicate()
            to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.groups.discard(p.pid)
        return Result(p.returncode, out, to)

    def sml_heap(self, name, members, libs, main="Main.main", cwd=None, pre=""):
        """Compile a workload with /repo's compiler and export it as a heap image.
        main : string * string list -> OS.Process.status.  Returns path of image."""
        d = cwd or self.dir(name)
        for fn, text in members.items():
            self.write(os.path.join(d, fn), text)
        cm = "Group is\n  $/basis.cm\n" + "".join(f"  {l}\n" for l in libs) + \
             "".join(f"  {m}\n" for m in members)
        self.write(os.path.join(d, "wl.cm"), cm)
        self.write(os.path.join(d, "build.sml"), pre +
                   'val ok = CM.make "wl.cm" handle e => (print ("EXN " ^ exnMessage e ^ "\\n"); false);\n'
                   'val _ = if ok then () else OS.Process.exit OS.Process.failure;\n')
        self.write(os.path.join(d, "exp.sml"),
                   f'val _ = SMLofNJ.exportFn ("wl", {main});\n')
        for attempt in (1, 2):
            r = self.run([SML, "build.sml", "exp.sml"], cwd=d, timeout=300)
            img = os.path.join(d, "wl.amd64-linux")
            if os.path.exists(img):
                return img
        self.fail_run("compile:" + name, r)
        return None

    def run_heap(self, img, args=(), timeout=300, rt=None, rtargs=(), env=None, cwd=None, input=None, user=None,
                 stdin=None, **popen):
        """Run an exported image; rt = None (production runtime), an RT, or a path."""
        env = dict(env or {})
        if isinstance(rt, RT):
            e = rt.env(self.scratch + "/verif.log")
            e.update(env)
            env = e
            rtargs = list(rtargs) + rt.args()
            exe = rt.exe
        else:
            exe = rt or REPO + "/bin/.run/run.amd64-linux"
        r = self.run([exe, "@SMLload=" + img, *rtargs, *args], cwd=cwd or os.path.dirname(img),
                     timeout=timeout, env=env, input=input, user=user, stdin=stdin, **popen)
        self.scan_monitors(r, "")
        return r

    def proc_heap(self, img, rt=None, rtargs=(), env=None, cwd=None, user=None, args=None, **popen):
        """Start a Drv workload that is driven interactively (one op at a time)."""
        env = dict(env or {})
        exe = rt or REPO + "/bin/.run/run.amd64-linux"
        if isinstance(rt, RT):
            e = rt.env(self.scratch + "/verif.log")
            e.update(env)
            env, rtargs, exe = e, list(rtargs) + rt.args(), rt.exe
        return Proc(self, [exe, "@SMLload=" + img, *rtargs,
                           *(args or ["/dev/stdin", "/dev/stdout", "flush"])], cwd or os.path.dirname(img), env, user, popen)

    def scan_monitors(self, r, ctx):
        """Reports printed by the instrumented runtimes are violations."""
        t = r.text
        self.monitored_runs = getattr(self, "monitored_runs", 0) + 1
        if "AddressSanitizer" in t or "runtime error:" in t:
            m = re.search(r"(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error:[^\n]*)", t)
            fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) \S*?([^/\s]+:\d+)", t)
            key = "san:" + (fr[0][0] if fr else re.sub(r"[^a-z.:0-9-]", "_", m.group(1)[:60]) if m else "?")
            i = t.find("AddressSanitizer") if "AddressSanitizer" in t else t.find("runtime error:")
            self.violation(key, "sanitizer report: " + (m.group(1) if m else ""),
                           {"ctx": ctx, "report": t[max(0, i - 200):i + 2500]})
        if "Assertion failure" in t or "Fatal error -- VERIF" in t or "inconsistent heap" in t or "CheckHeap: too many" in t:
            m = re.search(r"[^\n]*(Assertion failure|VERIF|inconsistent heap|too many errors)[^\n]*", t)
            key = "monitor:" + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(0))[-80:]
            self.violation(key, "runtime monitor report: " + m.group(0), {"ctx": ctx, "output": t[-2000:]})

    def monitor_summary(self):
        """What the SMLNJ_VERIF monitors observed: collection points, forced GCs, C functions exercised."""
        try:
            lines = open(self.scratch + "/verif.log").read().split("\n")
        except FileNotFoundError:
            return {}
        tot, calls = {}, {}
        for l in lines:
            w = l.split()
            if len(w) >= 2 and w[0] == "pid":
                for k, v in zip(w[2::2], w[3::2]):
                    tot[k] = max(tot.get(k, 0), int(v)) if k == "maxused" else tot.get(k, 0) + int(v)
            elif len(w) == 3 and w[0] == "call":
                calls[w[1]] = calls.get(w[1], 0) + int(w[2])
        return {"monitored_collection_points": tot.get("points", 0), "forced_collections": tot.get("forced", 0),
                "monitored_c_calls": tot.get("calls", 0), "max_nursery_bytes_in_c_call": tot.get("maxused", 0),
                "distinct_c_functions": len(calls), "c_functions": dict(sorted(calls.items()))}

    def fail_run(self, key, r):
        if r is None:
            return
        out = r.out.decode("utf-8", "replace")
        self.violation(key, f"workload did not run to completion (rc={r.rc}, timeout={r.timeout})",
                       {"output_tail": out[-2500:]})

    def pmap(self, f, items, jobs=None):
        with ThreadPoolExecutor(jobs or NPROC) as ex:
            return list(ex.map(f, items))

    # ---------------------------------------------------------------- verdicts
    def seen(self, case, nontrivial=True, count=1):
        self.evals += count
        if nontrivial:
            h = hashlib.blake2b(case if isinstance(case, bytes) else str(case).encode("utf-8", "surrogatepass"),
                                digest_size=8).digest()
            self.distinct.add(h)

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, msg, witness=None):
        self.nviol += 1
        if key not in self.viol and len(self.viol) < 200:
            self.viol[key] = {"key": key, "msg": msg, "witness": witness, "seed": self.seed, "tier": self.tier}

    def check(self, cond, key, msg, witness=None):
        if not cond:
            self.violation(key, msg, witness)
        return cond

    def require(self, cond, msg):
        """Evidence floor: a run that observed too little is inconclusive."""
        if not cond and not self.viol:
            die("inconclusive: " + msg)

    def finish(self, **cov):
        self._fin.acquire()
        self._finish(**cov)

    def _finish(self, **cov):
        known_hit, new = {}, []
        for k, v in list(self.viol.items()):
            hit = None
            for kf in self.known:
                if any(fnmatch.fnmatchcase(k, pat) for pat in kf["keys"]):
                    hit = kf
                    break
            if hit is not None:
                known_hit.setdefault(hit["what"], v)
            else:
                new.append(v)
        coverage = {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct),
                    "rule": self.rule, "samples": self.samples or ["(none)"]}
        coverage.update(self.cov)
        coverage.update(self.monitor_summary())
        coverage.update(cov)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": coverage, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(new)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(f"{VERIF}/evidence/{self.pid}.json", "w"), indent=1, default=str)
        for what in known_hit:
            print(f"KNOWN-FINDING: property={self.pid} {what}")
        if new:
            rp = f"{VERIF}/evidence/replay-{self.pid}-{self.tier}-{self.seed}.json"
            json.dump(new, open(rp, "w"), indent=1, default=str)
            for v in new[:10]:
                print(f"  violated [{v['key']}]: {v['msg']}")
                if v["witness"] is not None:
                    print("    witness: " + json.dumps(v["witness"], default=str)[:1500])
            print(f"VIOLATION property={self.pid} replay={rp}", flush=True)
            sys.exit(1)
        if self.evals == 0 or len(self.distinct) == 0:
            die("no events were observed")
        print(f"[{self.pid}] ok: {self.evals} evaluations, {len(self.distinct)} distinct, "
              f"{time.time()-self.t0:.1f}s", flush=True)
        sys.exit(0)


class Proc:
    """A driver process spoken to line by line.  ask() returns None once it has died."""
    def __init__(self, c, cmd, cwd, env, user, popen):
        self.c, self.hist, self.dead = c, [], None
        self.errf = tempfile.TemporaryFile(dir=c.scratch)
        e = dict(os.environ, CM_VERBOSE="false", HOME=c.scratch, LANG="C.UTF-8")
        e["PATH"] = REPO + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
        e.update(env or {})
        kw = dict(user=user, group=user, extra_groups=[]) if user is not None else {}
        kw.setdefault("start_new_session", True)
        kw.update(popen)
        self.p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.errf, bufsize=0, **kw)
        self.buf = b""
        self.pid = self.p.pid
        c.groups.add(self.pid)

    def send(self, line):
        self.hist.append(line if len(line) < 400 else line[:400] + "...")
        self.hist = self.hist[-60:]
        try:
            data = line.encode("latin-1") + b"\n"
            while data:
                data = data[os.write(self.p.stdin.fileno(), data):]
        except (BrokenPipeError, ValueError):
            pass

    def recv(self, timeout=30):
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.dead = "no answer after %g s" % timeout
                return None
            if select.select([fd], [], [], left)[0]:
                b = os.read(fd, 1 << 16)
                if not b:
                    self.p.wait()
                    self.dead = f"process ended (rc={self.p.returncode})"
                    return None
                self.buf += b
        l, self.buf = self.buf.split(b"\n", 1)
        return l.decode("latin-1")

    def ask(self, line, timeout=30):
        if self.dead:
            return None
        self.send(line)
        return self.recv(timeout)

    def close(self, timeout=20):
        """End the session; monitor reports become violations.  Returns the exit code (None if killed)."""
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self.p.stdin = None
        rest = b""
        try:
            rest = self.p.communicate(timeout=timeout)[0] if self.dead is None else b""
        except (subprocess.TimeoutExpired, ValueError):
            self.dead = self.dead or "does not end"
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.p.kill()
        self.p.wait()
        self.c.groups.discard(self.pid)
        self.errf.seek(0)
        self.err = self.errf.read()
        self.errf.close()
        self.c.scan_monitors(Result(self.p.returncode, self.buf + (rest or b"") + self.err, False), {"ops": self.hist[-12:]})
        return None if self.dead else self.p.returncode


class Result:
    def __init__(self, rc, out, timeout):
        self.rc, self.out, self.timeout = rc, out, timeout

    @property
    def text(self):
        return self.out.decode("utf-8", "replace")


def main(fn):
    """Run a check body. An exception in the harness does not hide violations already found; one raised while taking
    apart what the program answered means that the answer has not the form it always has, which is a violation as well;
    any other is an error (exit 2)."""
    try:
        fn()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        c = Check.current
        if c is not None and c.built and not c.viol and isinstance(e, (ValueError, IndexError, KeyError, AttributeError, TypeError, EOFError, BrokenPipeError)):
            c.violation("unreadable", f"an answer of the program is not of the expected form ({type(e).__name__}: {str(e)[:200]})",
                        {"traceback": traceback.format_exc()[-1500:]})
        if c is not None and c.viol:
            try:
                c.finish()
            except SystemExit:
                raise
            except BaseException:
                traceback.print_exc()
        die("unexpected exception in the harness")


def hx(s):
    if isinstance(s, str):
        s = s.encode("latin-1")
    return s.hex() or "-"


def unhx(s):
    return b"" if s == "-" else bytes.fromhex(s)


def run_ops(c, img, name, lines, shards=None, timeout=300, rt=None, rtargs=(), env=None):
    """Feed op lines to a Drv workload (sharded over processes at '@reset' boundaries or evenly);
    returns the list of result lines, or None after reporting that the workload died."""
    shards = shards or NPROC
    if any(l.startswith("@reset") for l in lines):
        groups, cur = [], []
        for l in lines:
            if l.startswith("@reset") and cur:
                groups.append(cur)
                cur = []
            cur.append(l)
        groups.append(cur)
    else:
        k = max(1, (len(lines) + shards - 1) // shards)
        groups = [lines[i:i + k] for i in range(0, len(lines), k)]
    buckets = [[] for _ in range(min(shards, len(groups)) or 1)]
    per = (len(groups) + len(buckets) - 1) // len(buckets)
    for i, g in enumerate(groups):
        buckets[i // per].extend(g)
    d = c.dir("ops-" + name)

    def one(ib):
        i, b = ib
        if not b:
            return []
        inp = c.write(f"{d}/{i}.in", "\n".join(b) + "\n")
        outp = f"{d}/{i}.out"
        for attempt in (1, 2):
            r = c.run_heap(img, [inp, outp] + (["flush"] if attempt == 2 else []),
                           timeout=timeout, rt=rt, rtargs=rtargs, env=env)
            try:
                got = open(outp, encoding="latin-1", newline="\n").read().split("\n")
            except FileNotFoundError:
                got = [""]
            if len(got) >= 2 and got[-2] == "@@END" and r.rc == 0:
                if len(got) - 2 != len(b):
                    c.violation(f"died:{name}", f"{len(got)-2} results for {len(b)} operations",
                                {"output": r.text[-500:]})
                    return None
                return got[:-2]
        idx = max(0, len(got) - 1)
        c.violation(f"died:{name}", f"workload process died (rc={r.rc}, timeout={r.timeout}) at op #{idx}",
                    {"ops": b[max(0, idx - 10):idx + 1], "output": r.text[-1500:]})
        return None
    res = c.pmap(one, list(enumerate(buckets)))
    if any(x is None for x in res):
        return None
    return [l for x in res for l in x]
