"""What the command-line harnesses share: building the tool and the library,
driving Hypothesis over several processes, replay files, and a model of a ring.

A case is plain data (JSON). Hypothesis generates and shrinks it; a failure
counts only if the shrunk case fails three times in a row.
"""
import ctypes, errno, glob, hashlib, json, multiprocessing, os, random, shutil, signal, socket, subprocess, sys, tempfile, time, traceback
from collections import Counter, deque
from concurrent.futures import ThreadPoolExecutor

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WAIT = 25.0            # seconds until something that should happen counts as hanging


class Fail(Exception):
    pass


class Discard(Exception):
    pass


def require(cond, *msg):
    if not cond:
        raise Fail(" ".join(str(m) for m in msg))


def show(b, n=40):
    return "%d bytes %r%s" % (len(b), bytes(b[:n]), ".." if len(b) > n else "")


# ---------------------------------------------------------------- build
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]


def build(tmp):
    import re
    inc = ["-I" + REPO + "/src", "-I" + REPO + "/lib"]
    lib = [f for f in sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/lib/*.c"))
           if not re.search(r"^\s*int\s+main\s*\(", open(f, errors="replace").read(), re.M)]
    tool = sorted(glob.glob(REPO + "/util/*.c"))
    jobs = [["gcc", "-g", "-O1", "-w", "-fPIC", "-shared", "-DSHR_SILENT", "-DBW_SILENT"] + inc + lib + ["-o", tmp + "/libring.so"],
            ["gcc", "-g", "-O1", "-w"] + inc + tool + lib + ["-o", tmp + "/shr-tool"],
            ["gcc", "-g", "-O1", "-w"] + ASAN + inc + tool + lib + ["-o", tmp + "/shr-tool-asan"]]

    with ThreadPoolExecutor(4) as ex:
        list(ex.map(must, jobs))


def must(c):
    p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write("build failed: %s\n%s\n" % (" ".join(c), p.stdout))
        os._exit(2)


# ---------------------------------------------------------------- the library
class iovec(ctypes.Structure):
    _fields_ = [("base", ctypes.c_void_p), ("len", ctypes.c_size_t)]


class timeval(ctypes.Structure):
    _fields_ = [("sec", ctypes.c_long), ("usec", ctypes.c_long)]


class stat_t(ctypes.Structure):
    _fields_ = [("start", timeval)] + [(k, ctypes.c_size_t) for k in ("bw", "br", "mw", "mr", "md", "bd", "bn", "bu", "mu", "mm", "cn", "cm", "cb")] + [("flags", ctypes.c_uint)]


KEEPEXIST, DROP, APPDATA, FARM, MAXMSGS, SYNC, MLOCK = 1, 2, 4, 8, 16, 32, 64
RDONLY, WRONLY, NONBLOCK = 1 << 13, 1 << 14, 1 << 15
L = None


def load(tmp):
    global L
    L = ctypes.CDLL(tmp + "/libring.so")
    p, z, s, u = ctypes.c_void_p, ctypes.c_size_t, ctypes.c_ssize_t, ctypes.c_uint
    L.shr_init.restype = ctypes.c_int
    L.shr_open.restype, L.shr_open.argtypes = p, [ctypes.c_char_p, u]
    L.shr_close.argtypes = [p]
    L.shr_read.restype, L.shr_read.argtypes = s, [p, p, z]
    L.shr_write.restype, L.shr_write.argtypes = s, [p, ctypes.c_char_p, z]
    L.shr_stat.restype, L.shr_stat.argtypes = ctypes.c_int, [p, ctypes.POINTER(stat_t), ctypes.POINTER(timeval)]
    L.shr_appdata.argtypes = [p, ctypes.POINTER(p), p, ctypes.POINTER(z)]
    L.free.argtypes = [p]


def ring_create(path, n, mm=0, flags=0, app=b""):
    a = []
    if app:
        flags |= APPDATA
        a += [ctypes.c_char_p(app), ctypes.c_size_t(len(app))]
    if mm:
        flags |= MAXMSGS
        a += [ctypes.c_size_t(mm)]
    r = L.shr_init(path.encode(), ctypes.c_size_t(n), ctypes.c_uint(flags), *a)
    require(r == 0, "the library cannot create a ring of", n)


class Handle:
    def __init__(self, path, flags):
        self.h = L.shr_open(path.encode(), flags)
        require(self.h, "the library cannot open", path)
        self.buf = None

    def read(self, cap=1 << 21):
        if self.buf is None:
            self.buf = ctypes.create_string_buffer(cap)
        r = L.shr_read(self.h, self.buf, cap)
        require(r >= 0, "library read returned", r)
        return ctypes.string_at(self.buf, r)

    def write(self, b):
        return L.shr_write(self.h, b, len(b))

    def stat(self, reset=None):
        s = stat_t()
        require(L.shr_stat(self.h, ctypes.byref(s), ctypes.byref(timeval(*reset)) if reset else None) == 0, "library stat failed")
        return {k: getattr(s, k) for k in ("bw", "br", "mw", "mr", "md", "bd", "bn", "bu", "mu", "mm", "flags")}

    def app(self):
        p, z = ctypes.c_void_p(), ctypes.c_size_t(0)
        if L.shr_appdata(self.h, ctypes.byref(p), None, ctypes.byref(z)) != 0:
            return b""
        b = ctypes.string_at(p, z.value)
        L.free(p)
        return b

    def close(self):
        if self.h:
            L.shr_close(self.h)
            self.h = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def reader(path):
    return Handle(path, RDONLY | NONBLOCK)


def writer(path):
    return Handle(path, WRONLY | NONBLOCK)


def drain(path):
    out = []
    with reader(path) as r:
        while True:
            b = r.read()
            if not b:
                return out
            out.append(b)


class Ring:
    """reference model of a ring holding byte strings"""

    def __init__(self, n, mm, mode="plain"):
        self.n, self.mm, self.mode, self.q, self.u = n, mm, mode, deque(), 0
        self.c = Counter()

    def room(self, l):
        return self.u + l <= self.n and len(self.q) < self.mm

    def pop(self):
        b = self.q.popleft()
        self.u -= len(b)
        return b

    def write(self, b):     # True: stored; False: must wait; None: impossible
        if not b or len(b) > self.n:
            return None
        if self.mode == "plain" and not self.room(len(b)):
            return False
        while not self.room(len(b)):
            x = self.pop()
            self.c["md"] += 1
            self.c["bd"] += len(x)
        self.q.append(b)
        self.u += len(b)
        self.c["mw"] += 1
        self.c["bw"] += len(b)
        return True

    def read(self, k=None):  # by a reader that opens the ring just now
        out = list(self.q)[:k]
        if self.mode != "farm":
            for _ in out:
                self.pop()
        self.c["mr"] += len(out)
        self.c["br"] += sum(map(len, out))
        return out


MODEFLAGS = {"plain": 0, "drop": DROP, "farm": FARM}


def payload(spec):
    """bytes from JSON: hex string, or [length, seed]"""
    if isinstance(spec, str):
        return bytes.fromhex(spec)
    n, s = spec
    return random.Random(s).randbytes(n)


# ---------------------------------------------------------------- processes
_procs = []
_cwd = [None]      # the case's directory: what the tool makes by mistake it makes there


def _die():
    import ctypes as c
    c.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)


def spawn(argv, **kw):
    kw.setdefault("stdin", subprocess.DEVNULL)
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.PIPE)
    kw.setdefault("cwd", _cwd[0])
    p = subprocess.Popen(argv, **kw)
    _procs.append(p)
    return p


def reap_all():
    for p in _procs:
        if p.poll() is None:
            p.kill()
        try:
            p.wait(5)
        except Exception:
            pass
        for f in (p.stdin, p.stdout, p.stderr):
            try:
                f and f.close()
            except Exception:
                pass
    _procs.clear()


def run(argv, input=None, timeout=WAIT, **kw):
    """run to completion: (exit status, stdout, stderr)"""
    if input is not None:
        kw["stdin"] = subprocess.PIPE
    p = spawn(argv, **kw)
    try:
        o, e = p.communicate(input, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        raise Fail("hangs:", argv)
    except BrokenPipeError:
        o, e = p.communicate()
    sane(p, e, argv)
    return p.returncode, o, e


def sane(p, err, argv):
    require(b"AddressSanitizer" not in (err or b""), "memory error in", argv, (err or b"")[:2500].decode(errors="replace"))
    require(p.returncode is None or p.returncode >= 0, argv, "died of signal", -(p.returncode or 0), (err or b"")[-300:].decode(errors="replace"))


def wait_until(f, what, timeout=WAIT):
    t0, d = time.time(), 0.0005
    while True:
        r = f()
        if r:
            return r
        if time.time() - t0 > timeout:
            raise Fail("does not happen:", what)
        time.sleep(d)
        d = min(d * 1.5, 0.02)


def suspend(p):
    """stop the process and let it go on, as a shell's job control does"""
    if p.poll() is None:
        p.send_signal(signal.SIGSTOP)

        def stopped():
            try:
                return open("/proc/%d/stat" % p.pid).read().rsplit(")", 1)[1].split()[0] in "TtZ"
            except OSError:
                return True
        wait_until(stopped, "the process stops")
        p.send_signal(signal.SIGCONT)


def wait_idle(p, limit=2):
    """give a process the time to do what it has been given to do: until it sleeps"""
    t0, idle = time.time(), 0
    while idle < 3 and time.time() - t0 < limit:
        try:
            idle = idle + 1 if open("/proc/%d/stat" % p.pid).read().rsplit(")", 1)[1].split()[0] in "STtZ" else 0
        except OSError:
            return
        time.sleep(0.0004)


def stays_alive(p, what):
    if p.poll() is not None:
        e = p.stderr.read() if p.stderr else b""
        sane(p, e, what)
        raise Fail("%s ended with %d %r" % (what, p.returncode, e[-300:]))


# ---------------------------------------------------------------- driving
class Ctx:
    """per process: where to work, statistics"""

    def __init__(self, tmp, scratch):
        self.tmp, self.scratch, self.tool = tmp, scratch, tmp + "/shr-tool"
        self.asan = tmp + "/shr-tool-asan"
        self.labels, self.trace, self.nt = Counter(), [], False
        self.k = 0

    def log(self, *a):
        self.trace.append(" ".join(str(x) for x in a))

    def label(self, k, n=1):
        self.labels[k] += n

    def dir(self):
        self.k += 1
        d = "%s/c%d" % (self.scratch, self.k)
        os.mkdir(d)
        return d

    def bin(self, case):
        return self.asan if case.get("asan") else self.tool


def where(e):
    t = traceback.extract_tb(e.__traceback__)[-1]
    return "%s:%s" % (os.path.basename(t.filename), t.lineno)


def run_once(ctx, fn, case):
    ctx.trace, ctx.nt = [], False
    d = _cwd[0] = ctx.dir()

    def alarm(*a):
        raise Fail("the case hangs")
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(110)
    try:
        fn(ctx, case, d)
    except (Fail, Discard, MemoryError):
        raise
    except OSError as e:
        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM):   # the sandbox, not the tool
            raise
        raise Fail("%s: %s at %s" % (type(e).__name__, e, where(e)))
    except Exception as e:    # output that cannot be made sense of
        raise Fail("%s: %s at %s" % (type(e).__name__, e, where(e)))
    finally:
        signal.alarm(0)
        reap_all()
        shutil.rmtree(d, ignore_errors=True)


def _worker(i, tmp, scratch, fn, strategy, examples, seed, budget, q):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    os.setpgid(0, 0)
    _die()
    load(tmp)
    ctx = Ctx(tmp, scratch)
    st = {"cases": 0, "nontrivial": set(), "discarded": 0, "unreproduced": 0, "samples": [], "cut": False, "fail": None}
    t0 = time.time()
    shrink0 = [None]

    batch = [0]

    @settings(max_examples=150, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), phases=[Phase.generate] + ([] if os.environ.get("VERIF_NOSHRINK") else [Phase.shrink]), print_blob=False)
    @given(strategy)
    def test(case):
        if shrink0[0] is None and time.time() - t0 > budget:
            st["cut"] = True
            return
        if shrink0[0] is not None and time.time() - shrink0[0] > 25:
            raise_known(case)
            return
        st["cases"] += 1
        try:
            run_once(ctx, fn, case)
        except Discard:
            st["discarded"] += 1
            return
        except Fail as e:
            if shrink0[0] is None:
                shrink0[0] = time.time()
            if st["fail"] is None or len(json.dumps(case)) <= len(json.dumps(st["fail"][0])):
                st["fail"] = (case, str(e), list(ctx.trace))
            st.setdefault("bad", set()).add(json.dumps(case, sort_keys=True))
            raise
        if ctx.nt:
            h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()
            st["nontrivial"].add(h)
            if len(st["samples"]) < 2:
                st["samples"].append({"case": json.dumps(case)[:600], "trace": ctx.trace[:14]})

    def raise_known(case):   # out of time for shrinking: only what has failed before fails
        if json.dumps(case, sort_keys=True) in st.get("bad", ()):
            raise Fail("seen")

    left = 3
    while left:
        try:
            while st["cases"] < examples and not st["cut"]:   # in batches: Hypothesis slows down as it goes on
                batch[0] += 1
                before = st["cases"]
                hypothesis.seed(seed * 1000003 + i * 7001 + batch[0])(test)()
                if st["cases"] == before:
                    break
            st["fail"] = None
            break
        except Exception as e:
            if st["fail"] is None:
                st["error"] = traceback.format_exc()
                break
            case, msg, _ = st["fail"]
            ok = 0
            for _ in range(3):
                try:
                    run_once(ctx, fn, case)
                    break
                except Fail as e2:
                    ok += 1
                    st["fail"] = (case, str(e2), list(ctx.trace))
                except Exception:
                    break
            if ok == 3:
                break
            sys.stderr.write("case did not reproduce: %s\n%s\n" % (msg, json.dumps(case)[:1500]))
            st["unreproduced"] += 1
            st["fail"], shrink0[0] = None, None
            left -= 1
            seed += 7919
    st["nontrivial"] = len(st["nontrivial"])
    st["labels"] = dict(ctx.labels)
    st.pop("bad", None)
    q.put(st)


def scratch_root():
    for b in ("/dev/shm", "/tmp"):
        try:
            d = tempfile.mkdtemp(prefix="verif-tool.", dir=b)
            os.chmod(d, 0o755)
            return d
        except OSError:
            pass
    raise SystemExit(2)


def main(harness, checks, extra=None):
    """checks: {property: [(name, strategy, fn, quick, thorough, rule)]}; argv: ID seed tier tmp out [--replay F]"""
    pid, seed, tier, tmp, out = sys.argv[1:6]
    replay = sys.argv[7] if len(sys.argv) > 7 and sys.argv[6] == "--replay" else None
    scratch = scratch_root()
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = tmp + "/hypothesis"
    status = 2
    try:
        build(tmp)
        if extra:
            extra(tmp)
        for f in glob.glob(tmp + "/shr-tool*"):   # where other users may run it
            shutil.copy(f, scratch)
        if replay:
            txt = open(replay).read()
            doc = json.loads(txt[txt.index("\n{") + 1:])
            fn = next(c[2] for c in checks[pid] if c[0] == doc["check"])
            load(tmp)
            os.mkdir(scratch + "/replay-0")
            os.chmod(scratch + "/replay-0", 0o755)
            ctx = Ctx(tmp, scratch + "/replay-0")
            try:
                run_once(ctx, fn, doc["case"])
                print("no violation")
                status = 0
            except Fail as e:
                print("\n".join(ctx.trace))
                print(e)
                print("VIOLATION property=%s replay=%s" % (pid, replay))
                status = 1
            return status
        res = {"evaluations": 0, "distinct_nontrivial": 0, "discarded": 0, "unreproduced": 0, "rule": "", "per_check": [], "labels": {}, "samples": [], "violations": 0}
        status = 0
        n = int(os.environ.get("VERIF_WORKERS") or min(8, os.cpu_count() or 4))
        budget = (700 if tier == "quick" else 3000) / len(checks[pid])
        for name, strategy, fn, quick, thorough, rule in checks[pid]:
            total = int((quick if tier == "quick" else thorough) * float(os.environ.get("VERIF_SCALE") or 1))
            t0 = time.time()
            q, ps = multiprocessing.Queue(), []
            for i in range(n):
                sc = "%s/%s-%d" % (scratch, name, i)
                os.mkdir(sc)
                os.chmod(sc, 0o755)
                p = multiprocessing.Process(target=_worker, args=(i, tmp, sc, fn, strategy, max(1, total // n), int(seed), budget, q))
                p.start()
                ps.append(p)
            sts, err = [], None
            while len(sts) < n:
                try:
                    st = q.get(timeout=5)
                except Exception:
                    if not any(p.is_alive() for p in ps) and q.empty():
                        err = "a worker ended"
                        break
                    continue
                sts.append(st)
                if st.get("error"):
                    err = st["error"]
                    break
                if st["fail"]:
                    break
            for p in ps:
                if p.is_alive() and (err or len(sts) < n):
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        p.kill()
                p.join()
            if err:
                sys.stderr.write("%s: %s\n" % (name, err))
                status = 2
                return status
            cases, nt = sum(s["cases"] for s in sts), sum(s["nontrivial"] for s in sts)
            res["evaluations"] += cases
            res["distinct_nontrivial"] += nt
            res["discarded"] += sum(s["discarded"] for s in sts)
            res["unreproduced"] += sum(s["unreproduced"] for s in sts)
            res["rule"] += (" | " if res["rule"] else "") + name + ": " + rule
            res["per_check"].append({"check": name, "cases": cases, "nontrivial": nt, "discarded": sum(s["discarded"] for s in sts), "cut_short": any(s["cut"] for s in sts)})
            for s in sts:
                for k, v in s["labels"].items():
                    res["labels"][k] = res["labels"].get(k, 0) + v
            res["samples"] += [x for s in sts for x in s["samples"]][:3]
            fails = [s["fail"] for s in sts if s["fail"]]
            if fails:
                case, msg, trace = min(fails, key=lambda f: len(json.dumps(f[0])))
                h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
                f = "%s/replays/%s-%s.replay" % (VERIF, pid, h)
                with open(f, "w") as fh:
                    fh.write("property %s\nharness %s\n# %s\n" % (pid, harness, msg.replace("\n", "\n# ")) + "".join("# %s\n" % t for t in "\n".join(trace).split("\n")) + "\n" + json.dumps({"check": name, "case": case}) + "\n")
                print("%s: %s" % (name, msg))
                print("\n".join(trace))
                print("VIOLATION property=%s replay=%s" % (pid, f))
                res["violations"] = 1
                status = 1
            print("%s %s: %d cases, %d non-trivial, %.1f s" % (pid, name, cases, nt, time.time() - t0))
            sys.stdout.flush()
            if status:
                break
        json.dump(res, open(out, "w"))
        return status
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def end(harness, checks, extra=None):
    rc = main(harness, checks, extra)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
