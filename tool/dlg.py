"""C29: delegates. The tool runs as an unprivileged user in a scratch directory; all it finds to run are probes."""
import glob
from common import *
from hypothesis import strategies as S

BUILTIN = ["status", "create", "mount", "read", "readhex", "write", "writefile", "writehex", "pub", "sub", "tee"]
USER = [True]


def extra_build(tmp):
    must(["gcc", "-O1", "-w", VERIF + "/tool/probe.c", "-o", tmp + "/shr-tool-probe"])


def side(p, suffix):
    """where the probe p leaves and finds its notes"""
    x = 14695981039346656037
    for c in os.fsencode(p):
        x = (x ^ c) * 1099511628211 % (1 << 64)
    return "%s/%016x%s" % (os.path.dirname(p), x, suffix)


word = S.text("abcxyz-_. 09%A\u00e9", min_size=1, max_size=12)
arg = S.one_of(word, S.sampled_from(["", "-b", "--", "-N5", "-x", "a b", "*", "$HOME", "\n", "status", "-"]), S.text(S.characters(blacklist_characters="\0", blacklist_categories=("Cs",)), max_size=20), S.integers(1, 100000).map(lambda n: n))


@S.composite
def dlg_case(draw):
    near = S.sampled_from(BUILTIN).flatmap(lambda b: S.sampled_from([b[:-1], b + "s", b.upper(), " " + b, b + " ", "-" + b, b + "/", b + "\n", b[1:]]))
    cmd = draw(S.one_of(word, word, word, near, S.sampled_from(["bench", "x/prog", "x/./prog", "x/../y", "-h", "--help", "", ".", "..", "-", "LONG", "LONG", "LONG"]), S.sampled_from(BUILTIN), S.integers(240, 260).map(lambda n: "n" * n)))
    env = draw(S.dictionaries(S.text("ABCD_xyz", min_size=1, max_size=6).filter(lambda k: not k.startswith("LD_")), S.one_of(word, S.just(""), S.just("a=b=c"), S.integers(1, 20000).map(lambda n: "e" * n)), max_size=6))
    return {"asan": draw(S.integers(0, 3)) == 0, "tool": draw(S.sampled_from(["shr-tool", "shr-tool", "shr", "tool with space", "t-" + "u" * 40])), "depth": draw(S.sampled_from([0, 0, 0, 1, 3, 15])), "cmd": cmd,
            "total": draw(S.one_of(S.integers(4090, 4100), S.integers(4094, 4097), S.integers(300, 4200))),
            "kind": draw(S.sampled_from(["exec"] * 5 + ["script", "symlink", "absent", "absent", "plain", "dir", "garbage", "noread", "dangling", "script-bad"])), "rc": draw(S.one_of(S.just(0), S.integers(0, 255), S.sampled_from([1, 255, -15, -9]))),
            "how": draw(S.sampled_from(["abs", "abs", "rel", "symlink", "symlink2", "symrel", "symdir", "path", "argv0", "hardlink"])), "argv0": draw(S.one_of(word, S.just("/bin/true"), S.just(""))),
            "args": draw(S.one_of(S.lists(arg, max_size=6), S.lists(arg, max_size=6), S.integers(7, 300).map(lambda n: [str(k) for k in range(n)]))), "env": env, "noargs": draw(S.integers(0, 25)) == 0,
            "decoys": draw(S.booleans())}


def dlg(ctx, case, d):
    src = os.path.dirname(ctx.scratch)
    base = d + "/bin" + "".join("/" + "p" * 200 for _ in range(case["depth"]))
    os.makedirs(base)
    for x in ("cwd", "path", "links", "links2"):
        os.mkdir(d + "/" + x)
    exe = base + "/" + case["tool"]
    os.link(src + ("/shr-tool-asan" if case["asan"] else "/shr-tool"), exe)
    exe = os.path.realpath(exe)
    cmd = case["cmd"]
    probe = src + "/shr-tool-probe"
    if cmd == "LONG":
        # a name that makes the delegate's path (with its NUL) this long
        k = case["total"] - len(exe.encode()) - 1 - len("x/prog") - 1
        if k < 0:
            raise Discard()
        cmd = "x/" + "./" * (k // 2) + ("/" if k % 2 else "") + "prog"
    target = exe + "-" + cmd
    fits = len(target.encode()) + 1 <= 4096
    kind = case["kind"]
    builtin = cmd in BUILTIN
    made = None

    def place(p, kind="exec"):
        if len(os.path.basename(p).encode()) > 255:
            return None
        try:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            q = os.path.normpath(os.path.realpath(os.path.dirname(p)) + "/" + os.path.basename(p))
            if os.path.basename(p) in ("", ".", "..") or os.path.lexists(q):
                return None
            if kind in ("exec", "symlink", "noread"):
                t = q if kind != "symlink" else q + ".real"
                (os.link if kind == "exec" else shutil.copy)(probe, t)
                open(side(t, ".rc"), "w").write(str(case["rc"]))
                if kind == "symlink":
                    os.symlink(t, q)
                if kind == "noread":
                    os.chmod(t, 0o111)
                return t
            if kind == "script":
                os.link(probe, q + ".interp")
                open(side(q + ".interp", ".rc"), "w").write(str(case["rc"]))
                open(q, "w").write("#!%s.interp\n" % q)
                os.chmod(q, 0o755)
                return q + ".interp" if len(q) < 200 and "\n" not in q and " " not in q and "\t" not in q and "\r" not in q else None
            if kind == "script-bad":
                open(q, "w").write("#!/nonexistent/interpreter\n")
                os.chmod(q, 0o755)
            elif kind == "plain":
                shutil.copy(probe, q)
                os.chmod(q, 0o644)
            elif kind == "dir":
                os.mkdir(q)
            elif kind == "garbage":
                open(q, "wb").write(b"\x01\x02\x03 no program")
                os.chmod(q, 0o755)
            elif kind == "dangling":
                os.symlink("nowhere", q)
            return q
        except OSError:
            return None
    tp = None
    if kind != "absent":
        long = cmd.startswith("x/") and cmd.endswith("/prog") and len(cmd) > 200
        tp = place(exe + "-x/prog" if long else target, kind)
        if tp is None:
            raise Discard()
    runs = kind in ("exec", "symlink", "noread", "script") and fits and not builtin
    if case["decoys"] and "/" not in cmd:
        for p in (d + "/cwd/" + case["tool"] + "-" + cmd, d + "/path/" + case["tool"] + "-" + cmd, d + "/path/" + cmd, d + "/cwd/" + cmd, d + "/links/" + case["tool"] + "-" + cmd, d + "/links2/" + case["tool"] + "-" + cmd, d + "/links/lnk-" + cmd, base + "/" + cmd, base + "/" + case["tool"] + cmd, exe + "-" + cmd[:-1] if len(cmd) > 1 else base + "/none"):
            place(p)
    argv = [a if isinstance(a, str) else "L" * a for a in case["args"]]
    env = dict(case["env"])
    env["PATH"] = d + "/path"
    how = case["how"]
    ex = None
    a0 = exe
    if how == "rel":
        a0 = os.path.relpath(exe, d + "/cwd")
    elif how == "symlink":
        a0 = d + "/links/" + case["tool"]
        os.symlink(exe, a0)
    elif how == "symlink2":
        os.symlink(exe, d + "/links/" + case["tool"])
        a0 = d + "/links2/" + case["tool"]
        os.symlink(d + "/links/" + case["tool"], a0)
    elif how == "symrel":
        a0 = d + "/links/" + case["tool"]
        os.symlink(os.path.relpath(exe, os.path.realpath(d + "/links")), a0)
    elif how == "symdir":
        os.symlink(base, d + "/links2/dir")
        a0 = d + "/links2/dir/" + case["tool"]
    elif how == "path":
        env["PATH"] = d + "/path:" + base
        a0, ex = case["tool"], exe
    elif how == "argv0":
        a0, ex = case["argv0"], exe
    full = [a0] + ([] if case["noargs"] else [cmd] + argv)
    if case["noargs"]:
        runs = False
    for r, ds, fs in os.walk(d):
        os.chown(r, 65534, 65534)
    kw = dict(user=65534, group=65534, extra_groups=[]) if USER[0] and os.getuid() == 0 else {}
    if kind == "noread" and os.getuid() == 0:
        kw = kw and dict(kw)
    sh = dict(executable=ex) if ex else {}
    enc = {os.fsencode(k): os.fsencode(v) for k, v in env.items()}
    fargv = [os.fsencode(a) for a in full]
    try:
        p = spawn(fargv, cwd=d + "/cwd", env=enc, **sh, **kw)
    except PermissionError:
        USER[0] = False
        kw = {}
        p = spawn(fargv, cwd=d + "/cwd", env=enc, **sh)
    try:
        o, e = p.communicate(timeout=WAIT)
    except subprocess.TimeoutExpired:
        raise Fail("hangs:", full[:4])
    require(b"AddressSanitizer" not in e, "memory error", e[:2500].decode(errors="replace"))
    rc = p.returncode
    notes = [open(os.path.join(r, f), "rb").read() for r, ds, fs in os.walk(d) for f in fs if len(f) == 20 and f.endswith(".ran")]
    ran = [os.fsdecode(x.split(b"\0")[0]) for x in notes]
    ctx.log("tool", exe[-40:], "command", repr(cmd if len(cmd) < 60 else cmd[:20] + "..%d.." % len(cmd) + cmd[-8:]), "path length", len(target.encode()) + 1, "delegate:", kind, "; run by", how, "with", len(argv), "arguments ->", rc, [x[-30:] for x in ran])
    if not runs:
        require(not ran, "runs", ran, "although", "the command is built in" if builtin else "there is no such delegate" if fits else "the name is too long")
        if not builtin:
            require(rc not in (0, None) and rc > 0, "ends with", rc, "although there is nothing to run")
            require(b"usage:" in e + o, "prints no usage:", e[-200:])
        ctx.label("nothing to run")
        return
    require(ran == [os.path.realpath(tp)] or ran == [tp], "runs", ran, "expected", tp, "; output", e[-200:])
    parts = notes[0].split(b"\0")[1:]
    n = int(parts[0])
    gota, gote = parts[1:1 + n], parts[1 + n:-1]
    wa = [os.fsencode(a) for a in argv]
    if kind == "script":
        require(gota[2:] == wa, "the delegate gets", gota[2:], "expected", wa)
    else:
        require(n >= 1 and gota[1:] == wa, "the delegate gets", [show(a) for a in gota[1:9]], "of", n - 1, "expected", [show(a) for a in wa[:9]], "of", len(wa))
    we = sorted(k + b"=" + v for k, v in enc.items())
    require(sorted(gote) == we, "the delegate's environment is", sorted(gote)[:20], "expected", we[:20])
    require(rc == case["rc"], "exits with", rc, "the delegate with", case["rc"])
    require(b"usage:" not in e + o, "prints its usage although a delegate exists")
    ctx.label("delegates run")
    if argv:
        ctx.nt = True


CHECKS = {"C29": [("c29-delegate", dlg_case(), dlg, 8000, 300000, "one invocation by any route with any command name, arguments and environment; the delegate present, absent or not executable; decoys elsewhere; what ran, its arguments, environment and exit status compared; non-trivial: a delegate ran with arguments")]}
if __name__ == "__main__":
    end("dlg", CHECKS, extra_build)
