"""C28: mount, with stand-ins for the system calls (vmnt.c), as an unprivileged user in a scratch directory."""
import glob, re
from common import *
from hypothesis import strategies as S

DIRS = ["a", "b", "a/c", "a/c/e", "w x", "d-1"]
RAM = ("tmpfs", "ramfs", "hugetlbfs")


def extra_build(tmp):
    inc = ["-I" + REPO + "/src", "-I" + REPO + "/lib"]
    lib = [f for f in sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/lib/*.c")) if not re.search(r"^\s*int\s+main\s*\(", open(f, errors="replace").read(), re.M)]
    for suffix, fl in (("", []), ("-asan", ASAN)):
        objs = []
        for f in sorted(glob.glob(REPO + "/util/*.c")):
            objs.append(tmp + "/m_" + os.path.basename(f) + ".o")
            must(["gcc", "-g", "-O1", "-w", "-U_FORTIFY_SOURCE"] + fl + inc + ["-c", f, "-o", objs[-1]])
            must(["objcopy", "--redefine-syms=" + VERIF + "/tool/vmnt.syms", objs[-1]])
        must(["gcc", "-g", "-O1", "-w", "-U_FORTIFY_SOURCE"] + fl + inc + objs + lib + [VERIF + "/tool/vmnt.c", "-o", tmp + "/shr-tool-mnt" + suffix])


def paths(draw_dirs):
    return S.sampled_from(draw_dirs)


@S.composite
def mnt_case(draw):
    ty = S.sampled_from(["tmpfs", "tmpfs", "ramfs", "hugetlbfs", "ext4"])
    focus = draw(S.sampled_from(DIRS))
    where = S.sampled_from([focus] * 12 + [focus + "/" + x for x in ("x", "x", "x/1", "s t", "c", "c/e")] + DIRS + ["file", "missing", "link", "dangling", "a/missing", "linkdeep", "."])
    deco = S.sampled_from(["%s"] * 6 + ["%s/", "%s//", "%s/.", "./%s", "ABS", "ABS/", "%s/../" + "SELF", "LONG", "TOOLONG", "DOT", "DOT", "UP"])
    size = S.one_of(S.none(), S.integers(1, 9999).map(lambda n: (str(n), n)), S.tuples(S.integers(1, 3000), S.sampled_from("kKmMgGtT")).map(lambda t: (str(t[0]) + t[1], t[0] << {"k": 10, "m": 20, "g": 30, "t": 40}[t[1].lower()])), S.just(("4096m", 4096 << 20)), S.sampled_from([("4096m", 4096 << 20), ("18014398509481985k", -1), ("17179869185G", -1), ("16777216t", -1)]))
    size = size.map(lambda s: s and list(s))
    subs = S.lists(S.sampled_from(["x", "y", "z", "x/1", "x/1/2", "s t", "s-", "x", "dup", "dup", "no/parent"]), max_size=5)
    op = S.one_of(
        S.tuples(S.just("mount"), where, deco, S.one_of(S.none(), ty), size, S.one_of(S.none(), subs), S.sampled_from([0, 0, 0, 0, 1, 22]), S.sampled_from([None] * 5 + [5, 128])),
        S.tuples(S.just("mount"), where, deco, S.one_of(S.none(), ty), size, S.one_of(S.none(), subs), S.just(0), S.none()),
        S.tuples(S.just("mount"), where, deco, S.one_of(S.none(), ty), size, S.one_of(S.none(), subs), S.just(0), S.none()),
        S.tuples(S.just("unmount"), where, deco, S.sampled_from([0, 0, 0, 0, 16]), S.lists(S.sampled_from(DIRS), max_size=2)),
        S.tuples(S.just("query"), where, deco), S.tuples(S.just("query"), where, deco),
        S.tuples(S.just("pre"), S.sampled_from([focus] * 3 + DIRS), ty, S.sampled_from([512, 4096, 65536, 2 << 20]), S.one_of(S.integers(1, 300), S.integers(1, 1 << 28)), S.integers(0, 100)))
    return {"asan": draw(S.integers(0, 3)) == 0, "ops": [list(o) for o in draw(S.lists(op, min_size=1, max_size=8))], "order": draw(S.integers(0, 5)), "join": draw(S.booleans())}


def tree(top):
    out = {}
    for r, ds, fs in os.walk(top):
        for x in ds + fs:
            p = os.path.join(r, x)
            st = os.lstat(p)
            out[os.path.relpath(p, top)] = (st.st_mode & 0o170000, os.readlink(p) if os.path.islink(p) else st.st_size if os.path.isfile(p) else 0)
    return out


USER = [True]


def nobody(ctx, d):
    for r, ds, fs in os.walk(d):
        for x in [r] + [os.path.join(r, f) for f in ds + fs]:
            os.chown(x, 65534, 65534, follow_symlinks=False)


def mnt(ctx, case, d):
    tool, top, vm = os.path.dirname(ctx.scratch) + "/shr-tool-mnt" + ("-asan" if case["asan"] else ""), d + "/w", d + "/vm"
    os.mkdir(top)
    os.mkdir(vm)
    for x in DIRS:
        os.mkdir(top + "/" + x)
        open(top + "/" + x + "/here", "w").write(x)
    open(top + "/file", "w").write("data")
    os.symlink("a", top + "/link")
    os.symlink("a/c", top + "/linkdeep")
    os.symlink("nowhere", top + "/dangling")
    top, vm = os.path.realpath(top), os.path.realpath(vm)
    nobody(ctx, d)
    stack = []     # the pretended mounts: (path, type, bs, bl, bf)
    nid = 1
    ntmounts = 0
    changes = 0

    def table():
        with open(vm + "/table", "w") as f:
            for i, (p, t, bs, bl, bf) in enumerate(stack):
                f.write("%d %s %d %d %d %s\n" % (ids[i], t, bs, bl, bf, p))
        os.chown(vm + "/table", 65534, 65534)

    ids = []

    def read_table():
        stack.clear()
        ids.clear()
        if os.path.exists(vm + "/table"):
            for ln in open(vm + "/table"):
                i, t, bs, bl, bf, p = ln.rstrip("\n").split(" ", 5)
                stack.append((p, t, int(bs), int(bl), int(bf)))
                ids.append(int(i))

    def holder(p):
        b = None
        for e in stack:
            if (p + "/").startswith(e[0] + "/") and (b is None or len(e[0]) >= len(b[0])):
                b = e
        return b

    def name(where, deco):
        """(argument, working directory)"""
        cwd = top
        if deco == "DOT":
            w = top + "/" + where
            return (".", w) if os.path.isdir(w) else (where, top)
        if deco == "UP":
            w = top + "/" + where + "/.."
            return ("../" + os.path.basename(os.path.realpath(top + "/" + where)), os.path.realpath(top + "/" + where)) if os.path.isdir(top + "/" + where) and where != "." else (where, top)
        if deco in ("LONG", "TOOLONG"):
            # the longest path with room for "/.." and one that is too long
            return pad(where, 4092 if deco == "LONG" else 4093), cwd
        if deco.startswith("ABS"):
            return top + "/" + where + deco[3:], cwd
        if "SELF" in deco:
            return (where + "/../" + os.path.basename(where) if where not in (".",) else "."), cwd
        return deco % where, cwd

    def pad(where, n):
        k = n - len(where)
        return ("./" * (k // 2) if k % 2 == 0 else "./" * (k // 2 - 1) + ".//") + where

    def go(argv, cwd):
        lp = vm + "/log"
        if os.path.exists(lp):
            os.unlink(lp)
        kw = dict(user=65534, group=65534, extra_groups=[]) if USER[0] and os.getuid() == 0 else {}
        env = {"PATH": os.environ.get("PATH", ""), "VMNT": vm}
        try:
            rc, o, e = run([tool] + argv, cwd=cwd, env=env, **kw)
        except PermissionError:
            USER[0] = False
            rc, o, e = run([tool] + argv, cwd=cwd, env=env)
        require(rc not in (96, 97, 98, 99), "stand-in failed", rc, e)
        calls = open(lp).read().split("\n")[:-1] if os.path.exists(lp) else []
        return rc, o.decode(errors="replace"), e, calls

    for op in case["ops"]:
        read_table()
        for f in glob.glob(vm + "/fail-*"):
            os.unlink(f)
        if op[0] == "pre":
            # a mount made by someone else
            p = os.path.realpath(top + "/" + op[1])
            if not os.path.isdir(p) or sum(e[0] == p for e in stack) > 3:
                continue
            if any(e[0] == p and e[1] in RAM for e in stack):
                ctx.label("mounted by others on a RAM disk")
            i = max(ids + [0]) + 1
            while os.path.exists("%s/under.%d" % (vm, i)):
                i += 1
            os.rename(p, "%s/under.%d" % (vm, i))
            os.mkdir(p)
            for x in ("", "/x", "/x/1", "/c"):
                os.makedirs(p + x, exist_ok=True)
                os.chown(p + x, 65534, 65534)
            stack.append((p, op[2], op[3], op[4], op[4] * op[5] // 100))
            ids.append(i)
            table()
            ctx.log("someone mounts", op[2], "on", op[1])
            continue
        arg, cwd = name(op[1], op[2])
        full = os.path.join(cwd, arg)
        real = os.path.realpath(full)
        fd = os.open(cwd, os.O_PATH)
        try:
            isdir, exists = os.stat(arg, dir_fd=fd).st_mode & 0o170000 == 0o040000, True
        except OSError:
            isdir = exists = False
        os.close(fd)
        before, t0 = tree(top), list(stack)
        atop = [e for e in stack if e[0] == real]
        isram = bool(isdir and atop and atop[-1][1] in RAM)
        long = len(arg) + 4 > 4096
        shown = arg if len(arg) < 60 else "..(%d characters)" % len(arg)
        if op[0] == "mount":
            _, _, _, ty, size, subs, fail, huge = op
            parts = [["-t", ty] if ty else [], ["-s", size[0]] if size else [], ["-d"] if subs is not None else [], ["-H", str(huge)] if huge else []]
            k = case["order"]
            parts = parts[k % 4:] + parts[:k % 4]
            if case["join"]:
                parts = [["".join(x)] if x else [] for x in parts]
            argv = ["mount"] + sum(parts, []) + [arg] + (subs or [])
            if fail:
                with open(vm + "/fail-mount", "w") as f:
                    f.write(str(fail))
            rc, o, e, calls = go(argv, cwd)
            ctx.log("mount", sum(parts, []), shown, subs, "fails with errno %d" % fail if fail else "", "->", rc, o.strip()[:60], calls)
            mounts = [c for c in calls if c.startswith("mount ")]
            other = [c for c in calls if not c.startswith("mount ") and not c.startswith("open /proc/sys/vm/nr_hugepages")]
            require(not other, "mount also does", other)
            read_table()
            if size and size[1] < 0:
                # a size beyond 64 bits
                require(rc != 0 and not calls and tree(top) == before, "mount with a size of", size[0], "exits with", rc, "and does", calls)
                ctx.label("refused: size too large")
                continue
            if not isdir or long or isram:
                require(not mounts, "mounts although the directory is", "already a RAM disk" if isram else "unsuitable", mounts)
                require(tree(top) == before, "a refused mount changed the directories")
                require(not calls, "a refused mount does", calls)
                require(rc != 0 or isram, "mount on", shown, "succeeds")
                if isram and not long:
                    require("already a ramdisk" in o, "an existing RAM disk is not reported:", o)
                    ctx.label("refused: already a RAM disk")
                else:
                    require("already a ramdisk" not in o, "reports a RAM disk where there is none:", o)
                    ctx.label("refused: no suitable directory")
                continue
            require("already a ramdisk" not in o, "reports a RAM disk where there is none:", o)
            require(len(mounts) == 1, "mount calls:", mounts, "for", shown, "; output", o, e[-200:])
            m = re.fullmatch(r"mount (\d+) (\S+) (\S+) (.*)", mounts[0])
            require(m and m[4] == real, "mounts on", m and m[4], "asked for", real)
            require(m[2] == (ty or "ramfs"), "mounts a", m[2], "asked for", ty or "ramfs (the default)")
            opts = m[3]
            require(opts == ("size=%d" % size[1] if size else "-"), "mounts with options", opts, "asked for size", size)
            require(m[1] == "0", "mounts with flags", m[1])
            if fail:
                require(rc != 0, "a failed mount is reported as success")
                require(tree(top) == before and stack == t0, "a failed mount changed the directories")
                ctx.label("mounts that fail")
                continue
            changes += 1
            # subdirectories: in order, up to the first that cannot be made
            want, ok = [], True
            for s in subs or []:
                if s in want or (os.path.dirname(s) and os.path.dirname(s) not in want):
                    ok = False
                    break
                want.append(s)
            now = tree(top)
            inside = {os.path.relpath(os.path.join(top, p), real) for p in now if os.path.join(top, p).startswith(real + "/")}
            require(inside == set(want), "the new mount holds", sorted(inside), "asked for", subs)
            require(all(now[os.path.relpath(os.path.join(real, s), top)][0] == 0o040000 for s in want), "not directories:", want)
            inreal = lambda p: os.path.join(top, p).startswith(real + "/") or os.path.join(top, p) == real
            require({p: v for p, v in now.items() if not inreal(p)} == {p: v for p, v in before.items() if not inreal(p)}, "mount changed other directories")
            under = tree("%s/under.%d" % (vm, ids[-1]))
            require({os.path.relpath(os.path.join(top, p), real) for p in before if os.path.join(top, p).startswith(real + "/")} == set(under), "mount changed what is underneath:", sorted(under))
            require((rc == 0) == ok, "mount exits with", rc, "although the subdirectories", subs, "can" if ok else "cannot", "be made", e[-200:])
            hp = [c for c in calls if "nr_hugepages" in c]
            f = vm + "/file_proc_sys_vm_nr_hugepages"
            if huge and ok:
                require(os.path.exists(f) and open(f).read().strip() == str(huge), "the number of huge pages is not set")
            else:
                require(not hp, "the number of huge pages is changed")
            if os.path.exists(f):
                os.unlink(f)
            ctx.label("mounted")
            if subs:
                ctx.label("with subdirectories")
            ntmounts += 1
        elif op[0] == "unmount":
            _, _, _, fail, more = op
            if fail:
                with open(vm + "/fail-umount", "w") as f:
                    f.write(str(fail))
            rc, o, e, calls = go(["mount", "-u", arg] + more, cwd)
            ctx.log("unmount", shown, more, "->", rc, calls)
            read_table()
            if not exists:
                require(rc != 0, "unmounts what does not exist")
                require(all(c.startswith("umount ") and " ? " in c for c in calls), "unmount does", calls)
                require(tree(top) == before, "a failed unmount changed the directories")
                continue
            require(len(calls) == 1 and re.fullmatch(r"umount \d+ (.*)", calls[0]) and calls[0].split(" ", 2)[2] == real, "unmount does", calls, "asked for", real)
            mine = max([i for i, x in enumerate(t0) if x[0] == real], default=None)
            if fail or mine is None or stack == t0:
                require(rc != 0, "a failed unmount is reported as success")
                require(tree(top) == before and stack == t0, "a failed unmount changed something")
                ctx.label("unmounts that fail")
            else:
                require(rc == 0, "unmount fails with", rc, e[-200:])
                require(stack == t0[:mine] + t0[mine + 1:], "unmounted something else")
                changes += 1
                ctx.label("unmounted")
        else:
            rc, o, e, calls = go(["mount", "-q", arg], cwd)
            ctx.log("query", shown, "->", o.strip()[-70:])
            require(not calls, "query does", calls)
            require(tree(top) == before, "query changed the directories")
            if not isram or long:
                require(o == arg + ": not a ramdisk\n", "query prints", o, "for a directory that is no RAM disk")
            else:
                _, t, bs, bl, bf = atop[-1]
                require(o.startswith(arg + ": " + t + " "), "query prints", o, "for", t)
                if t == "tmpfs":
                    m = re.search(r"size (\d+) (bytes|kb|mb|gb) \((-?\d+)% used\)", o)
                    require(m, "query prints", o)
                    n = bs * bl
                    u = 0 if n < 1024 else 10 if n < 1 << 20 else 20 if n < 1 << 30 else 30
                    require((int(m[1]), m[2]) == (n >> u, {0: "bytes", 10: "kb", 20: "mb", 30: "gb"}[u]), "query prints", o, "for", n, "bytes")
                    require(abs(int(m[3]) - (100 - bf * 100.0 / bl)) <= 1, "query prints", o, "with", bf, "of", bl, "blocks free")
                ctx.label("queries of " + t)
                changes += 1
    if changes >= 2:
        ctx.nt = True


CHECKS = {"C28": [("c28-mount", mnt_case(), mnt, 6400, 250000, "1..8 of mount, unmount and query on directories, files, links and missing names in every spelling, above, below and on pretended mounts of every type, with failing calls; calls and directory trees compared with a model; non-trivial: two mounts, unmounts or RAM disk queries")]}
if __name__ == "__main__":
    end("mnt", CHECKS, extra_build)
