"""C24: write, writehex, writefile, read, readhex.  C25: create, status."""
import fcntl, functools, os, re, select, time
from common import *
from hypothesis import strategies as S


def data(maxlen):
    small = S.binary(min_size=1, max_size=min(maxlen, 30)).map(bytes.hex)
    mid = S.tuples(S.integers(1, min(maxlen, 5000)), S.integers(0, 9)).map(list)
    texty = S.text("ab \t%\r\x00\x7f", min_size=1, max_size=min(maxlen, 20)).map(lambda t: t.encode().hex())
    return S.one_of(small, small, texty, mid)


DOTS = bytes(c if 0x20 <= c <= 0x7e else 0x2e for c in range(256))


@functools.lru_cache(40)
def dump1(m):
    h, a = m.hex(" ").encode() + b" ", m.translate(DOTS)
    return b"".join([b"%08x %s%s\n" % (i, h[i * 3:i * 3 + 48].ljust(48), a[i:i + 16].ljust(16)) for i in range(0, len(m), 16)])


def undump(out, guess=()):
    """the messages a hex dump denotes"""
    if guess and out == b"".join(map(dump1, guess)):
        return list(guess)
    msgs, cur = [], None
    for ln in out.split(b"\n")[:-1]:
        m = re.fullmatch(rb"([0-9a-f]{8}) ((?:[0-9a-f]{2} ){1,16})((?:   )*)(.{16})", ln, re.S)
        require(m, "not a line of a hex dump:", ln)
        off, b, pad, asc = int(m[1], 16), bytes.fromhex(m[2].decode()), m[3], m[4]
        require(len(b) * 3 + len(pad) == 48, "malformed dump line", ln)
        require(asc == bytes(c if 0x20 <= c <= 0x7e else 0x2e for c in b).ljust(16), "the ASCII column of", ln)
        if off == 0:
            if cur is not None:
                msgs.append(cur)
            cur = b""
        require(cur is not None and off == len(cur) and len(cur) % 16 == 0, "offset of dump line", ln, "after", len(cur or b""))
        cur += b
    if cur is not None:
        msgs.append(cur)
    require(out == b"" or out.endswith(b"\n"), "dump ends in the middle of a line")
    return msgs


def line(spec):
    return payload(spec).replace(b"\n", b"\x0b")


@S.composite
def rw_case(draw):
    big = draw(S.integers(0, 19)) == 0
    n = draw(S.integers(1000000, 3000000)) if big else draw(S.one_of(S.integers(1, 60), S.integers(1, 12000)))
    mx = min(n, 1 << 20) + (3 if draw(S.integers(0, 5)) == 0 else 0)
    d = data(mx)
    if big:
        d = S.one_of(d, S.tuples(S.integers(1, 1 << 20), S.integers(0, 9)).map(list), S.sampled_from([[1 << 20, 1], [(1 << 20) - 1, 2], [1000000, 3], [999999, 4], [65536, 5]]))
    hexarg = S.one_of(S.binary(min_size=1, max_size=40).map(lambda b: b.hex()), S.binary(min_size=1, max_size=9).map(lambda b: b.hex().upper()),
                      S.text("0123456789abcdefABCDEF", max_size=9), S.text("09afAFgxX +-\t", min_size=1, max_size=6), S.sampled_from(["", "0x12", "1 2 ", " 1", "+1", "-1", "ag", "1g", "zz", "00", "12\u00e9f", "abc"]))
    num = S.one_of(S.just(0), S.integers(1, 4), S.integers(1, 4), S.integers(1, 40), S.sampled_from([1, 2**31 - 1, 2**31, 2**32, 2**32 + 1, 2**40 + 2]))
    op = S.one_of(
        S.tuples(S.just("write"), S.lists(d, max_size=6), S.booleans(), S.integers(-1, 8), S.booleans()),
        S.tuples(S.just("hex"), hexarg, S.booleans()), S.tuples(S.just("file"), d, S.booleans()), S.tuples(S.just("lib"), S.lists(d, min_size=1, max_size=6)),
        S.tuples(S.just("read"), S.booleans(), num, S.just(False)), S.tuples(S.just("read"), S.booleans(), num, S.booleans()),
        S.tuples(S.just("follow"), S.booleans(), num, S.lists(S.lists(d, min_size=1, max_size=5), max_size=3), S.booleans()))
    return {"asan": draw(S.integers(0, 3)) == 0, "n": n, "mm": draw(S.one_of(S.integers(1, 6), S.just(1000))), "mode": draw(S.sampled_from(["plain", "plain", "plain", "drop", "farm"])),
            "ops": [list(o) for o in draw(S.lists(op, min_size=1, max_size=9))]}


def rw(ctx, case, d):
    ring, tool, R = d + "/ring", ctx.bin(case), Ring(case["n"], case["mm"], case["mode"])
    ring_create(ring, R.n, R.mm, MODEFLAGS[R.mode])
    ctx.log("ring of", R.n, "bytes,", R.mm, "messages,", R.mode)
    wrote = readc = 0

    def contended(argv, inp, msgs, what, stop=False):
        """a writer that has to wait for room, and readers"""
        p = spawn([tool] + argv, stdin=subprocess.PIPE)
        import threading
        t = threading.Thread(target=lambda: (p.stdin.write(inp), p.stdin.close()), daemon=True)
        t.start()
        seq, got = list(R.q) + msgs, []
        while R.q:
            R.pop()
        t0 = time.time()
        if stop:
            time.sleep(0.002)
            suspend(p)
            ctx.log("  stopped and resumed")
        while True:
            dead = p.poll() is not None
            with reader(ring) as h:
                while True:
                    b = h.read()
                    if not b:
                        break
                    got.append(b)
                    t0 = time.time()
            if dead:
                break
            require(time.time() - t0 < WAIT, what, "stays blocked although the ring is being read")
            time.sleep(0.0005)
        sane(p, p.stderr.read(), argv)
        require(p.returncode == 0, what, "fails with", p.returncode)
        require(got == seq, what, ": readers get", len(got), "messages", [show(x, 12) for x in got[:6]], "expected", len(seq), [show(x, 12) for x in seq[:6]])
        ctx.label("writes that waited for room")

    for op in case["ops"]:
        if op[0] == "write":
            lines, nl, empty = [line(s) for s in op[1]], op[2], op[3]
            inp = b"\n".join(lines) + (b"\n" if nl and lines else b"")
            ctx.log("write", [show(l, 12) for l in lines], "" if nl else "(no final newline)")
            if 0 <= empty < len(lines):   # an empty line among them
                k = sum(len(l) + 1 for l in lines[:empty])
                inp = inp[:k] + b"\n" + inp[k:]
                if all(R.mode != "plain" or (R.u + sum(map(len, lines)) <= R.n and len(R.q) + len(lines) <= R.mm) for _ in [0]) and all(len(l) <= R.n for l in lines):
                    rc, o, e = run([tool, "write", ring], input=inp)
                    got = drain(ring) if R.mode != "farm" else None
                    if got is None:
                        return
                    want = list(R.q)
                    ctx.log("  with an empty line before line", empty)
                    a, b = Ring(R.n, R.mm, R.mode), Ring(R.n, R.mm, R.mode)
                    for m in want + lines[:empty]:
                        a.write(m), b.write(m)
                    for m in lines[empty:]:
                        b.write(m)
                    require(got in (list(a.q), list(b.q)), "write with an empty line stores", [show(x, 12) for x in got])
                    require(rc == 0 or got == list(a.q), "write fails but went on")
                    while R.q:
                        R.pop()
                continue
            bad = [i for i, l in enumerate(lines) if len(l) > R.n]
            if bad:
                if R.mode == "plain" and not (R.u + sum(len(l) for l in lines if len(l) <= R.n) <= R.n and len(R.q) + len(lines) <= R.mm):
                    continue
                rc, o, e = run([tool, "write", ring], input=inp)
                require(rc != 0, "a line larger than the ring is accepted")
                for l in lines[:bad[0]]:
                    R.write(l)
                ctx.label("lines too large")
                continue
            if R.mode == "plain" and not (R.u + sum(map(len, lines)) <= R.n and len(R.q) + len(lines) <= R.mm):
                contended(["write", ring], inp, lines, "write", op[4])
                wrote += 1
                continue
            rc, o, e = run([tool, "write", ring], input=inp)
            require(rc == 0, "write fails:", rc, e[-200:])
            require(o == b"", "write prints", o)
            for l in lines:
                R.write(l)
            wrote += bool(lines)
        elif op[0] in ("hex", "file"):
            if op[0] == "hex":
                arg = op[1]
                ok = re.fullmatch("([0-9a-fA-F]{2})+", arg) is not None
                m = bytes.fromhex(arg) if ok else None
                argv = ["writehex", arg.encode(), ring]
            else:
                m, ok = payload(op[1]), True
                open(d + "/f", "wb").write(m)
                argv = ["writefile", d + "/f", ring]
            ctx.log(argv[0], show(m) if ok else repr(arg))
            if not ok:
                rc, o, e = run([tool] + argv)
                require(rc != 0, "writehex accepts", repr(arg))
                ctx.label("bad hex refused")
                continue
            if len(m) <= R.n and R.mode == "plain" and not R.room(len(m)):
                contended(argv, b"", [m], argv[0], op[2])
                wrote += 1
                continue
            rc, o, e = run([tool] + argv)
            if len(m) > R.n:
                require(rc != 0, argv[0], "accepts a message larger than the ring")
            else:
                require(rc == 0, argv[0], "fails:", rc, e[-200:])
                require(o == b"", argv[0], "prints", o)
                R.write(m)
                wrote += 1
        elif op[0] == "lib":
            with writer(ring) as w:
                for m in map(payload, op[1]):
                    if R.mode == "plain" and len(m) <= R.n and not R.room(len(m)):
                        continue
                    r = w.write(m)
                    require(r == (len(m) if R.write(m) else -1), "library write returns", r)
            ctx.log("library writes", len(op[1]), "messages")
        elif op[0] == "read":
            hx, N = op[1], op[2]
            argv = ["readhex" if hx else "read"] + (["-N", str(N)] if N else []) + [ring]
            if op[3]:
                # output to a pipe that is read late, while the tool is stopped and resumed
                p = spawn([tool] + argv)
                time.sleep(0.002)
                suspend(p)
                o, e = p.communicate(timeout=WAIT)
                sane(p, e, argv)
                ctx.label("reads stopped and resumed")
            else:
                rc, o, e = run([tool] + argv)
            want = R.read(N or None)
            ctx.log(" ".join(argv[:-1]), "->", show(o, 24))
            got = undump(o, want) if hx else o
            require(got == (want if hx else b"".join(want)), argv, "prints", [show(g) for g in got] if hx else show(o, 200), "expected", [show(w) for w in want])
            readc += bool(want)
        else:
            hx, N, chunks, kill = op[1], op[2], op[3], op[4]
            argv = ["readhex" if hx else "read"] + ["-b"] + (["-N%d" % N] if N else []) + [ring]
            ctx.log(" ".join(argv[:-1]))
            f = open(d + "/out", "wb")
            p = spawn([tool] + argv, stdout=f)
            f.close()
            want, done = [], False

            def out():
                return open(d + "/out", "rb").read()

            def printed():
                size = sum(-(-len(m) // 16) * 74 if hx else len(m) for m in want)
                if os.stat(d + "/out").st_size < size:
                    return False
                o = out()
                return (undump(o, want) if o.endswith(b"\n") or not o else None) == want if hx else o == b"".join(want)

            def settle(what):
                nonlocal done
                try:
                    wait_until(printed, what, WAIT)
                except Fail:
                    require(False, argv, "prints", show(out(), 300), "expected", [show(w) for w in want])
                if N and len(want) >= N:
                    wait_until(lambda: p.poll() is not None, "read -b -N ends after that many messages")
                    done = True
                else:
                    stays_alive(p, "read -b")
            want += R.read(N or None)
            farm_seen = len(want)
            settle("the present messages are printed")
            for ch in chunks:
                pu = pk = 0
                with writer(ring) as w:
                    for m in map(payload, ch):
                        if len(m) > R.n:
                            continue
                        fits = pu + len(m) + (R.u if R.mode != "farm" else 0) <= R.n and pk + 1 + (len(R.q) if R.mode != "farm" else 0) <= R.mm
                        if not done and not fits:   # let the reader catch up, so that nothing is lost
                            settle("later messages are printed")
                            pu = pk = 0
                        if R.mode == "plain" and not R.room(len(m)):
                            continue
                        r = w.write(m)
                        require(r == len(m), "library write returns", r)
                        R.write(m)
                        pu, pk = pu + len(m), pk + 1
                        if not done:
                            if R.mode == "farm":
                                if not (N and len(want) >= N):
                                    want.append(m)
                                    R.c["mr"] += 1
                            elif not (N and len(want) >= N):
                                want += R.read(1)
                if not done:
                    settle("later messages are printed")
                if len(ch) % 3 == 2 and not done:
                    suspend(p)
                    time.sleep(0.0005)
                    stays_alive(p, "read -b, stopped and resumed,")
                ctx.log("  later:", len(ch), "messages")
            if not done:
                (p.kill if kill else p.terminate)()
                p.wait(WAIT)
            elif p.returncode < 0:
                require(False, "read -b died of signal", -p.returncode)
            e = p.stderr.read()
            require(b"AddressSanitizer" not in e, "memory error", e[:2000])
            readc += len(want) > 0
            ctx.label("waiting reads")
    got = drain(ring)
    require(got == list(R.q), "left in the ring:", len(got), "messages", [show(x, 12) for x in got[:8]], "expected", len(R.q), [show(x, 12) for x in list(R.q)[:8]])
    if wrote and readc and R.c["mw"] + wrote >= 3:
        ctx.nt = True


@S.composite
def pipe_case(draw):
    d = S.one_of(S.tuples(S.integers(1, 40000), S.integers(0, 9)).map(list), S.tuples(S.integers(1, 300), S.integers(0, 9)).map(list), S.sampled_from([[4096, 1], [8192, 2], [4097, 3], [150000, 4]]))
    return {"asan": draw(S.integers(0, 3)) == 0, "hex": draw(S.booleans()), "block": draw(S.booleans()), "N": draw(S.one_of(S.just(0), S.integers(1, 8))), "msgs": draw(S.lists(d, min_size=1, max_size=8)),
            "take": draw(S.lists(S.one_of(S.integers(1, 5000), S.integers(1, 60000), S.just(-1), S.just(-1)), min_size=1, max_size=12)), "out": draw(S.sampled_from(["pipe", "pipe", "socket", "full"]))}


def pipe(ctx, case, d):
    """read with its output going to something slow, while it is stopped and resumed"""
    ring, tool = d + "/ring", ctx.bin(case)
    msgs = [payload(m) for m in case["msgs"]]
    ring_create(ring, sum(map(len, msgs)) + 10, 100)
    with writer(ring) as w:
        for m in msgs:
            require(w.write(m) == len(m), "library write fails")
    N, hx = case["N"], case["hex"]
    want = msgs[:N or None]
    text = b"".join(map(dump1, want)) if hx else b"".join(want)
    argv = ["readhex" if hx else "read"] + (["-b"] if case["block"] else []) + (["-N", str(N)] if N else []) + [ring]
    ctx.log(" ".join(argv[:-1]), "messages of", [len(m) for m in msgs], "to a", case["out"])
    if case["out"] == "full" and not case["block"]:
        # output that cannot be written must not pass for success, nor be retried for ever
        rc, o, e = run([tool] + argv, stdout=open("/dev/full", "wb"))
        require(rc != 0, "read reports success although nothing can be written")
        return
    if case["out"] == "socket":
        r, w = socket.socketpair()
        r.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
        w.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 4096)
        rf, wf = r.detach(), w.detach()
    else:
        rf, wf = os.pipe()
        fcntl.fcntl(wf, fcntl.F_SETPIPE_SZ, 4096)
    p = spawn([tool] + argv, stdout=wf)
    os.close(wf)
    got, i = b"", 0
    stops = 0
    try:
        while len(got) < len(text):
            k = case["take"][i % len(case["take"])]
            i += 1
            if k < 0:
                if stops < 8:
                    stops += 1
                    if stops % 2:
                        time.sleep(0.001)
                    suspend(p)
                    time.sleep(0.0003)
                    continue
                k = 65536
            if i > 300:
                k = 1 << 20
            if not select.select([rf], [], [], WAIT)[0]:
                break
            b = os.read(rf, k)
            if not b:
                break
            got += b
        if got != text:
            at = next((j for j, (a, b) in enumerate(zip(got, text)) if a != b), min(len(got), len(text)))
            require(False, argv[:-1], "prints", len(got), "bytes of", len(text), "; differs first at", at, show(got[at:], 30), "expected", show(text[at:], 30))
        if case["block"] and not (N and len(msgs) >= N):
            stays_alive(p, "read -b")
            p.terminate()
        rest = b""
        while True:
            b = os.read(rf, 65536)
            if not b:
                break
            rest += b
        require(rest == b"", argv[:-1], "also prints", show(rest))
    finally:
        os.close(rf)
    p.wait(WAIT)
    sane(p, p.stderr.read(), argv)
    left = drain(ring)
    require(left == msgs[len(want):], "left in the ring:", len(left), "messages, expected", len(msgs) - len(want))
    if stops:
        ctx.label("stopped and resumed", stops)
    if stops and len(text) > 4096:
        ctx.nt = True


# ------------------------------------------------------------------ C25
@S.composite
def cs_case(draw):
    suffix = draw(S.sampled_from(["", "", "k", "K", "m", "M", "g", "G", "t", "T"]))
    num = draw(S.one_of(S.integers(1, 20), S.integers(1, 5000)))
    if suffix in ("t", "T"):
        num = 1 + num % 2
    elif suffix in ("g", "G"):
        num = 1 + num % 30
    elif draw(S.integers(0, 5)) == 0:
        num = draw(S.integers(2**31 - 3, 2**33 + 9)) >> {"": 0, "k": 10, "m": 20}[suffix.lower()]
    big = draw(S.integers(0, 9)) == 0     # a limit beyond 31 or 32 bits
    limit = draw(S.integers(2**31 - 2, 2**33 + 9)) if big else draw(S.one_of(S.none(), S.integers(1, 9), S.integers(1, 5000)))
    modes = draw(S.lists(S.sampled_from("dfks" + ("l" if not big and suffix == "" and num < 10**6 else "d")), max_size=3, unique=True))
    app = draw(S.one_of(S.none(), S.none(), S.binary(min_size=1, max_size=40).map(bytes.hex), S.tuples(S.integers(1, 70000), S.integers(0, 9)).map(list)))
    names = draw(S.lists(S.sampled_from(["a", "b", "c", "d e", "-x" if False else "x-1"]), min_size=1, max_size=4, unique=True))
    acts = S.one_of(S.tuples(S.just("w"), S.integers(1, 300)), S.tuples(S.just("w"), S.integers(1, 3000)), S.tuples(S.just("r"), S.integers(1, 4)), S.tuples(S.just("reset"), S.integers(0, 10**6)), S.tuples(S.just("fill"), S.integers(1, 9)))
    return {"asan": draw(S.integers(0, 3)) == 0, "size": draw(S.sampled_from([""] * 4 + ["0", "00"])) + str(num) + suffix, "bytes": num << {"": 0, "k": 10, "m": 20, "g": 30, "t": 40}[suffix.lower()], "N": limit,
            "modes": modes, "split": draw(S.booleans()), "join": draw(S.booleans()), "order": draw(S.permutations([0, 1, 2, 3])), "app": app, "names": names,
            "pre": draw(S.lists(S.sampled_from(names), max_size=2, unique=True)), "bad": draw(S.sampled_from([None] * 8 + ["size", "nosize", "suffix", "mode", "noring", "emptyapp", "noapp", "overflow"])), "over": draw(S.tuples(S.integers(0, 9), S.integers(0, 5000), S.integers(1, 3)).map(list)),
            "slow": draw(S.integers(0, 3)) == 0, "acts": [list(a) for a in draw(S.lists(acts, max_size=8))], "status": [list(x) for x in draw(S.lists(S.tuples(S.booleans(), S.booleans()), min_size=1, max_size=3))]}


def snapshot(path):
    with reader(path) as h:
        st, app = h.stat(), h.app()
    return st, app


def cs(ctx, case, d):
    tool = ctx.bin(case)
    app = payload(case["app"]) if case["app"] is not None else b""
    pre = {}
    for nm in case["pre"]:
        f = d + "/" + nm
        ring_create(f, 77, 5, 0, b"old application data")
        with writer(f) as w:
            w.write(b"old message")
        pre[nm] = open(f, "rb").read()
    if app:
        open(d + "/app", "wb").write(app)
    size, modes, bad = case["size"], case["modes"], case["bad"]
    if bad == "size":
        size = ["0", "x", "k", ""][len(case["names"]) % 4]
    elif bad == "suffix":
        size += "q" if size[-1].isdigit() else ""
        if size[-1] != "q":
            size = "10q"
    elif bad == "overflow":
        # with the suffix, more than a size can be
        w, x, t = case["over"]
        u, b = [("k", 54), ("K", 54), ("m", 44), ("M", 44), ("g", 34), ("G", 34), ("t", 24), ("T", 24), ("", 64), ("k", 90)][w]
        size = str((t << b) + x) + u
    elif bad == "mode":
        modes = modes + ["z"]
    elif bad == "emptyapp":
        open(d + "/app", "wb").close()
        app = b"x"
    elif bad == "noapp":
        app = b"x"
        if os.path.exists(d + "/app"):
            os.unlink(d + "/app")
    o = lambda k, v: [k + v] if case["join"] and v else [k, v]
    parts = [o("-s", size) if bad != "nosize" else [], o("-N", str(case["N"])) if case["N"] else [], [],
             o("-A", d + "/app") if app else []]
    if modes:
        parts[2] = sum([o("-m", m) for m in modes], []) if case["split"] else o("-m", "".join(modes))
    argv = ["create"] + sum([parts[i] for i in case["order"]], []) + ([] if bad == "noring" else [d + "/" + n for n in case["names"]])
    rc, out, err = run([tool] + argv)
    ctx.log(" ".join(argv).replace(d + "/", ""), "->", rc)
    if bad:
        require(rc != 0, "create accepts", argv)
        for nm in case["names"]:
            if nm in pre:
                require(open(d + "/" + nm, "rb").read() == pre[nm], "a refused create changed", nm)
            else:
                require(not os.path.exists(d + "/" + nm), "a refused create made", nm)
        ctx.label("bad requests")
        return
    require(rc == 0, "create fails:", rc, err[-300:])
    keep = "k" in modes
    want_flags = (DROP if "d" in modes or "f" in modes else 0) | (FARM if "f" in modes else 0) | (SYNC if "s" in modes else 0) | (MLOCK if "l" in modes else 0)
    ref = d + "/ref"
    ring_create(ref, case["bytes"], case["N"] or 0, want_flags & ~(DROP if "d" not in modes and "f" not in modes else 0), app)
    rst, rapp = snapshot(ref)
    os.unlink(ref)
    for nm in case["names"]:
        f = d + "/" + nm
        if keep and nm in pre:
            require(open(f, "rb").read() == pre[nm], "create with keep changed the existing", nm)
            ctx.label("existing rings kept")
            continue
        if nm in pre:
            ctx.label("existing rings replaced")
        st, a = snapshot(f)
        require(st["bn"] == case["bytes"], nm, "has", st["bn"], "bytes, asked for", case["bytes"])
        if case["N"]:
            require(st["mm"] == case["N"], nm, "holds", st["mm"], "messages, asked for", case["N"])
        require(st == rst, nm, "has", st, "expected", rst)
        require(st["flags"] & ~APPDATA == want_flags, nm, "has modes", hex(st["flags"]), "asked for", modes)
        require(a == app, nm, "has application data", show(a), "asked for", show(app))
        require(st["bu"] == st["mu"] == st["bw"] == st["br"] == 0, "a new ring is not empty")
    others = set(os.listdir(d)) - set(case["names"]) - set(case["pre"]) - {"app"}
    require(not others, "create made", others)
    # status
    nm = case["names"][0]
    f = d + "/" + nm
    st0, a0 = snapshot(f)
    mode = "farm" if st0["flags"] & FARM else "drop" if st0["flags"] & DROP else "plain"
    R = Ring(st0["bn"], st0["mm"], mode)
    if nm in pre and keep:
        R.write(b"old message")
    k = 0
    with writer(f) as w:
        def put(n):
            nonlocal k
            k += 1
            m = random.Random(k).randbytes(n)
            r, e = w.write(m), R.write(m)
            require(r == (n if e else 0 if e is False else -1), "library write returns", r, "model", e)
        for a, v in case["acts"]:
            if a == "w":
                put(v)
            elif a == "fill":
                for _ in range(v):
                    put(max(1, min(R.n, 4000) // v))
            elif a == "r":
                want = R.read(v)
                with reader(f) as h:
                    for x in want:
                        require(h.read() == x, "library read differs")
            else:
                with reader(f) as h:
                    h.stat(reset=(v, 0))
                R.c.clear()
    ctx.log("actions", case["acts"])
    before, appb = snapshot(f)
    for verbose, copy in case["status"]:
        o = d + "/appout"
        open(o, "wb").write(b"stale" * 99)
        argv = ["status"] + (["-v"] if verbose else []) + (["-A", o] if copy else []) + [f]
        if copy and case["slow"] and a0:
            # into a pipe that is read late, while the tool is stopped and resumed
            os.unlink(o)
            os.mkfifo(o)
            rf = os.open(o, os.O_RDONLY | os.O_NONBLOCK)
            fcntl.fcntl(rf, fcntl.F_SETPIPE_SZ, 4096)
            p = spawn([tool] + argv)
            copied, stops = b"", 0
            while select.select([rf], [], [], WAIT)[0]:
                if stops < 4:
                    stops += 1
                    time.sleep(0.0005)
                    suspend(p)
                b = os.read(rf, 1 << 20 if stops == 4 else 1000)
                if not b:
                    break
                copied += b
            os.close(rf)
            out, err = p.communicate(timeout=WAIT)
            sane(p, err, argv)
            rc = p.returncode
            os.unlink(o)
            open(o, "wb").write(copied)
            ctx.label("status with slow output")
        else:
            rc, out, err = run([tool] + argv)
        require(rc == 0, "status fails:", rc, err[-200:])
        head = {}
        lines = out.split(b"\n")
        for ln in lines:
            p = ln.strip().split(b" ", 1)
            if ln[:1] == b" " and p[0] not in head:
                head[p[0].decode(errors="replace")] = p[1] if len(p) > 1 else b""
        exp = {"bytes-written": R.c["bw"], "bytes-read": R.c["br"], "bytes-dropped": R.c["bd"], "messages-written": R.c["mw"], "messages-read": R.c["mr"], "messages-dropped": R.c["md"],
               "ring-size": R.n, "bytes-ready": R.u, "max-messages": R.mm, "messages-ready": len(R.q), "app-data": len(a0)}
        for kk, v in exp.items():
            require(head.get(kk) == str(v).encode(), "status prints", kk, head.get(kk), "expected", v)
        at = set(head.get("attributes", b"?").decode().split())
        fl = before["flags"]
        want = {n for n, b in (("drop", DROP), ("farm", FARM), ("mlock", MLOCK), ("sync", SYNC)) if fl & b}
        require(at - {"none", "appdata"} == want, "status prints the modes", at, "expected", want)
        require(("none" in at) == (not want), "status prints the modes", at)
        if verbose and a0:
            require(a0 in out or b"\0" in a0, "status -v does not print the application data")
        if copy:
            got = open(o, "rb").read()
            require(got == (a0 if a0 else b"stale" * 99), "status -A copied", show(got), "expected", show(a0))
    require(snapshot(f) == (before, appb), "status changed the ring from", before, "to", snapshot(f)[0])
    if mode != "farm":
        require(drain(f) == list(R.q), "status changed the messages")
    if st0["mm"] and (case["acts"] or app) and len(argv) > 1:
        ctx.nt = True


CHECKS = {
    "C24": [("c24-rw", rw_case(), rw, 4000, 150000, "1..9 of write (lines of any bytes, with or without a final newline), writehex (good and bad), writefile, read and readhex (with and without -N, waiting ones fed while they run) on rings of every mode; output and ring compared with a model; non-trivial: something was written by the tool, something read by it, and 3 messages stored"),
            ("c24-pipe", pipe_case(), pipe, 3200, 120000, "read and readhex writing to a small pipe or socket read at any pace while the tool is stopped and resumed; non-trivial: stopped at least once with more output than the pipe holds")],
    "C25": [("c25-create-status", cs_case(), cs, 4000, 150000, "create of 1..4 rings with any size, suffix, limit, modes, application data, existing ones kept or replaced, bad requests; then library traffic and status; compared with the library's view and a model; non-trivial: accepted, with application data or traffic before the status")],
}
if __name__ == "__main__":
    end("rings", CHECKS)
