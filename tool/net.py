"""C26: pub and sub over TCP.  C27: tee."""
import select, struct, threading, time
from common import *
from hypothesis import strategies as S

MAXF = 1 << 20


def frame_specs(mx, big):
    small = S.binary(min_size=1, max_size=min(mx, 20)).map(bytes.hex)
    mid = S.tuples(S.integers(1, min(mx, 3000)), S.integers(0, 9)).map(list)
    o = [small, small, small, mid, mid, S.tuples(S.integers(1, mx), S.integers(0, 9)).map(list)] if not big else \
        [small, mid, S.tuples(S.integers(1, mx), S.integers(0, 9)).map(list), S.sampled_from([[mx, 1], [mx - 1, 2], [mx - 4, 3]])]
    return S.one_of(o)


def geometry(draw, big):
    n = draw(S.integers(MAXF, 3 * MAXF)) if big else draw(S.one_of(S.integers(1, 60), S.integers(30, 9000), S.just(30000)))
    mm = draw(S.one_of(S.integers(1, 6), S.integers(1, 60), S.just(2000)))
    return n, mm


def port_of(ctx):
    """a port nobody else here uses: every worker has its own range, below the ephemeral ports"""
    if not hasattr(ctx, "port"):
        ctx.port = 0
    base = 10000 + 2500 * (int(ctx.scratch.rsplit("-", 1)[1]) if "-" in ctx.scratch.rsplit("/", 1)[1] else 0)
    for _ in range(2000):
        ctx.port = (ctx.port + 1) % 2400
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try:
            s.bind(("127.0.0.1", base + ctx.port))
            return base + ctx.port
        except OSError:
            continue
        finally:
            s.close()
    raise Discard()


def rst(s):
    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    s.close()


def pre(m, on):
    return (struct.pack("<I", len(m)) if on else b"") + m


# ------------------------------------------------------------------ pub
@S.composite
def pub_case(draw):
    big = draw(S.integers(0, 14)) == 0
    n, mm = geometry(draw, big)
    mx = min(n, MAXF)
    f = frame_specs(mx, big)
    op = S.one_of(
        S.tuples(S.just("w"), S.lists(f, min_size=1, max_size=6)), S.tuples(S.just("w"), S.lists(f, min_size=1, max_size=6)),
        S.tuples(S.just("recv"), S.integers(1, 3000)), S.tuples(S.just("all")), S.tuples(S.just("connect")), S.tuples(S.just("second"), S.booleans()),
        S.tuples(S.just("junk"), S.integers(1, 250)), S.tuples(S.just("stop")), S.tuples(S.just("close"), S.booleans(), S.booleans()), S.tuples(S.just("close"), S.just(True), S.booleans()))
    return {"asan": draw(S.integers(0, 3)) == 0, "n": n, "mm": mm, "mode": draw(S.sampled_from(["plain"] * 3 + ["drop", "farm"])), "prefix": draw(S.integers(0, 4)) > 0,
            "spec": draw(S.sampled_from(["", "127.0.0.1:", "localhost:", "0.0.0.0:"])), "before": draw(S.lists(f, max_size=5)),
            "ops": [["connect"]] * draw(S.integers(0, 1)) + [list(o) for o in draw(S.lists(op, min_size=1, max_size=14))]}


def pub(ctx, case, d):
    ring, P = d + "/ring", case["prefix"]
    n, mm, mode = case["n"], case["mm"], case["mode"]
    ring_create(ring, n, mm, MODEFLAGS[mode])
    sent = []           # every message the ring accepted and the publisher is to get
    st = {"lost_ok": 0, "clients": 0}
    R = Ring(n, mm, mode)
    with writer(ring) as w:
        for m in map(payload, case["before"]):
            if mode == "plain" and not R.room(len(m)):
                continue
            require(w.write(m) == len(m), "library write fails")
            R.write(m)
    sent = list(R.q)
    port = port_of(ctx)
    p = spawn([ctx.bin(case), "pub", case["spec"] + str(port)] + ([] if P else ["-P"]) + [ring])
    ctx.log("pub", "" if P else "-P", case["spec"], "ring of", n, "bytes,", mm, "messages,", mode, "; before:", [len(m) for m in sent])
    W, probe = writer(ring), reader(ring)
    c = None            # the client
    got = b""           # what it received
    first = 0           # the message its stream starts with
    floor = 0           # no client starts before this message
    took = [0]          # farm: messages surely taken by the publisher

    def connect_once():
        s = socket.socket()
        s.settimeout(WAIT)
        s.connect(("127.0.0.1", port))
        return s

    def up():
        stays_alive(p, "pub")
        try:
            return connect_once()
        except OSError:
            return None

    def stream():
        return b"".join(pre(m, P) for m in sent[first:])

    def recv(k):
        nonlocal got
        while k:
            try:
                b = c.recv(min(k, 1 << 20))
            except socket.timeout:
                break
            require(b, "pub closes the connection")
            got += b
            k -= len(b)

    def align():
        """which message does the client's stream start with?"""
        nonlocal first
        want = stream()
        if want[:len(got)] == got:
            return True
        if floor_exact[0]:
            return False
        for i in range(first + 1, len(sent) + 1):
            first = i
            if stream()[:len(got)] == got:
                return True
        return False

    floor_exact = [True]

    def check(all=False):
        nonlocal first
        f0 = first
        if not align():
            first = f0
            require(False, "the client received", show(got, 200), "expected", show(stream()[:len(got) + 40], 240))
        if all:
            rest = len(stream()) - len(got)
            c.settimeout(WAIT)
            recv(rest)
            f0 = first
            if not align() or len(got) < len(stream()):
                first = f0
                require(False, "the client received", show(got, 200), "of", len(got), "bytes; expected", show(stream(), 200))

    def receive_all():
        """until nothing is outstanding"""
        nonlocal first
        if floor_exact[0]:
            check(all=True)
            return
        t0 = time.time()   # the start is unknown: until what came is a suffix
        c.settimeout(0.05)
        while True:
            recv(1 << 20)
            if got and align() and len(got) == len(stream()):
                floor_exact[0] = True
                return
            if mode != "farm" and not got and probe.stat()["mu"] == 0 and time.time() - t0 > 0.3:
                return  # everything was lost with the previous client
            if mode != "farm" and got and time.time() - t0 > 0.3 and probe.stat()["mu"] == 0:
                ends = [j for j in range(first, len(sent)) if b"".join(pre(m, P) for m in sent[j:]) == got]
                if ends:    # messages that look alike
                    first, floor_exact[0] = ends[0], True
                    return
            require(time.time() - t0 < WAIT, "the next client received", show(got, 200), "which is no end of", show(stream(), 200))

    def write(m):
        """False: no room"""
        if mode == "plain":
            r = W.write(m)
            require(r in (len(m), 0), "library write returns", r)
            if r == 0:
                return False
        else:
            # keep within what nobody has surely read, so that nothing is dropped
            if mode == "drop":
                s = probe.stat()
                if s["bu"] + len(m) > n or s["mu"] + 1 > mm:
                    return False
            else:
                out = sent[took[0]:]
                if sum(map(len, out)) + len(m) > n or len(out) + 1 > mm:
                    return False
            require(W.write(m) == len(m), "library write fails")
        sent.append(m)
        return True

    for op in case["ops"] + [["connect"], ["w", ["656e64"[:2 * min(3, n)]]], ["all"]]:
        if op[0] == "connect" and c is None:
            # a client that comes before the publisher has seen the last one leave is refused
            t0 = time.time()
            while True:
                c = wait_until(up, "pub listens")
                got = b""
                c.settimeout(0.002)
                try:
                    b = c.recv(1 << 16)
                except socket.timeout:
                    b = None
                except ConnectionResetError:
                    b = b""
                if b != b"":
                    break
                c.close()
                require(time.time() - t0 < WAIT, "pub does not serve the next client")
                stays_alive(p, "pub")
                time.sleep(0.002)
            # served, or not accepted yet: the kernel queues connections. It is served once data comes.
            got = b or b""
            st["clients"] += 1
            first = floor
            ctx.log("client", st["clients"], "connects")
            if got:
                check()
        elif op[0] == "w":
            for m in op[1]:
                m = payload(m if isinstance(m, str) else [m[0], m[1] + 100 * len(sent)])   # no two alike
                t0 = time.time()
                while not write(m):
                    if c is None:
                        break
                    c.settimeout(0.005)
                    k = len(got)
                    recv(1 << 20)
                    if len(got) > k:
                        t0 = time.time()
                        check()
                    if mode == "farm" and floor_exact[0] and align():
                        k, j = len(got), first
                        while j < len(sent) and k >= len(pre(sent[j], P)):
                            k -= len(pre(sent[j], P))
                            j += 1
                        took[0] = max(took[0], j)
                    require(time.time() - t0 < WAIT, "the ring stays full although the client reads; message of", len(m))
                    if mode == "farm" and not floor_exact[0]:
                        break
                    ctx.label("waits for room")
            ctx.log("write", [len(payload(m)) for m in op[1]], "->", len(sent), "in all")
        elif op[0] == "recv" and c is not None:
            c.settimeout(0.01)
            recv(min(op[1], max(0, len(stream()) - len(got))))
            check()
        elif op[0] == "all" and c is not None:
            receive_all()
            if floor_exact[0]:
                took[0] = len(sent)
            ctx.log("the client has received everything,", len(got), "bytes")
        elif op[0] == "second" and c is not None and (got or floor_exact[0] and st["clients"] == 1):
            if not got:
                continue
            s = connect_once()
            if op[1]:
                try:
                    s.send(b"hello")
                except OSError:
                    pass
            b, t0 = None, time.time()
            s.settimeout(0.01)
            while b is None:
                try:
                    b = s.recv(100)
                except ConnectionResetError:
                    b = b""
                except socket.timeout:   # pub may be waiting for the first client to read
                    require(time.time() - t0 < WAIT, "a second client is not refused")
                    c.settimeout(0.01)
                    recv(1 << 20)
            require(b == b"", "a second client receives", b)
            s.close()
            stays_alive(p, "pub")
            ctx.log("a second client is refused")
            ctx.label("second clients")
        elif op[0] == "stop":
            suspend(p)
            ctx.log("pub is stopped and goes on")
            ctx.label("stopped and resumed")
        elif op[0] == "junk" and c is not None:
            c.sendall(b"j" * op[1])
        elif op[0] == "close" and c is not None:
            if op[1] or mode == "farm":
                receive_all()
                if floor_exact[0]:
                    took[0] = len(sent)
            else:
                check()
            exact = floor_exact[0] and len(got) == len(stream())
            whole, k = first, len(got)
            while whole < len(sent) and k >= len(pre(sent[whole], P)) and floor_exact[0]:
                k -= len(pre(sent[whole], P))
                whole += 1
            (rst if op[2] else socket.socket.close)(c)
            c = None
            floor = len(sent) if exact else max(floor, whole)
            floor_exact[0] = exact
            ctx.log("the client", "resets" if op[2] else "closes", "having received everything" if exact else "early")
            ctx.label("disconnects")
            if not exact:
                ctx.label("early disconnects")
            # what is written from now on must not be lost: wait until pub has noticed
            time.sleep(0.002)
            wait_idle(p)
    stays_alive(p, "pub")
    p.terminate()
    p.wait(WAIT)
    e = p.stderr.read()
    sane(p, e, "pub")
    c.close()
    W.close()
    probe.close()
    if len(sent) >= 3 and (st["clients"] > 1 or len(got) > 8):
        ctx.nt = True


# ------------------------------------------------------------------ sub
@S.composite
def sub_case(draw):
    big = draw(S.integers(0, 14)) == 0
    n, mm = geometry(draw, big)
    mx = min(n, MAXF)
    f = frame_specs(mx, big)
    many = S.tuples(S.just("many"), S.one_of(S.integers(2, 300), S.integers(2, 300), S.integers(2, 3000)), S.integers(1, min(4, mx)))
    frames = draw(S.lists(S.one_of(f, f, f, f, many.map(list)), max_size=25 if not big else 8))
    return {"asan": draw(S.integers(0, 3)) == 0, "n": n, "mm": mm, "mode": draw(S.sampled_from(["plain"] * 3 + ["drop", "farm"])), "frames": frames,
            "cut": draw(S.one_of(S.just([]), S.just([1]), S.lists(S.integers(1, 30), min_size=1, max_size=8), S.lists(S.integers(1, 3000), min_size=1, max_size=8), S.lists(S.integers(1, 70000), min_size=1, max_size=4))),
            "wait": draw(S.sampled_from([0, 0, 0, 1, 3])), "host": draw(S.sampled_from(["127.0.0.1", "localhost"])),
            "end": draw(S.sampled_from(["close", "close", "close", "part", "zero", "long", "huge", "rst", "term", "kill", "after"])), "pause": draw(S.integers(0, 6)), "stop": draw(S.sampled_from([0, 0, 0, 1, 4])), "pre": draw(S.booleans())}


def explode(frames):
    out = []
    for k, s in enumerate(frames):
        if isinstance(s, list) and s[0] == "many":
            r = random.Random(k)
            out += [r.randbytes(s[2]) for _ in range(s[1])]
        else:
            out.append(payload(s))
    return out


def sub(ctx, case, d):
    ring, n, mm, mode = d + "/ring", case["n"], case["mm"], case["mode"]
    ring_create(ring, n, mm, MODEFLAGS[mode])
    R = Ring(n, mm, mode)
    if case["pre"]:
        with writer(ring) as w:
            w.write(b"p")
        R.write(b"p")
    msgs = explode(case["frames"])
    lst = socket.socket()
    lst.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    lst.bind(("127.0.0.1", 0))
    lst.listen(1)
    lst.settimeout(WAIT)
    p = spawn([ctx.bin(case), "sub", "%s:%d" % (case["host"], lst.getsockname()[1]), ring])
    try:
        c, _ = lst.accept()
    except socket.timeout:
        stays_alive(p, "sub")
        raise Fail("sub does not connect")
    c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    end = case["end"]
    tail = b""
    if end == "part":
        tail = (struct.pack("<I", 50) + b"only a part")[:1 + len(msgs) * 5 % 14]
    elif end == "zero":
        tail = struct.pack("<I", 0) + pre(b"after", True)
    elif end == "long":
        tail = struct.pack("<I", MAXF + 1) + b"x" * 100
    elif end == "huge":
        tail = struct.pack("<I", 0xfffffff0 + len(msgs) % 16) + b"x" * 100
    elif end == "after":
        tail = b""
    data = b"".join(pre(m, True) for m in msgs) + tail
    ctx.log("ring of", n, "bytes,", mm, "messages,", mode, ";", len(msgs), "frames of", [len(m) for m in msgs[:12]], "..; cut", case["cut"], "end", end)
    # send in pieces from a thread, while the ring is drained here
    stop = [False]

    def feed():
        try:
            if not case["cut"]:
                c.sendall(data)
            else:
                o = k = 0
                while o < len(data) and not stop[0]:
                    step = case["cut"][k % len(case["cut"])] if k < 400 else 65536
                    c.sendall(data[o:o + step])
                    o += step
                    k += 1
                    if case["wait"] and k < 60:
                        time.sleep(case["wait"] / 3000)
        except OSError:
            pass
        finally:
            try:
                if end in ("close", "part", "zero", "long", "huge"):
                    c.shutdown(socket.SHUT_WR)
                elif end == "rst":
                    rst(c)
            except OSError:
                pass
    t = threading.Thread(target=feed, daemon=True)
    t.start()
    got = []
    want = list(R.q) + msgs
    exact = end in ("close", "part", "term", "kill", "after")
    h = reader(ring)
    t0, k, stops = time.time(), 0, case["stop"]
    while True:
        dead = p.poll() is not None
        if stops:
            stops -= 1
            suspend(p)
            ctx.label("stopped and resumed")
        if mode == "plain":
            b = h.read()
            while b:
                got.append(b)
                t0 = time.time()
                k += 1
                if case["pause"] and k % (case["pause"] * 3) == 0 and k < 150:
                    time.sleep(0.0004 * case["pause"])
                b = h.read()
            done = len(got) >= len(want)
        else:
            mw = h.stat()["mw"]
            done = mw >= len(want)
        if end in ("term", "kill", "after") and (done or not exact):
            break
        if dead:
            break
        require(time.time() - t0 < WAIT, "sub neither stores the frames nor ends:", len(got), "of", len(want), "stored")
        time.sleep(0.0003)
    if end in ("term", "kill", "after"):
        time.sleep(0.001)
        stays_alive(p, "sub")
        if end == "after":
            c.shutdown(socket.SHUT_WR)
            wait_until(lambda: p.poll() is not None, "sub ends when the publisher has gone")
        else:
            (p.terminate if end == "term" else p.kill)()
    p.wait(WAIT)
    e = p.stderr.read()
    if end != "kill":
        sane(p, e, "sub")
    stop[0] = True
    for s in (c, lst):
        s.close()
    t.join(WAIT)
    if mode == "plain":
        while True:
            b = h.read()
            if not b:
                break
            got.append(b)
        if exact:
            require(got == want, "the ring receives", len(got), "messages", [show(g, 10) for g in got[:6]], "of", len(want), [show(g, 10) for g in want[:6]], *[("differ first at %d: %s, sent %s" % (i, show(a), show(b))) for i, (a, b) in enumerate(zip(got, want)) if a != b][:1])
        else:
            require(got == want[:len(got)], "the ring receives", len(got), "messages, no beginning of the", len(want), "sent", [show(g, 10) for g in got[-3:]])
    else:
        k = h.stat()["mw"]
        if exact:
            require(k == len(want), "the ring receives", k, "messages of", len(want))
        require(k <= len(want), "the ring receives", k, "messages of", len(want))
        M = Ring(n, mm, mode)
        for m in want[:k]:
            M.write(m)
        left = drain(ring)
        require(left == list(M.q), "the ring holds", len(left), "messages", [show(g, 10) for g in left[:6]], "expected", len(M.q), [show(g, 10) for g in list(M.q)[:6]])
    h.close()
    ctx.label("end: " + end)
    total = sum(map(len, msgs))
    if total > n or len(msgs) > mm:
        ctx.label("more than the receiving ring holds")
    if len(msgs) >= 3:
        ctx.nt = True


# ------------------------------------------------------------------ pub -> sub
@S.composite
def chain_case(draw):
    big = draw(S.integers(0, 9)) == 0
    n, mm = geometry(draw, big)
    n2, mm2 = geometry(draw, big)
    f = frame_specs(min(n, n2, MAXF), big)
    return {"asan": draw(S.integers(0, 3)) == 0, "n": n, "mm": mm, "n2": n2, "mm2": mm2, "first": draw(S.booleans()),
            "msgs": draw(S.lists(S.one_of(f, f, S.tuples(S.just("many"), S.integers(2, 600), S.integers(1, min(4, n, n2))).map(list)), min_size=1, max_size=30 if not big else 9)),
            "drain": [1] + draw(S.lists(S.integers(0, 5), max_size=5))}


def chain(ctx, case, d):
    a, b = d + "/a", d + "/b"
    ring_create(a, case["n"], case["mm"])
    ring_create(b, case["n2"], case["mm2"])
    msgs = explode(case["msgs"])
    port = port_of(ctx)
    w, h = writer(a), reader(b)
    i = 0
    if case["first"]:
        while i < len(msgs) and w.write(msgs[i]):
            i += 1
    pubp = spawn([ctx.bin(case), "pub", str(port), a])
    ctx.log("a:", case["n"], case["mm"], "b:", case["n2"], case["mm2"], "messages", [len(m) for m in msgs[:20]])

    def listening():
        stays_alive(pubp, "pub")
        return any(ln.split()[1].endswith(":%04X" % port) and ln.split()[3] == "0A" for ln in open("/proc/self/net/tcp").read().split("\n")[1:] if ln)
    wait_until(listening, "pub listens")
    subp = spawn([ctx.bin(case), "sub", "127.0.0.1:%d" % port, b])
    got, k, t0 = [], 0, time.time()
    while len(got) < len(msgs):
        if i < len(msgs):
            r = w.write(msgs[i])
            require(r in (0, len(msgs[i])), "library write returns", r)
            i += r > 0
        for _ in range(case["drain"][k % len(case["drain"])]):
            m = h.read()
            if not m:
                break
            got.append(m)
            t0 = time.time()
            require(m == msgs[len(got) - 1], "message", len(got) - 1, "arrives as", show(m), "written", show(msgs[len(got) - 1]))
        k += 1
        if k % 50 == 0:
            stays_alive(pubp, "pub")
            stays_alive(subp, "sub")
            time.sleep(0.0002)
        require(time.time() - t0 < WAIT, "stuck after", len(got), "of", len(msgs), "messages")
    time.sleep(0.001)
    require(h.read() == b"", "more messages arrive than were written")
    stays_alive(pubp, "pub")
    stays_alive(subp, "sub")
    pubp.terminate()
    wait_until(lambda: subp.poll() is not None, "sub ends when the publisher has gone")
    pubp.wait(WAIT)
    sane(subp, subp.stderr.read(), "sub")
    sane(pubp, pubp.stderr.read(), "pub")
    w.close()
    h.close()
    if len(msgs) >= 3:
        ctx.nt = True


# ------------------------------------------------------------------ tee
@S.composite
def tee_case(draw):
    big = draw(S.integers(0, 14)) == 0
    g = [geometry(draw, big) for _ in range(3)]
    mx = min(min(x[0] for x in g), MAXF)
    f = frame_specs(mx, big)
    op = S.one_of(S.tuples(S.just("w"), S.lists(f, min_size=1, max_size=6)), S.tuples(S.just("w"), S.lists(f, min_size=1, max_size=6)),
                  S.tuples(S.just("r"), S.integers(1, 2), S.integers(1, 8)), S.tuples(S.just("r"), S.integers(1, 2), S.integers(1, 8)), S.tuples(S.just("nap")), S.tuples(S.just("settle")), S.tuples(S.just("stop")))
    return {"asan": draw(S.integers(0, 3)) == 0, "geo": g, "modes": draw(S.tuples(*[S.sampled_from(["plain"] * 3 + ["drop", "farm"])] * 3)), "before": draw(S.lists(f, max_size=6)),
            "pre": draw(S.tuples(S.booleans(), S.booleans())), "ops": [list(o) for o in draw(S.lists(op, max_size=14))], "term": draw(S.booleans())}


def tee(ctx, case, d):
    names = ["a", "b", "c"]
    R = [Ring(g[0], g[1], m) for g, m in zip(case["geo"], case["modes"])]
    for nm, r in zip(names, R):
        ring_create(d + "/" + nm, r.n, r.mm, MODEFLAGS[r.mode])
    A, W = R[0], writer(d + "/a")
    for m in map(payload, case["before"]):
        if A.mode != "plain" or A.room(len(m)):
            require(W.write(m) == len(m), "library write fails")
            A.write(m)
    src = list(A.q)                  # what tee is to copy
    want = [None, [], []]
    for i in (1, 2):
        if case["pre"][i - 1]:
            with writer(d + "/" + names[i]) as w:
                w.write(b"q")
            want[i].append(b"q")
    npre = [0, len(want[1]), len(want[2])]
    H = [None, reader(d + "/b"), reader(d + "/c")]
    got = [None, [], []]
    farm_end = drain(d + "/a") if A.mode == "farm" else None
    p = spawn([ctx.bin(case), "tee"] + [d + "/" + nm for nm in names])
    ctx.log("tee", [(r.n, r.mm, r.mode) for r in R], "before:", [len(m) for m in src])
    probe = reader(d + "/a")

    def pull(i, k):
        if R[i].mode == "plain":
            while k:
                b = H[i].read()
                if not b:
                    return
                got[i].append(b)
                k -= 1

    def copied(i):   # messages written to output i by tee
        return H[i].stat()["mw"] - npre[i]

    def settle(what="tee has copied everything"):
        t0 = time.time()
        last = None
        while True:
            s = (copied(1), copied(2))
            if min(s) >= len(src):
                require(max(s) == len(src), "tee wrote", s, "messages of", len(src))
                return
            if s != last:
                last, t0 = s, time.time()
            stays_alive(p, "tee")
            require(time.time() - t0 < WAIT, "tee is stuck after", s, "of", len(src), "messages, although the outputs are read")
            pull(1, 99)
            pull(2, 99)
            time.sleep(0.0004)

    for op in case["ops"]:
        if op[0] == "w":
            for m in map(payload, op[1]):
                if A.mode == "plain":
                    r = W.write(m)
                    require(r in (0, len(m)), "library write returns", r)
                    if r == 0:
                        settle("the full input ring is copied")
                        ctx.label("input ring full")
                        require(W.write(m) == len(m), "no room in a ring that has been copied")
                else:
                    if A.mode == "drop":
                        s = probe.stat()
                        fits = s["bu"] + len(m) <= A.n and s["mu"] < A.mm
                    else:
                        out = src[min(copied(1), copied(2)):]
                        fits = sum(map(len, out)) + len(m) <= A.n and len(out) < A.mm
                    if not fits:
                        settle()
                    require(W.write(m) == len(m), "library write fails")
                src.append(m)
            ctx.log("write", [len(payload(m)) for m in op[1]])
        elif op[0] == "r":
            pull(op[1], op[2])
        elif op[0] == "nap":
            time.sleep(0.003)
        elif op[0] == "stop":
            suspend(p)
            ctx.log("tee is stopped and goes on")
            ctx.label("stopped and resumed")
        else:
            settle()
            ctx.log("settled after", len(src))
    settle()
    time.sleep(0.001)
    stays_alive(p, "tee")
    (p.terminate if case["term"] else p.kill)()
    p.wait(WAIT)
    e = p.stderr.read()
    require(b"AddressSanitizer" not in e, "memory error", e[:2000].decode(errors="replace"))
    for i in (1, 2):
        w = want[i] + src
        if R[i].mode == "plain":
            pull(i, 1 << 30)
            require(got[i] == w, "output", i, "receives", len(got[i]), [show(x, 10) for x in got[i][:6]], "expected", len(w), [show(x, 10) for x in w[:6]])
        else:
            for m in w:
                R[i].write(m)
            left = drain(d + "/" + names[i])
            require(left == list(R[i].q), "output", i, "holds", len(left), [show(x, 10) for x in left[:6]], "expected", len(R[i].q), [show(x, 10) for x in list(R[i].q)[:6]])
        if sum(map(len, src)) > R[i].n and R[i].mode == "plain":
            ctx.label("waited for a full output")
        H[i].close()
    if A.mode != "farm":
        require(probe.stat()["mu"] == 0, "tee left messages in the input ring")
    W.close()
    probe.close()
    if len(src) >= 3:
        ctx.nt = True


CHECKS = {
    "C26": [("c26-pub", pub_case(), pub, 2400, 100000, "pub with clients that connect, read at any pace, send junk, close or reset early or late, second clients; non-trivial: 3 messages and two clients or more than 8 bytes"),
            ("c26-sub", sub_case(), sub, 1600, 80000, "sub fed with any frames in any fragmentation into rings of any size and mode drained at any pace, ended in eleven ways; non-trivial: 3 frames"),
            ("c26-chain", chain_case(), chain, 800, 40000, "pub to sub with both rings of any size; non-trivial: 3 messages")],
    "C27": [("c27-tee", tee_case(), tee, 3000, 120000, "tee between rings of any size and mode, messages before and after the start, outputs drained at any pace; non-trivial: 3 messages copied")],
}
if __name__ == "__main__":
    end("net", CHECKS)
