"""Socket streams and the socket command line (Sockets.tla)."""
from vlib import *


def scripts(c, n, ln):
    r = c.rng
    out = []
    for _ in range(n):
        sc = [["reset", "stream"]]
        q, buf, peer, closed = [], [], "open", False
        alpha = r.choice([[10, 13, 97], list(range(256)), [10, 65, 66, 67, 255, 0], [13, 13, 10, 1]])

        def take(q, buf):  # (character or None if it would block, rest, buffered)
            if buf:
                return buf[0], q, []
            if closed:
                return -1, q, buf
            if q and q[0] != 13:
                return q[0], q[1:], buf
            if len(q) > 1:
                return q[1], q[2:], buf
            return (None, q, buf) if peer == "open" else (-1, [], buf)
        for _ in range(ln):
            o = r.choice(["send", "send", "get", "get", "get", "peek", "line", "put", "put"])
            if r.random() < 0.02:
                o = r.choice(["end", "gone", "break", "close"])
            if o == "send":
                if peer == "open" and not closed:
                    b = [r.choice(alpha) for _ in range(r.choice([0, 1, 2, 5, 40]))]
                    if b:
                        sc.append([o, b])
                        q = q + b
            elif o == "put":
                sc.append([o, [r.choice(alpha) for _ in range(r.choice([1, 1, 2, 9]))]])
            elif o in ("end", "gone", "break"):
                if peer == "open":
                    peer = "ended" if o == "end" else "gone"
                    sc.append([o])
            elif o == "close":
                closed = True
                sc.append([o])
            elif o == "line":
                qq, bb = q, buf
                while True:
                    x, qq, bb = take(qq, bb)
                    if x in (None, -1, 10):
                        break
                if x is not None:
                    q, buf = qq, bb
                    sc.append([o])
            else:
                x, qq, bb = take(q, buf)
                if x is None:
                    continue
                q, buf = qq, ([x] if o == "peek" and x >= 0 else bb)
                sc.append([o])
        out.append(sc)
    return out


def cli_scripts(c, n):
    r = c.rng
    out = []
    for _ in range(n):
        sc = [["reset", "cli"], ["new"], ["connect"]]
        for _ in range(r.choice([0, 1, 3, 20])):
            sc.append(["say", [r.choice([97, 98, 32, 0, 255, 9, 60]) for _ in range(r.choice([0, 1, 3, 40]))]])
        sc.append([r.choice(["quit", "hang", "abort", "destroy"])])
        if sc[-1][0] != "destroy" and r.random() < 0.8:
            sc.append(["destroy"])
        out.append(sc)
    return out


def run(c):
    b = Builder(c.work)
    exe = b.build("sock", "socket_h.cc", ["mpact/sim/util/renode/socket_cli.cc"],
                  fallback_globs=("mpact/sim/util/renode/socket*.cc", "mpact/sim/generic/*.cc"))
    inv = []
    act = ["InOrder", "EndIsFinal", "PeekKeeps", "Independent", "Connected"]
    S = lambda *x: {'"%s"' % y for y in x}
    T = {"<<97>>", "<<>>", "<<98, 32, 99>>"}
    K = dict(Modes=S("stream", "cli"), Chunks={"<<97>>", "<<13, 10>>", "<<13>>", "<<98, 10>>"}, Chars={"<<10>>", "<<255, 97>>"},
             Texts=T, MaxQ=3)
    c.tlc.model_check("Sockets", K, inv, act, constraint="MCBound",
                      body='MCBound == TLCGet("level") <= %d' % c.pick(7, 9))
    tr = c.tlc.generate("Sockets", dict(K, Modes=S("stream"), MaxQ=2), maxlen=c.pick(6, 7))
    c.replay("socket-streams", exe, tr)
    tr = c.tlc.generate("Sockets", dict(K, Modes=S("cli")), maxlen=c.pick(6, 7), tag="c")
    c.replay("socket-cli", exe, tr)
    c.record("socket-cli", exe, "Sockets", K, cli_scripts(c, c.pick(80, 600)))
    c.record("socket-streams", exe, "Sockets", K, scripts(c, c.pick(200, 2000), 100))
    c.assumptions.append("the loopback network delivers; the shell is a stand-in that echoes lines")
