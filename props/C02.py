from vlib import *


def vis(n, w, i):
    if (i + 1) * w > n:
        return False
    return n <= 16 or i * w + w <= 8 or i * w >= n - 8


def scripts(c, n, length):
    r = c.rng
    out = []
    for _ in range(n):
        sc = [["reset"]]
        # Track only what is needed to produce admissible calls: sizes and counts by id.
        # Ids of recycled buffers are chosen by the code, so scripts are produced in a
        # way that does not depend on them: the driver below asks the harness step by step.
        sizes = r.sample([1, 2, 3, 4, 6, 8, 12, 16, 64, 1024, 4088, 4095, 4096, 4097, 4104, 8192, 10000], 3)
        out.append((sizes, length))
    return out


class Live:
    """Interactive driver: the next call depends on the ids the code reported."""
    def __init__(self, exe):
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, text=True, env=HARNESS_ENV)

    def do(self, op):
        try:
            self.p.stdin.write(op_line(op) + "\n")
            self.p.stdin.flush()
            ln = self.p.stdout.readline()
        except BrokenPipeError:
            ln = ""
        if not ln.endswith("\n"):
            self.p.wait()
            raise EOFError(self.p.stderr.read()[-4000:])
        return json.loads(ln)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def drive(c, exe, n, length):
    """Produces scripts whose ids are admissible, by talking to the code."""
    r = c.rng
    scs = []
    lv = Live(exe)
    for sizes, ln in scripts(c, n, length):
        sc = [["reset"]]
        lv.do(sc[0])
        live = {}
        for _ in range(ln):
            k = r.random()
            if not live or (k < 0.2 and len(live) < 7):
                op = ["alloc", r.randint(1, 2), r.choice(sizes), r.randint(0, 255)]
            elif k < 0.27 and len(live) < 7:
                op = ["copy", r.randint(1, 2), r.choice(list(live))]
            elif k < 0.35:
                op = ["inc", r.choice(list(live))]
            elif k < 0.62:
                op = ["dec", r.choice(list(live))]
            elif k < 0.66:
                op = ["clear", r.randint(1, 2)]
            elif k < 0.72:
                h = r.choice(list(live))
                g = [x for x in live if live[x][0] == live[h][0] and x != h]
                if not g:
                    continue
                op = ["copyfrom", h, r.choice(g)]
            else:
                h = r.choice(list(live))
                sz = live[h][0]
                w = r.choice([1, 2, 4, 8])
                cand = [i for i in list(range(0, 16)) + list(range(max(0, sz // w - 16), sz // w))
                        if vis(sz, w, i)]
                if not cand:
                    continue
                i = r.choice(cand)
                kind = r.choice(["set", "get", "getspan", "num", "setspan"])
                if kind == "set":
                    op = ["set", h, w, i, [r.randint(0, 255) for _ in range(w)]]
                elif kind == "setspan":
                    m = min(16 if sz <= 16 else 8, sz) // w
                    m = r.randint(1, m) if m else 0
                    if not m:
                        continue
                    op = ["setspan", h, w, [r.randint(0, 255) for _ in range(m * w)]]
                elif kind == "num":
                    op = ["num", h, w]
                else:
                    op = [kind, h, w, i]
            sc.append(op)
            try:
                out = lv.do(op)
            except EOFError as e:
                c.fail("data-buffer", "the code crashed at %s" % op,
                       dict(suite="data-buffer", trace=sc, stderr=str(e)))
            live = {x[0]: (x[1], x[2]) for x in out[1]}
        scs.append(sc)
    lv.close()
    return scs


def run(c):
    b = Builder(c.work)
    exe = b.build("db", "data_buffer_h.cc", [G + "data_buffer.cc"], proto=False)
    K = dict(Sizes={2, 4097}, Factories={1, 2}, Vals={1}, Widths={2}, MaxBufs=2, MaxCount=2)
    inv = ["LiveIffReferenced", "CopyEqual"]
    act = ["SizeKept", "NoInterference", "HandedOutOnlyIfFree", "ReleaseOnlyFree"]
    c.tlc.model_check("DataBuffers", K, inv, act, body="MCBound == Len(s) <= 3",
                      constraint="MCBound")
    K2 = dict(K, Factories={1}, MaxBufs=3, Widths={1, 2})
    # Which recycled buffer is re-used is not specified, so behaviours are not replayed
    # blindly: deterministic ones (at most one free buffer per size) are.
    tr = c.tlc.generate("DataBuffers", dict(K, Sizes={2, 4096, 4097}, Factories={1}), maxlen=c.pick(10, 12))
    tr = [t for t in tr if deterministic(t)]
    c.replay("data-buffer", exe, tr)
    sc = drive(c, exe, c.pick(60, 300), c.pick(120, 250))
    c.record("data-buffer", exe, "DataBuffers", K, sc, inv)


def deterministic(t):
    """No step of the behaviour had a choice between several recycled buffers."""
    state = {}
    for op, out in t:
        if op[0] in ("alloc", "copy"):
            if op[0] == "alloc":
                f, n = op[1], op[2]
            else:
                f, n = op[1], state[op[2]][1]
            free = [x for x, v in state.items() if v[0] == "free" and v[1] == n and v[2] == f]
            if len(free) > 1:
                return False
            state[out[0]] = ("live", n, f)
        elif op[0] == "dec":
            live = {x[0] for x in out[1]}
            if op[1] not in live:
                state[op[1]] = ("free",) + state[op[1]][1:]
        elif op[0] == "clear":
            for x in list(state):
                if state[x][0] == "free" and state[x][2] == op[1]:
                    state[x] = ("gone",) + state[x][1:]
    return True


G = "mpact/sim/generic/"
