"""Instruction helpers and architecture state (Semantics.tla, ArchStates.tla)."""
from vlib import *

TY = ["i16", "u8", "i8", "u16", "i32", "u16"]
SIZE = [1, 1, 4, 3, 1, 1]
RANGE = dict(i8=(-128, 127), u8=(0, 255), i16=(-32768, 32767), u16=(0, 65535))
F1, F2 = ["fst", "neg", "pos", "add"], ["add", "fst", "lst", "lt", "mix", "mid"]
T3 = [["i8", "u16"], ["i8", "i8"], ["u16", "i8"], ["u8", "i16"]]


def inst(r, lats=(0, 0, 1, 2, 3)):
    form = r.choice(["u", "b", "b", "uv", "bv", "bv", "tv", "tv"])
    d = r.choice([1, 2, 5, 6] if len(form) == 1 else [3, 4, 3, 4, 1, 6])
    R = TY[d - 1]
    small = ["i8", "u8", "i16", "u16"]
    n = dict(u=1, b=2, t=3)[form[0]]
    k = r.randint(1, n + 1 if n > 1 else 2)
    k = min(k, 4)
    if n == 3:
        k = r.choice([1, 2, 4])
    ts = [R] + ([] if k == 1 else [r.choice(small)] if k == 2 else [r.choice(small), r.choice(small)] if k == 3 else
                [r.choice(small)] + r.choice(T3))
    srcs = []
    for _ in range(n):
        x = r.random()
        vec = len(form) == 2
        if x < 0.3:
            srcs.append(["i", r.choice([0, 1, -1, 127, 128, -128, 255, 256, 32767, 32768, -32768, 65535, r.randint(-40000, 70000)])])
        elif x < 0.45:
            srcs.append(["v", [r.choice([0, 1, -1, 127, 128, 255, -129, 32767, -32768, r.randint(-32768, 32767)]) for _ in range(SIZE[d - 1] if vec else r.choice([1, 2]))]])
        else:
            ok = [q for q in range(1, 7) if not vec or SIZE[q - 1] >= SIZE[d - 1]]
            srcs.append(["r", r.choice(ok)])
    return [form, r.choice(F1 if n == 1 else F2), ts, d, srcs, r.choice(lats)]


def programs(c, n, ln):
    r = c.rng
    out = []
    for _ in range(n):
        p = [inst(r) for _ in range(r.randint(2, 10))]
        p += [["u", "fst", [TY[d - 1]], d, [["i", r.randint(-300, 300)]], r.choice([0, 1])] for d in (1, 2, 5, 6)]
        p += [["uv", "fst", [TY[d - 1], "i16"], d, [["v", [r.randint(-300, 300) for _ in range(SIZE[d - 1])]]], 0] for d in (3, 4)]
        sc = [["reset", p]]
        for _ in range(ln):
            x = r.random()
            sc.append(["exec", r.randint(1, len(p))] if x < 0.5 else ["adv"] if x < 0.75 else ["regs"])
        out.append(sc + [["regs"]])
    return out


def tla_prog(p):
    def v(x):
        return '"%s"' % x if isinstance(x, str) else "<<" + ", ".join(v(y) for y in x) + ">>" if isinstance(x, list) else str(x)
    return v(p)


def arch_scripts(c, n, ln):
    r = c.rng
    out = []
    for _ in range(n):
        sc, kinds, lines, tags = [["reset"]], [], 1, 0
        for _ in range(ln):
            x = r.random()
            regs = [i + 1 for i, k in enumerate(kinds) if k == "r"]
            k = r.choice("rf")
            if x < 0.12 and len(kinds) < 8:
                sc.append(["new", k, r.randint(1, 3), r.randint(0, 1)])
                kinds.append(k)
            elif x < 0.22 and k in kinds:
                sc.append(["alias", k, r.randint(1, 3), r.choice([i + 1 for i, q in enumerate(kinds) if q == k])])
            elif x < 0.3:
                sc.append(["remove", k, r.randint(1, 3)])
            elif x < 0.4:
                sc.append(["look", k])
            elif x < 0.43 and lines < 4:
                sc.append(["line"])
                lines += 1
            elif x < 0.55:
                sc.append(["call", r.randint(1, lines), r.choice([1, 1, 2, 3, 9])])
            elif x < 0.68 and regs:
                sc.append(["write", r.choice(regs), r.randint(0, 99), r.choice([0, 1, 2, 5])])
            elif x < 0.8 and regs:
                sc.append(["read", r.choice(regs)])
            elif x < 0.97:
                sc.append(["adv"])
            else:
                sc.append(["end"])
                kinds, lines, tags = [], 1, 0
        out.append(sc + [["look", "r"], ["look", "f"], ["end"]])
    return out


def run(c):
    b = Builder(c.work)
    G = "mpact/sim/generic/"
    exe = b.build("semantics", "semantics_h.cc",
                  [G + x for x in ("data_buffer.cc", "register.cc", "state_item_base.cc", "arch_state.cc", "component.cc", "fifo.cc",
                                   "program_error.cc", "simple_resource.cc", "resource_bitset.cc", "instruction.cc")],
                  fallback_globs=(G + "*.cc",))
    inv, act = ["TypesOK"], ["OnlyDestination", "NotEarly", "Fixed"]
    r = c.rng
    progs = set()
    for _ in range(c.pick(40, 200)):
        p = [inst(r, (0, 1, 2)) for _ in range(3)]
        progs.add(tla_prog(p))
    K = dict(Programs=set(list(sorted(progs))[:c.pick(20, 80)]), MaxPend=3)
    c.tlc.model_check("Semantics", K, inv, act, constraint="MCBound", body='MCBound == TLCGet("level") <= %d' % c.pick(6, 8))
    c.replay("semantics", exe, c.tlc.generate("Semantics", K, maxlen=c.pick(5, 6), tag="g"))
    KV = dict(Programs=set(), MaxPend=99)
    c.record("semantics", exe, "Semantics", KV, programs(c, c.pick(300, 4000), c.pick(30, 60)), inv)
    inv, act = ["KindsOK"], ["Stable", "OnlyThat", "CallOnce"]
    K = dict(NNames=2, Lats={0, 1, 2}, MaxObj=2, MaxLines=2)
    c.tlc.model_check("ArchStates", K, inv, act, constraint="MCBound", body='MCBound == TLCGet("level") <= %d' % c.pick(5, 6))
    K = dict(K, NNames=3)
    c.replay("archstate", exe, c.tlc.generate("ArchStates", dict(K, Lats={0, 1}), maxlen=c.pick(4, 5), tag="a"))
    c.replay("archstate-sim", exe, c.tlc.generate("ArchStates", dict(K, MaxObj=4, MaxLines=3), maxlen=16, tag="as", simulate=dict(num=c.pick(10, 150), depth=17)))
    c.record("archstate", exe, "ArchStates", K, arch_scripts(c, c.pick(200, 2500), c.pick(40, 100)), inv)
    c.assumptions.append("objects that no name refers to are destroyed by the client before the state")
