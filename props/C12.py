from vlib import *

BEH = ["none", "self", "zero", "next", "far", "once", "drop", "here"]


def scripts(c, n, ln):
    r = c.rng
    out = []
    for _ in range(n):
        sc = [["reset"]]
        fails = r.random() < 0.4
        foreign = r.random() < 0.5  # no breakpoints: clear-all allowed
        nset = 0
        for _ in range(ln):
            a = r.choice([1, 1, 1, 2])
            o = r.choices(["set", "clear", "enable", "disable", "perform", "bset", "bclear", "benable",
                           "bdisable", "bclearall", "clearall", "fail"],
                          [4, 3, 4, 4, 4] + ([0] * 5 + [0.5] if foreign else [2, 2, 2, 2, 0.3, 0]) +
                          [0.8 if fails else 0])[0]
            if o == "set":
                if nset > 40:
                    continue
                nset += 1
                sc.append([o, a, r.choice(BEH + ["all"] * foreign)])
            elif o in ("clear", "enable", "disable"):
                sc.append([o, a, r.choice([0, 1, 2, 3, r.randint(0, 12)])])
            elif o in ("bclearall", "clearall"):
                sc.append([o])
            elif o == "perform":
                sc.append([o, r.choice([a, a, a, a, 3])])
            else:
                sc.append([o, a])
        out.append(sc)
    return out


def run(c):
    b = Builder(c.work)
    G = "mpact/sim/generic/"
    exe = b.build("ap", "action_point_h.cc", [G + "action_point_manager_base.cc", G + "breakpoint_manager.cc"])
    inv = ["EnabledIsPatched", "BreakpointsLive"]
    act = ["PatchedIsEnabled", "FailureIsNoOp", "NoReuse", "PerformExactly"]
    S = lambda *x: {'"%s"' % y for y in x}
    K = dict(Behs=S("none", "zero", "far", "once"), MaxActs=2, ForeignBp=False)
    c.tlc.model_check("ActionPoints", K, inv, act, constraint="MCBound",
                      body='MCBound == TLCGet("level") <= %d' % c.pick(5, 7))
    KG = dict(Behs=S("none", "self", "next"), MaxActs=2, ForeignBp=False)
    tr = c.tlc.generate("ActionPoints", KG, maxlen=c.pick(6, 7))
    c.replay("action-points", exe, tr, ["0x1000"])
    KG = dict(Behs=S("once", "drop"), MaxActs=3, ForeignBp=False)
    tr = c.tlc.generate("ActionPoints", KG, maxlen=c.pick(5, 6))
    c.replay("action-points-cleared", exe, tr, ["0x2000"])
    c.record("action-points", exe, "ActionPoints", K, scripts(c, c.pick(150, 1000), c.pick(90, 150)), inv[:1],
             ["0xffffffffffff0000"])
