from vlib import *

S = lambda *x: {'"%s"' % y for y in x}


def run(c):
    b = Builder(c.work)
    G = "mpact/sim/generic/"
    exe = b.build("inst", "instruction_h.cc", [G + "instruction.cc"])
    inv = ["RefsExact", "NoDangling", "ChildListed"]
    act = ["OperandsStay", "OrderKept", "ExecuteOnce"]
    K = dict(N=3, Behs=S("log", "kids"), Lists=S("src"), AttrSets={"<<1, 2>>"}, MaxOps=1, MaxUser=2)
    c.tlc.model_check("Instructions", K, inv, act, constraint="MCBound",
                      body='MCBound == TLCGet("level") <= %d' % c.pick(7, 9))
    # tree shapes and reference histories
    KG = dict(K, N=4, Behs=S("kids"), Lists=set(), AttrSets=set(), MaxOps=0, MaxUser=c.pick(1, 2))
    tr = c.tlc.generate("Instructions", KG, maxlen=c.pick(10, 12))
    c.replay("instruction-trees", exe, tr)
    # operands and attributes
    KO = dict(N=2, Behs=S("log", "bare"), Lists=S("src", "dst", "hold", "acq", "pred"),
              AttrSets={"<<1>>", "<<>>", "<<3, 4, 5>>"}, MaxOps=c.pick(2, 3), MaxUser=1)
    tr = c.tlc.generate("Instructions", KO, maxlen=c.pick(6, 8), tag="o")
    c.replay("instruction-operands", exe, tr)
    # long random histories over larger trees
    KS = dict(N=9, Behs=S("log", "kids", "bare"), Lists=S("src", "dst", "hold", "acq", "pred"),
              AttrSets={"<<1>>", "<<>>", "<<3, 4, 5>>", "<<9, 9, 9, 9, 9, 9, 9, 9>>"}, MaxOps=20, MaxUser=2)
    n = c.pick(60, 1000)
    tr = c.tlc.generate("Instructions", KS, maxlen=c.pick(45, 60), tag="s",
                        simulate=dict(num=n, depth=c.pick(46, 61)))
    c.replay("instruction-long", exe, tr)
