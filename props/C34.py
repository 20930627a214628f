"""The GDB server: sessions, packets, registers, memory, breakpoints and run control (GdbServer.tla)."""
import random

import abslcompat
from vlib import *

REASONS = ["sw", "hw", "user", "semi", "data", "action", "done", "err", "none", "custom"]


def config(r, k):
    regs = []
    n = r.choice([2, 3, 4])
    first = r.choice([0, 0, 1, 5])
    nums = [first + i for i in range(n)]
    gap = r.random() < 0.4
    if gap:
        nums = [x + (1 if i else 0) for i, x in enumerate(nums)]
    for i, x in enumerate(nums):
        size = r.choice([8, 8, 4, 2])
        regs.append(dict(n=x, name="x%d" % x, size=size, bits=r.choice([8 * size, 8 * size, 8 * size, 0, 64, 16]),
                         bad=r.random() < 0.07))
    regs.append(dict(n=32, name="pc", size=8, bits=r.choice([64, 64, 32, 0]), bad=False))
    regs.append(dict(n=r.choice([40, 4096]), name="v0", size=16, bits=r.choice([128, 128, 0, 160]), bad=False))
    if r.random() < 0.5:
        regs.append(dict(n=50, name="zz", size=8, bits=r.choice([64, 128]), bad=True))
    ev = [4 * r.randint(1, 7), r.choice(REASONS[1:6] + REASONS[7:] + ["data", "data"]), "", -1]
    if ev[1] == "data":
        ev[2] = r.choice(["watch", "rwatch", "awatch", ""])
        if ev[2]:
            ev[3] = r.choice([0, 16, 4660, 0x12345678])
    xml = "<?xml version=\"1.0\"?>\n<!DOCTYPE target SYSTEM \"gdb-target.dtd\">\n<target version=\"1.0\">\n"
    if k % 2:
        xml += "<!-- }*$# & more * -->\n"
    for g in regs:
        a = ['name="%s"' % g["name"], 'regnum="%d"' % g["n"]]
        if g["bits"]:
            a.append('bitsize%s"%d"' % (r.choice(["=", " = "]), g["bits"]))
        if r.random() < 0.5:
            a.append('type="int"')
        r.shuffle(a)
        xml += "  <reg %s/>\n" % " ".join(a)
    xml += "</target>\n"
    host = r.choice([[], [["triple", "riscv32-unknown-elf"], ["ptrsize", "4"]],
                     [["hostname", "a.b"], ["endian", "little"], ["os_kernel", "k1"], ["os_build", "zz~"],
                      ["distribution_id", "Q"], ["vm-page-size", "4096"]]])
    return dict(regs=regs, gpr=[nums[0], nums[-1]], ev=ev, xml=xml, host=host, file=r.choice(["prog", "/a/b.elf"]))


def tla(g):
    return "[regs |-> <<%s>>, gpr |-> <<%d, %d>>, ev |-> <<%d, \"%s\", \"%s\", %d>>, xml |-> %d, file |-> \"%s\", host |-> <<%s>>]" % (
        ", ".join("[n |-> %d, size |-> %d, bits |-> %d, bad |-> %s]" % (
            x["n"], x["size"], x["bits"], "TRUE" if x["bad"] else "FALSE") for x in g["regs"]),
        g["gpr"][0], g["gpr"][1], *g["ev"], len(g["xml"]), g["file"],
        ", ".join('<<"%s", "%s">>' % tuple(h) for h in g["host"]))


def text(g):
    o = "cfg\n"
    for x in g["regs"]:
        o += "reg %d %s %d %d %d\n" % (x["n"], x["name"], x["size"], x["bits"], x["bad"])
    o += "gpr %d %d\nev %d %s %s %d\nfile %s\nhost %s\nxml %s\n" % (
        *g["gpr"], g["ev"][0], g["ev"][1], g["ev"][2] or "-", max(g["ev"][3], 0), g["file"],
        ";".join(":".join(h) for h in g["host"]) or "-", g["xml"].encode().hex())
    return o


RAW = ["", "m", "m100", "mzz,4", "m100,", "m,4", "m100,zz", "M", "M100,2", "M100:2,01", "Mzz,1:00", "M100,2:zz00", "M100,2:00zz",
       "M100,1:0", "M100,zz:00", "M100,1:g0", "p", "pzz", "p63", "p;thread:1;", "P", "P0", "Pzz=00", "P20", "P20=zz00000000000000",
       "P20=0", "P63=00", "G0", "Gzz", "H", "Hg", "Hgzz", "vCont", "vCont;", "vContc", "vCont;x:1", "vCont;c:zz", "vCont;c:",
       "vCont;:1", "vCont;s:1;c:zz", "vCont;c:-2", "vFoo", "v", "q", "Q", "qFoo", "qXfer:features:read:foo.xml:0,10",
       "qXfer:features:read:target.xml:zz,1", "qXfer:features:read:target.xml:0", "Z", "Z0", "Z0,zz,4", "Z9,100,4", "z0", "z",
       "Zx,10,4", "!", "R", "X100,0:", "i", "T1", "bc", "A", "~", "}", "m100,4}", "m100}"]


def scripts(c, n, cfgs, ln):
    r = c.rng
    out = []
    for _ in range(n):
        k = r.randrange(len(cfgs))
        g = cfgs[k]
        sc = [["reset", k + 1]]
        nums = [x["n"] for x in g["regs"]]
        open_, noack = False, False
        for _ in range(r.choice(ln)):
            if not open_:
                x = r.random()
                if x < 0.05:
                    sc.append(["connect", "x"])
                else:
                    sc.append(["connect", "+"])
                    open_, noack = True, False
                    if r.random() < 0.3:
                        sc.append(["Q", 0, "StartNoAckMode"])
                        noack = True
                continue
            f = r.choice([0] * 12 + [20, 30, 30, -1, -2, 1, 2, 3, 4]) if not noack else r.choice([0] * 8 + [20, 30, -1, -2])
            if r.random() < 0.01 and not noack:
                f = 5
                open_ = False
            t = r.choice([-2] * 8 + [1, 1, 1, 2, 7, 0, -1])
            x = r.random()
            by = lambda n: [r.randint(0, 255) for _ in range(n)]
            if x < 0.06:
                op = ["?", f]
            elif x < 0.16:
                a = r.choice([256, 256, 256 + r.randint(0, 15), 256 + r.randint(0, 15), 255, 272, 0, 0x7fffffff])
                op = ["m", f, a, r.choice([0, 1, 2, 4, 8, 16, 17, 16384, 16385, 0x7fffffff])]
            elif x < 0.26:
                d = by(r.choice([1, 1, 2, 4, 8, 16, 17]))
                a = r.choice([256, 256 + r.randint(0, 15), 256 + r.randint(0, 15), 255, 272])
                op = ["M", f, a, len(d) if r.random() < 0.85 else r.choice([0, 1, len(d) + 1, 16385, 0x7fffffff]), d]
            elif x < 0.31:
                op = ["g", f, t]
            elif x < 0.36:
                tot = sum(q["size"] for q in g["regs"] if g["gpr"][0] <= q["n"] <= g["gpr"][1])
                op = ["G", f, t, by(tot if r.random() < 0.7 else r.choice([1, tot - 1, tot + 1, tot + 8]))]
            elif x < 0.44:
                op = ["p", f, t, r.choice(nums + [99, 0x7fffffff])]
            elif x < 0.52:
                i = r.choice(g["regs"])
                sz = i["size"] if r.random() < 0.8 else r.choice([1, 2, i["size"] + 1, i["size"] + 4])
                d = by(sz)
                if i["n"] == 32:
                    d = [r.choice([0, 4, 8, 12, 20, 24, 28, 30, 32, 40]), r.choice([0, 0, 1]), 0, 0, 0, 0, 0, 0]
                op = ["P", f, t, i["n"] if r.random() < 0.95 else 99, d]
            elif x < 0.6:
                op = ["c", f, t, r.choice([-1] * 8 + [-2, 0, 4, 8, 24, 65536])]
            elif x < 0.66:
                op = ["s", f, t]
            elif x < 0.76:
                tid = lambda: r.choice([-2, -2, -1, 1, 1, 1, 0]) if r.random() < 0.92 else r.choice([2, 9, 255])
                op = ["vCont", f, [[r.choice("csss"), tid()] for _ in range(r.choice([1, 1, 2, 2, 3]))]]
            elif x < 0.77:
                op = ["vCont?", f]
            elif x < 0.8:
                op = ["H", f, r.choice("gc"), r.choice([-1, 0, 1, 1, 2, 16])]
            elif x < 0.87:
                op = [r.choice("ZZz"), f, r.choice([0, 0, 0, 0, 1, 2, 3, 4]), r.choice([4, 8, 12, 16, 20, 24, 28, 5, 4096, 65536])]
            elif x < 0.91:
                op = ["q", f, r.choice(["Attached", "C", "fThreadInfo", "sThreadInfo", "GDBServerVersion", "ExecAndArgs", "Supported",
                                        "Supported:swbreak+", "Supported:swbreak+;error-message+", "HostInfo", "Symbol::", "TStatus",
                                        "Search:memory:0;10;00", "Offsets"])]
            elif x < 0.93:
                op = ["Q", f, r.choice(["ThreadSuffixSupported", "EnableErrorStrings", "ListThreadsInStopReply", "NonStop:1",
                                        "StartNoAckMode"])]
                noack = noack or (op[2] == "StartNoAckMode" and f >= 0)
            elif x < 0.96:
                z = len(g["xml"])
                op = ["xfer", f, r.choice([0, 1, 50, r.randrange(z), z - 1, z, z + 1, 0x7fffffff]),
                      r.choice([1, 7, 100, 4096, 0x7fffffff, -1, z, z - 1])]
            elif x < 0.975:
                op = ["raw", f, r.choice(RAW)]
            elif x < 0.993:
                op = [r.choice("DDk"), f if f >= 0 else 0]
                open_ = False
            elif x < 0.995:
                op = ["big", r.choice([16000, 16380, 16381, 16384, 16400, 20000, 50000])]
                sc += [op, ["peek"]]
                break
            else:
                op = ["hangup"]
                open_ = False
            sc.append(op)
            if op[0] in "MGPsc" and r.random() < 0.5:
                sc.append(["peek"])
            elif r.random() < 0.05:
                sc.append(["peek"])
        else:
            if open_:
                sc.append(r.choice([["hangup"], ["D", 0], ["k", 0]]))
            sc += [["peek"], ["destroy"], ["peek"]]
        out.append(sc)
    for k, g in enumerate(cfgs):   # every malformed packet, the description in pieces
        sc = [["reset", k + 1], ["connect", "+"]]
        for x in RAW:
            sc.append(["raw", 0, x])
            sc.append(["peek"])
        out.append(sc)
        z = len(g["xml"])
        sc = [["reset", k + 1], ["connect", "+"]]
        step = r.choice([20, 33, 64])
        for off in range(0, z + step, step):
            sc.append(["xfer", 0, off, step])
        sc += [["p", 0, -2, n] for n in nums] + [["q", 0, "HostInfo"]]
        out.append(sc)
    return out


def run(c):
    G = "mpact/sim/util/gdbserver/"
    ov = os.path.join(c.work, "overlay")
    abslcompat.generate(ov)
    abslcompat.overlay(REPO, ov, ["mpact/sim/util/gdbserver", "mpact/sim/generic"])
    b = Builder(c.work)
    b.flags.insert(0, "-I" + ov)
    inc = ("-I" + os.path.join(VERIF, "shim", "antlr"),)
    exe = b.build("gdbserver", "gdbserver_h.cc", ["mpact/sim/generic/data_buffer.cc"], proto=True, extra=inc,
                  extra_srcs=[os.path.join(ov, G + "gdbserver.cc")], libs=("-lpcre2-8",))
    r = c.rng
    cfgs = [config(r, k) for k in range(c.pick(10, 24))]
    path = os.path.join(c.work, "cfgs.txt")
    with open(path, "w") as f:
        f.write("".join(map(text, cfgs)))
    small = [dict(cfgs[0], regs=[dict(n=0, name="x0", size=2, bits=16, bad=False), dict(n=32, name="pc", size=8, bits=64, bad=False)],
                  gpr=[0, 0], ev=[12, w, "watch" if w == "data" else "", 16 if w == "data" else -1]) for w in c.pick(["data"], ["data", "user", "semi"])]
    inv = ["TypesOK", "NoAcks", "Stored", "StopsSomewhere", "Retries"]
    c.tlc.model_check("GdbServer", dict(Cfgs="<<%s>>" % ",\n".join(map(tla, small)), Datas={"<<7>>", "<<8, 9>>"}, Frames={0, -1, 2, 5}),
                      inv, ["BadIsIgnored", "Observing", "Runs"], constraint="MCBound",
                      body='MCBound == TLCGet("level") <= %d' % c.pick(7, 9))
    K = dict(Cfgs="<<%s>>" % ",\n".join(map(tla, cfgs)), Datas=set(), Frames=set())
    c.record("gdb", exe, "GdbServer", K, scripts(c, c.pick(60, 600), cfgs, [20, 40, 80]), args=(path,), timeout=600)
    c.assumptions.append("RE2 is replaced by a stand-in on PCRE2; the client is connected over the loopback interface; one core; "
                         "no interrupt is sent while the core runs")
