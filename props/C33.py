"""Generated assemblers (IsaAsm.tla): a line is encoded as the opcode whose formats it has."""
import json

import isadesc as d

WORDS = ["x1", "r2", "5", "-3", "lab", "0x1f", "a.b", "%lo(y)", "z?", "n!", "", "#4", "#x", "u,v", "(s)", "_"]


def attach(P, k):
    return "\n".join("// " + n + "\n" + t for n, t in d.text(P, k))


def formats(P, n):
    """opcode -> formats of slot n (only used to choose lines)."""
    S = P["slots"][n]
    out = {}
    for b, _ in S["bases"]:
        out.update(formats(P, b))
    for o in S["ops"]:
        if o["k"] == "del":
            out.pop(o["n"], None)
        elif o["a"].get("disasm") or o["k"] == "op":
            out[o["n"]] = o["a"].get("disasm", [])
    return out


def line(r, fs, tidy):
    out = ""
    for i, f in enumerate(fs):
        if i:
            out += " " if tidy else r.choice([" ", "  ", "\t", " \t "])
        skip = False
        for p in f:
            if p[0] == "t":
                t = "" if skip else p[1]
                if not tidy and r.random() < 0.3:
                    t = r.choice([t.replace(" ", "  "), t.replace(" ", "\t"), t.strip(), " " + t,
                                  t + " ", t.replace(" ", ""), t.replace(",", " , ")])
                out += t
                skip = False
                continue
            opt = p[-1] == "?"
            if opt and r.random() < 0.5:
                skip = True
                continue
            w = r.choice(WORDS[:6] if r.random() < 0.6 else WORDS)
            if tidy and w == "":
                w = "x1"
            out += w
            skip = False
    return out


def mutate(r, t):
    if not t:
        return r.choice([" ", "x"])
    i = r.randrange(len(t))
    return r.choice([t[:i] + t[i + 1:], t[:i] + r.choice(" ,x(") + t[i:], t[:i], t + " x", "  " + t,
                     t + "\t", t.upper(), t.replace(" ", "", 1), "x" + t, t[i:]])


def run(c):
    r = c.rng
    n = c.pick(14, 50)
    ps = []
    for _ in range(n):
        g = d.Gen(r)
        g.optional = r.choice([0, 0.1, 0.3])
        g.rel, g.twins = r.choice([0.1, 0.4, 0.4]), r.choice([0, 0.4, 0.6])
        ps.append(g.isa())
    exe, gen = d.build_generator(c.work)
    binary, status = d.build_decoders(c, c.work, exe, gen, ps, driver=d.asm_driver,
                                      mains=[d.VERIF + "/harness/isaasm.cc"])
    for k, (st, err) in enumerate(status):
        if st != "ok":
            c.fail("assemble", "the assembler of description %d is %s" % (k, st),
                   dict(isa=attach(ps[k], k), stderr=err))
    small = sorted(ps, key=lambda P: len(d.tla(P)))[:c.pick(3, 8)]
    c.tlc.model_check("IsaAsm", dict(Isas="<<" + ",\n".join(map(d.tla, small)) + ">>",
                                     Words='{"x1", "n!"}' if not c.pick(0, 1) else '{"x1", "n!", "z?"}'),
                      invariants=["RoundTrip", "MustIsMay", "Asked", "Honest"])
    scripts = []
    for k, P in enumerate(ps):
        sc = [["reset", k + 1]]
        every = [fs for n, _ in P["list"] for fs in formats(P, n).values() if fs]
        for n, ix in P["list"]:
            own = formats(P, n)
            for fs in own.values():
                if not fs:
                    continue
                for i in range(c.pick(6, 15)):
                    t = line(r, fs, i < 2)
                    if i > 3:
                        t = mutate(r, t)
                    sc.append(["encode", n, r.choice(ix or [0]), t])
            for i in range(c.pick(5, 15)):
                t = line(r, r.choice(every), r.random() < 0.5) if every and i > 2 else \
                    ["", " ", "none"][i % 3]
                sc.append(["encode", n, r.choice(ix or [0]), t])
        scripts.append([[x[0], x[1]] if x[0] == "reset" else x for x in sc])
    c.notes.append("%d descriptions; for every opcode of every slot lines that have its format, with "
                   "other spacing, and with mistakes" % len(ps))
    try:
        c.record("assemble", binary, "IsaAsm",
                 lambda evs: dict(Isas=d.consts_for(ps)(evs)["Isas"], Words=set()), scripts,
                 timeout=600, per_chunk=300)
    except d.vlib.Violation as v:
        j = json.load(open(v.replay))
        k = j["trace"][0][0][1] - 1
        j["isa"] = attach(ps[k], k)
        json.dump(j, open(v.replay, "w"), indent=1)
        raise
    c.assumptions.append("regular expressions are run by PCRE2 behind RE2's interface; the grammar "
                         "is parsed by a stand-in for the ANTLR runtime driven by the repository's "
                         ".g4 file")
