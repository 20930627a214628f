from vlib import *


def scripts(c, n, ln):
    r = c.rng
    out = []
    w = dict(half=(5, 5, 5), float=(8, 12, 11), double=(11, 26, 26))
    kinds = dict(half=["half", "u16", "i16"], float=["float", "u32", "i32"], double=["double", "u64", "i64"])

    def field(bits):
        k = r.randrange(6)
        if k == 0:
            return 0
        if k == 1:
            return 2**bits - 1
        if k == 2:
            return 2**r.randrange(bits)
        if k == 3:
            return (2**bits - 1) ^ 2**r.randrange(bits)
        return r.randrange(2**bits)
    for _ in range(n):
        sc = [["reset"]]
        for _ in range(ln):
            g = r.choice(list(w))
            e, hi, lo = w[g]
            sc.append(["cls", r.choice(kinds[g]), r.randrange(2), field(e), field(hi), field(lo)])
        out.append(sc)
    return out


def run(c):
    b = Builder(c.work)
    exes = [("float", b.build("float", "float_h.cc", [], proto=False, fallback_globs=()))]
    b2 = Builder(os.path.join(c.work, "o2"), sanitize=False, opt="-O2")
    exes.append(("float-O2", b2.build("float", "float_h.cc", [], proto=False, fallback_globs=(),
                                      extra=("-fno-strict-aliasing",))))
    K = dict(HalfExps="0..31", FloatExps={0, 1, 127, 128, 254, 255}, DoubleExps={0, 1, 255, 1023, 1024, 2046, 2047},
             FloatHi="{0, 2047, 4095, 2049} \\cup {2^i : i \\in 0..11}", FloatLo="{0, 2047, 1, 1024}",
             DoubleHi="{0, 2^26 - 1, 2^25 - 1, 2^25 + 1} \\cup {2^i : i \\in 0..25}",
             DoubleLo="{0, 2^26 - 1} \\cup {2^i : i \\in %s}" % c.pick("{0, 1, 12, 22, 25}", "0..25"))
    c.tlc.model_check("FloatFormats", K, ["Partition", "Exact"])
    tr = c.tlc.generate("FloatFormats", K, maxlen=3)
    for n, exe in exes:
        c.replay(n, exe, tr)
    c.record("float", exes[0][1], "FloatFormats", K, scripts(c, c.pick(40, 400), 200), ["Partition"])
    c.assumptions.append("encodings of single and double precision are sampled by field "
                         "(all single-bit fractions, boundary exponents, random); half precision is exhaustive")
