from vlib import *


def rand_mask(r):
    k = r.random()
    if k < 0.25:
        return r.getrandbits(64)
    if k < 0.4:
        return r.getrandbits(64) & r.getrandbits(64) & r.getrandbits(64)
    if k < 0.55:
        return r.getrandbits(64) | r.getrandbits(64) | r.getrandbits(64)
    m = 0  # runs
    pos = r.randint(0, 8)
    while pos < 64:
        w = r.choice([1, 1, 2, 3, 5, 8, 12, 31, 33, 64])
        m |= ((1 << w) - 1) << pos
        pos += w + r.choice([1, 1, 2, 7, 20])
    return m & ((1 << 64) - 1)


def bits(x):
    return [i for i in range(64) if (x >> i) & 1]


def scripts(c, n, k):
    r = c.rng
    fixed = [0, (1 << 64) - 1, 1, 1 << 63, (1 << 63) | 1, (1 << 32) - 1, ((1 << 32) - 1) << 32,
             0x5555555555555555, 0xaaaaaaaaaaaaaaaa, (1 << 63) - 1, ~1 & ((1 << 64) - 1)]
    out = []
    for i in range(n):
        m = fixed[i] if i < len(fixed) else rand_mask(r)
        sc = [["reset"], ["mask", bits(m)]]
        for j in range(k):
            v = r.choice([r.getrandbits(64), r.getrandbits(64) & m, r.getrandbits(64) & ~m,
                          (1 << 64) - 1, 1 << r.randint(0, 63), rand_mask(r), m])
            sc.append(["ext", bits(v & ((1 << 64) - 1))])
        out.append(sc)
    # every single run of ones, and pairs of runs
    full = (1 << 64) - 1
    runs = [((1 << w) - 1) << p for p in range(64) for w in range(1, 65 - p)]
    two = []
    for _ in range(n):
        cuts = sorted(r.sample(range(65), 4))
        two.append((((1 << (cuts[1] - cuts[0])) - 1) << cuts[0]) | (((1 << (cuts[3] - cuts[2])) - 1) << cuts[2]))
    ms = runs + two
    for i in range(0, len(ms), 100):
        sc = [["reset"]]
        for m in ms[i:i + 100]:
            sc += [["mask", bits(m)], ["ext", bits(full)], ["ext", bits(r.getrandbits(64))]]
        out.append(sc)
    return out


GEN = r'''
#include "harness.h"
static uint64_t W(const std::string& s) { uint64_t r = 0; for (auto b : vh::L(s)) r |= 1ULL << b; return r; }
template <typename T> struct Tag {};
%s
int main() {
  std::map<uint64_t, uint64_t (*)(uint64_t)> t = {%s};
  uint64_t (*f)(uint64_t) = nullptr;
  return vh::Main({
      {"reset", [&](const vh::Args& a, vh::Out& o) { o.b(true); }},
      {"mask", [&](const vh::Args& a, vh::Out& o) { f = t.at(W(a[1])); o.b(true); }},
      {"ext", [&](const vh::Args& a, vh::Out& o) {
         uint64_t v = f(W(a[1]));
         std::vector<int> bits;
         for (int i = 0; i < 64; i++) if ((v >> i) & 1) bits.push_back(i);
         o.list(bits); }},
  });
}
'''


def generated(c, b, exe, masks):
    """Compiles the statements WriteExtraction emits for the given masks."""
    outs, rc, err = run_harness(exe, [["text", list(m)] for m in masks])
    if rc != 0 or len(outs) != len(masks):
        c.fail("text", "WriteExtraction crashed", dict(stderr=err))
    fns, tab = [], []
    for i, (m, o) in enumerate(zip(masks, outs)):
        fns.append("static uint64_t f%d(uint64_t value) {\n  uint64_t result%s;\n%s  return result;\n}"
                   % (i, " = 0" if not m else " = 0x5a5a5a5a5a5a5a5aULL", o[0]))
        tab.append("{0x%xULL, f%d}" % (sum(1 << x for x in m), i))
    src = os.path.join(c.work, "extract_gen.cc")
    with open(src, "w") as f:
        f.write(GEN % ("\n".join(fns), ", ".join(tab)))
    g = os.path.join(c.work, "extract_gen")
    r = subprocess.run([CXX, "-std=c++17", "-O0", "-Wno-everything", "-I" + VERIF + "/harness",
                        src, "-o", g], capture_output=True, text=True)
    if r.returncode != 0:
        c.fail("text", "the statements WriteExtraction emits do not compile",
               dict(stderr=r.stderr[:3000], source="\n".join(fns)[:5000]))
    return g


def run(c):
    b = Builder(c.work)
    exe = b.build("extract", "extract_h.cc", ["mpact/sim/decoder/extract.cc"], proto=False,
                  fallback_globs=("mpact/sim/decoder/*.cc",))
    K = dict(Offsets={0, 30, 59}, Win=5)
    inv = ["Dense", "Monotone"]
    c.tlc.model_check("Extract", K, inv)
    c.tlc.model_check("ExtractScan", dict(W=c.pick(7, 9)), ["Correct", "Shifts", "Disjoint"])
    tr = c.tlc.generate("Extract", dict(K, Win=c.pick(5, 6), Offsets=c.pick({0, 30, 59}, {0, 29, 58})), maxlen=4)
    tr = [t for t in tr if len(t) == 3]
    c.replay("recipe", exe, tr)
    g = generated(c, b, exe, sorted({tuple(t[1][0][1]) for t in tr}))
    c.replay("generated-code", g, tr)
    sc = scripts(c, c.pick(500, 4000), 8)
    c.record("recipe", exe, "Extract", K, sc, inv)
    g = generated(c, b, exe, sorted({tuple(o[1]) for s in sc for o in s if o[0] == "mask"}))
    c.record("generated-code", g, "Extract", K, sc, inv)
