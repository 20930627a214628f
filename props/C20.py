from vlib import *

LIM = 1 << 30


class Over(Exception):
    pass


def val(e):
    """Only used to keep generated inputs inside the int range."""
    t = e[0]
    if t == "c":
        return e[1]
    if t == "p":
        return None
    if t in ("neg", "slot"):
        v = val(e[1])
        return None if v is None else (-v if t == "neg" else v)
    if t == "fn":
        vs = [val(x) for x in e[2]]
        if None in vs:
            return None
        r = sum(vs) if e[1] == "sum" else (2 * vs[0] if len(vs) == 1 else None)
    else:
        l, r2 = val(e[1]), val(e[2])
        if l is None or r2 is None:
            return None
        r = {"add": l + r2, "sub": l - r2, "mul": l * r2, "div": None if r2 == 0 else int(abs(l) // abs(r2)) * (1 if (l < 0) == (r2 < 0) else -1)}[t]
    if r is not None and abs(r) > LIM:
        raise Over()
    return r


def subst(e, a):
    t = e[0]
    if t == "c":
        return e
    if t == "p":
        return a[e[1]] if e[1] < len(a) else e
    if t in ("neg", "slot"):
        return [t, subst(e[1], a)]
    if t == "fn":
        return [t, e[1], [subst(x, a) for x in e[2]]]
    return [t, subst(e[1], a), subst(e[2], a)]


def size(e):
    return 1 + sum(size(x) for x in e[1:] if isinstance(x, list) and x and isinstance(x[0], str)) + \
        (sum(size(x) for x in e[2]) if e[0] == "fn" else 0)


def tree(r, d):
    k = r.random()
    if d == 0 or k < 0.15:
        return ["c", r.choice([0, 1, 2, 3, -1, -2, -3, 5, 7, -8, 100, r.randint(-60000, 60000), 2000000, -7777777])] \
            if r.random() < 0.6 else ["p", r.choice([0, 0, 1, 1, 2, 3])]
    if k < 0.3:
        return ["neg", tree(r, d - 1)]
    if k < 0.38:
        return ["slot", tree(r, d - 1)]
    if k < 0.5:
        return ["fn", r.choice(["sum", "sum", "not3"]), [tree(r, d - 1) for _ in range(r.choice([0, 1, 1, 2, 3]))]]
    return [r.choice(["add", "sub", "mul", "div", "div"]), tree(r, d - 1), tree(r, d - 1)]


def scripts(c, n, ln):
    r = c.rng
    out = []
    while len(out) < n:
        sc = [["reset"]]
        st = {}
        while len(sc) < ln:
            k = r.random()
            try:
                if k < 0.4 or not st:
                    t = tree(r, r.randint(0, 4))
                    val(t)
                    i = r.randint(1, 4)
                    sc.append(["mk", i, t])
                    st[i] = t
                elif k < 0.85:
                    i, j = r.choice(list(st)), r.randint(1, 4)
                    null = r.random() < 0.15
                    a = [r.choice(list(st)) for _ in range(r.choice([0, 1, 2, 2, 3, 4, 4]))]
                    if null:
                        a = []
                    ex = [st[x] for x in a]
                    t = st[i] if null else subst(st[i], ex)
                    if size(t) > 60:
                        continue
                    val(t)
                    sc.append(["eval", i, null, a, j])
                    # unknown whether it fails: avoid depending on it
                    sc.append(["mk", j, t])
                    st[j] = t
                elif k < 0.95:
                    i, j = r.choice(list(st)), r.randint(1, 4)
                    sc.append(["copy", i, j])
                    st[j] = st[i]
                else:
                    i = r.choice(list(st))
                    sc.append(["del", i])
                    del st[i]
            except Over:
                continue
        out.append(sc)
    return out


def run(c):
    b = Builder(c.work)
    exe = b.build("texpr", "template_expr_h.cc", ["mpact/sim/decoder/template_expression.cc"], proto=False,
                  fallback_globs=("mpact/sim/decoder/*.cc",))
    leaves = ['<<"c",0>>', '<<"c",3>>', '<<"c",-2>>', '<<"p",0>>', '<<"p",1>>']
    d1 = list(leaves)
    d1 += ['<<"%s",%s>>' % (u, x) for u in ("neg", "slot") for x in leaves]
    d1 += ['<<"%s",%s,%s>>' % (o, x, y) for o in ("add", "sub", "mul", "div") for x in leaves for y in leaves]
    d1 += ['<<"fn","%s",<<%s>>>>' % (f, a) for f in ("sum", "not3")
           for a in ["", *leaves, '<<"p",0>>,<<"c",3>>']]
    d2 = ['<<"%s",%s>>' % (u, x) for u in ("neg", "slot") for x in d1[5:] if "fn" in x or "div" in x or "neg" in x]
    d2 += ['<<"%s",%s,<<"c",-2>>>>' % (o, x) for o in ("sub", "div") for x in d1[5:] if "fn" in x or "div" in x]
    t2 = ['<<"c",3>>', '<<"c",0>>', '<<"p",1>>', '<<"add",<<"p",0>>,<<"c",1>>>>',
          '<<"div",<<"c",1>>,<<"c",0>>>>', '<<"fn","not3",<< <<"c",3>> >>>>']
    inv = ["ConstHasValue", "ConstNoParams"]
    act = ["Commutes", "OthersUnchanged"]
    K = dict(Trees1="{" + ",".join(d1) + "}", Trees2="{" + ",".join(t2) + "}", Small=True)
    c.tlc.model_check("TemplateExpr", K, inv, act)
    K2 = dict(K, Small=False, Trees1="{" + ",".join(d1 + d2) + "}")
    seen, sc = set(), []
    for kk in (K, K2):
        for t in maximal(c.tlc.generate("TemplateExpr", kk, maxlen=c.pick(6, 7) if kk is K else 5, tag="x" if kk is K else "y")):
            ops = [e[0] for e in t]
            if json.dumps(ops) not in seen:
                seen.add(json.dumps(ops))
                sc.append(ops)
    # Where an undefined constant is reported is left open, so outcomes are judged by TLC.
    if c.quick() and len(sc) > 6000:
        sc = c.rng.sample(sc, 6000)
    c.record("template-bounded", exe, "TemplateExpr", K, safe(c, exe, sc), inv)
    c.record("template-random", exe, "TemplateExpr", K, scripts(c, c.pick(150, 1500), c.pick(40, 80)), inv)


def safe(c, exe, scs):
    """Behaviours in which the code took the other allowed branch refer to objects that do not
    exist there: cut them at the first step whose slots are empty."""
    out = []
    for sc in scs:
        full = set()
        keep = []
        for op in sc:
            need = {"eval": [op[1]] + list(op[3]) if op[0] == "eval" else [], "copy": [op[1]] if op[0] == "copy" else []}.get(op[0], [])
            if any(k not in full for k in need):
                break
            keep.append(op)
            if op[0] == "mk":
                full.add(op[1])
            if op[0] == "copy":
                full.add(op[2])
            if op[0] == "del":
                full.discard(op[1])
        out.append(keep)
    return out
