"""Mutation analysis of a check: small syntactic changes to the files of a property.
usage: mutate.py ID MAX FILE...   (files relative to the repository)
Runs on scratch copies under /tmp/mut; prints the mutants the check does not catch."""
import concurrent.futures as cf
import os
import queue
import random
import re
import shutil
import subprocess
import sys
import threading

pid, mx = sys.argv[1], int(sys.argv[2])
files = sys.argv[3:]
REPO = os.environ.get("VERIF_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/mut"
CACHE = ROOT + "/cache"
NW = int(os.environ.get("NW", "7"))

SWAPS = [(r"(?<![<>=!\-])<(?![<=])(?=\s)", "<="), (r"<=(?!>)", "<"), (r"(?<![>\-])\s>(?![>=])(?=\s)", " >="), (r">=", ">"), (r"==", "!="),
         (r"!=", "=="), (r"(?<=[\w)\]]) \+ (?=[\w(])", " - "), (r"(?<=[\w)\]]) - (?=[\w(])", " + "), (r"&&", "||"), (r"\|\|", "&&"),
         (r"\+\+", "--"), (r"(?<=\s)<<(?=\s)", ">>"), (r"(?<=\s)>>(?=\s)", "<<"), (r"(?<=[\w)]) & (?=[\w(~])", " | "),
         (r"(?<=[\w)]) \| (?=[\w(~])", " & "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b(?![.x])", "1"), (r"\b1\b", "0"),
         (r"\b1\b", "2"), (r"\b([2-9]|[1-9][0-9]+)\b(?!')", None), (r"\+=", "-="), (r"-=", "+="), (r"\|=", "&="), (r"&=", "|="),
         (r"\bcontinue;", ";"), (r"\bbreak;", ";"), (r"if \((?!!)(?=[^;]*\) ?(\{|return|continue|break))", "if (!"), (r"if \(!(?=\w)", "if ("), (r"/ (?=\w)", "* "),
         (r"\* (?=\w+\b[^*])(?<=[\w)] \* )", "/ "), (r"\bIncRef\(\)", "ref_count()"), (r"~(?=\w)", ""), (r"\bstd::min\b", "std::max"),
         (r"\bstd::max\b", "std::min"), (r"uint64_t", "uint32_t"), (r"\bint64_t", "int32_t"), (r"make_signed_t|std::make_signed<", None),
         (r"\bpush_back\b", "push_front"), (r"\bbegin\(\)", "end()"), (r"\.first\b", ".second")]


def code(line):
    return line.split("//")[0]


def mutants(path):
    out = []
    lines = open(path).read().split("\n")
    pre = False
    for i, ln in enumerate(lines):
        c = code(ln)
        if not c.strip() or c.lstrip().startswith("#") or pre:
            pre = c.rstrip().endswith("\\")
            continue
        st = c.strip()
        if re.match(r"(using|namespace|template|class|struct|public|private|protected|friend|typedef|static_assert)\b", st):
            continue
        instr = [m.span() for m in re.finditer(r'"(\\.|[^"])*"', c)]
        for pat, rep in SWAPS:
            for m in re.finditer(pat, c):
                if any(a <= m.start() < b for a, b in instr):
                    continue
                r = rep
                if r is None:
                    if m.group(0).isdigit():
                        r = str(int(m.group(0)) + 1)
                    else:
                        continue
                out.append((i, ln[:m.start()] + r + ln[m.end():]))
        if st.endswith(";") and re.match(r"[\w.>\-\[\]*()]+(\(.*\)|\s*[-+|&^]?=\s*.*|\+\+|--);$", st) and not re.match(r"(return|const|auto|int|uint|bool|std::|absl::|[A-Z]\w+[*&]? \w+ =)", st):
            out.append((i, re.match(r"\s*", ln).group(0) + ";"))
        if re.match(r"return [^;]+;$", st) and st not in ("return true;", "return false;"):
            e = st[7:-1]
            if re.match(r"[\w.>\-()]+$", e) and not e.endswith("Error()"):
                pass
    return [(path, i, new) for i, new in out if lines[i] != new]


def main():
    shutil.rmtree(ROOT + "/w", ignore_errors=True)
    os.makedirs(ROOT + "/w", exist_ok=True)
    base = ROOT + "/w/0"
    slots = queue.Queue()
    for k in range(NW):
        d = "%s/w/%d" % (ROOT, k)
        os.makedirs(d)
        shutil.copytree(REPO + "/mpact", d + "/mpact")
        slots.put(d)

    def run(d):
        return subprocess.run(["python3", V + "/tools/mutrun.py", pid, d, CACHE, d + "/work"], capture_output=True, text=True, timeout=900)
    r = run(base)
    print("baseline:", r.stdout.strip()[-200:], r.stderr[-500:])
    if r.returncode:
        return 1
    ms = []
    for f in files:
        q = mutants(os.path.join(REPO, f))
        random.Random(7).shuffle(q)
        ms += [(f, i, new) for _, i, new in q[:mx]]
    n = dict(KILLED=0, SURVIVED=0, ERROR=0, HANG=0)
    lock = threading.Lock()

    def one(mu):
        f, i, new = mu
        d = slots.get()
        try:
            p = os.path.join(d, f)
            src = open(os.path.join(REPO, f)).read()
            ls = src.split("\n")
            old = ls[i]
            ls[i] = new
            open(p, "w").write("\n".join(ls))
            try:
                r = run(d)
                st = r.stdout.strip().split("\n")[-1]
                v = {0: "SURVIVED", 1: "KILLED", 2: "ERROR"}.get(r.returncode, "ERROR")
                if "KILLED" not in st and v == "KILLED":
                    v, st = "ERROR", r.stderr[-300:]
            except subprocess.TimeoutExpired:
                v, st = "HANG", ""
            open(p, "w").write(src)
        finally:
            slots.put(d)
        with lock:
            n[v] += 1
            if v in ("SURVIVED", "HANG") or (v == "ERROR" and "compiling" not in st and "failed" not in st):
                print("%s %s:%d\n    - %s\n    + %s%s" % (v, f, i + 1, old.strip(), new.strip(), "\n    " + st if v == "ERROR" else ""), flush=True)
    with cf.ThreadPoolExecutor(NW) as ex:
        list(ex.map(one, ms))
    print(pid, len(ms), n)
    shutil.rmtree(ROOT + "/w", ignore_errors=True)


sys.exit(main())
