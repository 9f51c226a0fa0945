#!/usr/bin/env python3
"""Mutation sweep: applies small edits to headers of a scratch copy of /repo and runs the checks of the properties they anchor.
usage: mutate.py OUT.jsonl WORKERS MAX_PER_FILE FILE:PROP[~PARTS][,PROP...] ...     (run from a copy of /verif; survivors are printed)"""
import json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, workers, cap, specs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
RULES = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
         (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "), (r" && ", " || "), (r" \|\| ", " && "),
         (r"\+=", "-="), (r"-=", "+="), (r"\*=", "+="), (r"<<=", ">>="), (r">>=", "<<="), (r" << ", " >> "), (r" >> ", " << "), (r" & ", " | "), (r" \| ", " & "),
         (r"\+\+", "--"), (r"--", "++"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"!(?=[a-zA-Z(])", ""),
         (r"\.squared\(\)", ""), (r"\.doubled\(\)", ""), (r"\.inversed\(\)", ""), (r"data\[0\]", "data[1]"), (r"data\[1\]", "data[0]"), (r"data\[2\]", "data[0]"),
         (r"\bX\b", "Y"), (r"\bY\b", "X"), (r"\bZ\b", "X"), (r"\bzero\(\)", "one()"), (r"\bone\(\)", "zero()"), (r"\bthis->", "other."), (r"\bother\.", "this->"),
         (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bbegin\b", "end")]


def mutants(path):
    lines = open(path).read().split("\n")
    res = []
    incomment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if incomment:
            incomment = "*/" not in s
            continue
        if s.startswith("/*"):
            incomment = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "*", "namespace", "using", "template", "typedef", "static_assert", "}")) and not s.startswith("} "):
            continue
        code = l.split("//")[0]
        if os.environ.get("MUT_MODE") == "literals":    # one digit of each long constant
            for m in re.finditer(r"0x[0-9a-fA-F]{8,}|(?<![\w])[0-9]{12,}", code):
                t = m.group(0)
                k = random.Random(t).randrange(3, len(t))
                res.append((i, code[:m.start()] + t[:k] + ("2" if t[k] == "1" else "1") + t[k + 1:] + code[m.end():], "digit %d of %s" % (k, t[:12])))
            continue
        for pat, rep in RULES:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + rep + code[m.end():]
                res.append((i, new, "%s -> %s" % (m.group(0).strip(), rep.strip())))
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            n = int(m.group(1))
            for k in {n + 1, max(0, n - 1)} - {n}:
                res.append((i, code[:m.start()] + str(k) + code[m.end():], "%d -> %d" % (n, k)))
        if re.match(r"^\s*[\w\[\]().>-]+ *(=|\+=|-=|\*=) .*;$", code) or re.match(r"^\s*[\w.\[\]>-]+\(.*\);$", code):
            res.append((i, "", "deleted"))
        if re.match(r"^\s*if \(.*\)( \{)?$", code) and "constexpr" not in code:
            res.append((i, re.sub(r"if \((.*)\)", r"if (false && (\1))", code), "if false"))
    seen, uniq = set(), []
    for m in res:
        if (m[0], m[1]) not in seen and m[1] != lines[m[0]]:
            seen.add((m[0], m[1]))
            uniq.append(m)
    return lines, uniq


def main():
    jobs = []
    for sp in specs:
        f, props = sp.split(":")
        base = os.path.join("/repo/include/nil/crypto3", f)
        lines, ms = mutants(base)
        random.Random(7).shuffle(ms)
        for m in ms[:cap]:
            jobs.append((f, lines, m, props.split(",")))
    print(len(jobs), "mutants", flush=True)
    slots = queue.Queue()
    for w in range(workers):
        d = os.environ.get("MUT_DIR", "/tmp/mutw") + "/w%d" % w
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run(["cp", "-a", "/repo/include", d + "/include"], check=True)
        subprocess.run(["cp", "-a", HERE, d + "/verif"], check=True)
        slots.put(d)
    fo = open(out, "a")
    stat = {"killed": 0, "survived": 0, "nocompile": 0, "noanswer": 0}

    def job(j):
        f, lines, (i, new, what), props = j
        d = slots.get()
        path = os.path.join(d, "include/nil/crypto3", f)
        try:
            ls = list(lines)
            ls[i] = new
            open(path, "w").write("\n".join(ls))
            verdict, by = "survived", ""
            for p in props:
                p, _, only = p.partition("~")    # PROP~regex: only the parts whose name matches
                env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD=d + "/build", VERIF_JOBS=os.environ.get("MUT_JOBS", "2"), VERIF_LIMIT=os.environ.get("MUT_LIMIT", "600"), VERIF_FAILFAST="1", VERIF_PARTS=only)
                r = subprocess.run(["python3", "run.py", p], cwd=d + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                t = r.stdout.decode("utf-8", "replace")
                if r.returncode == 1:
                    verdict, by = "killed", p
                    break
                if r.returncode == 2:
                    verdict, by = ("nocompile" if "does not compile" in t else "noanswer"), p
                    if verdict == "nocompile":
                        break
            open(path, "w").write("\n".join(lines))
            stat[verdict] += 1
            rec = {"file": f, "line": i + 1, "what": what, "old": lines[i].strip(), "new": new.strip(), "verdict": verdict, "by": by}
            fo.write(json.dumps(rec) + "\n")
            fo.flush()
            if verdict in ("survived", "noanswer"):
                print(verdict, f, i + 1, what, "|", lines[i].strip()[:120], flush=True)
        finally:
            slots.put(d)

    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(job, jobs))
    print(stat, flush=True)
    [shutil.rmtree(os.environ.get("MUT_DIR", "/tmp/mutw") + "/w%d" % w, ignore_errors=True) for w in range(workers)]


main()
