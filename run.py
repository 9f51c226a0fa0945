#!/usr/bin/env python3
"""Builds the exploration programs of one property against /repo's working tree, runs them, and reports.

usage: run.py PROPERTY [quick|thorough]
exit 0: property held on everything explored; 1: VIOLATION printed; 2: the check could not decide.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = os.environ.get("VERIF_CXX", "clang++-18")
BASE = ["-std=c++17", "-w", "-fbracket-depth=1024", "-fconstexpr-steps=2147483647", "-ftemplate-depth=2048",
        "-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "shim/include"), "-I" + os.path.join(REPO, "include")]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

sys.path.insert(0, VERIF)
from checks_table import CHECKS  # noqa: E402
from bounds import BOUNDS  # noqa: E402


CHILDREN = set()


def sh(cmd, timeout, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, start_new_session=True)
    CHILDREN.add(p.pid)
    try:
        out, err = p.communicate(timeout=timeout)
        CHILDREN.discard(p.pid)
        return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, err = p.communicate()
        return None, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


def file_hash(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


def compile_part(part, deadline):
    """Returns (binary or None, error text). A binary is reused only if every file it was built from is unchanged."""
    src = os.path.join(VERIF, "checks", part["src"])
    flags = BASE + part.get("flags", ["-O1"]) + (SAN if part.get("san") else [])
    key = hashlib.sha256(json.dumps([CXX, flags, src]).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, part["name"] + "-" + key)
    stamp = out + ".stamp"
    if os.path.exists(out) and os.path.exists(stamp):
        try:
            with open(stamp) as f:
                deps = json.load(f)
            if all(os.path.exists(d) and file_hash(d) == h for d, h in deps.items()):
                return out, ""
        except (ValueError, OSError):
            pass
    dep = out + ".d"
    tmp = "%s.tmp%d" % (out, os.getpid())
    rc, so, se = sh([CXX] + flags + ["-MD", "-MF", dep, src, "-o", tmp, "-pthread"], max(10, deadline - time.time()))
    if rc != 0:
        return None, se[-6000:] if rc is not None else "compilation ran out of time"
    text = open(dep).read().replace("\\\n", " ")
    deps = [d for d in text.split(":", 1)[1].split()]
    with open(stamp, "w") as f:
        json.dump({d: file_hash(d) for d in deps}, f)
    os.rename(tmp, out)
    return out, ""


def run_shard(prop, part, binary, tier, seed, shard, deadline):
    res = os.path.join(BUILD, "%s-%s-%d-%d.json" % (prop, part["name"], shard, os.getpid()))
    if os.path.exists(res):
        os.remove(res)
    n = part.get("shards", 1)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77", UBSAN_OPTIONS="exitcode=77:print_stacktrace=0")
    rc, so, se = sh([binary, "--out", res, "--tier", tier, "--seed", str(seed), "--shard", str(shard), "--shards", str(n)],
                    max(5, deadline - time.time()), env)
    data = None
    if os.path.exists(res):
        try:
            data = json.load(open(res))
        except ValueError:
            data = None
        os.remove(res)
    return part, shard, rc, so, se, data


def known(prop):
    out = {}
    with open(os.path.join(VERIF, "known_findings")) as f:
        for line in f:
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    limit = float(os.environ.get("VERIF_LIMIT", "840" if tier == "quick" else "36000"))
    deadline = t0 + limit
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    spec = CHECKS[prop]
    parts = [p for p in spec["parts"] if tier == "thorough" or not p.get("thorough_only")]
    if os.environ.get("VERIF_PARTS"):    # mutation sweeps only: the parts that use the mutated header
        parts = [p for p in parts if re.search(os.environ["VERIF_PARTS"], p["name"])]
    errors, violations, results = [], [], []
    jobs_done = {}
    with cf.ThreadPoolExecutor(max_workers=JOBS) as ex:
        cfut = {}
        for p in sorted(parts, key=lambda p: -p.get("cost", 1)):
            cfut[ex.submit(compile_part, p, deadline)] = p
        runs = []
        for f in cf.as_completed(list(cfut)):
            p = cfut[f]
            binary, err = f.result()
            if binary is None and p.get("probe") and err != "compilation ran out of time":
                m = re.search(r"error: .*", err)
                violations.append({"key": "compile:" + p["name"], "desc": "the shipped headers do not compile when used: " + (m.group(0) if m else ""), "part": p["name"], "shard": 0})
                continue
            if binary is None:
                errors.append("part %s does not compile:\n%s" % (p["name"], err))
                continue
            for s in range(p.get("shards", 1)):
                runs.append(ex.submit(run_shard, prop, p, binary, tier, seed, s, deadline))
        for f in cf.as_completed(runs):
            part, shard, rc, so, se, data = f.result()
            if rc is None:
                errors.append("part %s ran out of time" % part["name"])
                if data:
                    violations.extend(dict(v, part=part["name"], shard=shard) for v in data["violations"])
                continue
            if data is None or rc not in (0, 1):
                if rc < 0 or rc in (77, 134, 139) or "ERROR: AddressSanitizer" in se or "runtime error" in se:
                    m = re.search(r"(runtime error: .*|ERROR: AddressSanitizer: \S+.*|terminate called.*|libc\+\+abi.*)", se)
                    why = m.group(1) if m else ("killed by signal %d" % -rc if rc < 0 else "exit %d" % rc)
                    stack = [l for l in se.splitlines() if re.match(r"\s+#\d+ ", l)][:8]
                    violations.append({"key": "crash:" + part["name"], "desc": why + " " + " ".join(x.strip() for x in stack), "stderr": se[-3000:], "part": part["name"], "shard": shard})
                else:
                    errors.append("part %s ended with %r: %s %s" % (part["name"], rc, so[-500:], se[-1500:]))
                continue
            results.append((part["name"], shard, data))
            for v in data["violations"]:
                violations.append(dict(v, part=part["name"], shard=shard))
            if violations and os.environ.get("VERIF_FAILFAST"):  # mutation sweeps only: the first violation is enough
                print("VIOLATION property=%s replay=none\n  [%s] %s" % (prop, violations[0]["key"], violations[0]["desc"][:300]), flush=True)
                for pid in CHILDREN:
                    try:
                        os.killpg(pid, 9)
                    except OSError:
                        pass
                os._exit(1)
    kn = known(prop)
    fresh, seen = [], {}
    for v in violations:
        if v["key"] in kn:
            seen.setdefault(v["key"], v)
        else:
            fresh.append(v)
    states = sum(d["states"] for _, _, d in results)
    transitions = sum(d["transitions"] for _, _, d in results)
    traces = sum(d["traces"] for _, _, d in results)
    samples, spaces = [], {}
    for name, shard, d in results:
        for s in d["samples"]:
            t = name + ": " + s
            if t not in samples:
                samples.append(t)
        for k, v in d["spaces"].items():
            e = spaces.setdefault(name + ": " + k, {"states": 0, "transitions": 0})
            e["states"] += v["states"]
            e["transitions"] += v["transitions"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": transitions, "traces_validated_against_impl": traces,
                       "samples": samples[:24] or ["(none)"], "exhaustive": not errors and not fresh,
                       "bounds": BOUNDS.get(prop, ""), "spaces": spaces,
                       "rule": "every state of each listed space is constructed on the real templates, every listed operation is executed on it and compared with the model",
                       "known_findings_observed": sorted(seen), "violations": len(fresh), "undecided_parts": [e[:300] for e in errors]},
          "wall_s": round(time.time() - t0, 2)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in sorted(seen):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, kn[k], k))
    if fresh:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, prop + ".txt")
        with open(rp, "w") as f:
            f.write("property %s violated; tier %s seed %d\n" % (prop, tier, seed))
            for v in fresh[:50]:
                part = next(p for p in parts if p["name"] == v["part"])
                flags = BASE + part.get("flags", ["-O1"]) + (SAN if part.get("san") else [])
                f.write("\n[%s] %s\n" % (v["key"], v["desc"]))
                f.write("  replay: %s %s %s -o /tmp/replay_bin -pthread && /tmp/replay_bin --tier %s --seed %d --shard %d --shards %d\n" % (
                    CXX, " ".join(flags), os.path.join(VERIF, "checks", part["src"]), tier, seed, v["shard"], part.get("shards", 1)))
                if v.get("stderr"):
                    f.write(v["stderr"] + "\n")
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        for v in fresh[:8]:
            print("  [%s] %s" % (v["key"], v["desc"][:300]))
        for e in errors:
            print("ERROR: " + e[:1500])
        return 1
    if errors:
        for e in errors:
            print("ERROR: " + e[:4000])
        return 2
    print("OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs" % (prop, tier, states, transitions, traces, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
