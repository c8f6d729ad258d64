#!/usr/bin/env python3
"""Builds and runs the property checks.

  run.py check <ID> [--tier quick|thorough] [--seed N]
  run.py replay <file>
  run.py list

Every check compiles its harness against /repo's current working tree, runs a
fixed number of generated cases per target (sharded over the cores), writes
evidence/<ID>.json, and exits 0 (held) or 1 (VIOLATION line, replay file).
"""
import sys, os, json, subprocess, hashlib, time, shutil, tempfile, argparse, random
from concurrent.futures import ThreadPoolExecutor
from checks import CHECKS, MULTI, ASSUMPTIONS

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GBTL_REPO", "/repo")
HAR = os.path.join(HERE, "harness")
NCPU = max(1, min(16, os.cpu_count() or 1))
try:
    NCPU = max(1, min(16, len(os.sched_getaffinity(0))))
except Exception:
    pass
CXX = "clang++"
BASE = ["-std=gnu++17", "-O1", "-fsanitize=address,undefined", "-fno-sanitize=null,alignment,vptr,object-size,function",
        "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer", "-w"]
THREADS = ["-std=gnu++17", "-O1", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer", "-pthread", "-w"]   # units with the flag TSAN


def log(*a):
    print(*a, flush=True)


def build_root():
    for d in (os.path.join(HERE, "build"), os.path.join(tempfile.gettempdir(), "gbtl-verif-build")):
        try:
            os.makedirs(d, exist_ok=True)
            t = os.path.join(d, ".w%d" % os.getpid())
            open(t, "w").close()
            os.remove(t)
            return d
        except OSError:
            continue
    raise SystemExit(1)


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), HAR):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".h", ".cpp", ".inl", ".ipp")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()[:20]


class Bin:
    """One harness binary: key 'name/backend/flag=val,...'"""

    def __init__(self, src, backend, flags=(), size=None):
        self.src, self.backend, self.flags = src, backend, tuple(flags)

    @property
    def key(self):
        return "%s|%s|%s" % (self.src, self.backend, ",".join(self.flags))

    @staticmethod
    def from_key(k):
        s, b, f = k.split("|")
        return Bin(s, b, [x for x in f.split(",") if x])

    def units(self):
        """[(source, backend, extra flags)]"""
        if self.src in MULTI:
            return [(s, be or self.backend, list(self.flags) + list(fl)) for (s, be, fl) in MULTI[self.src]]
        return [(self.src, self.backend, list(self.flags))]


def comp_cmd(src, backend, flags, out, multi):
    ts = "TSAN" in flags
    c = [CXX] + (THREADS if ts else BASE) + ["-I" + os.path.join(REPO, "src"),
                        "-I" + os.path.join(REPO, "src/graphblas/platforms", backend), "-I" + HAR]
    c += ["-D" + f if not f.startswith("-") else f for f in flags]
    if multi:
        c += ["-c"] if ts else ["-mllvm", "-asan-globals=0", "-c"]
    return c + [os.path.join(HAR, src), "-o", out]


class Builder:
    def __init__(self):
        self.th = tree_hash()
        self.root = build_root()
        self.dir = os.path.join(self.root, self.th)
        os.makedirs(self.dir, exist_ok=True)
        for d in os.listdir(self.root):      # stale builds
            p = os.path.join(self.root, d)
            if d != self.th and os.path.isdir(p) and time.time() - os.path.getmtime(p) > 3600:
                shutil.rmtree(p, ignore_errors=True)

    def path(self, b):
        return os.path.join(self.dir, hashlib.sha256(b.key.encode()).hexdigest()[:16])

    def run(self, cmd):
        for attempt in (0, 1):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode == 0:
                return None
            if p.returncode < 0 or "error:" not in p.stdout:   # killed: try once more
                time.sleep(2)
                continue
            break
        return p.stdout

    def build(self, bins):
        """Returns {key: error output} for those that fail."""
        errs, jobs, links = {}, [], []
        for b in bins:
            out = self.path(b)
            if os.path.exists(out):
                continue
            us = b.units()
            if len(us) == 1:
                tmp = out + ".tmp%d" % os.getpid()
                jobs.append((b, comp_cmd(*us[0], tmp, False), tmp, out))
            else:
                objs = []
                for i, u in enumerate(us):
                    o = "%s.%d.%d.o" % (out, i, os.getpid())
                    objs.append(o)
                    jobs.append((b, comp_cmd(*u, o, True), None, None))
                links.append((b, objs, out))

        def one(j):
            b, cmd, tmp, out = j
            e = self.run(cmd)
            if e is not None:
                errs[b.key] = " ".join(cmd) + "\n" + e
            elif tmp:
                os.replace(tmp, out)
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, jobs))

        def link(l):
            b, objs, out = l
            if b.key not in errs:
                tmp = out + ".tmp%d" % os.getpid()
                san = ["-fsanitize=thread", "-pthread"] if "TSAN" in b.flags else ["-fsanitize=address,undefined"]
                e = self.run([CXX] + san + ["-Wl,-z,muldefs"] + objs + ["-o", tmp])
                if e is not None:
                    errs[b.key] = e
                else:
                    os.replace(tmp, out)
            for o in objs:
                if os.path.exists(o):
                    os.remove(o)
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(link, links))
        return errs


def toolchain_ok():
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "a.cpp")
        open(p, "w").write("#include <vector>\n#include <map>\nint main(){std::vector<int> v(3);return (int)v.size()-3;}\n")
        return subprocess.run([CXX] + BASE + [p, "-o", p + ".x"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0 and \
            subprocess.run([p + ".x"]).returncode == 0


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def write_replay(pid, data):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(data, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (pid, h))
    json.dump(data, open(p, "w"), indent=1)
    return p


def replay_run(binp, data):
    a = [binp, "replay", "--target", data["target"], "--choices", " ".join(map(str, data["choices"])), "--size", str(data.get("size", 0))]
    if data.get("cpu"):
        a += ["--cpu", str(data["cpu"])]
    p = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
    try:
        return json.loads(p.stdout)
    except Exception:
        return {"failed": True, "kind": "crash", "msg": "harness gave no answer", "desc": "", "stderr": ""}


def check(pid, tier, seed):
    t0 = time.time()
    spec = CHECKS[pid]
    groups = spec["groups"](tier)        # [(Bin args, {target or None: count}, options)]
    bl = Builder()
    bins = {}
    for g in groups:
        b = Bin(g["src"], g["backend"], g.get("flags", ()))
        g["bin"] = b
        bins[b.key] = b
    errs = bl.build(list(bins.values()))
    violations, notes = [], []
    if errs:
        if not toolchain_ok():
            log("ERROR: the C++ toolchain does not work here; nothing was decided")
            return 2
        for k, e in sorted(errs.items()):
            lines = [l for l in e.splitlines() if "error" in l][:6]
            p = write_replay(pid, {"property": pid, "kind": "build", "bin": k, "msg": "\n".join(lines) or e[-1500:]})
            violations.append((p, "calls this property covers no longer compile: " + (lines[0] if lines else e[-300:])[:300]))
    t_build = time.time() - t0
    # jobs
    jobs = []
    tmp = tempfile.mkdtemp(prefix="gbtlv")
    for g in groups:
        b = g["bin"]
        if b.key in errs:
            continue
        bp = bl.path(b)
        tl = subprocess.run([bp, "list"], stdout=subprocess.PIPE, text=True).stdout.split()
        for t in tl:
            if "targets" in g and t not in g["targets"] and not any(t.startswith(x[:-1]) for x in g["targets"] if x.endswith("*")):
                continue
            n = g["count"](t) if callable(g["count"]) else g["count"]
            per = g.get("chunk", max(1, n // 4))
            start = 0
            while start < n:
                c = min(per, n - start)
                jobs.append((g, t, start, c))
                start += c
    random.Random(seed).shuffle(jobs)
    results = []

    def one(ji):
        i, (g, t, start, cnt) = ji
        out, hs = os.path.join(tmp, "o%d" % i), os.path.join(tmp, "h%d" % i)
        a = [bl.path(g["bin"]), "run", "--target", t, "--seed", str(seed), "--start", str(start), "--count", str(cnt),
             "--out", out, "--hashes", hs, "--size", str(g.get("size", 0)), "--shrink", str(g.get("shrink", 40)), "--cap", str(g.get("cap", 600))]
        if g.get("cpu"):
            a += ["--cpu", str(g["cpu"])]
        for attempt in (0, 1):
            p = subprocess.run(a, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            try:
                r = json.load(open(out))
            except Exception:
                r = None
            if r is None:
                continue
            f = r.get("failure")
            if f and f["reproduced"] < 3 and attempt == 0:     # state-dependent? run the same shard again
                first = f
                continue
            if f and f["reproduced"] < 3:
                f["shard"] = {"seed": seed, "start": start, "count": cnt, "size": g.get("size", 0)}
                if f["idx"] != first["idx"]:
                    f["flaky"] = True
            return (g, t, start, cnt, r)
        return (g, t, start, cnt, r)
    with ThreadPoolExecutor(NCPU) as ex:
        results = list(ex.map(one, enumerate(jobs)))
    known = [k for k in load_known()["findings"] if k["property"] == pid]
    evals = disc = nont = 0
    labels, samples, per_target = {}, [], {}
    seen = set()
    for g, t, start, cnt, r in results:
        key = g["bin"].key
        if r is None:
            notes.append("shard %s %s %d+%d gave no result" % (key, t, start, cnt))
            continue
        evals += r["evals"]
        disc += r["discards"]
        nont += r["nontriv"]
        pt = per_target.setdefault("%s:%s" % (g["bin"].backend.split("_")[0], t), [0, 0])
        pt[0] += r["evals"]
        pt[1] += r["nontriv"]
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for s in r["samples"]:
            if len(samples) < 400:
                samples.append("[%s %s] %s" % (g["bin"].backend, t, s[:1500]))
        f = r.get("failure")
        if f:
            if f.get("flaky"):
                notes.append("not reproducible, ignored: %s %s %s" % (key, t, f["msg"][:200]))
                continue
            data = {"property": pid, "bin": key, "target": t, "kind": f["kind"], "msg": f["msg"], "desc": f["desc"],
                    "size": g.get("size", 0), "cpu": g.get("cpu")}
            if "shard" in f:
                data["shard"] = f["shard"]
                data["choices"] = f["choices"]
            else:
                data["choices"] = f["choices"]
            sig = (t.split("@")[0], f["msg"][:60])
            if sig in seen:
                continue
            seen.add(sig)
            p = write_replay(pid, data)
            violations.append((p, "%s %s: %s" % (g["bin"].backend, t, f["msg"][:400])))
    # distinct cases
    distinct = 0
    hfs = [os.path.join(tmp, f) for f in os.listdir(tmp) if f.startswith("h")]
    ok = [b for b in bins.values() if b.key not in errs]
    if hfs and ok:
        p = subprocess.run([bl.path(ok[0]), "merge"], input="\n".join(hfs), stdout=subprocess.PIPE, text=True)
        distinct = int(p.stdout.strip() or 0)
    shutil.rmtree(tmp, ignore_errors=True)
    # known findings: each is probed by its own input on every run
    for k in known:
        b = Bin.from_key(k["replay"]["bin"])
        e = bl.build([b])
        if e:
            continue
        o = replay_run(bl.path(b), k["replay"])
        if o["failed"]:
            log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    random.Random(seed).shuffle(samples)
    samples = samples[:8]
    if not violations and evals == 0:
        log("ERROR: no case was evaluated")
        return 2
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": distinct, "rule": spec["rule"], "samples": samples,
                       "discarded": disc, "nontrivial_evaluations": nont, "labels": dict(sorted(labels.items(), key=lambda x: -x[1])),
                       "per_target": {k: {"evaluations": v[0], "nontrivial": v[1]} for k, v in sorted(per_target.items())},
                       "violations": [{"replay": os.path.relpath(p, HERE), "what": w} for p, w in violations],
                       "notes": notes, "build_s": round(t_build, 1)},
          "wall_s": round(time.time() - t0, 1),
          "violations": len(violations),
          "assumptions": ASSUMPTIONS + spec.get("assumptions", [])}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    log("%s %s seed=%d: %d cases (%d distinct non-trivial, %d discarded) in %.0f s (build %.0f s)" % (pid, tier, seed, evals, distinct, disc, time.time() - t0, t_build))
    for n in notes[:10]:
        log("note:", n)
    for p, w in violations:
        log("  " + w.replace("\n", " | "))
        log("VIOLATION property=%s replay=%s" % (pid, p))
    return 1 if violations else 0


def replay(path):
    d = json.load(open(path))
    bl = Builder()
    b = Bin.from_key(d["bin"])
    e = bl.build([b])
    if e:
        log("build fails:\n" + list(e.values())[0][-3000:])
        return 1
    if d["kind"] == "build":
        log("builds: no longer reproduces")
        return 0
    o = replay_run(bl.path(b), d)
    log(o["desc"])
    log("%s: %s" % (o["kind"], o["msg"]) if o["failed"] else "passes")
    if o["stderr"]:
        log(o["stderr"][:3000])
    if not o["failed"] and "shard" in d:
        s = d["shard"]
        p = subprocess.run([bl.path(b), "run", "--target", d["target"], "--seed", str(s["seed"]), "--start", str(s["start"]), "--count", str(s["count"]),
                            "--size", str(s["size"])], stdout=subprocess.PIPE, text=True)
        log(p.stdout[:3000])
        return 1 if p.returncode else 0
    return 1 if o["failed"] else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("arg", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    if a.cmd == "list":
        print("\n".join(sorted(CHECKS)))
        return 0
    if a.cmd == "replay":
        return replay(a.arg)
    return check(a.arg, a.tier if a.tier in ("quick", "thorough") else "quick", a.seed)


if __name__ == "__main__":
    sys.exit(main())
