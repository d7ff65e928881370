#!/usr/bin/env python3
"""check.py ID [quick|thorough]     decide one property on /repo's working tree
   check.py --replay FILE           run one saved case again
   check.py --setup                 build everything once (fills the Go build cache)

Exit 0: held on everything explored.  1: VIOLATION line printed.  Other: the check itself failed.
"""
import atexit, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from parts import PARTS, ASSUMPTIONS  # noqa: E402
import overlay  # noqa: E402

NCPU = min(8, os.cpu_count() or 1)
HARD_LIMIT = {"quick": 700, "thorough": 6 * 3600}


def go_env(extra=None):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("VP_") and k not in ("VP_SCALE", "VP_SHRINK_MS"):
            del env[k]
    env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1",
               GOSUMDB="off", GO111MODULE="on", CGO_ENABLED=env.get("CGO_ENABLED", "1"))
    env.setdefault("HOME", "/root")
    if os.path.isdir("/root/go/pkg/mod"):
        env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    env.update(extra or {})
    return env


HANG = "the case does not finish (or exhausts memory)"


class Harness(Exception):
    pass


class Build:
    """A scratch copy of the harness, built against the repository as it is now."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vp-")
        atexit.register(shutil.rmtree, self.dir, True)
        self.src = os.path.join(self.dir, "h")
        shutil.copytree(os.path.join(VERIF, "harness"), self.src)
        gm = os.path.join(self.src, "go.mod")
        s = open(gm).read().replace("=> /repo", "=> " + REPO)
        open(gm, "w").write(s)
        self.bins = {}
        self.notes = []

    def binary(self, pkg, mode):
        """Returns the test binary, or None if this mode cannot be built here."""
        key = (pkg, mode)
        if key in self.bins:
            return self.bins[key]
        out = os.path.join(self.dir, f"{pkg}-{mode}.test")
        cmd = ["go", "test", "-c", "-trimpath", "-vet=off", "-o", out]
        env = {}
        if mode == "race":
            cmd += ["-race"]
        elif mode == "386":
            env = {"GOARCH": "386", "CGO_ENABLED": "0"}
        path = None
        if mode == "sched":
            # first with access to the sweeper, then without (the code may have changed shape)
            for level in (2, 1):
                ov = overlay.make(REPO, self.src, os.path.join(self.dir, f"ov{level}"), level)
                extra = ["-overlay", ov, "-tags", "verifsched,verifsweep" if level == 2 else "verifsched"]
                p = self.run(cmd + extra + ["./" + pkg], env)
                if p.returncode == 0:
                    path = out
                    if level == 1:
                        self.notes.append("built without access to the sweep function")
                    break
            else:
                self.notes.append("scheduler build failed: " + p.stderr.strip()[-400:])
        else:
            p = self.run(cmd + ["./" + pkg], env)
            if p.returncode == 0:
                path = out
            elif mode == "race" and "requires cgo" in p.stderr:
                self.notes.append("race build unavailable: " + p.stderr.strip()[-200:])
            else:
                raise Harness(f"build of {pkg} ({mode}) failed:\n{p.stderr[-4000:]}")
        self.bins[key] = path
        return path

    def run(self, cmd, env):
        return subprocess.run(cmd, cwd=self.src, env=go_env(env), capture_output=True, text=True)


def read_current(path):
    """The case a dead process was executing: (prop, raw json) or None."""
    try:
        b = open(path, "rb").read()
        n, ln = struct.unpack_from("<II", b, 0)
        if n == 0:
            return None
        name = b[8:8 + ln].decode()
        raw = b[8 + ln:8 + ln + n - 1].decode()
        json.loads(raw)
        return name, raw
    except Exception:
        return None


class Proc:
    def __init__(self, rc, out, err, result, cur, hashes, wall):
        self.rc, self.out, self.err, self.result, self.cur, self.hashes, self.wall = rc, out, err, result, cur, hashes, wall


def execute(b, binary, part, pid, tier, seed, shard, nshards, tag, replay=None, limit=None, extra=None):
    d = os.path.join(b.dir, f"run-{tag}-{shard}")
    os.makedirs(d, exist_ok=True)
    out, cur = os.path.join(d, "out.json"), os.path.join(d, "cur")
    for f in (out, cur, out + ".hashes"):
        if os.path.exists(f):
            os.unlink(f)
    env = {"VP_OUT": out, "VP_CUR": cur, "VP_TIER": tier, "VP_SEED": str(seed), "VP_SHARD": str(shard), "VP_NSHARDS": str(nshards),
           "GOTRACEBACK": "all"}
    if part.get("scale"):
        env["VP_SCALE"] = str(float(os.environ.get("VP_SCALE", "1")) * part["scale"])
    if part["pkg"] in ("seq", "clock", "fault", "cost"):
        env["VP_CASE_CPU_S"] = "10"  # they take milliseconds
        env["VP_CASE_TIMEOUT_S"] = "20"
    if part["mode"] == "race":
        env["GORACE"] = "halt_on_error=1 exitcode=66 history_size=5"
    if part["mode"] == "386":
        env["VP_CONTINUE"] = "1"
        env["VP_OTHER"] = b.binary(part["pkg"], "plain")
    if part.get("procs"):
        env["GOMAXPROCS"] = str(part["procs"])
    if replay:
        env["VP_REPLAY"] = replay
    for k, v in part.get("env", {}).items():
        env[k] = v
    env.update(extra or {})
    t0 = time.time()
    so, se = open(os.path.join(d, "stdout"), "wb"), open(os.path.join(d, "stderr"), "wb")
    p = subprocess.Popen([binary, "-test.run", f"^Test{pid}$", "-test.timeout", "0"], cwd=d, env=go_env(env), stdout=so, stderr=se, stdin=subprocess.DEVNULL,
                         start_new_session=True)
    try:
        rc = p.wait(limit or HARD_LIMIT[tier])
    except subprocess.TimeoutExpired:
        rc = -100
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    so.close()
    se.close()

    def tail(n):
        s = open(os.path.join(d, n), "rb").read()
        return (s[:30000] + b"\n...\n" + s[-30000:] if len(s) > 60000 else s).decode("utf-8", "replace")
    res = None
    hashes = b""
    if os.path.exists(out):
        res = json.load(open(out))
        if os.path.exists(out + ".hashes"):
            hashes = open(out + ".hashes", "rb").read()
    return Proc(rc, tail("stdout"), tail("stderr"), res, read_current(cur), hashes, time.time() - t0)


def save_replay(pid, part, prop, case, message):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": pid, "part": part["name"], "prop": prop, "message": message[:20000], "case": case}
    h = hashlib.sha1(json.dumps([pid, part["name"], prop, case], sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, f"{pid}-{h}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def crash_reason(p, part):
    """What a dead process tells: text of a violation, or None if it tells nothing."""
    if p.rc == 66 or "WARNING: DATA RACE" in p.err or "WARNING: DATA RACE" in p.out:
        m = re.search(r"WARNING: DATA RACE.*?={10,}", p.err + p.out, re.S)
        rep = m.group(0) if m else (p.err + p.out)[-3000:]
        if re.search(r"gencontainer/|(read|write|change)Payload", rep):
            return "data race reported by the race detector:\n" + rep[:6000]
        return None
    m = re.search(r"(fatal error: [^\n]*|panic: [^\n]*|unexpected fault address[^\n]*|SIG[A-Z]+: [^\n]*|checkptr: [^\n]*)", p.err + p.out)
    if m:
        return m.group(1) + "\n" + (p.err + p.out)[max(0, m.start() - 200):][:6000]
    return None


def judge_dead(b, binary, part, pid, tier, seed, p, tag):
    """A process that died or hung: run its last case again, alone, and decide."""
    reason = crash_reason(p, part)
    if p.rc == 3:
        raise Harness(f"harness error: {p.err[-3000:]}")
    if part["mode"] == "race" and reason and reason.startswith("data race"):
        prop, raw = p.cur or ("?", "null")
        return ("violation", prop, json.loads(raw), reason)
    if p.cur is None:
        if reason and "gencontainer/" in reason:
            return ("violation", "?", None, reason)
        raise Harness(f"process ended with status {p.rc} outside a case:\n{p.err[-3000:]}")
    prop, raw = p.cur
    path = os.path.join(b.dir, f"again-{tag}.json")
    json.dump({"property": pid, "part": part["name"], "prop": prop, "message": "", "case": json.loads(raw)}, open(path, "w"))
    again = 0
    for k in range(3):
        q = execute(b, binary, part, pid, tier, seed, 900 + k, 1, tag, replay=path, limit=200)
        if q.rc == 0 and q.result is not None:
            if q.result.get("violations"):
                return ("violation", prop, json.loads(raw), q.result["violations"][0]["message"])
            continue
        if q.rc == 3:
            raise Harness(f"harness error: {q.err[-3000:]}")
        again += 1
        r2 = crash_reason(q, part)
        if p.rc == 7 or p.rc == -100:
            if q.rc in (7, -100):
                return ("violation", prop, json.loads(raw), HANG + ": " + q.err[-1500:])
        if r2:
            return ("violation", prop, json.loads(raw), "the process crashes: " + r2)
    if reason and "gencontainer/" in reason and p.rc not in (7, -100, -9):
        return ("violation", prop, json.loads(raw), "the process crashed (schedule-dependent): " + reason)
    return ("lost", prop, json.loads(raw), f"status {p.rc}, not repeated in three runs")


def lists_in(x, path=()):
    if isinstance(x, list):
        yield path
        for i, y in enumerate(x):
            yield from lists_in(y, path + (i,))
    elif isinstance(x, dict):
        for k, y in x.items():
            yield from lists_in(y, path + (k,))


def shrink_dead(b, binary, part, pid, tier, seed, prop, case, msg, budget):
    """A case that ends the process cannot be shrunk inside it: drop list elements here, as long as it still fails."""
    hang = msg.startswith(HANG)
    quick = {"VP_CASE_TIMEOUT_S": "3", "VP_CASE_CPU_S": "3"} if hang else {}
    orig = case, msg
    end = time.time() + budget
    path = os.path.join(b.dir, "shrink.json")

    def fails(c, extra=quick):
        json.dump({"property": pid, "part": part["name"], "prop": prop, "message": "", "case": c}, open(path, "w"))
        q = execute(b, binary, part, pid, tier, seed, 950, 1, "shrink", replay=path, limit=90, extra=extra)
        if q.rc == 0 and q.result is not None:
            v = q.result.get("violations")
            return v[0]["message"] if v else None
        if hang:
            return HANG if q.rc in (7, -100) else None
        return None if q.rc in (3, -9) else crash_reason(q, part)

    t0 = time.time()
    if case is None or not fails(case) or time.time() - t0 > budget / 4:
        return case, msg
    changed = True
    while changed and time.time() < end:
        changed = False
        for p in sorted(lists_in(case), key=len):
            size = None
            while time.time() < end:
                try:
                    cur = case
                    for k in p:
                        cur = cur[k]
                except (KeyError, IndexError):
                    break
                n = len(cur)
                size = min(size or n, n)
                if size == 0:
                    break
                for i in range(0, n, size):
                    if time.time() > end:
                        break
                    c2 = json.loads(json.dumps(case))
                    t = c2
                    for k in p:
                        t = t[k]
                    del t[i:i + size]
                    m = fails(c2)
                    if m:
                        case, changed = c2, True
                        msg = msg if hang else m
                        break
                else:
                    if size == 1:
                        break
                    size //= 2
    if hang and case != orig[0] and not fails(case, {}):  # with the full time, too
        return orig
    return case, msg


def run_part(b, part, pid, tier, seed, agg):
    if tier == "quick" and part.get("thorough_only"):
        return
    binary = b.binary(part["pkg"], part["mode"])
    if binary is None:
        agg["skipped"].append(part["name"])
        return
    if part["mode"] == "386":
        q = subprocess.run([binary, "-test.run", "^$"], capture_output=True)
        if q.returncode != 0:
            agg["skipped"].append(part["name"] + " (32-bit programs cannot run here)")
            return
    n = part.get("shards", NCPU)
    with ThreadPoolExecutor(n) as ex:
        procs = list(ex.map(lambda i: execute(b, binary, part, pid, tier, seed, i, n, part["name"]), range(n)))
    info = {"name": part["name"], "evaluations": 0, "nontrivial": 0, "wall_s": round(max(p.wall for p in procs), 2)}
    dead = []
    for i, p in enumerate(procs):
        if p.rc == 0 and p.result is not None:
            merge(agg, info, part, pid, p)
        else:
            dead.append((i, p))
    if not agg["violations"]:
        for i, p in dead:
            if p.rc == -9 and not p.result:  # ended from outside (memory): once more, alone
                p = execute(b, binary, part, pid, tier, seed, i, n, part["name"])
                if p.rc == 0 and p.result is not None:
                    merge(agg, info, part, pid, p)
                    continue
            kind, prop, case, msg = judge_dead(b, binary, part, pid, tier, seed, p, f"{part['name']}-{i}")
            if kind == "violation":
                case, msg = shrink_dead(b, binary, part, pid, tier, seed, prop, case, msg, 45)
                agg["violations"].append((part, prop, case, msg))
                break
            agg["lost"].append({"part": part["name"], "prop": prop, "what": msg})
    if part["mode"] == "386" and agg["violations"]:
        # only what fails on 32-bit and holds on 64-bit is about the platform
        wide = dict(part, mode="plain", env={})
        keep = []
        for v in agg["violations"]:
            msg = run_case(b, b.binary(part["pkg"], "plain"), wide, pid, tier, seed, v[1], v[2])
            if msg is None:
                keep.append(v)
            else:
                agg["lost"].append({"part": part["name"], "prop": v[1], "what": "fails in the same way on 64-bit: " + msg[:300]})
        agg["violations"] = keep
    agg["parts"].append(info)


def run_case(b, binary, part, pid, tier, seed, prop, case, tag="case"):
    """What is wrong with one case, or None."""
    path = os.path.join(b.dir, tag + ".json")
    json.dump({"property": pid, "part": part["name"], "prop": prop, "message": "", "case": case}, open(path, "w"))
    q = execute(b, binary, part, pid, tier, seed, 960, 1, tag, replay=path, limit=200)
    if q.rc == 0 and q.result is not None:
        v = q.result.get("violations")
        return v[0]["message"] if v else None
    if q.rc == 3:
        raise Harness(f"harness error: {q.err[-3000:]}")
    return crash_reason(q, part) or f"status {q.rc}"


def merge(agg, info, part, pid, p):
    r = p.result
    info["evaluations"] += r["evaluations"]
    info["nontrivial"] += r["nontrivial"]
    agg["evaluations"] += r["evaluations"]
    agg["inconclusive"] += r["inconclusive"]
    for k, v in (r["labels"] or {}).items():
        agg["labels"][k] = agg["labels"].get(k, 0) + v
    for k, v in (r["by_prop"] or {}).items():
        k = part["name"] + "/" + k
        agg["by_prop"][k] = agg["by_prop"].get(k, 0) + v
    for x in r["rules"] or []:
        if x not in agg["rules"]:
            agg["rules"].append(x)
    if len(agg["samples"]) < 12:
        have = {s["prop"] for s in agg["samples"]}
        for s in r["samples"] or []:
            if s["prop"] not in have or len(agg["samples"]) < 3:
                have.add(s["prop"])
                agg["samples"].append(dict(s, part=part["name"]))
    h = p.hashes
    salt = hashlib.sha1(part["name"].encode()).digest()[:4]
    agg["hashes"].update(salt + h[i:i + 8] for i in range(0, len(h), 8))
    for v in r["violations"] or []:
        agg["violations"].append((part, v["prop"], v["case"], v["message"]))
    for v in r["unconfirmed"] or []:
        if part["mode"] == "386":
            agg["lost"].append({"part": part["name"], "prop": v["prop"], "what": "intermittent, so not laid to the platform: " + v["message"][:300]})
            continue
        agg["violations"].append((part, v["prop"], v["case"], "intermittent (a re-run of the same case passed): " + v["message"]))


def known_findings(pid):
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) case=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((os.path.join(VERIF, m.group(2)), m.group(3)))
    return out


def find_part(pid, name):
    for part in PARTS[pid]:
        if part["name"] == name:
            return part
    raise Harness(f"no part {name} of {pid}")


def replay_file(b, path, tries=1):
    rf = json.load(open(path))
    part = find_part(rf["property"], rf["part"])
    binary = b.binary(part["pkg"], part["mode"])
    if binary is None:
        raise Harness("cannot build " + part["name"])
    for _ in range(tries):
        p = execute(b, binary, part, rf["property"], "quick", 1, 0, 1, "replay", replay=os.path.abspath(path), limit=300)
        if p.rc == 0 and p.result is not None:
            if not p.result.get("replayed"):
                raise Harness(f"{path}: no such check any more")
            if p.result.get("violations"):
                return p.result["violations"][0]["message"]
        elif p.rc == 3:
            raise Harness(p.err[-2000:])
        else:
            return crash_reason(p, part) or f"status {p.rc}"
    return None


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        b = Build()
        msg = replay_file(b, sys.argv[2], tries=5)
        pid = json.load(open(sys.argv[2]))["property"]
        if msg:
            print(msg)
            print(f"VIOLATION property={pid} replay={os.path.abspath(sys.argv[2])}")
            return 1
        print("the case passes")
        return 0
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        b = Build()
        for pm in sorted({(p["pkg"], p["mode"]) for ps in PARTS.values() for p in ps}):
            print(pm, "ok" if b.binary(*pm) else "not available", flush=True)
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in HARD_LIMIT:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    b = Build()
    agg = {"evaluations": 0, "inconclusive": 0, "labels": {}, "by_prop": {}, "rules": [], "samples": [], "hashes": set(), "violations": [],
           "lost": [], "skipped": [], "parts": []}
    known = []
    for path, what in known_findings(pid):
        if replay_file(b, path):
            known.append(what)
            print(f"KNOWN-FINDING: property={pid} {what}", flush=True)
    only = os.environ.get("VP_PARTS")  # for development
    for part in PARTS[pid]:
        if only and part["name"] not in only.split(","):
            continue
        run_part(b, part, pid, tier, seed, agg)
        if agg["violations"]:
            break
    if agg["evaluations"] == 0 and not agg["violations"]:
        raise Harness("nothing was executed: " + "; ".join(agg["skipped"] + b.notes))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": agg["evaluations"], "distinct_nontrivial": len(agg["hashes"]), "rule": " | ".join(agg["rules"]),
                       "samples": agg["samples"], "by_prop": agg["by_prop"], "classes": dict(sorted(agg["labels"].items())),
                       "inconclusive": agg["inconclusive"], "parts": agg["parts"], "skipped": agg["skipped"], "lost": agg["lost"], "notes": b.notes,
                       "known_findings": known},
          "assumptions": ASSUMPTIONS.get(pid, []) + ASSUMPTIONS["*"],
          "wall_s": round(time.time() - t0, 2), "violations": len(agg["violations"])}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))
    if agg["violations"]:
        seen = set()
        for part, prop, case, msg in agg["violations"]:
            if (part["name"], prop) in seen:
                continue
            seen.add((part["name"], prop))
            path = save_replay(pid, part, prop, case, msg)
            print(f"--- {part['name']} {prop}\n{msg[:3000]}\ncase: {json.dumps(case)[:2000]}")
            print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    print(f"{pid} {tier}: held on {agg['evaluations']} cases ({len(agg['hashes'])} distinct non-trivial, {agg['inconclusive']} inconclusive, "
          f"{time.time() - t0:.1f} s)" + (f"; skipped: {agg['skipped']}" if agg["skipped"] else ""))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Harness as e:
        print("CHECK-ERROR:", e, file=sys.stderr)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
