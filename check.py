#!/usr/bin/env python3
"""Driver of every check: mirror /repo, build the property's harnesses from it, enumerate all cases
in parallel shards, replay whatever failed, write the evidence, print the verdict.

  check.py <ID> [--tier quick|thorough]     run the check
  check.py <ID> --unit U --case CASE        replay one case (prints REPRODUCED / NOT-REPRODUCED)
"""
import argparse, hashlib, json, os, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from registry import CHECKS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
NCPU = os.cpu_count() or 8
SSL = "/usr/local/openssl"
BASE = ["-std=c++17", "-fpic", "-w", "-fopenmp", "-I" + SSL + "/include"]
OPT = ["-O3"]
LINK = [SSL + "/lib64/libcrypto.a", SSL + "/lib64/libssl.a", "-ldl", "-lpthread"]
CONFIG_H = """#pragma once
#define NUMBER_OF_LOGICAL_CORES      8
#define NUMBER_OF_PHYSICAL_CORES     8
#define IS_64BIT                     1
#define HAS_SSE2                     1
#define IS_LINUX                 1
/* #undef IS_MACOS */
/* #undef IS_WINDOWS */
"""


def log(*a):
    print(*a, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()


def repo_files():
    out = []
    for d, dirs, files in os.walk(REPO):
        rel = os.path.relpath(d, REPO)
        if rel == ".":
            dirs[:] = [x for x in dirs if x not in ("_build", "build", ".git", "test", "docs", ".vscode")]
        for f in files:
            if f.endswith((".hpp", ".h", ".in", ".inc", ".cpp", ".hh", ".ipp", ".cc")):
                p = os.path.normpath(os.path.join(rel, f))
                if p != "config/config.h":
                    out.append(p)
    return sorted(out)


def mirror(dst, edits):
    """Copy the sources; `edits` are configuration switches: (file, old line, new line)."""
    shutil.rmtree(dst, ignore_errors=True)
    h = hashlib.sha256()
    for p in repo_files():
        with open(os.path.join(REPO, p), "rb") as f:
            data = f.read()
        for (ef, fn) in edits:
            if ef == p:
                data = fn(data.decode("utf-8", "surrogateescape")).encode("utf-8", "surrogateescape")
        h.update(p.encode() + b"\0" + data + b"\0")
        t = os.path.join(dst, p)
        os.makedirs(os.path.dirname(t), exist_ok=True)
        with open(t, "wb") as f:
            f.write(data)
    os.makedirs(os.path.join(dst, "config"), exist_ok=True)
    with open(os.path.join(dst, "config", "config.h"), "w") as f:
        f.write(CONFIG_H)
    return h.hexdigest()


def run_cmd(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class BuildError(Exception):
    pass


def build_unit(prop, u):
    """Returns the binary path."""
    name = u["name"]
    d = os.path.join(WORK, prop, name)
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, "src")
    h = mirror(src, u.get("edits", []))
    hdir = os.path.join(VERIF, "harness")
    hs = b""
    for f in sorted(os.listdir(hdir)):
        with open(os.path.join(hdir, f), "rb") as fh:
            hs += fh.read()
    flags = BASE + u.get("opt", OPT) + ["-I" + src, "-I" + hdir] + u.get("flags", [])
    key = sha(h, hs, json.dumps(flags), json.dumps(u.get("link", [])), json.dumps(u.get("rt", [])), json.dumps(u.get("redefine", [])), u["src"])
    binp, stamp = os.path.join(d, "bin"), os.path.join(d, "stamp")
    if os.path.exists(binp) and os.path.exists(stamp) and open(stamp).read() == key:
        return binp
    objs, jobs = [], []
    jobs.append(([*flags], os.path.join(hdir, u["src"]), os.path.join(d, "main.o")))
    for r in u.get("rt", ["rt.cpp"]):
        jobs.append((["-std=c++17", "-O2", "-w", "-fpic", "-I" + SSL + "/include", "-I" + hdir] + u.get("rtflags", []), os.path.join(hdir, r), os.path.join(d, r + ".o")))
    with ThreadPoolExecutor(4) as ex:
        def comp(j):
            fl, s, o = j
            return run_cmd(["g++", *fl, "-c", s, "-o", o])
        for j, r in zip(jobs, ex.map(comp, jobs)):
            if r.returncode != 0:
                raise BuildError(f"compile of {j[1]} failed:\n{r.stdout[-4000:]}")
            objs.append(j[2])
    if u.get("redefine"):       # calls of the code under test (not of its libraries) go to the harness
        r = run_cmd(["objcopy", *[f"--redefine-sym={a}={b}" for a, b in u["redefine"]], os.path.join(d, "main.o")])
        if r.returncode != 0:
            raise BuildError(f"objcopy failed:\n{r.stdout[-2000:]}")
    r = run_cmd(["g++", *objs, "-o", binp + ".tmp", *LINK, "-fopenmp", *u.get("link", [])])
    if r.returncode != 0:
        raise BuildError(f"link failed:\n{r.stdout[-4000:]}")
    os.replace(binp + ".tmp", binp)
    with open(stamp, "w") as f:
        f.write(key)
    return binp


def child_env(u):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("OMP_", "GOMP_", "MALLOC_"))}
    e["OMP_WAIT_POLICY"] = "passive"
    e.update(u.get("env", {}))
    return e


def read_state(path):
    try:
        with open(path, "rb") as f:
            b = f.read()
        seq, beat, failed, _ = struct.unpack("QQQQ", b[:32])
        return seq, beat, b[32:].split(b"\0", 1)[0].decode("utf-8", "replace"), failed
    except Exception:
        return 0, 0, "", 0


class Stop:
    """Once something failed, the other shards get a short grace period and then start no further case."""
    GRACE = 25

    def __init__(self, enabled=True):
        self.at, self.enabled = None, enabled

    def failed(self):
        if self.enabled and self.at is None:
            self.at = time.time() + self.GRACE

    def now(self):
        return self.at is not None and time.time() > self.at


def run_proc(binp, args, u, scratch, limit_case, limit_total, stop=None):
    """Run one harness process.  Returns (kind, detail): ok | crash | hang | timeout."""
    os.makedirs(scratch, exist_ok=True)
    state = os.path.join(scratch, "state")
    out = os.path.join(scratch, "out.json")
    for f in (state, out):
        if os.path.exists(f):
            os.remove(f)
    cwd = os.path.join(scratch, "cwd")
    shutil.rmtree(cwd, ignore_errors=True)
    os.makedirs(cwd)
    err = open(os.path.join(scratch, "stderr"), "wb")
    p = subprocess.Popen([binp, *args, "--out", out, "--state", state, "--scratch", cwd], stdout=subprocess.DEVNULL,
                         stderr=err, env=child_env(u), start_new_session=True)
    t0 = last_t = time.time()
    last = None
    kind = None
    while True:
        try:
            rc = p.wait(0.2)
            break
        except subprocess.TimeoutExpired:
            pass
        s = read_state(state)
        if stop and s[3]:
            stop.failed()
        if stop and stop.now():
            try:
                with open(state, "r+b") as f:
                    f.seek(24)
                    f.write(struct.pack("Q", 1))
            except FileNotFoundError:
                pass
        s = s[:2]
        now = time.time()
        if s != last:
            last, last_t = s, now
        if now - last_t > limit_case:
            kind = "hang"
        elif now - t0 > limit_total:
            kind = "timeout"
        if kind:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            rc = None
            break
    try:
        os.killpg(p.pid, signal.SIGKILL)     # left-over children
    except (ProcessLookupError, PermissionError):
        pass
    err.close()
    shutil.rmtree(cwd, ignore_errors=True)
    cid = read_state(state)[2]
    if kind:
        return kind, cid, None
    if rc == 0 and os.path.exists(out):
        return "ok", cid, json.load(open(out))
    msg = open(os.path.join(scratch, "stderr"), "rb").read()[-600:].decode("utf-8", "replace")
    return "crash", cid, f"exit status {rc} {msg}"


def read_hashes(path):
    s = set()
    try:
        with open(path, "rb") as f:
            b = f.read()
        s.update(struct.unpack(f"{len(b)//8}Q", b))
    except FileNotFoundError:
        pass
    return s


def replay(binp, u, tier, seed, case, scratch, n=2):
    """Re-execute one case alone; every failure has to reproduce before it is reported."""
    for _ in range(n):
        kind, cid, res = run_proc(binp, ["--tier", tier, "--seed", str(seed), "--case", case], u, scratch,
                                  u.get("hang", 90) * 1.5, u.get("hang", 90) * 1.5 + 60)
        if kind in ("hang", "timeout"):
            return f"the case does not terminate (limit {u.get('hang', 90)*1.5:.0f} s)"
        if kind == "crash":
            return "the process executing the case died: " + str(res)[:300].replace("\n", " ")
        if res["failures"]:
            return res["failures"][0]["msg"]
    return None


def load_known():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("known", [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--unit")
    ap.add_argument("--case")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = CHECKS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(WORK, prop), exist_ok=True)
    units = [u for u in chk["units"] if (not a.unit or u["name"] == a.unit) and (tier == "thorough" or not u.get("thorough_only"))]
    try:
        with ThreadPoolExecutor(NCPU) as ex:
            bins = list(ex.map(lambda u: build_unit(prop, u), units))
    except BuildError as e:
        log(f"BUILD-ERROR property={prop}\n{e}")
        sys.exit(2)
    log(f"[{prop}] built {len(units)} unit(s) from {REPO} in {time.time()-t0:.1f} s")
    if a.build_only:
        return
    if a.case is not None:
        r = None
        for u, b in zip(units, bins):
            r = replay(b, u, tier, seed, a.case, os.path.join(WORK, prop, "replay"))
            if r:
                break
        log(f"REPRODUCED: {r}" if r else "NOT-REPRODUCED")
        sys.exit(1 if r else 0)

    # ---------------- enumeration
    budget = chk.get("budget", 600 if tier == "quick" else 6 * 3600)
    jobs = []
    for ui, (u, b) in enumerate(zip(units, bins)):
        n = u.get("shards", NCPU)
        for s in range(n):
            jobs.append((ui, u, b, s, n))
    deadline = t0 + budget

    def work(job):
        ui, u, b, s, n = job
        skips = []
        res_all = []
        crashes = []
        scratch = os.path.join(WORK, prop, f"run_{u['name']}_{s}")
        for _attempt in range(4):
            if stop.now():
                break
            left = max(5.0, deadline - time.time())
            args = ["--tier", tier, "--seed", str(seed), "--shard", f"{s}/{n}", "--deadline", f"{left:.1f}"]
            for k in skips:
                args += ["--skip", k]
            kind, cid, res = run_proc(b, args, u, scratch, u.get("hang", 90), left + 120, stop)
            if kind != "ok":
                stop.failed()
            if kind == "ok":
                res["nontriv"] = read_hashes(os.path.join(scratch, "out.json.nontriv"))
                res["states"] = read_hashes(os.path.join(scratch, "out.json.states"))
                res_all.append(res)
                break
            crashes.append((cid, kind, res))
            skips.append(cid)
            if not cid:
                break
        shutil.rmtree(scratch, ignore_errors=True)
        return ui, res_all, crashes

    known = [k for k in load_known() if k["property"] == prop]
    for stop in (Stop(), Stop(False)):      # a second, uninterrupted pass when nothing that failed can be reproduced
        per_unit = {i: dict(cases=0, evals=0, transitions=0, traces=0, nontriv=set(), states=set(), samples=[], truncated=False, extra={}) for i in range(len(units))}
        fails = []      # (unit index, case, msg)
        incomplete = False
        with ThreadPoolExecutor(chk.get("parallel", NCPU)) as ex:
            for ui, res_all, crashes in ex.map(work, jobs):
                pu = per_unit[ui]
                for r in res_all:
                    for k in ("cases", "evals", "transitions", "traces"):
                        pu[k] += r[k]
                    pu["nontriv"] |= r["nontriv"]
                    pu["states"] |= r["states"]
                    pu["samples"] += r["samples"]
                    pu["truncated"] |= r["truncated"]
                    for k, v in r["extra"].items():
                        pu["extra"][k] = pu["extra"].get(k, 0) + v
                    for f in r["failures"]:
                        fails.append((ui, f["case"], f["msg"]))
                for cid, kind, res in crashes:
                    fails.append((ui, cid, f"{kind}: {res}"))
                if not res_all:
                    incomplete = True

        # ---------------- confirm failures by replay
        confirmed, known_hits, unrepro = [], [], []
        seen = set()
        fails.sort(key=lambda f: f[2].startswith(("hang", "timeout")))      # the quick ones first
        for ui, cid, msg in fails:
            if (ui, cid) in seen:
                continue
            seen.add((ui, cid))
            k = next((k for k in known if k["unit"] == units[ui]["name"] and k["case"] == cid), None)
            if k:
                known_hits.append((k, msg))
                continue
            if len(confirmed) >= 5 or (confirmed and time.time() - t0 > 400):
                continue
            r = replay(bins[ui], units[ui], tier, seed, cid, os.path.join(WORK, prop, "replay"))
            if r:
                confirmed.append((ui, cid, r))
            else:
                unrepro.append((ui, cid, msg))
        if confirmed or not stop.now() or time.time() > deadline - 60:
            break
    for k, msg in known_hits:
        log(f"KNOWN-FINDING: property={prop} {k['what']} [{k['unit']}: {k['case']}]")
    for ui, cid, msg in unrepro:
        log(f"[{prop}] not reproduced alone, not reported: unit={units[ui]['name']} case={cid!r} {msg[:300]}")

    # ---------------- evidence
    tot = {k: sum(p[k] for p in per_unit.values()) for k in ("cases", "evals", "transitions", "traces")}
    nontriv = sum(len(p["nontriv"]) for p in per_unit.values())
    states = sum(len(p["states"]) for p in per_unit.values())
    samples = []
    for i, p in per_unit.items():
        for s in p["samples"][:6]:
            samples.append(f"{units[i]['name']}: {s}")
    exhaustive = not incomplete and not any(p["truncated"] for p in per_unit.values()) and not unrepro
    cov = dict(samples=samples[:40], exhaustive=exhaustive, cases=tot["cases"])
    if chk["level"] == "model_checking":
        cov.update(states=states, transitions=tot["transitions"], traces_validated_against_impl=tot["traces"], distinct_nontrivial=nontriv, rule=chk["rule"])
    else:
        cov.update(evaluations=tot["evals"], distinct_nontrivial=nontriv, rule=chk["rule"])
    per = {}
    for i, p in per_unit.items():
        per[units[i]["name"]] = dict(cases=p["cases"], evaluations=p["evals"], states=len(p["states"]), transitions=p["transitions"], **p["extra"])
    cov["units"] = per
    ev = dict(property=prop, tier=tier, seed=seed, level=chk["level"], coverage=cov, assumptions=chk.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    log(f"[{prop}] {tier}: {tot['cases']} cases, {tot['evals']} evaluations, {states} states, {tot['transitions']} transitions, "
        f"exhaustive={exhaustive}, {time.time()-t0:.1f} s")
    if confirmed:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for n, (ui, cid, msg) in enumerate(confirmed):
            path = os.path.join(VERIF, "replays", f"{prop}-{n}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, unit=units[ui]["name"], case=cid, tier=tier, seed=seed, message=msg,
                               replay=f"VERIF_SEED={seed} python3 {VERIF}/check.py {prop} --tier {tier} --unit {units[ui]['name']} --case '{cid}'"), f, indent=1)
            log(f"  {units[ui]['name']} case {cid}: {msg}")
            log(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
