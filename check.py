#!/usr/bin/env python3
"""Run the model checker for one property:  check.py <ID> [--replay FILE] [--keep]

Builds the harness against /repo's working tree (two profiles: `checked` = debug assertions and
overflow checks on, `fast` = a release build), explores every scenario of the property with worker
processes that share the choice tree, confirms and minimises what they report, writes
evidence/<ID>.json.  Exit 0: held; 1: VIOLATION; 2: the machinery itself failed.
"""
import fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
REPO = "/repo"
PROFILES = ["checked", "fast"]
HANG = 60.0
MEM = 6 << 30
NWORK = max(2, min(8, os.cpu_count() or 4))

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)

def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock")):
        files = [root] if os.path.isfile(root) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read() + b"\0")
    return h.hexdigest()

def build(prop=None):
    """Build both profiles -> binaries.  C24 has a binary of its own: its cases are part of the source."""
    name = "mcm" if prop == "C24" else "mc"
    os.makedirs(TARGET, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", RUSTFLAGS="", CARGO_TERM_COLOR="never")
    with open(os.path.join(TARGET, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h, stamp = tree_hash(), os.path.join(TARGET, ".fleece-hash")
        old = open(stamp).read() if os.path.exists(stamp) else None
        if old is not None and old != h:
            # never trust file times: the crate under test is rebuilt whenever its content changed
            for p in PROFILES:
                subprocess.run(["cargo", "clean", "--offline", "-p", "fleece", "--profile", p], cwd=HARNESS, env=env,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        open(stamp, "w").write(h)
        procs, failed = [], None
        for p in PROFILES:
            procs.append(subprocess.Popen(["cargo", "build", "--offline", "--locked", "--profile", p, "--bin", name] + (["--features", "macros"] if name == "mcm" else []), cwd=HARNESS, env=env,
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        for p, pr in zip(PROFILES, procs):
            out, _ = pr.communicate()
            if pr.returncode != 0:
                os.remove(stamp)
                for q in procs:
                    q.kill()
                failed = p, out
                break
        bins = {}
        if not failed:
            dst = tempfile.mkdtemp(prefix="vmc-")
        for p in PROFILES if not failed else []:
            b = os.path.join(dst, "mc-" + p)
            shutil.copy2(os.path.join(TARGET, p, name), b)
            bins[p] = b
    if failed:
        p, out = failed
        if name == "mcm":
            shutil.rmtree(build()[1], ignore_errors=True)
            does_not_compile(prop, p, out)
        print(out[-6000:])
        die(f"build of the {p} profile failed")
    return bins, dst, h

def does_not_compile(prop, profile, out):
    """The crate and the rest of the harness compile, but some invocation of fleece! does not."""
    if "c24_cases.rs" not in out:
        print(out[-6000:])
        die(f"build of the {profile} profile failed")
    i = out.find("error")
    rep = os.path.join(HERE, "replays", "C24-does-not-compile.txt")
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    open(rep, "w").write(out)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(dict(property=prop, tier="quick", seed=1, level="model_checking", engine="mc", wall_s=0, coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, exhaustive=False, samples=[], scenarios=[]),
                   bounds={}, violation=dict(sig="does-not-compile", detail=out[i:i + 3000])), open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print(out[i:i + 2500])
    print(f"VIOLATION property={prop} replay={rep}", flush=True)
    sys.exit(1)

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def read_state(path):
    """(heartbeat, scenario, path, claimed tickets) of a worker."""
    import array
    try:
        with open(path, "rb") as f:
            a = array.array("I", f.read())
    except OSError:
        return 0, 0, [], []
    if len(a) < 4:
        return 0, 0, [], []
    cap = len(a) // 2
    n = min(a[2], cap - 3)
    k = min(a[cap], cap - 1)
    return a[0], a[1], list(a[3:3 + n]), list(a[cap + 1:cap + 1 + k])

def heartbeat(path):
    try:
        with open(path, "rb") as f:
            return f.read(12)
    except OSError:
        return b""

class Worker:
    def __init__(self, binary, profile, prop, tier, work, n, deadline, known, extra=()):
        self.profile, self.n = profile, n
        self.state = os.path.join(work, f"state-{profile}-{n}")
        self.out = os.path.join(work, f"out-{profile}-{n}.json")
        self.err = os.path.join(work, f"err-{profile}-{n}")
        cmd = [binary, "worker", "--prop", prop, "--tier", tier, "--profile", profile, "--state", self.state,
               "--out", self.out, "--deadline", str(deadline)]
        for k in known:
            cmd += ["--known", k]
        cmd += list(extra)
        self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=open(self.err, "wb"), stderr=subprocess.STDOUT, preexec_fn=limits)
        self.beat, self.seen, self.hung, self.rc = b"", time.time(), False, None

    def poll(self):
        if self.rc is not None:
            return True
        self.rc = self.p.poll()
        if self.rc is not None:
            return True
        b = heartbeat(self.state)
        now = time.time()
        if b != self.beat:
            self.beat, self.seen = b, now
        elif now - self.seen > HANG:
            self.hung = True
            self.p.kill()
            self.rc = self.p.wait()
            return True
        return False

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()

def replay(binary, rec, timeout=HANG + 30):
    """-> (status, text): 'reproduced', 'clean', 'crash:<sig>', 'hang', 'engine'"""
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(rec, f)
    try:
        try:
            r = subprocess.run([binary, "replay", f.name], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, preexec_fn=limits)
        except subprocess.TimeoutExpired as e:
            return "hang", (e.stdout or b"").decode("utf8", "replace")
        text = r.stdout.decode("utf8", "replace")
        if r.returncode < 0:
            return f"crash:{signal.Signals(-r.returncode).name}", text
        return {0: "clean", 1: "reproduced"}.get(r.returncode, "engine"), text
    finally:
        os.unlink(f.name)

def run_tickets(binary, profile, prop, tier, work, si, tickets, known, timeout):
    """Re-run one worker's share of a scenario in a fresh process -> (status, output json or None)"""
    tl = os.path.join(work, "ticket-list.json")
    json.dump({"scenario_index": si, "tickets": tickets}, open(tl, "w"))
    w = Worker(binary, profile, prop, tier, work, "confirm", 1e9, known, ["--ticket-list", tl])
    end = time.time() + timeout
    while not w.poll():
        if time.time() > end:
            w.kill()
            return "timeout", None
        time.sleep(0.05)
    if w.hung:
        return "hang", None
    if w.rc < 0:
        return f"crash:{signal.Signals(-w.rc).name}", None
    if w.rc != 0:
        return "engine", None
    return "ok", json.load(open(w.out))

def known_findings():
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", line)
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return out

def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        sys.exit(2)
    prop = args[0]
    if prop == "C03":
        # documents of 4 GiB, one at a time; most of the address space is never touched
        global MEM
        MEM = 40 << 30
    if prop == "--build":
        _, bindir, _ = build()
        shutil.rmtree(bindir, ignore_errors=True)
        sys.exit(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    manifest = {}
    try:
        for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
            manifest[c["property"]] = c
    except (OSError, ValueError, KeyError):
        pass
    bins, bindir, h = build(prop)
    work = tempfile.mkdtemp(prefix="vmc-work-")
    try:
        if "--replay" in args:
            rec = json.load(open(args[args.index("--replay") + 1]))
            st, text = replay(bins[rec.get("profile", "checked")], rec)
            print(text)
            print(f"replay: {st}")
            sys.exit(0 if st == "clean" else 1)
        code = explore(prop, tier, seed, bins, work, h, t0, manifest.get(prop, {}))
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(bindir, ignore_errors=True)
    sys.exit(code)

def explore(prop, tier, seed, bins, work, h, t0, man):
    known = known_findings().get(prop, {})
    t_build = time.time() - t0
    budget = float(os.environ.get("VERIF_BUDGET", "600" if tier == "quick" else "36000"))
    workers = []
    per = NWORK // 2
    only = os.environ.get("VERIF_PROFILE")
    for prof in PROFILES:
        if only and prof != only:
            continue
        n = per if not only else NWORK
        tickets = os.path.join(work, "tickets-" + prof)
        for k in range(n):
            workers.append(Worker(bins[prof], prof, prop, tier, work, k, budget, known.keys(), ["--tickets", tickets]))
    bad = None
    results = []
    while True:
        pending = False
        for w in workers:
            if getattr(w, "done", False):
                continue
            if not w.poll():
                pending = True
                continue
            w.done = True
            if w.hung or w.rc < 0:
                bad = ("dead", w)
                break
            if w.rc != 0:
                bad = ("engine", w)
                break
            r = json.load(open(w.out))
            if r["engine_error"]:
                bad = ("engine", w, r["engine_error"])
                break
            results.append((w.profile, r))
            if r["violation"]:
                bad = ("violation", w, r)
                break
        if bad or not pending:
            break
        time.sleep(0.02)
    if bad:
        # a violation found by another worker is easier to explain than a crash: prefer it if it is there already
        for w in workers:
            if w is not bad[1]:
                w.kill()
    violation = None
    if bad:
        kind, w = bad[0], bad[1]
        if kind == "engine":
            if len(bad) < 3:
                print(open(w.err, "rb").read().decode("utf8", "replace")[-3000:])
            die(f"{prop}: worker failed: {bad[2] if len(bad) > 2 else 'exit %s' % w.rc}")
        scen_names = subprocess.run([bins[w.profile], "list", "--prop", prop, "--tier", tier], capture_output=True, text=True).stdout.splitlines()
        scen_names = [x.split("\t")[0] for x in scen_names]
        if kind == "violation":
            v = bad[2]["violation"]
            rec = dict(property=prop, tier=tier, profile=w.profile, scenario=v["scenario"], path=v["path"])
            st, text = replay(bins[w.profile], rec)
            if st in ("clean", "engine"):
                # only with what the same process had done before?
                si = scen_names.index(v["scenario"])
                st2, r2 = run_tickets(bins[w.profile], w.profile, prop, tier, work, si, v["tickets"], known.keys(), 600)
                if st2 == "ok" and r2["violation"] and r2["violation"]["sig"] == v["sig"]:
                    rec["tickets"] = v["tickets"]
                elif st2 == "ok" or st2 in ("engine", "timeout"):
                    print(text)
                    die(f"{prop}: a report in {v['scenario']} did not reproduce ({v['sig']}: {v['detail']})")
            violation = dict(rec, sig=v["sig"], detail=v["detail"], notes=v["notes"], replay_status=st)
        else:
            _, si, path, tickets = read_state(w.state)
            what = "no progress for %d s" % HANG if w.hung else "killed by " + signal.Signals(-w.rc).name
            name = scen_names[si] if si < len(scen_names) else "?"
            tail = open(w.err, "rb").read().decode("utf8", "replace")[-800:]
            rec = dict(property=prop, tier=tier, profile=w.profile, scenario=name, path=path)
            st, text = replay(bins[w.profile], rec)
            if st.startswith("crash") or st in ("hang", "reproduced"):
                violation = dict(rec, sig=st, detail=f"worker {what}; replay: {st}; {text[-1500:]} {tail}", notes=[], replay_status=st)
            else:
                st2, r2 = run_tickets(bins[w.profile], w.profile, prop, tier, work, si, tickets, known.keys(), 600)
                if st2.startswith("crash") or st2 == "hang" or (st2 == "ok" and r2["violation"]):
                    rec["tickets"] = tickets
                    violation = dict(rec, sig=st2, detail=f"worker {what}; re-running its share of the scenario: {st2} {r2['violation']['detail'] if r2 else ''} {tail}", notes=[], replay_status=st2)
                else:
                    print(tail)
                    die(f"{prop}: a worker died ({what}) in {name} and neither its last execution ({st}) nor its share ({st2}) reproduces it")
    # aggregate
    agg, outcomes, samples, knownhits = {}, set(), [], {}
    for prof, r in results:
        for s in r["scenarios"]:
            a = agg.setdefault((s["name"], prof), dict(scenario=s["name"], profile=prof, bounds=s["bounds"], executions=0, choice_points=0, pruned=0, operations=0, cases=0, complete=True))
            a["executions"] += s["executions"]; a["choice_points"] += s["nodes"]; a["pruned"] += s["pruned"]
            a["operations"] += s["ops"]; a["cases"] += s["cases"]; a["complete"] &= s["complete"]
        outcomes.update(r["outcomes"])
        for k, n in r["known"].items():
            knownhits[k] = knownhits.get(k, 0) + n
        if prof == "checked":
            samples += r["samples"]
    rows = sorted(agg.values(), key=lambda a: (a["scenario"], a["profile"]))
    total = lambda k: sum(a[k] for a in rows)
    complete = bool(rows) and all(a["complete"] for a in rows) and not violation
    if not violation and not complete:
        log(f"{prop}: the time budget of {budget:.0f} s ended the exploration early")
    if not violation and total("executions") == 0:
        die(f"{prop}: nothing was explored")
    samples.sort(key=lambda s: (s["scenario"], len(s["path"])))
    pick = samples[:: max(1, len(samples) // 10)][:12]
    ev = dict(
        property=prop, tier=tier, seed=seed, level=man.get("level", "model_checking"), engine="mc: stateless exhaustive explorer over the real crate",
        coverage=dict(
            # states: nodes and leaves of the choice trees; transitions: library operations and enumerated cases
            # carried out; traces: complete executions, every one of them run on the real crate
            states=total("choice_points") + total("executions"), transitions=total("operations") + total("cases"),
            traces_validated_against_impl=total("executions"), distinct_outcomes=len(outcomes),
            exhaustive=complete, scenarios=rows,
            samples=[dict(scenario=s["scenario"], choices=s["path"], trace=s["notes"][:12]) for s in pick],
        ),
        bounds={a["scenario"]: a["bounds"] for a in rows},
        known_findings_seen=knownhits, repo_tree=h[:16], violation=violation,
        build_s=round(t_build, 1), wall_s=round(time.time() - t0, 1),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evp = os.path.join(HERE, "evidence", prop + ".json")
    json.dump(ev, open(evp + ".tmp", "w"), indent=1)
    os.replace(evp + ".tmp", evp)
    for k, text in known.items():
        print(f"KNOWN-FINDING: property={prop} {text} [seen in {knownhits.get(k, 0)} executions]")
    if violation:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        rp = os.path.join(HERE, "replays", f"{prop}-{hashlib.sha256(json.dumps([violation['scenario'], violation['path'], violation['profile']]).encode()).hexdigest()[:10]}.json")
        json.dump(violation, open(rp, "w"), indent=1)
        print(f"{prop}: {violation['scenario']} [{violation['profile']}]")
        for n in violation["notes"][:30]:
            print("   ", n)
        print(f"    {violation['sig']}: {violation['detail'][:2500]}")
        print(f"VIOLATION property={prop} replay={rp}", flush=True)
        return 1
    print(f"{prop}: held on {total('executions')} executions, {total('cases')} cases ({len(rows)} scenario runs, {'complete' if complete else 'NOT complete'}), {time.time() - t0:.1f} s")
    return 0

if __name__ == "__main__":
    main()
