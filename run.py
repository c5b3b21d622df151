#!/usr/bin/env python3
"""Driver of the deterministic-simulation checks.

  run.py check PROPERTY [quick|thorough]   decide one property
  run.py build [VARIANT...]                build the simulators
  run.py replay FILE                       replay a violation file
  run.py determinism [N]                   run N seeds of every world twice

Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION line:
it did not.  Anything else is an error of the check itself.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
SIM = os.path.join(VERIF, "sim")
JOBS = 8
TMP = ""  # where the simulators may put scratch files

sys.path.insert(0, SIM)
from checks import CHECKS, VARIANTS  # noqa: E402


class CheckError(Exception):
    pass


class NoSmallBuild(Exception):
    """The small-footprint build does not compile: there is nothing to compare."""


# ------------------------------------------------------------------ building
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def tree(d, exts):
    out = []
    for base, dirs, files in os.walk(d):
        dirs[:] = [x for x in dirs if not x.startswith((".", "_build"))]
        out += [os.path.join(base, f) for f in files if f.endswith(exts)]
    return out


def lib_sources():
    return sorted(os.path.join(REPO, "src", f)
                  for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".cc"))


def make_config(d):
    """config.h, as CMake would write it (the guards of the shipped build)."""
    ver = "0"
    try:
        txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
        m = re.search(r"project\s*\([^)]*VERSION\s+([0-9.]+)", txt, re.S)
        ver = m.group(1) if m else ver
    except OSError:
        pass
    src = os.path.join(REPO, "src", "config.h.in")
    body = open(src).read() if os.path.exists(src) else ""
    body = re.sub(r"[@]PROJECT_VERSION[@]|\$\{PROJECT_VERSION\}", ver, body)
    body = re.sub(r"@[A-Za-z_]+@", "0", body)
    body = re.sub(r"#cmakedefine\s+(\w+)", r"#define \1", body)
    with open(os.path.join(d, "config.h"), "w") as f:
        f.write(body)


def build(variant):
    v = VARIANTS[variant]
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "sim")
    lib = lib_sources()
    tools = [os.path.join(REPO, t) for t in v.get("repo_extra", [])]
    deps = (lib + tools + tree(os.path.join(REPO, "include"), (".h", ".hpp", ".inc"))
            + tree(os.path.join(REPO, "src"), (".h", ".in", ".inc"))
            + tree(SIM, (".h", ".cc")) + [os.path.join(REPO, "CMakeLists.txt")])
    key = digest(deps, json.dumps(v, sort_keys=True))
    stamp = os.path.join(d, "stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if os.path.isfile(p):
            os.unlink(p)
    make_config(d)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + d,
           "-I" + os.path.join(REPO, "src")]
    defs = ["-DFDUMP_DEFINE", "-DRTP_DEFINE", "-DFPRINT_ERRORS"]
    jobs = []
    own = v.get("process")  # the code under test is a program of its own
    for s in lib:
        jobs.append((s, os.path.join(d, "lib_" + os.path.basename(s) + ".o"),
                     ["-std=gnu++14"] + v["lib"]))
    for s in tools:
        jobs.append((s, os.path.join(d, "tool_" + os.path.basename(s) + ".o"),
                     ["-std=gnu++14"] + v["lib"] + v.get("tool", [])))
    small = v.get("small")  # the library a second time, as the small-footprint build
    small_defs = {}
    if small:
        for s in lib:
            if "_rtp_" not in os.path.basename(s):
                jobs.append((s, os.path.join(d, "small_" + os.path.basename(s) + ".o"),
                             ["-std=gnu++14"] + v["lib"]))
                small_defs[jobs[-1][1]] = small["defs"]
    for s in (small["sim_sources"] if small else []) + v["sim_sources"]:
        jobs.append((os.path.join(SIM, s), os.path.join(d, s + ".o"),
                     ["-std=gnu++17", "-iquote", SIM] + v["sim"]))
        if small and s in small["sim_sources"]:
            small_defs[jobs[-1][1]] = small["defs"]
    # which side's copies of shared template code are linked
    objs = [j[1] for j in jobs]
    if not v.get("lib_first"):
        objs.reverse()
    tool_objs = []
    if own:
        tool_objs = [o for o in objs if os.path.basename(o).startswith(("lib_", "tool_"))]
        objs = [o for o in objs if o not in tool_objs]
        for s in own["sources"]:
            o = os.path.join(d, s + ".o")
            tool_objs.append(o)
            jobs.append((os.path.join(SIM, s), o, ["-std=gnu++17", "-iquote", SIM] + own["flags"]))
    for prog in v.get("programs", []):
        for s in prog["sources"]:
            jobs.append((os.path.join(SIM, s), os.path.join(d, s + ".o"),
                         ["-std=gnu++17", "-iquote", SIM] + prog["flags"]))
    # the slowest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))

    def one(j):
        return sh([v["cxx"], "-c", j[0], "-o", j[1], "-w"] + j[2] + inc
                  + small_defs.get(j[1], defs))
    with ThreadPoolExecutor(JOBS) as ex:
        for j, r in zip(jobs, ex.map(one, jobs)):
            if r.returncode:
                raise (NoSmallBuild if j[1] in small_defs else CheckError)(
                    "cannot compile %s\n%s" % (j[0], r.stdout[-3000:]))
    if own:
        r = sh([v["cxx"], "-o", os.path.join(d, "tool")] + tool_objs + own["link"])
        if r.returncode:
            raise CheckError("cannot link the tool\n" + r.stdout[-3000:])
    for prog in v.get("programs", []):
        r = sh([v["cxx"], "-o", os.path.join(d, prog["name"])]
               + [os.path.join(d, s + ".o") for s in prog["sources"]] + prog["link"])
        if r.returncode:
            raise CheckError("cannot link %s\n%s" % (prog["name"], r.stdout[-3000:]))
    r = sh([v["cxx"], "-o", exe + ".new"] + objs + v["link"])
    if r.returncode:
        raise (NoSmallBuild if small else CheckError)("cannot link\n" + r.stdout[-3000:])
    os.rename(exe + ".new", exe)
    with open(stamp, "w") as f:
        f.write(key)
    return exe


# ------------------------------------------------------------------- running
def sim_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("exitcode=77:detect_leaks=0:abort_on_error=0:"
                         "max_malloc_fill_size=1048576:malloc_fill_byte=190:"
                         "allocator_may_return_null=0:handle_abort=0:"
                         "hard_rss_limit_mb=3000:quarantine_size_mb=16:"
                         "detect_stack_use_after_return=1")
    e["UBSAN_OPTIONS"] = "exitcode=77:print_stacktrace=0"
    e["SIM_REPO"] = REPO
    if TMP:
        e["SIM_TMP"] = TMP
    e["LC_ALL"] = "C"
    e.pop("MALLOC_PERTURB_", None)
    return e


def run_file(exe, world, path, timeout=120):
    """(class, message, hash) of one replay in a fresh process; class '' = held."""
    r = subprocess.run([exe, world, "run", path], stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, text=True, errors="replace",
                       env=sim_env(), timeout=timeout)
    m = re.search(r"^RESULT violation class=(\S*) hash=(\S*) msg=(.*)$", r.stdout, re.M)
    if m:
        return m.group(1), m.group(3), m.group(2)
    m = re.search(r"^RESULT ok hash=(\S*)$", r.stdout, re.M)
    if m and r.returncode == 0:
        return "", "", m.group(1)
    raise CheckError("replay gave no result (%d): %s" % (r.returncode, r.stdout[-500:]))


def explore(exe, world, first, runs, seconds, tmp):
    """Runs `runs` seeds on JOBS workers; returns the merged report."""
    per = (runs + JOBS - 1) // JOBS
    procs = []
    for w in range(JOBS):
        out = os.path.join(tmp, "%s-%d.json" % (world, w))
        procs.append((out, subprocess.Popen(
            [exe, world, "explore", str(first + w), str(JOBS), str(per),
             str(seconds), out],
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
            env=sim_env())))
    reps, errs = [], []
    for out, p in procs:
        try:
            so, _ = p.communicate(timeout=seconds + 300)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            errs.append("worker did not finish")
            continue
        if p.returncode or not os.path.exists(out):
            errs.append("worker exit %s: %s" % (p.returncode, (so or "")[-300:]))
            continue
        with open(out) as f:
            reps.append(json.load(f))
        os.unlink(out)
    if errs and not any(r.get("violation") for r in reps):
        raise CheckError("; ".join(errs))
    m = {"runs": 0, "steps": 0, "sim_us": 0, "events": 0, "stats": {},
         "sigs": set(), "hashes": set(), "violations": [], "edges_total": 0,
         "edges": 0}
    bits = 0
    for r in reps:
        for k in ("runs", "steps", "sim_us", "events"):
            m[k] += r[k]
        m["edges_total"] = max(m["edges_total"], r["edges_total"])
        if r["edge_bits"]:
            bits |= int(r["edge_bits"], 2) if r["edge_bits"].strip("0") else 0
        m["sigs"].update(r["sigs"])
        m["hashes"].update(r["hashes"])
        for k, v in r["stats"].items():
            if k.startswith("max:"):
                m["stats"][k] = max(m["stats"].get(k, 0), v)
            else:
                m["stats"][k] = m["stats"].get(k, 0) + v
        if r.get("violation"):
            m["violations"].append(r["violation"])
    m["edges"] = bin(bits).count("1")
    return m


def seed_hashes(exe, world, first, n):
    r = subprocess.run([exe, world, "hash", str(first), str(n)],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       text=True, env=sim_env(), timeout=600)
    return r.returncode, [ln for ln in r.stdout.splitlines() if ln]


def confirm(prop, variant, exe, world, vio, tmp, min_s):
    """Gate, minimise and write the replay file.  None if not reproducible."""
    seed = vio["seed"]
    scn = os.path.join(tmp, "v-%d.scn" % seed)
    # alone; else after the runs that shared its process (hidden process state)
    for extra in ([], [str(vio.get("batch", seed)), str(JOBS)]):
        r = subprocess.run([exe, world, "gen", str(seed)] + extra,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           text=True, env=sim_env())
        if r.returncode:
            return None
        with open(scn, "w") as f:
            f.write(r.stdout)
        a = run_file(exe, world, scn)
        b = run_file(exe, world, scn)
        if a[0] and a == b:
            break
        print("note: seed %d: %r then %r in fresh processes" % (seed, a, b))
    else:
        return None
    mini = os.path.join(tmp, "m-%d.scn" % seed)
    p = subprocess.Popen([exe, world, "min", scn, a[0], str(min_s), mini],
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                         env=sim_env(), start_new_session=True)
    try:
        p.wait(timeout=min_s + 120)
    except subprocess.TimeoutExpired:  # report it as it is
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
    best, res = scn, a
    if os.path.exists(mini):
        c = run_file(exe, world, mini)
        d = run_file(exe, world, mini)
        if c[0] == a[0] and c == d:
            best, res = mini, c
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    out = os.path.join(VERIF, "replays", "%s-%s-%d.scn" % (prop, world, seed))
    body = [ln for ln in open(best).read().splitlines() if not ln.startswith("#")]
    with open(out, "w") as f:
        f.write("# property=%s variant=%s world=%s seed=%d class=%s hash=%s\n"
                % (prop, variant, world, seed, res[0], res[2]))
        f.write("# %s\n" % res[1])
        f.write("# replay: python3 run.py replay %s\n" % os.path.relpath(out, VERIF))
        f.write("\n".join(body) + "\n")
    n0 = len(r.stdout.splitlines())
    print("violation: world %s seed %d class %s: %s" % (world, seed, res[0], res[1]))
    print("minimised from %d to %d lines: %s" % (n0, len(body), out))
    return out


def replay(path):
    head = open(path).readline()
    m = dict(re.findall(r"(\w+)=(\S+)", head))
    exe = build(m["variant"])
    c, msg, h = run_file(exe, m["world"], path)
    print("%s class=%s hash=%s %s" % ("VIOLATED" if c else "held", c, h, msg))
    return 1 if c else 0


# -------------------------------------------------------------------- checks
def check(prop, tier):
    t0 = time.time()
    cfg = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    global TMP
    tmp = TMP = tempfile.mkdtemp(prefix="sim-%s-" % prop)
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    worlds_ev, faults, probes, ops, maxes = [], {}, {}, {}, {}
    total_runs = distinct = 0
    sim_us = 0
    samples = []
    vio_path = None
    unconfirmed = 0
    det = {"seeds": 0, "mismatches": 0}
    try:
        for w in cfg["worlds"]:
            try:
                exe = build(w["variant"])
            except NoSmallBuild as e:
                print("note: no small-footprint build to compare with: %s" % e)
                worlds_ev.append({"world": w["world"], "build": w["variant"], "runs": 0,
                                  "note": "the small-footprint build does not compile"})
                continue
            tb = time.time()
            runs = w["quick" if tier == "quick" else "thorough"]
            cap = w.get("cap_quick", 240) if tier == "quick" else w.get("cap_thorough", 3000)
            first = seed * 100000000 + w.get("offset", 0)
            m = explore(exe, w["world"], first, runs, cap, tmp)
            wall = time.time() - tb
            total_runs += m["runs"]
            distinct += len(m["hashes"])
            sim_us += m["sim_us"]
            for k, v in m["stats"].items():
                kind, _, name = k.partition(":")
                tgt = {"fault": faults, "probe": probes, "max": maxes}.get(kind, ops)
                name = name if kind in ("fault", "probe", "max") else k
                tgt[name] = max(tgt.get(name, 0), v) if kind == "max" else tgt.get(name, 0) + v
            worlds_ev.append({
                "world": w["world"], "build": w["variant"], "runs": m["runs"],
                "first_seed": first, "wall_s": round(wall, 2),
                "runs_per_hour": int(m["runs"] / max(wall, 1e-3) * 3600),
                "simulated_s": round(m["sim_us"] / 1e6, 3),
                "code_steps": m["steps"], "events_logged": m["events"],
                "distinct_histories": len(m["hashes"]),
                "distinct_edge_sets": len(m["sigs"]),
                "edges_reached": m["edges"], "edges_instrumented": m["edges_total"]})
            if len(samples) < 3 and runs:
                r = subprocess.run([exe, w["world"], "gen", str(first)],
                                   stdout=subprocess.PIPE, text=True, env=sim_env())
                ls = r.stdout.splitlines()
                samples.append({"world": w["world"], "seed": first,
                                "scenario": [x[:160] for x in ls[:12]],
                                "lines": len(ls)})
            for v in m["violations"]:
                p = confirm(prop, w["variant"], exe, w["world"], v, tmp,
                            20 if tier == "quick" else 120)
                if p:
                    vio_path = p
                    break
                unconfirmed += 1
            if vio_path:
                break
            if unconfirmed:
                raise CheckError("%d violation(s) did not reproduce in a fresh process"
                                 % unconfirmed)
            # the same seeds again, in two fresh processes
            n = w.get("det_quick", 12) if tier == "quick" else w.get("det_thorough", 200)
            if n:
                a = seed_hashes(exe, w["world"], first, n)
                b = seed_hashes(exe, w["world"], first, n)
                det["seeds"] += n
                if a != b or a[0] != 0 or len(a[1]) != n:
                    det["mismatches"] += 1
                    raise CheckError("seeds %d+%d of world %s do not repeat"
                                     % (first, n, w["world"]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        wall = time.time() - t0
        cov = {
            "evaluations": total_runs,
            "distinct_nontrivial": distinct,
            "rule": cfg["rule"],
            "samples": samples,
            "worlds": worlds_ev,
            "faults_fired": faults,
            "rare_conditions_reached": probes,
            "operations": ops,
            "maxima": maxes,
            "simulated_s": round(sim_us / 1e6, 3),
            "runs_per_hour": int(total_runs / max(wall, 1e-3) * 3600),
            "determinism": det,
            "real_components": cfg["real"],
            "stubbed_components": cfg["stub"],
        }
        ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"],
              "coverage": cov, "assumptions": cfg["assumptions"],
              "wall_s": round(wall, 2), "violations": 1 if vio_path else 0}
        with open(ev_path, "w") as f:
            json.dump(ev, f, indent=1)
    if vio_path:
        print("VIOLATION property=%s replay=%s" % (prop, vio_path))
        return 1
    for k in cfg.get("must_reach", []):
        if not probes.get(k) and not faults.get(k):
            print("note: condition %s was not reached" % k)
    print("property %s held: %d simulated runs, %d distinct histories, %.1f s"
          % (prop, total_runs, distinct, wall))
    return 0


def determinism(n):
    bad = 0
    seen = set()
    for prop, cfg in CHECKS.items():
        for w in cfg["worlds"]:
            if (w["variant"], w["world"]) in seen:
                continue
            seen.add((w["variant"], w["world"]))
            exe = build(w["variant"])
            chunk = 50
            starts = list(range(7000000, 7000000 + n, chunk))

            def once(s):
                return seed_hashes(exe, w["world"], s, chunk)
            with ThreadPoolExecutor(JOBS) as ex:
                a = list(ex.map(once, starts))
            with ThreadPoolExecutor(3) as ex:
                b = list(ex.map(once, starts))
            d = sum(x != y for x, y in zip(a, b)) + sum(x[0] != 0 for x in a)
            bad += d
            print("%s/%s: %d seeds twice, %d differing batches"
                  % (w["variant"], w["world"], n, d), flush=True)
    return 1 if bad else 0


def main(argv):
    try:
        if len(argv) >= 2 and argv[0] == "check":
            tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
            return check(argv[1], tier if tier in ("quick", "thorough") else "quick")
        if argv and argv[0] == "build":
            for v in argv[1:] or VARIANTS:
                try:
                    build(v)
                except NoSmallBuild as e:
                    print("note: %s: %s" % (v, e))
            return 0
        if len(argv) == 2 and argv[0] == "replay":
            return replay(argv[1])
        if argv and argv[0] == "determinism":
            return determinism(int(argv[1]) if len(argv) > 1 else 400)
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
