#!/usr/bin/env python3
"""Runs the simulation deciding one property.

  bin/check.py C01 [quick|thorough]      the check
  bin/check.py --replay FILE             replays a replay file, with its trace
  bin/check.py --build-all               compiles everything (warms the cache)

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Exit 2: the machinery could not decide (build error, unconfirmed failure).
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from props import PROPS, WORLDS  # noqa: E402

CXX = "g++"
BASE = ["-std=c++11", "-g1", "-m64", "-DIL_MKL", "-DIL_BLAS", "-Wno-error", "-w", "-pthread",
        "-include", "cstdint", "-I" + REPO, "-I/usr/include/mkl", "-I" + os.path.join(VERIF, "sim"),
        "-I" + os.path.join(VERIF, "worlds"), "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE",
        "-fsanitize=address", "-fno-builtin-fprintf", "-fno-builtin-malloc", "-fno-builtin-free"]
CONFIG = {"D": ["-O1"], "R": ["-O2", "-DNDEBUG"]}
COV = ["-fsanitize-coverage=trace-pc"]
WRAPS = ("malloc free calloc realloc aligned_alloc posix_memalign abort exit fopen fopen64 fclose fread fwrite "
         "fgets fputs fputc putc fgetc getc ungetc fseek fseeko ftell ftello rewind fflush ferror feof clearerr "
         "vfprintf fprintf remove unlink rename __cxa_throw").split()
ENV = dict(os.environ)
ENV.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:"
                            "allocator_may_return_null=1:handle_abort=0:intercept_tls_get_addr=0:"
                            "alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:malloc_context_size=0",
            "LC_ALL": "C.UTF-8", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "MKL_CBWR": "COMPATIBLE"})
for k in ("LD_PRELOAD",):
    ENV.pop(k, None)


def tree_hash(objects=False):
    """Of everything an executable (an object, besides its source) is made of."""
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "il"), os.path.join(VERIF, "sim"), os.path.join(VERIF, "worlds")):
        for d, dirs, files in os.walk(root):
            dirs.sort()
            if "_test" in dirs:
                dirs.remove("_test")
            for f in sorted(files):
                if objects and root.startswith(VERIF) and not f.endswith(".h"):
                    continue
                if f.endswith((".h", ".cpp", ".cc", ".hpp", ".inc")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    with open(os.path.join(VERIF, "bin", "check.py"), "rb") as fh:
        h.update(fh.read())
    if not objects:
        with open(os.path.join(VERIF, "bin", "props.py"), "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(world, key):
    """Returns {config: path of the executable}."""
    w = WORLDS[world]
    d = os.path.join(BUILD, "%s-%s" % (world, key))
    configs = w.get("configs", list(CONFIG))
    exes = {c: os.path.join(d, "%s-%s" % (world, c)) for c in configs}
    if all(os.path.exists(e) for e in exes.values()):
        return exes
    os.makedirs(d, exist_ok=True)
    od = os.path.join(BUILD, "obj-%s" % tree_hash(True))  # objects are shared by the worlds
    os.makedirs(od, exist_ok=True)
    jobs, objs = [], {c: [] for c in configs}
    for c in configs:
        for spec in w["sources"] + ["@sim"]:
            src, *defs = spec.split(" ")
            sim = src == "@sim"
            path = (os.path.join(VERIF, "sim", "sim.cpp") if sim else
                    os.path.join(REPO, src[6:]) if src.startswith("@repo/") else os.path.join(VERIF, "worlds", src))
            flags = (["-O2"] if sim else CONFIG[c] + COV) + BASE + (w.get("flags", []) if src.endswith("_main.cpp") else []) + defs
            if src in w.get("nocov", []):
                flags = [f for f in flags if f not in COV]
            cmd = [CXX] + flags + ["-c", path, "-o"]
            o = os.path.join(od, "%s-%s.o" % (re.sub(r"[^A-Za-z0-9]", "_", spec), hashlib.sha256(" ".join(cmd).encode() + open(path, "rb").read()).hexdigest()[:12]))
            objs[c].append(o)
            if not os.path.exists(o) and cmd + [o] not in jobs:
                jobs.append(cmd + [o])
    # the debug-check configuration is visible to the harness through NDEBUG
    errors = []
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        def compile_one(cmd):
            tmp = cmd[-1] + ".tmp%d" % os.getpid()
            r = run(cmd[:-1] + [tmp])
            if r.returncode == 0:
                os.replace(tmp, cmd[-1])
            return r
        for cmd, r in zip(jobs, ex.map(compile_one, jobs)):
            if r.returncode:
                errors.append(" ".join(cmd) + "\n" + r.stdout)
    if errors:
        raise BuildError("\n".join(errors))
    for c in configs:
        tmp = exes[c] + ".tmp%d" % os.getpid()
        cmd = [CXX, "-fsanitize=address", "-pthread", "-o", tmp] + objs[c] + \
              ["-Wl,--wrap=" + x for x in WRAPS] + w.get("libs", []) + ["-ldl", "-lm"]
        r = run(cmd)
        if r.returncode:
            raise BuildError(" ".join(cmd) + "\n" + r.stdout)
        os.replace(tmp, exes[c])
    return exes


def known_findings():
    """Lines of known_findings.txt: 'known property=<id> config=<D|R|*> class=<class> <text>'."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) config=(\S+) class=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def replay_once(exe, prop, script, verbose=False, thorough=False):
    cmd = [exe, "replay", "--prop", prop, "--file", script] + (["--verbose"] if verbose else []) + (["--thorough"] if thorough else [])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, errors="replace", text=True)
    m = re.search(r"^RESULT (\{.*\})$", r.stdout, re.M)
    return (json.loads(m.group(1)) if m else None), r.stdout, r.stderr


def write_replay(prop, world, config, seed, tier, v, script, trace):
    os.makedirs(REPLAYS, exist_ok=True)
    draws = [int(x) for x in open(script).read().split()]
    body = {"property": prop, "world": world, "config": config, "seed": seed, "tier": tier, "run": v["run"],
            "class": v["class"], "message": v["message"], "hash": v["hash"], "draws": draws,
            "trace": trace.splitlines()[:4000]}
    name = "%s-%s-%s.json" % (prop, v["class"], hashlib.sha256(json.dumps(draws).encode()).hexdigest()[:10])
    path = os.path.join(REPLAYS, name)
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def cmd_replay(path):
    b = json.load(open(path))
    key = tree_hash()
    exes = build(b["world"], key)
    script = os.path.join(BUILD, "replay-%d.script" % os.getpid())
    with open(script, "w") as f:
        f.write("\n".join(map(str, b["draws"])) + "\n")
    try:
        res, out, err = replay_once(exes[b["config"]], b["property"], script, True, b["tier"] == "thorough")
    finally:
        os.unlink(script)
    sys.stdout.write(out)
    sys.stdout.write(err[-6000:])
    if res and res["verdict"] == 1:
        same = res["class"] == b["class"] and res["hash"] == b["hash"]
        print("reproduced %s" % ("exactly" if same else "with a different history (the code changed?)"))
        print("VIOLATION property=%s replay=%s" % (b["property"], path))
        return 1
    print("not reproduced")
    return 0


def shard_cmd(exe, prop, seed, i, n, runs, seconds, out, twin, known, thorough):
    cmd = [exe, "batch", "--prop", prop, "--seed", str(seed), "--start", str(i), "--stride", str(n),
           "--runs", str(runs), "--seconds", "%.1f" % seconds, "--out", out, "--twin", str(twin)]
    for k in known:
        cmd += ["--known", k]
    if thorough:
        cmd.append("--thorough")
    return cmd


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return cmd_replay(sys.argv[2])
    if len(sys.argv) >= 2 and sys.argv[1] == "--selfcheck":  # nothing is kept between checks: only the tools are needed
        r = run([CXX, "--version"])
        print(r.stdout.splitlines()[0])
        return r.returncode
    if len(sys.argv) >= 2 and sys.argv[1] == "--build-all":
        key = tree_hash()
        for w in WORLDS:
            build(w, key)
            print("built", w)
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    p = PROPS[prop]
    world = p["world"]
    t0 = time.time()
    try:
        exes = build(world, tree_hash())
    except BuildError as e:
        print(str(e)[-6000:])
        print("ERROR: the world of %s does not build" % prop)
        return 2
    t_build = time.time() - t0
    cores = os.cpu_count() or 4
    configs = p.get("configs", ["D", "R"])
    seconds = p["seconds"][0 if tier == "quick" else 1]
    total = p["runs"][0 if tier == "quick" else 1]
    thorough = tier == "thorough"
    shards = max(1, cores // len(configs))
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    known = known_findings()
    rc = 0
    try:
        t1 = time.time()
        procs = []
        for c in configs:
            kn = [k for (kp, kc, k, _) in known if kp == prop and kc in ("*", c)]
            for i in range(shards):
                out = os.path.join(work, "%s-%d.json" % (c, i))
                cmd = shard_cmd(exes[c], prop, seed, i, shards, (total + shards - 1) // shards, seconds, out,
                                p.get("twin", 8), kn, thorough)
                procs.append((c, i, out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                                          text=True, errors="replace", env=ENV)))
        results = []
        for c, i, out, pr in procs:
            o, _ = pr.communicate()
            try:
                results.append((c, i, out, json.load(open(out))))
            except Exception:
                print("ERROR: shard %s/%d of %s gave no result (exit %s)\n%s" % (c, i, prop, pr.returncode, o[-2000:]))
                rc = 2
        wall_runs = time.time() - t1
        violations = []
        for c, i, out, r in results:
            v = r["violation"]
            if not v:
                continue
            if not v.get("confirmed"):
                print("ERROR: a failure of %s did not reproduce: %s" % (prop, json.dumps(v)))
                rc = rc or 2
                continue
            v["config"] = c
            violations.append((v, out + ".script"))
        seen = set()
        real = 0
        for v, script in sorted(violations, key=lambda x: (x[0]["class"], x[0]["draws_after"])):
            k = (v["class"], v["config"])
            if k in seen:
                continue
            seen.add(k)
            res, out, err = replay_once(exes[v["config"]], prop, script, False, thorough)
            if not res or res["verdict"] != 1 or res["class"] != v["class"]:
                print("ERROR: replay in a fresh process differs: %s against %s" % (res, v))
                rc = rc or 2
                continue
            if res["hash"] != v["hash"]:
                # the same violation at the same draws; the code reads bytes the simulator does not fix
                print("NOTE: the values of this history depend on addresses: %s against %s" % (res["message"], v["message"]))
                v["hash"] = res["hash"]
            _, trace, err = replay_once(exes[v["config"]], prop, script, True, thorough)
            path = write_replay(prop, world, v["config"], seed, tier, v, script, trace + err[-4000:])
            real += 1
            print("---- %s, configuration %s, run %d (VERIF_SEED=%d): %s" % (prop, v["config"], v["run"], seed, v["class"]))
            print("     %s" % v["message"])
            for line in trace.splitlines()[-40:]:
                print("     | " + line[:300])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        # determinism: the first runs again, in one other process per configuration
        det_n = p.get("determinism", 60)
        diffs = 0
        det_compared = 0
        if rc == 0 and real == 0:
            def hashes(args):
                c, a, n = args
                o = subprocess.run([exes[c], "hashes", "--prop", prop, "--seed", str(seed), "--start", str(a), "--runs", str(n)]
                                   + (["--thorough"] if thorough else []),
                                   stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=ENV).stdout
                return dict(l.split() for l in o.splitlines() if l)
            jobs = []
            for c in configs:
                jobs.append((c, 0, det_n))
                h = det_n // 2
                jobs += [(c, 0, h), (c, h, det_n - h)]
            with cf.ThreadPoolExecutor(max_workers=cores) as ex:
                hs = list(ex.map(hashes, jobs))
            for k in range(0, len(hs), 3):
                a, b = hs[k], dict(list(hs[k + 1].items()) + list(hs[k + 2].items()))
                det_compared += len(a)
                diffs += sum(1 for x in a if a[x] != b.get(x))
                if len(a) != det_n:
                    diffs += 1
            if diffs:
                print("ERROR: %d of %d runs of %s were not repeatable" % (diffs, det_compared, prop))
                rc = 2
        # merge
        tot = {"runs": 0, "nontrivial": 0, "deaths": 0, "sim_seconds": 0.0, "blocks_executed": 0, "switches": 0}
        faults, probes, known_hits = {}, {}, {}
        for c, i, out, r in results:
            for k in tot:
                tot[k] += r[k]
            for src, dst in ((r["faults"], faults), (r["probes"], probes)):
                for k, n in src.items():
                    dst[k] = dst.get(k, 0) + n
            for k, n in r["known"].items():
                known_hits[(c, k)] = known_hits.get((c, k), 0) + n
        distinct = 0
        blocks = {}
        for c in configs:
            import array
            s = set()
            cov = None
            for c2, i, out, r in results:
                if c2 != c:
                    continue
                a = array.array("Q")
                hp = out + ".hash"
                if os.path.exists(hp):
                    n = os.path.getsize(hp) // 8
                    with open(hp, "rb") as f:
                        a.fromfile(f, n)
                    s.update(a)
                with open(out + ".cov", "rb") as f:
                    b = f.read()
                cov = b if cov is None else bytes(x | y for x, y in zip(cov, b))
            distinct += len(s)
            blocks[c] = sum(cov) if cov else 0
        for kp, kc, k, text in known:
            if kp == prop:
                print("KNOWN-FINDING: property=%s %s" % (prop, text))
        samples = []
        for c in configs[:1]:
            for i in (0, 1, 2):
                o = subprocess.run([exes[c], "show", "--prop", prop, "--seed", str(seed), "--start", str(i), "--verbose"]
                                   + (["--thorough"] if thorough else []),
                                   stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", env=ENV).stdout
                lines = [l[:240] for l in o.split("---- twin")[0].splitlines()]
                samples.append({"run": i, "config": c, "trace": lines[:60]})
        missing = [x for x in p.get("must_probe", []) if probes.get(x, 0) == 0 and faults.get(x, 0) == 0]
        if missing and rc == 0 and real == 0 and tot["runs"] >= 1000:
            print("WARNING: never reached in this run: %s" % ", ".join(missing))
        ev = {"property": prop, "tier": tier, "seed": seed, "level": p.get("level", "exploration"),
              "coverage": {
                  "evaluations": tot["runs"], "distinct_nontrivial": distinct, "rule": p["rule"], "samples": samples,
                  "simulated_runs": tot["runs"], "nontrivial_runs": tot["nontrivial"],
                  "seeds_per_hour": int(tot["runs"] / wall_runs * 3600) if wall_runs else 0,
                  "simulated_seconds": round(tot["sim_seconds"], 6),
                  "faults_injected": faults, "rare_conditions_reached": probes, "conditions_never_reached": missing,
                  "process_deaths_simulated": tot["deaths"], "thread_switches": tot["switches"],
                  "distinct_measure": "distinct hashes of the complete event history (operations, results, faults, "
                                      "system calls; never addresses) among non-trivial runs, per build configuration",
                  "basic_blocks_of_code_under_test_executed": tot["blocks_executed"],
                  "basic_blocks_reached_per_configuration": blocks,
                  "configurations": configs, "determinism_runs_compared": det_compared, "determinism_differences": diffs,
                  "known_findings_hit": {"%s/%s" % k: n for k, n in known_hits.items()},
                  "real_components": p["real"], "stubbed_components": p["stub"],
                  "build_seconds": round(t_build, 1)},
              "assumptions": p["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": real}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d runs (%d distinct non-trivial) in %.1fs (+%.1fs build), %d faults, %d violation(s)" %
              (prop, tier, tot["runs"], distinct, wall_runs, t_build, sum(faults.values()), real))
        if real:
            return 1
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
