#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree and runs one property's seeded search.

  check.py <PROPERTY> quick|thorough     the registered checks
  check.py build                         build only (setup_cmd)
  check.py replay <FILE> [--trace]       re-execute a replay file
Exit: 0 held on everything explored, 1 VIOLATION printed, 3 no answer (build or harness trouble).
"""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(V, "build"))
DEPS = "/opt/vp/deps"
JOBS = 8
FLAGS = ["-std=c++17", "-O1", "-g1", "-DNDEBUG", "-fno-omit-frame-pointer", "-include", "cstdint",
         f"-I{DEPS}/rapidjson-shim", f"-I{REPO}/source", f"-I{V}/sim", "-w",
         "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address",
         "-fsanitize=bounds,null,integer-divide-by-zero,signed-integer-overflow,vla-bound,return,unreachable,bool",
         "-fno-sanitize-recover=all",
         '-DJSON_SCHEMA_PATH="/nonexistent-schemas"']
TOOLOBJ = re.compile(r"obj/(Decoder|Encoder|Synthesizer)__src__main|stub__third_party")
LIBS = ["-lpugixml", "-lpthread", "-ldl"]


class NoAnswer(Exception):
    pass


def sha(path):
    h = hashlib.sha256()
    try:
        with open(path, "rb") as f:
            h.update(f.read())
    except OSError:
        return "absent"
    return h.hexdigest()


def compile_one(job):
    src, obj, extra, treekey, optional = job
    man = obj + ".dep.json"
    cmdkey = hashlib.sha256((" ".join(FLAGS + extra) + treekey).encode()).hexdigest()
    try:
        m = json.load(open(man))
        if m["cmd"] == cmdkey and all(sha(p) == h for p, h in m["deps"].items()) and (
                m.get("skip") or os.path.exists(obj)):
            return (src, None if m.get("skip") else obj, m.get("skip"))
    except (OSError, ValueError, KeyError):
        pass
    d = obj + ".d"
    r = subprocess.run(["g++", *FLAGS, *extra, "-MD", "-MF", d, "-c", src, "-o", obj],
                       capture_output=True, text=True)
    if r.returncode != 0:
        miss = re.search(r"fatal error: (\S+): No such file or directory", r.stderr)
        # a source whose third-party headers are not installed here cannot be built by /repo's own
        # build either; anything else is a build failure
        if optional and miss and not glob.glob(f"{REPO}/source/{miss.group(1)}"):
            json.dump({"cmd": cmdkey, "deps": {src: sha(src)}, "skip": miss.group(1)}, open(man, "w"))
            return (src, None, miss.group(1))
        if optional == "tool":
            return (src, None, "a compilable source: " + r.stderr[:300])
        raise NoAnswer(f"compiling {src} failed:\n{r.stderr[:3000]}")
    deps = re.sub(r"^[^:]*:", "", open(d).read().replace("\\\n", " "), count=1).split()
    json.dump({"cmd": cmdkey, "deps": {p: sha(p) for p in deps if not p.startswith("/usr/")}}, open(man, "w"))
    return (src, obj, None)


def build():
    """Returns (binary, info)."""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    lock = open(BUILD + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    srcs = sorted(glob.glob(f"{REPO}/source/*/src/*.cpp"))
    heads = sorted(glob.glob(f"{REPO}/source/*/include/*"))
    treekey = "\n".join(os.path.relpath(p, REPO) for p in heads)
    jobs = []
    for s in srcs:
        rel = os.path.relpath(s, f"{REPO}/source")
        extra = []
        if os.path.basename(s) == "main.cpp":
            tool = rel.split("/")[0].lower()
            if tool not in ("decoder", "encoder", "synthesizer"):
                continue
            extra = [f"-Dmain=haptics_{tool}_main", "-Dhelp=haptics_" + tool + "_help", f"-I{V}/sim/stub"]
        extra.append("-fsanitize-coverage=trace-pc")  # a yield point in every basic block
        # the tools are optional: without them only the checks of the tools give no answer
        optional = "tool" if os.path.basename(s) == "main.cpp" else "header"
        jobs.append((s, f"{BUILD}/obj/{rel.replace('/', '__')}.o", extra, treekey, optional))
    jobs.append((f"{V}/sim/stub/third_party.cpp", f"{BUILD}/obj/stub__third_party.o", [f"-I{V}/sim/stub"], treekey, "tool"))
    for s in sorted(glob.glob(f"{V}/sim/*.cpp")):
        # the interposed libc entry points run before the sanitizer and the guards are ready
        extra = ["-fno-threadsafe-statics", "-fno-sanitize=all"] if os.path.basename(s) == "env.cpp" else []
        jobs.append((s, f"{BUILD}/obj/sim__{os.path.basename(s)}.o", extra, treekey, ""))
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(compile_one, jobs))
    stub = f"{BUILD}/obj/stub__third_party.o"
    if not any(o == stub for _, o, _ in res):  # the tools that need the stand-ins cannot be linked
        res = [(s, None if o and re.search(r"obj/(Encoder|Synthesizer)__src__main", o) else o, m) for s, o, m in res]
    objs = sorted(o for _, o, _ in res if o and "/sim__" not in o)
    sims = sorted(o for _, o, _ in res if o and "/sim__" in o)
    skipped = [f"{os.path.relpath(s, REPO)} (needs {m})" for s, o, m in res if not o]
    key = hashlib.sha256("".join(o + sha(o) for o in objs + sims).encode()).hexdigest()
    binary = f"{BUILD}/hapticsim"
    keyf = f"{BUILD}/hapticsim.key"
    if not (os.path.exists(binary) and os.path.exists(keyf) and open(keyf).read() == key):
        lib = f"{BUILD}/librepo.a"
        if os.path.exists(lib):
            os.unlink(lib)
        subprocess.run(["ar", "rcs", lib, *(o for o in objs if not TOOLOBJ.search(o))], check=True)
        r = subprocess.run(["g++", "-fsanitize=address,undefined", "-rdynamic", "-o", binary, *sims,
                            *(o for o in objs if TOOLOBJ.search(o)), lib, *LIBS],
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise NoAnswer("link failed:\n" + r.stderr[:3000])
        open(keyf, "w").write(key)
    # a C locale with decimal comma, for the checks of what the process locale may influence
    loc = f"{BUILD}/locale"
    if not os.path.isdir(f"{loc}/de_DE.utf8"):
        os.makedirs(loc, exist_ok=True)
        try:
            subprocess.run(["localedef", "-i", "de_DE", "-f", "UTF-8", "--no-archive", f"{loc}/de_DE.utf8"],
                           capture_output=True)
        except OSError:
            pass
    os.environ["LOCPATH"] = loc
    info = {"build_s": round(time.time() - t0, 2), "real_sources": len(objs), "skipped_sources": skipped}
    fcntl.flock(lock, fcntl.LOCK_UN)
    return binary, info


def parse_records(paths):
    runs, viols = {}, []
    for p in paths:
        try:
            text = open(p, errors="replace").read()
        except OSError:
            continue
        for line in text.splitlines():
            f = line.split("\t")
            if f[0] == "R" and len(f) >= 8:
                runs[int(f[1])] = dict(faulty=f[2] == "1", hash=f[3], events=int(f[4]), t=int(f[5]),
                                       counts={k: int(v) for k, v in (x.split("=") for x in f[6].split(";") if x)},
                                       states=[x for x in f[7].split(",") if x])
            elif f[0] == "V" and len(f) >= 6:
                viols.append(dict(idx=int(f[1]), faulty=f[2] == "1", cls=f[3], path=f[4],
                                  msg=f[5].replace("\\n", "\n")))
    return runs, viols


def spawn(binary, prop, seed, ranges, thorough, cap, work, tag, maxv=2):
    """ranges: list of (from,to,step,offset) - one worker process each."""
    ps, outs = [], []
    for i, (a, b, st, off) in enumerate(ranges):
        out = f"{work}/{tag}-{i}.rec"
        outs.append(out)
        ps.append(subprocess.Popen([binary, "run", prop, str(seed), str(a), str(b), str(st), str(off),
                                    "1" if thorough else "0", str(cap), out, work, str(maxv)],
                                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
    for p in ps:
        _, e = p.communicate()
        if p.returncode != 0:
            raise NoAnswer(f"a simulation worker failed ({p.returncode}): {e.decode(errors='replace')[:500]}")
    return parse_records(outs)


def replay(binary, path, trace=False):
    r = subprocess.run([binary, "replay", path] + (["--trace"] if trace else []), capture_output=True, text=True,
                       errors="replace")
    m = re.search(r"^OUTCOME (\w+)\t([^\t]*)\t([0-9a-f]+)\t(.*)$", r.stdout, re.M)
    if not m:
        raise NoAnswer(f"replay of {path} gave no outcome: {r.stderr[:500]}")
    return dict(ok=m.group(1) == "ok", cls=m.group(2), hash=m.group(3), msg=m.group(4).replace("\\n", "\n"), out=r.stdout)


def known_findings(prop):
    """Lines 'finding: property=<id> match=<regex over "class | message"> <what fails>'."""
    out = []
    try:
        for l in open(f"{V}/known_findings.txt"):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2), re.S), m.group(3)))
    except OSError:
        pass
    return out


def gate(binary, v, work):
    """A candidate counts only if it fails again, identically, in two fresh processes."""
    a, b = replay(binary, v["path"]), replay(binary, v["path"])
    if a["ok"] and b["ok"]:
        # an execution that died (not a checked violation) may owe its death to state left by
        # earlier executions of the worker: that is a harness defect, not an answer
        raise NoAnswer(f"candidate violation of class {v['cls']} did not reproduce in a fresh process: {v['msg'][:300]}")
    if (a["ok"], a["cls"]) != (b["ok"], b["cls"]) or a["hash"] != b["hash"] and a["cls"] not in ("hang", "stall"):
        raise NoAnswer(f"replays of {v['path']} differ: {a['cls']}/{a['hash']} {b['cls']}/{b['hash']}")
    return a


def run_check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    binary, info = build()
    lst = {l.split()[0]: (int(l.split()[1]), int(l.split()[2]))
           for l in subprocess.run([binary, "list"], capture_output=True, text=True).stdout.splitlines()}
    if prop not in lst:
        raise NoAnswer(f"no scenario for {prop}")
    total = lst[prop][1 if thorough else 0]
    if os.environ.get("SIM_RUNS"):
        total = int(os.environ["SIM_RUNS"])
    cap = float(os.environ.get("SIM_CAP", "600" if thorough else "100"))
    work = os.path.join(BUILD, f"work-{prop}-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    try:
        runs, viols = spawn(binary, prop, seed, [(0, total, JOBS, i) for i in range(JOBS)], thorough, cap, work, "main",
                            200 if known_findings(prop) else 2)
        search_s = time.time() - t0 - info["build_s"]
        findings = known_findings(prop)
        reported, known = [], {}
        seen = set()
        unsure = None
        for v in sorted(viols, key=lambda x: x["idx"]):
            if reported and (v["cls"] in seen or time.time() - t0 > (900 if thorough else 300)):
                continue
            k = [d for rx, d in findings if rx.search(v["cls"] + " | " + v["msg"])]
            if k and k[0] in known:  # the first of its kind was replayed
                known[k[0]] += 1
                continue
            try:
                a = gate(binary, v, work)
            except NoAnswer as e:
                unsure = unsure or e
                continue
            if a["cls"] == "tool-missing":
                raise NoAnswer(a["msg"])
            text = a["cls"] + " | " + a["msg"]
            k = [d for rx, d in findings if rx.search(text)]
            if k:
                known[k[0]] = known.get(k[0], 0) + 1
                continue
            seen.add(v["cls"])
            dst_dir = os.path.join(V, "build", "replays")
            os.makedirs(dst_dir, exist_ok=True)
            dst = os.path.join(dst_dir, os.path.basename(v["path"]))
            mini = v["path"] + ".min"
            r = subprocess.run([binary, "shrink", v["path"], mini, "240" if thorough else "40"], capture_output=True)
            if r.returncode == 0 and os.path.exists(mini):
                m1 = replay(binary, mini)
                m2 = replay(binary, mini)
                if not m1["ok"] and m1["cls"] == m2["cls"] == a["cls"] and m1["hash"] == m2["hash"]:
                    shutil.copy(mini, dst)
                    a = m1
                else:
                    shutil.copy(v["path"], dst)
            else:
                shutil.copy(v["path"], dst)
            reported.append(dict(idx=v["idx"], cls=a["cls"], msg=a["msg"], replay=dst))
            if len(reported) >= 3:
                break
        if unsure and not reported:
            raise unsure
        # determinism: a sample of the same seeds in another process layout must give the same histories
        det = 0
        if not reported and len(viols) == sum(known.values()) and runs:
            n = min(max(runs) + 1, 240 if thorough else 64)
            again, v2 = spawn(binary, prop, seed, [(0, n, 3, i) for i in range(3)], thorough, cap, work, "det", 200)
            for i in again:
                if i in runs:
                    det += 1
                    if again[i]["hash"] != runs[i]["hash"]:
                        raise NoAnswer(f"run {i} of {prop} is not deterministic: {runs[i]['hash']} vs {again[i]['hash']}")
            v2 = [v for v in v2 if not any(rx.search(v["cls"] + " | " + v["msg"]) for rx, _ in findings)]
            if v2:
                raise NoAnswer(f"a re-run of seed index {v2[0]['idx']} of {prop} failed where the first passed: {v2[0]['msg'][:300]}")
        write_evidence(prop, tier, seed, runs, viols, reported, known, info, det, search_s, t0, total)
        for d in known:
            print(f"KNOWN-FINDING: property={prop} {d}")
        if reported:
            for r in reported:
                print(f"VIOLATION property={prop} replay={r['replay']}")
                print(f"  class {r['cls']}, seed {seed}, run {r['idx']}\n  " + r["msg"].replace("\n", "\n  "))
                print(f"  replay with: {V}/check.py replay {r['replay']} --trace")
            return 1
        if not runs:
            raise NoAnswer("no simulated run completed")
        nf = sum(1 for r in runs.values() if not r["faulty"])
        print(f"{prop} {tier}: {len(runs)} runs ({nf} fault-free) of {total}, no violation; "
              f"{det} runs repeated with identical histories; {time.time()-t0:.1f} s")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def write_evidence(prop, tier, seed, runs, viols, reported, known, info, det, search_s, t0, total):
    counts, states, hashes, curve = {}, set(), set(), []
    for i in sorted(runs):
        r = runs[i]
        hashes.add(r["hash"])
        states.update(r["states"])
        for k, n in r["counts"].items():
            counts[k] = counts.get(k, 0) + n
        if (len(hashes) & (len(hashes) - 1)) == 0:
            curve.append([len(hashes), len(states)])
    faults = {k[6:]: n for k, n in sorted(counts.items()) if k.startswith("fault:")}
    probes = {k: n for k, n in sorted(counts.items()) if not k.startswith("fault:")}
    # nontrivial: distinct histories among runs in which something observable happened
    nontriv = len({r["hash"] for r in runs.values() if r["events"] > 1})
    simtime = sum(r["t"] for r in runs.values())
    ms = open(f"{V}/sim/meta.json").read() if os.path.exists(f"{V}/sim/meta.json") else "{}"
    meta = json.loads(ms).get(prop, {})
    ids = sorted(runs)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "wall_s": round(time.time() - t0, 2),
        "violations": len(reported),
        "coverage": {
            "evaluations": len(runs),
            "distinct_nontrivial": nontriv,
            "rule": "one evaluation is one simulated execution (one seed index); it is nontrivial if it logged more "
                    "than one event, and distinct if the hash over its whole event history is new",
            "samples": [f"seed {seed} index {i}: history {runs[i]['hash']}, {runs[i]['events']} events, "
                        f"faults {'on' if runs[i]['faulty'] else 'off'}, "
                        + ", ".join(f"{k}={n}" for k, n in sorted(runs[i]['counts'].items())[:8])
                        for i in ids[:3] + ids[len(ids) // 2:len(ids) // 2 + 2] + ids[-2:]],
            "planned_runs": total,
            "fault_free_runs": sum(1 for r in runs.values() if not r["faulty"]),
            "faulty_runs": sum(1 for r in runs.values() if r["faulty"]),
            "runs_per_hour": round(len(runs) / max(search_s, 0.01) * 3600),
            "seeds_per_hour": round(len(runs) / max(search_s, 0.01) * 3600),
            "simulated_time_ticks": simtime,
            "faults_injected": faults,
            "probes": probes,
            "distinct_states": len(states),
            "distinct_states_measure": meta.get("states", "distinct signatures of what was delivered or reached, as logged by the scenario"),
            "distinct_states_growth": curve,
            "events": sum(r["events"] for r in runs.values()),
            "real_components": meta.get("real", []),
            "stubbed_components": meta.get("stub", []),
            "determinism_reruns_identical": det,
            "known_findings_seen": known,
            "candidate_violations": len(viols),
            "build": info,
        },
    }
    if reported:
        ev["coverage"]["reported"] = [dict(r, msg=r["msg"][:800]) for r in reported]
    os.makedirs(f"{V}/evidence", exist_ok=True)
    tmp = f"{V}/evidence/.{prop}.tmp"
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, f"{V}/evidence/{prop}.json")


def main(a):
    try:
        if len(a) >= 1 and a[0] == "build":
            _, info = build()
            print(json.dumps(info))
            return 0
        if len(a) >= 2 and a[0] == "replay":
            binary, _ = build()
            r = replay(binary, a[1], "--trace" in a)
            print(r["out"])
            return 0 if r["ok"] else 1
        if len(a) == 2 and a[1] in ("quick", "thorough"):
            return run_check(a[0], a[1])
        print(__doc__)
        return 3
    except NoAnswer as e:
        print("NO ANSWER:", e, file=sys.stderr)
        return 3


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
