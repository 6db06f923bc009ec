#!/usr/bin/env python3
"""Builds the simulator around /repo's current sources and searches one property.

  check.py PROP [--tier quick|thorough] [--secs N]     search (exit 0, or 1 and a VIOLATION line)
  check.py --build                                     build only (setup_cmd)
  check.py --replay FILE                               run one replay file again
"""
import argparse, hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = VERIF / "build"
EVID = Path(os.environ.get("VERIF_EVID", VERIF / "evidence"))
sys.path.insert(0, str(VERIF))
from proptable import PROPS, COMPONENTS, ASSUMPTIONS  # noqa: E402

CXX = "g++"
LIBS = ("-lsqlite3 -lcryptopp -largon2 -lprotobuf -licuuc -labsl_time -labsl_time_zone "
        "-labsl_strings -labsl_symbolize -labsl_failure_signal_handler -labsl_base -labsl_int128 "
        "-labsl_raw_logging_internal -lpthread -ldl").split()
COMMON = ("-std=c++17 -include numeric -include algorithm -include mutex -O1 -g1 "
          "-U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -DFUSE_USE_VERSION=29").split()


def say(*a):
    print(*a, flush=True)


def die(msg):
    say("ERROR: " + msg)
    sys.exit(2)


def repo_sources():
    src = REPO / "sources"
    out = sorted(src.glob("*.cpp"))
    return [p for p in out if p.name != "win.cpp"]


# calls of the race flavour that sim/core/race.cpp looks at
WRAPPED = ["memcpy", "memmove", "memset", "memcmp",
           "_ZN8CryptoPP28AuthenticatedSymmetricCipher22EncryptAndAuthenticateEPhS1_mPKhiS3_mS3_m",
           "_ZN8CryptoPP28AuthenticatedSymmetricCipher16DecryptAndVerifyEPhPKhmS3_iS3_mS3_m",
           "_ZN8CryptoPP9CMAC_Base6UpdateEPKhm", "_ZN8CryptoPP9CMAC_Base14TruncatedFinalEPhm",
           "_ZN8CryptoPP9HMAC_Base6UpdateEPKhm", "_ZN8CryptoPP9HMAC_Base14TruncatedFinalEPhm"]


def tree_hash(flavour):
    h = hashlib.sha256()
    files = sorted((REPO / "sources").glob("**/*")) + sorted((REPO / "protos").glob("*.proto"))
    files += sorted((VERIF / "sim").glob("**/*"))
    for p in files:
        if p.is_file():
            h.update(str(p).encode() + b"\0")
            h.update(p.read_bytes() + b"\0")
    h.update(" ".join(COMMON + LIBS + WRAPPED).encode() + flavour.encode())
    h.update(Path(__file__).read_bytes())
    return h.hexdigest()[:16]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="backslashreplace", **kw)


def build(flavour="plain"):
    """Returns the path of the simulator binary."""
    key = tree_hash(flavour)
    out = BUILD / f"{flavour}-{key}"
    exe = out / "simsec"
    if exe.exists():
        return exe, 0.0
    t0 = time.time()
    BUILD.mkdir(exist_ok=True)
    for old in sorted(BUILD.glob(f"{flavour}-*")):
        if old != out and time.time() - old.stat().st_mtime > 3600:
            shutil.rmtree(old, ignore_errors=True)
    tmp = BUILD / f"tmp-{flavour}-{key}-{os.getpid()}"
    gen = tmp / "gen"
    gen.mkdir(parents=True)
    r = run(["protoc", f"--cpp_out={gen}", f"-I{REPO}/protos", f"{REPO}/protos/params.proto"])
    if r.returncode:
        die("protoc failed:\n" + r.stdout)
    for name, subst in (("git-version.cpp", {"@GIT_VERSION@": "sim"}),
                        ("is_fuse_t.h", {"@IS_FUSE_T@": "false"})):
        tpl = REPO / "sources" / (name + ".in")
        text = tpl.read_text() if tpl.exists() else ""
        import re
        for k, v in subst.items():
            text = text.replace(k, v)
        text = re.sub(r"@[A-Za-z_]*@", "false" if name == "is_fuse_t.h" else "sim", text)
        (gen / name).write_text(text)
    inc = [f"-I{VERIF}/sim/stubs", f"-I{VERIF}/sim/core", f"-I{gen}", f"-I{REPO}/sources",
           "-I/usr/include/fuse"]
    jobs = []
    # The race flavour instruments the repository's memory accesses; sim/core/race.cpp receives them.
    race = flavour == "race"
    extra = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-fPIC"] if race else []
    sut = set()
    for p in repo_sources() + [gen / "params.pb.cc", gen / "git-version.cpp"]:
        sut.add(p)
        jobs.append((p, COMMON + extra + ["-D_FILE_OFFSET_BITS=64", "-ftrivial-auto-var-init=pattern", "-w"] + inc))
    for p in sorted((VERIF / "sim/core").glob("*.cpp")):
        fl = list(COMMON)
        fl += ["-Wno-nonnull-compare"]
        if p.name == "sched.cpp":
            fl += ["-fno-threadsafe-statics"]
        if p.name == "simfs.cpp":
            fl += ["-fno-threadsafe-statics", "-fno-delete-null-pointer-checks"]
        elif p.name == "race.cpp":
            fl += ["-fno-builtin-malloc", "-fno-builtin-calloc"]
        else:
            fl += ["-D_FILE_OFFSET_BITS=64"]
        jobs.append((p, fl + inc))
    for p in sorted((VERIF / "sim/harness").glob("*.cpp")):
        jobs.append((p, COMMON + ["-D_FILE_OFFSET_BITS=64", "-w"] + inc))
    if race:
        jobs = [(p, f + ["-DSIM_RACE=1"]) for p, f in jobs]
    # the slowest files first
    jobs.sort(key=lambda j: -j[0].stat().st_size)

    def one(j):
        src, flags = j
        o = tmp / (src.parent.name + "_" + src.name + ".o")
        r = run([CXX] + flags + ["-c", str(src), "-o", str(o)])
        return src, o, r

    errs, objs, sobjs = [], [], []
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for src, o, r in ex.map(one, jobs):
            (sobjs if race and src in sut else objs).append(str(o))
            if r.returncode:
                errs.append(f"{src}:\n{r.stdout[:4000]}")
    if errs:
        shutil.rmtree(tmp, ignore_errors=True)
        die("compilation failed\n" + "\n".join(errs))
    link = []
    if race:
        # A library of its own, so that the templates of instrumented and other code stay apart.
        r = run([CXX, "-shared", "-o", str(tmp / "libsut.so")] + sorted(sobjs) + ["-Wl,-Bsymbolic-functions"]
                + [f"-Wl,--wrap={n}" for n in WRAPPED] + LIBS)
        if r.returncode:
            shutil.rmtree(tmp, ignore_errors=True)
            die("linking failed:\n" + r.stdout[:6000])
        link = [f"-L{tmp}", "-lsut", "-Wl,-rpath,$ORIGIN"]
    r = run([CXX] + sorted(objs) + ["-o", str(tmp / "simsec"), "-rdynamic"] + link + LIBS)
    if r.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        die("linking failed:\n" + r.stdout[:6000])
    for o in objs + sobjs:
        os.unlink(o)
    try:
        tmp.rename(out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe, time.time() - t0


def known_findings(prop):
    """(kind, fields, text) of the lines of known_findings.txt about this property."""
    res = []
    f = VERIF / "known_findings.txt"
    for line in f.read_text().splitlines() if f.exists() else []:
        line = line.strip()
        if not line.startswith("finding:"):
            continue
        fields, words = {}, []
        for w in line[len("finding:"):].split():
            if "=" in w and not words:
                k, v = w.split("=", 1)
                fields[k] = v
            else:
                words.append(w)
        if fields.get("property") == prop:
            res.append((fields, " ".join(words)))
    return res


def replay_once(exe, path):
    r = run([str(exe), "run", str(path)], timeout=300)
    return r.returncode, r.stdout


def tag_of(out):
    for l in out.splitlines():
        if l.startswith("status="):
            for w in l.split():
                if w.startswith("tag="):
                    return w[4:], l
    return "", ""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--secs", type=float)
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 8))
    a = ap.parse_args()
    if a.build:
        for fl in sorted({p.get("flavour", "plain") for p in PROPS.values()}):
            exe, t = build(fl)
            say(f"built {exe} in {t:.1f} s")
        return 0
    if a.replay:
        txt = Path(a.replay).read_text()
        prop = [l.split()[1] for l in txt.splitlines() if l.startswith("prop ")][0]
        exe, _ = build(PROPS[prop].get("flavour", "plain"))
        rc, out = replay_once(exe, a.replay)
        say(out)
        return rc
    prop = a.prop
    if prop not in PROPS:
        die(f"unknown property {prop}")
    P = PROPS[prop]
    t_start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    exe, t_build = build(P.get("flavour", "plain"))
    secs = a.secs or (P.get("quick", 25) if a.tier == "quick" else P.get("thorough", 600))
    EVID.mkdir(exist_ok=True)
    work = BUILD / f"run-{prop}-{os.getpid()}"
    work.mkdir(parents=True)
    say(f"{prop}: {P['title']} (tier {a.tier}, seed {seed}, {a.workers} workers, {secs:.0f} s of search; "
        f"build {t_build:.1f} s)")

    # ---- known findings: replay each one
    for fields, text in known_findings(prop):
        rc, out = replay_once(exe, VERIF / fields["replay"])
        tag, _ = tag_of(out)
        if rc == 1 and tag == fields["tag"]:
            say(f"KNOWN-FINDING: property={prop} {text}")
        else:
            say(f"note: the known finding in {fields['replay']} does not show (rc {rc}, tag {tag})")

    # ---- seeded search
    base = 1 + (seed - 1) * 100_000_000
    procs = []
    for w in range(a.workers):
        procs.append(subprocess.Popen(
            [str(exe), "batch", prop, str(base + w), str(a.workers), str(secs), str(work / f"w{w}.json"),
             a.tier], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    for p in procs:
        try:
            p.wait(timeout=secs + 240)
        except subprocess.TimeoutExpired:
            p.kill()
    res = []
    for w in range(a.workers):
        try:
            res.append((w, json.loads((work / f"w{w}.json").read_text(errors="backslashreplace"))))
        except (OSError, ValueError):
            say(f"note: worker {w} left no result (exit {procs[w].returncode})")
    if not res:
        shutil.rmtree(work, ignore_errors=True)
        die("no worker finished")

    def total(k):
        return sum(d[k] for _, d in res)

    # ---- violations: gate, minimise, replay
    viols, bad = [], []
    for w, d in res:
        if d["rc"] == 0:
            continue
        plan = work / f"w{w}.json.plan"
        if d["rc"] != 1:
            bad.append(d["violation"])
            continue
        viols.append((len(plan.read_bytes()), w, d["violation"], plan))
    viols.sort()
    reported = None
    for _, w, text, plan in viols[:4]:
        rc, out = replay_once(exe, plan)
        tag, line = tag_of(out)
        if rc != 1:
            bad.append(f"not reproducible in a fresh process: {text[:300]}")
            continue
        (EVID / "replay").mkdir(exist_ok=True)
        dst = EVID / "replay" / f"{prop}-{tag}.plan"
        mp = work / "min.plan"
        r = run([str(exe), "min", str(plan), str(mp), str(P.get("min_budget", 20))])
        if r.returncode == 0:
            rc2, out2 = replay_once(exe, mp)
            rc3, out3 = replay_once(exe, mp)
            if rc2 == 1 and tag_of(out2) == tag_of(out3) and tag_of(out2)[0] == tag:
                shutil.copy(mp, dst)
                reported = (dst, tag, out2, r.stdout.splitlines()[0])
                break
        shutil.copy(plan, dst)
        reported = (dst, tag, out, "not minimised: " + r.stdout[:200].strip())
        break

    # ---- evidence
    traces, scheds = set(), set()
    for _, d in res:
        traces.update(d["traces"])
        scheds.update(d["scheds"])
    wall = max(d["wall_s"] for _, d in res)
    runs = total("runs")
    faults = {}
    for _, d in res:
        for k, v in d["faults"].items():
            if v:
                faults[k] = faults.get(k, 0) + v
    probes = {}
    for _, d in res:
        for name, v in d.get("probes", {}).items():
            if v:
                probes[name] = probes.get(name, 0) + v
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": min(total("nontrivial"), len(traces)),
        "rule": P["rule"],
        "samples": [s for _, d in res for s in d["samples"]][:3],
        "first_seed": base,
        "runs_per_hour": int(runs / max(wall, 0.001) * 3600),
        "simulated_seconds": round(total("sim_s"), 3),
        "operations": total("ops"),
        "operations_that_failed": total("ops_failed"),
        "system_calls_simulated": total("syscalls"),
        "scheduler_steps": total("steps"),
        "task_switches": total("switches"),
        "remounts": total("remounts"),
        "faults_injected": {**{f"errno_on_{k}": v for k, v in sorted(faults.items())},
                            "short_transfers": total("shorts"),
                            "process_crashes": total("crash_process"),
                            "power_losses": total("crash_power"),
                            "torn_writes": total("torn"),
                            "tampered_files": total("tampers"),
                            "clock_jumps": total("clock_jumps")},
        "distinct_traces": len(traces),
        "distinct_schedules": len(scheds),
        "distinctness_measure": "64-bit hash over the complete sequence of simulated system calls with arguments and results, operation results and task switches of a run",
        "determinism_rechecks": total("repeat_checked"),
        "probes": probes,
        "real_components": COMPONENTS["real"],
        "stubbed_components": COMPONENTS["stub"],
    }
    ev = {"property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": "exploration", "coverage": cov, "assumptions": ASSUMPTIONS + P.get("assumptions", []),
          "wall_s": round(time.time() - t_start, 2), "violations": 1 if reported else 0}
    (EVID / f"{prop}.json").write_text(json.dumps(ev, indent=1, ensure_ascii=True) + "\n")
    shutil.rmtree(work, ignore_errors=True)
    say(f"{runs} runs ({cov['runs_per_hour']}/h), {cov['operations']} operations, {len(traces)} distinct traces, "
        f"faults {sum(v for v in cov['faults_injected'].values())}, {time.time()-t_start:.0f} s")
    if reported:
        dst, tag, out, note = reported
        say(out.strip()[:3000])
        say(note)
        say(f"VIOLATION property={prop} replay={dst}")
        return 1
    if bad:
        die("; ".join(bad)[:3000])
    return 0


if __name__ == "__main__":
    sys.exit(main())
