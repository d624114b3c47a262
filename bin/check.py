#!/usr/bin/env python3
"""check.py ID [--thorough] : decide one property of /verif/properties.jsonl on the current /repo tree.

1. build the engine, the project's bitcode and the native replay programs from the current sources;
2. explore the property's cases symbolically (engine/nsym, Z3);
3. replay every counterexample natively; only reproduced ones are reported;
4. replay sampled path models natively and compare the logged results with the symbolic ones;
5. write evidence/<ID>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION lines printed.  Exit 2: the machinery could not run."""
import collections, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from vbuild import VERIF
sys.path.insert(0, VERIF)

MEMKINDS = {"memory-read", "memory-write", "bad-free", "memcpy-overlap"}
CRASHKINDS = {"div-by-zero", "div-overflow", "abort", "unreachable", "bad-jump", "bad-call", "stack-overflow"}


def log(s):
    print("# " + s, flush=True)


def load_conf():
    with open(os.path.join(VERIF, "checks.json")) as f:
        return json.load(f)


def known_findings():
    """KNOWN id property=<id> text / fixed: property=<id> <commit> text"""
    known = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
            if m:
                known[(m.group(1), m.group(2))] = m.group(3).strip()
    return known


class Replayer:
    def __init__(self, prog, arg, asan_first=False):
        self.prog, self.arg = prog, arg
        self.count = 0

    def run(self, exe, case, model, keep=None, timeout=30):
        d = tempfile.mkdtemp(prefix="nsymreplay-")
        try:
            mf = os.path.join(d, "model")
            with open(mf, "w") as f:
                for k, v in model.items():
                    f.write("%s=%s\n" % (k, v))
            w = os.path.join(d, "w")
            os.mkdir(w)
            env = {"PATH": "/usr/bin:/bin", "HOME": w, "SYM_CASE": case, "SYM_MODEL": mf, "SYM_ARG": self.arg, "LC_ALL": "C",
                   "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=76:allocator_may_return_null=1:detect_stack_use_after_return=0:max_malloc_fill_size=65536:malloc_fill_byte=205"}
            try:
                p = subprocess.run([os.path.join(self.prog, exe)], cwd=w, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                   stderr=subprocess.PIPE, timeout=timeout)
                rc, err = p.returncode, p.stderr.decode(errors="replace")
            except subprocess.TimeoutExpired as e:
                rc, err = "timeout", (e.stderr or b"").decode(errors="replace")
            self.count += 1
            return rc, err
        finally:
            shutil.rmtree(d, ignore_errors=True)

    @staticmethod
    def describe(rc, err):
        if rc == 77:
            m = re.search(r"SYM-ASSERT (.*)", err)
            return "assertion fails: " + (m.group(1) if m else "?")
        if rc == 76 or "ERROR: AddressSanitizer" in err:
            m = re.search(r"ERROR: AddressSanitizer:? ([^\n]*)", err)
            return "memory error: " + (m.group(1)[:120] if m else "?")
        if rc == 79:
            return "the process calls exit()"
        if rc == "timeout" or rc == -signal.SIGALRM:
            return "does not terminate"
        if isinstance(rc, int) and rc < 0:
            return "crash by signal %d (%s)" % (-rc, signal.Signals(-rc).name)
        return None

    def reproduce(self, v):
        """Native outcome that confirms the counterexample, or None."""
        order = ["replay-asan", "replay"] if v["kind"] in MEMKINDS or v["kind"] in CRASHKINDS else ["replay", "replay-asan"]
        if v["kind"] == "nontermination":
            # a path that exceeds the instruction limit is only a violation when the native program fails or does not finish either
            self.hangs = getattr(self, "hangs", 0) + 1
            if self.hangs > 3:
                return None
        for exe in order:
            rc, err = self.run(exe, v["case"], v["model"], timeout=90 if v["kind"] == "nontermination" and exe == "replay-asan" else 30)
            d = self.describe(rc, err)
            if d:
                return "%s (%s)" % (d, exe)
        return None


def native_log(err):
    return re.findall(r"^SYM-LOG (.*)=(\d+)$", err, re.M)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    pid = args[0]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    t_start = time.time()
    conf = load_conf().get(pid, {})
    tconf = dict(conf.get("quick", {}))
    if tier == "thorough":
        tconf = dict(tconf, **{"t": 3000, "tc": 1500, "samples": 12}, **conf.get("thorough", {}))
    nsym, prog = vbuild.build(log)
    t_built = time.time()
    files = [os.path.join(VERIF, "props", f) for f in conf.get("props", [])]
    default = os.path.join(VERIF, "props", pid + ".nuj")
    if not files and os.path.exists(default):
        files = [default]
    arg = ";".join((["thorough"] if tier == "thorough" else []) + files)
    cases = ",".join(conf.get("cases", [pid + "/"]))
    def explore(prog):
        out = tempfile.mkdtemp(prefix="nsym-")
        try:
            o, st = os.path.join(out, "o.jsonl"), os.path.join(out, "s.json")
            cmd = [nsym, "-j", str(tconf.get("j", min(8, os.cpu_count() or 4))), "-case", cases, "-t", str(tconf.get("t", 420)), "-tc", str(tconf.get("tc", 300)),
                   "-samples", str(tconf.get("samples", 3)), "-arg", arg, "-o", o, "-stats", st]
            for k in ("rlimit", "ilimit", "maxviol"):
                if k in tconf:
                    cmd += ["-" + k, str(tconf[k])]
            cmd.append(os.path.join(prog, "prog.bc"))
            log("exploring: " + " ".join(cmd[1:-1]))
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            engine_out = p.stdout.decode(errors="replace")
            if not os.path.exists(st):
                print(engine_out[-3000:])
                print("the engine did not run (exit %s)" % p.returncode)
                return None
            with open(st) as f:
                stats = json.load(f)
            recs = []
            with open(o, errors="replace") as f:
                for line in f:
                    try:
                        recs.append(json.loads(line))
                    except ValueError:
                        pass
        finally:
            shutil.rmtree(out, ignore_errors=True)
        return recs, stats, engine_out

    boot = None
    res = explore(prog)
    if res and not res[1]["cases"]:
        # Nothing could be explored, is it the code that fails to start? Then everything else can still be decided with the compiled
        # standard library of an earlier build.
        inits = [r for r in res[0] if r["t"] == "viol" and r["case"] == "init"]
        rp = Replayer(prog, arg)
        for r in inits[:1]:
            r["model"] = {}
            r["native"] = rp.reproduce(r)
            boot = r
            log("the system does not start: %s at %s, natively: %s" % (r["msg"], r["loc"], r["native"]))
            log("trying it with harness/stdlib.nuji.xz")
            nsym, prog = vbuild.build(log, True)
            res = explore(prog)
    if not res:
        return 2
    recs, stats, engine_out = res
    t_explored = time.time()
    rp = Replayer(prog, arg)
    known = known_findings()
    viol, unconfirmed, findings = [], [], collections.OrderedDict()
    if boot and boot["native"] and (pid in ("C19", "C30") or not stats["cases"]):
        viol.append(boot)
    for r in recs:
        if r["t"] != "viol" or (boot and r["case"] == "init"):
            continue
        if r.get("known") and (pid, r["known"]) in known:
            findings.setdefault(r["known"], r)
            continue
        # one report per case and message is enough
        if any(v["case"] == r["case"] and v["msg"] == r["msg"] and v["kind"] == r["kind"] for v in viol):
            continue
        how = rp.reproduce(r)
        if how:
            r["native"] = how
            viol.append(r)
        else:
            unconfirmed.append(r)
    # differential validation of the engine on completed paths
    validated, mismatches = 0, []
    for r in recs:
        if r["t"] != "path":
            continue
        rc, err = rp.run("replay", r["case"], r["model"])
        nl = native_log(err)
        sl = [(a, b) for a, b in r["log"]]
        if rc == 0 and nl == sl:
            validated += 1
        else:
            d = rp.describe(rc, err)
            mismatches.append({"case": r["case"], "model": r["model"], "symbolic": sl[:20], "native": nl[:20], "rc": rc, "outcome": d})
            if d and rc not in ("timeout",):
                # a path the engine considered fine fails natively: a concrete witness all the same
                viol.append({"case": r["case"], "kind": "native-replay", "msg": d, "loc": "", "model": r["model"], "log": r["log"], "native": d})
    reach = {(r["case"], r["tag"]) for r in recs if r["t"] == "reach"}
    cases_stat = stats["cases"]
    vacuous = [c for c in cases_stat if (c, "end") not in reach and not cases_stat[c]["violations"] and not cases_stat[c]["incomplete"]]
    incomplete = [r for r in recs if r["t"] in ("incomplete", "unsupported", "unknown")]
    incomplete_cases = sorted(c for c in cases_stat if cases_stat[c]["incomplete"] or cases_stat[c]["unknown"])
    problems = []
    if not cases_stat:
        problems.append("no case was explored")
    if vacuous:
        problems.append("vacuous: no path reaches the end of " + ", ".join(vacuous))
    if stats["engine_errors"]:
        problems.append("%d engine errors" % stats["engine_errors"])
    # replay files for the report
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rdir, f))
    for i, v in enumerate(viol):
        path = os.path.join(rdir, "%s-%d.json" % (pid, i))
        v["how_to_replay"] = "python3 /verif/bin/replay.py " + path
        v["arg"] = arg
        v["fallback"] = bool(boot)
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print("  %s: %s (%s)" % (v["case"], v["msg"], v["kind"]))
        if v.get("loc"):
            print("    at %s" % v["loc"])
        if v.get("notes"):
            print("    %s" % v["notes"])
        print("    inputs: %s" % ", ".join("%s=%s" % kv for kv in list(v["model"].items())[:24]))
        print("    native replay: %s" % v["native"])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    for k, r in findings.items():
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[(pid, k)], k))
    for u in unconfirmed:
        log("unconfirmed (not reported): %s %s %s at %s" % (u["case"], u["kind"], u["msg"], u["loc"]))
    for m in mismatches[:5]:
        log("engine/native difference in %s: %s" % (m["case"], json.dumps(m)[:400]))
    for r in problems:
        log("problem: " + r)
    seen = set()
    for r in incomplete:
        k = (r["case"], r.get("why") or r.get("msg") or r.get("fn"))
        if k not in seen:
            seen.add(k)
            log("not decided within the bounds: %s: %s at %s" % (k[0], k[1], r.get("loc", "")))
    if engine_out.strip():
        log("engine: " + engine_out.strip()[:1500])
    fully = sorted(c for c in cases_stat if c not in incomplete_cases and c not in vacuous)
    samples = [{"case": r["case"], "model": r["model"], "log": r["log"][:12]} for r in recs if r["t"] == "path"][:6] or \
              [{"case": v["case"], "model": v["model"]} for v in viol][:3]
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": conf.get("level", "model_checking"),
        "coverage": {
            "states": stats["paths"], "transitions": stats["instrs"], "traces_validated_against_impl": validated, "samples": samples,
            "cases": {c: {k: s[k] for k in ("paths", "asserts", "unknown", "incomplete", "ms")} for c, s in cases_stat.items()},
            "cases_decided_for_all_values_within_bounds": fully, "cases_not_fully_decided": incomplete_cases, "vacuous_cases": vacuous,
            "bounds": conf.get("bounds", ""), "outside_the_bounds": conf.get("outside", ""),
            "functions_encoded": stats["functions"], "symbolic_branches": stats["sym_branches"], "forks": stats["forks"], "llvm_instructions": stats["instrs"],
            "queries": {"total": stats["queries"], "sat": stats["q_sat"], "unsat": stats["q_unsat"], "unknown": stats["q_unknown"], "answered_from_cache": stats["cache_hits"]},
            "assertions_checked": stats["asserts"], "assertion_queries": stats["assert_queries"],
            "solver_seconds": stats["solver_ms"] / 1000.0, "longest_query_ms": stats["max_query_ms"], "solver": "Z3 (libz3 of python3-vt), QF_BV/QF_FPBV",
            "engine_errors": stats["engine_errors"], "model_mismatch": stats["model_mismatch"], "native_replays": rp.count,
            "engine_native_differences": mismatches[:10], "unconfirmed_counterexamples": [{k: u[k] for k in ("case", "kind", "msg", "loc", "model")} for u in unconfirmed][:10],
            "known_findings": list(findings), "build_s": round(t_built - t_start, 1), "explore_s": round(t_explored - t_built, 1),
        },
        "assumptions": conf.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t_start, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s: %d cases (%d fully decided), %d paths, %d queries (%d unsat), solver %.1f s, %d traces validated natively, %d violations, %.1f s" % (
        pid, len(cases_stat), len(fully), stats["paths"], stats["queries"], stats["q_unsat"], stats["solver_ms"] / 1000.0, validated, len(viol), time.time() - t_start))
    if viol:
        return 1
    if problems and not fully:
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    "the LLVM IR clang 18 -O1 -fwrapv emits for the sources behaves like the shipped gcc -O2 build (sampled paths and every counterexample are replayed on a gcc build)",
    "libc is modelled in harness/guestlibc.c (string functions, formatted output, an in-memory file system); malloc succeeds up to 2 GB and fails above",
    "C stack depth is limited only by the engine's 60000 frames",
]

if __name__ == "__main__":
    try:
        sys.exit(main())
    except vbuild.BuildError as e:
        print(str(e))
        print("the current tree does not build")
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
