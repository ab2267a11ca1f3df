#!/usr/bin/env python3
"""Driver of the checks: run.py ID [--tier quick|thorough] [--replay FILE] [--scale X] [--only TEST]

Compiles the harness of the property against /repo's working tree, runs the generated cases, writes evidence/ID.json.
Exit 0: held on everything explored. Exit 1 with a line VIOLATION property=ID replay=PATH: broken."""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from checks import CHECKS

REPO = os.environ.get("BOMBA_REPO", "/repo")
BUILD = os.environ.get("PBT_BUILD", os.path.join(ROOT, "build"))
BASE_FLAGS = ["--std=c++20", "-g1", "-O1", "-pthread", "-w"] + sum([["-include", h] for h in
              ("cstdint", "algorithm", "thread", "mutex", "memory")], []) + ["-I" + os.path.join(ROOT, "harness")]
SANITIZER = {"asan": ["-fsanitize=address"], "tsan": ["-fsanitize=thread"], "none": []}


def harvest(out):
    """Literals of the code under test (and numbers around them) take part in generation."""
    strings, numbers = set(), set()
    for fn in sorted(glob.glob(REPO + "/*.hpp") + glob.glob(REPO + "/tls/*.hpp")):
        text = open(fn, encoding="utf-8", errors="replace").read()
        text = re.sub(r"//[^\n]*", "", text)
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"|\'((?:[^\'\\\n]|\\.)+)\'', text):
            lit = m.group(1) if m.group(1) is not None else m.group(2)
            try:
                value = lit.encode("latin-1", "backslashreplace").decode("unicode_escape").encode("latin-1")
            except (UnicodeError, ValueError):
                continue
            if 0 < len(value) <= 60 and not value.endswith(b".hpp"):
                strings.add(value)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?![\w.])", text):
            n = int(m.group(1), 0) if not re.match(r"0\d", m.group(1)) else int(m.group(1))
            if n < 2 ** 63:
                numbers.add(n)
    with open(out, "w") as f:
        for s in sorted(strings):
            f.write("s " + s.hex() + "\n")
        for n in sorted(numbers):
            f.write("n %d\n" % n)


def tree_hash():
    h = hashlib.sha256()
    for fn in sorted(glob.glob(REPO + "/*.hpp") + glob.glob(REPO + "/tls/*.hpp") + glob.glob(REPO + "/public_html/*")
                     + glob.glob(ROOT + "/harness/*")):
        if os.path.isfile(fn):
            h.update(fn.encode())
            h.update(open(fn, "rb").read())
    return h


def compile_one(binary):
    """Returns (path or None, log). Cached by the contents of everything it is made from."""
    flags = BASE_FLAGS + ["-I" + REPO, "-I" + BUILD] + SANITIZER[binary.get("sanitizer", "asan")] + \
        ["-D" + d for d in binary.get("defines", [])] + binary.get("flags", [])
    libs = binary.get("libs", [])
    h = tree_hash()
    h.update(json.dumps([flags, libs, os.path.basename(binary["source"])]).encode())
    if os.path.isabs(binary["source"]):
        h.update(open(binary["source"], "rb").read())  # generated
    name = os.path.splitext(os.path.basename(binary["source"]))[0] + "-" + "".join(binary.get("defines", [])) + "-" + h.hexdigest()[:16]
    out = os.path.join(BUILD, name)
    if os.path.exists(out):
        return out, ""
    source = binary["source"]
    if not os.path.isabs(source):
        source = os.path.join(ROOT, "harness", source)
    tmp = out + ".%d.tmp" % os.getpid()
    p = subprocess.run(["g++"] + flags + [source, "-o", tmp] + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return None, p.stdout
    os.rename(tmp, out)
    return out, p.stdout


def repo_tests_compile():
    with tempfile.TemporaryDirectory() as d:
        p = subprocess.run(["g++", "--std=c++20", "-fsyntax-only", "-w", "-include", "cstdint", "-include", "algorithm", REPO + "/bomba_test.cpp"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d)
        return p.returncode == 0


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = only = None
    scale = 1.0
    while args:
        a = args.pop(0)
        if a == "--tier": tier = args.pop(0)
        elif a == "--replay": replay = args.pop(0)
        elif a == "--only": only = args.pop(0)
        elif a == "--scale": scale = float(args.pop(0))
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    check = CHECKS[pid]
    if replay:  # generated programs depend on them
        r = json.load(open(replay))
        seed, tier = r.get("seed", seed), r.get("tier", tier)
    start = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    # Old binaries would pile up during development
    for old in glob.glob(BUILD + "/*-*-*"):
        if time.time() - os.path.getmtime(old) > 4 * 3600:
            try: os.unlink(old)
            except OSError: pass
    dictionary = os.path.join(BUILD, "dict-%d.txt" % os.getpid())
    harvest(dictionary)
    env = dict(os.environ, PBT_DICT=dictionary, BOMBA_REPO=REPO, PBT_HARNESS=os.path.join(ROOT, "harness"),
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:hard_rss_limit_mb=3000:allocator_may_return_null=0:detect_stack_use_after_return=0",
               TSAN_OPTIONS="halt_on_error=1:abort_on_error=1:second_deadlock_stack=1")
    violations, results, problems = [], [], []

    def report_violation(test, message, case, choices, binary):
        digest = hashlib.sha256(json.dumps([test, message, choices]).encode()).hexdigest()[:10]
        path = os.path.join(ROOT, "replays", "%s-%s-%s.json" % (pid, test, digest))
        with open(path, "w") as f:
            json.dump({"property": pid, "test": test, "message": message, "case": case, "choices": choices, "binary": binary, "seed": seed, "tier": tier,
                       "replay_with": "python3 run.py %s --replay %s" % (pid, path)}, f, indent=1)
        violations.append(path)
        print("%s/%s: %s" % (pid, test, message[:1500]))
        if case:
            print("case: " + case[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.stdout.flush()

    binaries = [dict(b, index=i) for i, b in enumerate(check["binaries"])]
    binaries = [b for b in binaries if tier == "thorough" or not b.get("thorough_only")]
    tmpdir = tempfile.mkdtemp(prefix="verif-")
    try:
        for b in binaries:
            if "generate" in b:  # a generated source
                b["source"] = os.path.join(tmpdir, "generated%d.cpp" % b["index"])
                p = subprocess.run([sys.executable, os.path.join(ROOT, "harness", b["generate"]), b["source"], str(seed), tier, str(b["index"])],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
                if p.returncode:
                    print(p.stdout)
                    sys.exit(2)
        compiled = [b for b in binaries if b["source"].endswith(".cpp")]
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            outs = dict(zip([b["index"] for b in compiled], pool.map(compile_one, compiled)))
        for b in binaries:
            if b["index"] in outs and outs[b["index"]][0] is None:
                log = outs[b["index"]][1]
                errors = "\n".join([l for l in log.splitlines() if "error" in l][:8])
                if repo_tests_compile():
                    report_violation("build", "A program using the public interface does not compile: " + errors, log[:4000], [], b["index"])
                else:
                    print(log[:4000])
                    sys.exit(2)
                continue
            if violations and tier != "thorough" and time.time() - start > 400: continue # It already failed
            if replay:
                if r["binary"] != b["index"]: continue
                chosen = os.path.join(tmpdir, "choices")
                open(chosen, "w").write(" ".join(map(str, r["choices"])))
            out = os.path.join(tmpdir, "out%d.json" % b["index"])
            command = [outs[b["index"]][0]] if b["index"] in outs else [sys.executable, os.path.join(ROOT, "harness", b["source"])]
            command += [out, "--tier", tier, "--seed", str(seed), "--scale", str(scale)]
            if only: command += ["--only", only]
            if replay and r["test"] != "crash": command += ["--replay", r["test"], chosen]
            try:
                p = subprocess.run(command, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                                   timeout=None if tier == "thorough" else max(60, 860 - (time.time() - start)))
            except subprocess.TimeoutExpired:
                problems.append("%s ended with no result in time" % b["source"])
                continue
            if not os.path.exists(out):
                # The code under test is also used outside of the isolated cases (initialisation), a crash there is a violation if it is repeatable
                crashed = lambda q: q.returncode in (-6, -11, -7, -8, -4) or "ERROR: AddressSanitizer" in q.stdout or "WARNING: ThreadSanitizer" in q.stdout
                if crashed(p):
                    again = subprocess.run(command, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
                    if crashed(again) and not os.path.exists(out):
                        summary = [l for l in p.stdout.splitlines() if "ERROR: AddressSanitizer" in l or "terminate called" in l or "what():" in l]
                        report_violation("crash", "A program using the library crashes when initialised: " + (" ".join(summary)[:500] or "signal %d" % -p.returncode), p.stdout[-3000:], [], b["index"])
                        continue
                print(p.stdout[-3000:])
                problems.append("%s ended with %d" % (b["source"], p.returncode))
                continue
            d = json.load(open(out))
            results += d["tests"]
            for f in d["failures"]:
                if f["reproducible"]:
                    report_violation(f["test"], f["message"], f["case"], f["choices"], b["index"])
                else:
                    print("NOT REPRODUCIBLE (not reported as a violation): %s: %s" % (f["test"], f["message"][:600]))
                    problems.append("not reproducible: " + f["message"][:600])
    finally:
        shutil.rmtree(tmpdir, ignore_errors=True)
        try: os.unlink(dictionary)
        except OSError: pass
    if replay:
        print("replay: " + ("still fails" if violations else "passes"))
        sys.exit(1 if violations else 0)
    known = []
    for line in open(os.path.join(ROOT, "known_findings.txt")):
        if line.startswith("finding: property=%s " % pid):
            known.append(line.split(" ", 2)[2].strip())
            print("KNOWN-FINDING: property=%s %s" % (pid, known[-1]))
    samples = []
    for t in results:
        samples += [t["test"] + ": " + s for s in t.pop("samples", [])[:3]]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": check.get("level", "exploration"),
        "coverage": {
            "evaluations": sum(t["evaluations"] for t in results),
            "distinct_nontrivial": sum(t["distinct_nontrivial"] for t in results),
            "rule": check["rule"], "samples": samples[:12] or ["none"], "tests": results,
        },
        "assumptions": check.get("assumptions", []),
        "wall_s": round(time.time() - start, 2), "violations": len(violations),
    }
    if problems: evidence["coverage"]["problems"] = problems
    if known: evidence["coverage"]["known_findings"] = known
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s: %d cases, %d distinct non-trivial, %d violations, %.1f s" % (pid, evidence["coverage"]["evaluations"],
          evidence["coverage"]["distinct_nontrivial"], len(violations), evidence["wall_s"]))
    if violations: sys.exit(1)
    if any("ended with" in p for p in problems): sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
