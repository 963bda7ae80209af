#!/usr/bin/env python3
"""Runs one check (or builds, or replays).

  check.py check C01        quick or thorough by VERIF_TIER; seed from VERIF_SEED
  check.py build            build every harness (setup)
  check.py replay FILE      run a replay file again, with a trace
"""
import fcntl, glob, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import HARNESSES, CHECKS   # noqa: E402

JOBS = min(8, os.cpu_count() or 8)
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
ENV = dict(os.environ)
# Freed memory stays unusable in the even processes, and is used again at once in the odd ones: some
# defects only show when a new object gets the address of an old one.
ASAN = ["exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1"]
ASAN.append(ASAN[0] + ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0")
ENV["ASAN_OPTIONS"] = ASAN[0]
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
ENV.pop("LD_PRELOAD", None)


class BuildError(Exception):
    pass


def sources_key(h):
    m = hashlib.sha256()
    headers = []
    for root, dirs, names in os.walk(REPO):
        dirs[:] = [d for d in dirs if not d.startswith(".") and d != "build"]
        headers += [os.path.join(root, n) for n in names if n.endswith((".hpp", ".h", ".inl", ".ipp", ".tpp", ".hxx", ".hh", ".cpp", ".cxx", ".cc"))]
    for f in sorted(headers + glob.glob(os.path.join(VERIF, "harness", "*"))):
        if os.path.isfile(f):
            m.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    m.update(json.dumps(h, sort_keys=True).encode())
    return m.hexdigest()[:20]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(name):
    """Builds a harness from /repo's working tree; returns the path of the binary."""
    h = HARNESSES[name]
    d = os.path.join(BUILD, name + "-" + sources_key(h))
    os.makedirs(BUILD, exist_ok=True)
    binary = os.path.join(d, name)
    with open(os.path.join(BUILD, name + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(binary):
            return binary
        for old in glob.glob(os.path.join(BUILD, name + "-*")):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d)
        inc = ["-I" + REPO, "-I" + os.path.join(VERIF, "harness")]
        cc = h.get("cc", "clang++")

        def unit(u):
            src, flags, out = u
            o = os.path.join(d, out + ".o")
            r = sh([cc, "-w", "-std=c++17"] + h["flags"] + flags + inc + ["-c", os.path.join(VERIF, "harness", src), "-o", o])
            return r.returncode, o, r.stdout
        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(unit, h["units"]))
        for rc, o, out in res:
            if rc:
                shutil.rmtree(d, ignore_errors=True)
                raise BuildError(out)
        tmp = binary + ".tmp"
        r = sh([cc] + h.get("link_flags", h["flags"]) + [o for _, o, _ in res] + ["-o", tmp] + h.get("libs", []))
        if r.returncode:
            shutil.rmtree(d, ignore_errors=True)
            raise BuildError(r.stdout)
        for _, o, _ in res:
            os.unlink(o)
        os.rename(tmp, binary)
    return binary


def read_status(path):
    """(case index, message, tape) of the last case of a process."""
    try:
        b = open(path, "rb").read()
        idx = int.from_bytes(b[0:8], "little")
        n = int.from_bytes(b[8:12], "little")
        state = int.from_bytes(b[12:16], "little")
        msg = b[16:16 + 4096].split(b"\0")[0].decode(errors="replace")
        base = 16 + 4096
        tape = [int.from_bytes(b[base + 4 * i:base + 4 * i + 4], "little") for i in range(n)]
        return idx, state, msg, tape
    except Exception:
        return None


FAILED = (77, 78, 99)


def is_failure(rc):
    return rc in FAILED or rc < 0


def run_tape(binary, profile, tape, d, trace=False, timeout=120):
    f = tempfile.NamedTemporaryFile("w", dir=d, suffix=".tape", delete=False)
    f.write("\n".join(map(str, tape)) + "\n")
    f.close()
    st = f.name + ".status"
    try:
        r = subprocess.run([binary, "run", profile, f.name, st] + (["trace"] if trace else []), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=ENV, timeout=timeout, text=True, errors="replace")
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        rc, out = 78, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
    s = read_status(st)
    for p in (f.name, st):
        try:
            os.unlink(p)
        except OSError:
            pass
    used = s[3] if s else []
    return rc, out, (s[2] if s else ""), used


def shrink(binary, profile, tape, d, budget=75):
    """Smaller tape that still fails: delete chunks, then lower values."""
    end = time.time() + budget

    def fails(t):
        rc, _, _, _ = run_tape(binary, profile, t, d, timeout=20)
        return is_failure(rc)

    ex = ThreadPoolExecutor(JOBS)

    def first(cands):
        cands = list(cands)
        for i in range(0, len(cands), JOBS):
            if time.time() > end:
                return None
            part = cands[i:i + JOBS]
            for c, ok in zip(part, ex.map(fails, part)):
                if ok:
                    return c
        return None

    best = list(tape)
    while best and best[-1] == 0:
        best.pop()
    changed = True
    while changed and time.time() < end:
        changed = False
        # shorter prefixes
        n = len(best)
        c = first([best[:n * k // 8] for k in range(0, 8)])
        if c is not None and len(c) < len(best):
            best, changed = c, True
            continue
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end:
                cands = [best[:j] + best[j + size:] for j in range(i, len(best), size)][:JOBS]
                c = first(cands)
                if c is not None:
                    best, changed = c, True
                else:
                    i += size * JOBS
            size //= 2
        # whole groups of choices, at every offset
        for size in (30, 20, 16, 14, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2) if len(best) < 800 else ():
            i = 0
            while i + size <= len(best) and time.time() < end:
                cands = [best[:j] + best[j + size:] for j in range(i, min(i + JOBS, len(best) - size + 1))]
                c = first(cands)
                if c is not None:
                    best, changed = c, True
                else:
                    i += JOBS
        i = 0
        while i < len(best) and time.time() < end:
            v = best[i]
            cands = [best[:i] + [x] + best[i + 1:] for x in sorted({0, 1, v // 2, v - 1}) if 0 <= x < v]
            c = first(cands)
            if c is not None:
                best, changed = c, True
                continue
            i += 1
    while best and best[-1] == 0:
        best.pop()
    ex.shutdown()
    return best


def probe_compiles():
    with tempfile.TemporaryDirectory() as t:
        src = os.path.join(t, "p.cpp")
        open(src, "w").write("#include <signals.hpp>\n#include <optional.hpp>\nint f(int a){return a;}\n"
                             "int main(){ sig::signal<int(int)> s; s.connect(&f); return *s(0); }\n")
        return sh(["clang++", "-w", "-std=c++17", "-I" + REPO, src, "-o", os.path.join(t, "p"), "-lpthread"]).returncode == 0


def violation(pid, name, header, tape, out):
    d = os.path.join(VERIF, "replays", pid)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, name)
    with open(path, "w") as f:
        for k, v in header.items():
            f.write("# %s: %s\n" % (k, str(v).replace("\n", " ")))
        f.write("# trace of the minimal case:\n")
        for line in out.splitlines()[-400:]:
            f.write("#   " + line + "\n")
        f.write("# tape (one choice per line):\n")
        for v in tape:
            f.write("%d\n" % v)
    print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)


def write_evidence(pid, c, tier, seed, cov, wall, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    e = {"property": pid, "tier": tier, "seed": seed, "level": c["level"], "coverage": cov,
         "assumptions": c.get("assumptions", []), "wall_s": round(wall, 2), "violations": violations}
    p = os.path.join(VERIF, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(e, f, indent=1)
    os.rename(p + ".tmp", p)


def check(pid):
    c = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vp-%s-" % pid, dir=os.environ.get("VP_TMP"))
    ENV["VERIF_TIER"] = tier
    total = {"evaluations": 0, "labels": {}, "samples": [], "rules": []}
    hashes = set()
    violations = 0
    try:
        for part in c["parts"]:
            hname, profile = part["harness"], part.get("profile", pid)
            try:
                binary = build(hname)
            except BuildError as e:
                log = str(e)
                if not probe_compiles():
                    print("the library itself does not compile:\n" + log[-3000:])
                    return 2
                violations += 1
                errs = [l for l in log.splitlines() if "error" in l][:5]
                violation(pid, "compile-%s.txt" % hname, {"property": pid, "what": "a use of the public interface that this property covers no longer compiles",
                          "errors": " | ".join(errs)}, [], log[:6000])
                print(log[:2000])
                continue
            count, limit = part[tier]
            procs = []
            for k in range(JOBS):
                pre = os.path.join(work, "%s-%s-%d" % (hname, profile, k))
                procs.append((pre, subprocess.Popen([binary, "gen", profile, str(seed), str(k), str(JOBS), str(count), str(limit), pre],
                              stdout=open(pre + ".out", "w"), stderr=subprocess.STDOUT, env=dict(ENV, ASAN_OPTIONS=ASAN[k % 2]))))
            failing = []
            deadline = time.time() + limit + 150
            for pre, p in procs:
                try:
                    rc = p.wait(timeout=max(1, deadline - time.time()))
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    rc = 78
                if rc == 0:
                    j = json.load(open(pre + ".json"))
                    total["evaluations"] += j["evaluations"]
                    for n, (a, b) in j["labels"].items():
                        x = total["labels"].setdefault(n, [0, 0])
                        x[0] += a
                        x[1] += b
                    total["samples"] += [dict(s, profile=profile) for s in j["samples"]]
                    if j["rule"] not in total["rules"]:
                        total["rules"].append(j["rule"])
                    b = open(pre + ".hash", "rb").read()
                    hashes.update((hname + profile, b[i:i + 8]) for i in range(0, len(b), 8))
                elif is_failure(rc):
                    failing.append((pre, rc))
                else:
                    print("harness %s ended with %d:\n%s" % (hname, rc, open(pre + ".out", errors="replace").read()[-2000:]))
                    return 2
            if failing:
                violations += 1
                report(pid, hname, profile, binary, failing, work, seed, tier)
                s = read_status(failing[0][0] + ".status")
                if s:
                    total["evaluations"] += s[0] // JOBS
        cov = {"evaluations": total["evaluations"], "distinct_nontrivial": len(hashes), "rule": " ".join(total["rules"]) or "no complete run",
               "samples": total["samples"][:4], "labels": {n: {"times": v[0], "cases": v[1]} for n, v in sorted(total["labels"].items())}}
        write_evidence(pid, c, tier, seed, cov, time.time() - t0, violations)
        if violations:
            return 1
        print("OK property=%s cases=%d nontrivial=%d wall=%.1fs" % (pid, total["evaluations"], len(hashes), time.time() - t0))
        low = [n for n in c.get("require", []) if total["labels"].get(n, [0, 0])[1] == 0]
        if low:
            print("note: never reached: " + ", ".join(low))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def report(pid, hname, profile, binary, failing, work, seed, tier):
    best = None
    for pre, rc in failing:
        s = read_status(pre + ".status")
        if s and (best is None or len(s[3]) < len(best[2])):
            best = (pre, rc, s[3], s)
    out = open(failing[0][0] + ".out", errors="replace").read()[-3000:]
    if best is None:
        violation(pid, "%s-%s.txt" % (hname, profile), {"property": pid, "harness": hname, "profile": profile, "exit": failing[0][1]}, [], out)
        return
    pre, rc, tape, s = best
    out = open(pre + ".out", errors="replace").read()[-3000:]
    k = int(pre.rsplit("-", 1)[1])
    ENV["ASAN_OPTIONS"] = ASAN[k % 2]
    rc1, o1, m1, _ = run_tape(binary, profile, tape, work)
    header = {"property": pid, "harness": hname, "profile": profile, "seed": seed, "tier": tier, "case": s[0], "memory": "reused" if k % 2 else "kept",
              "replay with": "python3 check.py replay <this file>"}
    if not is_failure(rc1):
        # Depends on earlier cases of the same process: replay by generating again.
        header["note"] = "fails only after the earlier cases of its process"
        header["generate"] = "%s gen %s %d %d %d %d 900 <prefix>" % (hname, profile, seed, k, JOBS, s[0] + 1)
        violation(pid, "%s-%s-%d.tape" % (hname, profile, s[0]), header, tape, s[2] + "\n" + out)
        print(out)
        return
    small = shrink(binary, profile, tape, work)
    rc2, o2, m2, _ = run_tape(binary, profile, small, work, trace=True)
    if not is_failure(rc2):
        small, (rc2, o2, m2, _) = tape, run_tape(binary, profile, tape, work, trace=True)
    again = sum(is_failure(run_tape(binary, profile, small, work)[0]) for _ in range(3))
    header.update({"what": m2 or "exit %d" % rc2, "reproduced": "%d of 3" % again, "choices": "%d (from %d)" % (len(small), len(tape))})
    violation(pid, "%s-%s-%d.tape" % (hname, profile, s[0]), header, small, o2)
    print("%s: %s" % (pid, m2 or o2[-1500:]))


def replay(path):
    h = {}
    for line in open(path, errors="replace"):
        if line.startswith("# ") and ": " in line:
            k, v = line[2:].split(": ", 1)
            h.setdefault(k.strip(), v.strip())
    tape = [int(x) for x in open(path, errors="replace") if x.strip().isdigit()]
    binary = build(h["harness"])
    ENV["VERIF_TIER"] = h.get("tier", "quick")
    ENV["ASAN_OPTIONS"] = ASAN[h.get("memory") == "reused"]
    if "generate" in h:
        with tempfile.TemporaryDirectory() as t:
            r = sh([binary] + h["generate"].replace("<prefix>", os.path.join(t, "g")).split()[1:], env=ENV)
            print(r.stdout[-4000:])
            return 1 if is_failure(r.returncode) else 0
    with tempfile.TemporaryDirectory() as t:
        rc, out, msg, _ = run_tape(binary, h["profile"], tape, t, trace=True)
    print(out)
    return 1 if is_failure(rc) else 0


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "check":
        return check(sys.argv[2])
    if len(sys.argv) >= 2 and sys.argv[1] == "build":
        for n in HARNESSES:
            try:
                print(build(n))
            except BuildError as e:
                print("%s does not build:\n%s" % (n, str(e)[-3000:]))
                return 1
        return 0
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    print(__doc__)
    return 2


sys.exit(main())
