#!/usr/bin/env python3
"""Builds one harness from /repo's current working tree and runs one check.

usage: check.py PROPERTY [--tier quick|thorough] [--replay FILE]
"""
import fcntl
import glob
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
LIB_DIRS = ["base", "eval", "indicators", "logging", "traders", "util"]

# harness -> parts (source, build variant) and the CLI binaries it needs
HARNESS = {
    "account": dict(parts=[("h_account", "plain")]),
    "exec": dict(parts=[("h_exec", "plain")]),
    "eval": dict(parts=[("h_eval", "plain")]),
    "batch": dict(parts=[("h_batch", "instr"), ("h_race", "tsan")]),
    "data": dict(parts=[("h_data", "asan")]),
    "listed": dict(parts=[("h_data", "asan"), ("h_cli", "plain")], bins=["convert"]),
    "proto": dict(parts=[("h_proto", "plain")]),
    "cli": dict(parts=[("h_cli", "plain")], bins=["convert", "trader"]),
    "ind": dict(parts=[("h_ind", "plain")]),
    "traders": dict(parts=[("h_traders", "plain")]),
    "misc": dict(parts=[("h_misc", "plain")]),
    "safety": dict(parts=[(h, "safe") for h in ["h_account", "h_exec", "h_eval", "h_data", "h_proto",
                                                "h_cli", "h_ind", "h_traders", "h_misc"]],
                   bins=["convert", "trader"]),
}
# variant -> (flags for the sources of /repo, flags for everything, link flags)
# Variables that are read before they are set hold a garbage pattern everywhere
# (on the heap as well, by MALLOC_PERTURB_), not whatever was there before.
VARIANT = {
    "plain": ([], ["-ftrivial-auto-var-init=pattern"], []),
    "asan": ([], ["-D_GLIBCXX_SANITIZE_VECTOR", "-ftrivial-auto-var-init=pattern", "-fsanitize=address", "-fno-omit-frame-pointer"], ["-fsanitize=address"]),
    # Invalid memory accesses and undefined arithmetic.
    "safe": ([], ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr",
                  "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
                  "-D_GLIBCXX_SANITIZE_VECTOR",  # also between size and capacity
                  "-ftrivial-auto-var-init=pattern"], ["-fsanitize=address,undefined"]),
    "tsan": ([], ["-ftrivial-auto-var-init=pattern", "-fsanitize=thread", "-fno-omit-frame-pointer"], ["-fsanitize=thread"]),
    "instr": (["-finstrument-functions",
               "-finstrument-functions-exclude-file-list=/usr/,.pb."],
              ["-ftrivial-auto-var-init=pattern"], []),
}


def load_checks():
    with open(os.path.join(VERIF, "checks.json")) as f:
        return json.load(f)


def pkgconfig():
    mods = []
    for m in ["protobuf", "zlib", "absl_flags", "absl_flags_parse", "absl_memory",
              "absl_status", "absl_statusor", "absl_strings", "absl_str_format",
              "absl_time", "absl_civil_time"]:
        if subprocess.run(["pkg-config", "--exists", m]).returncode == 0:
            mods.append(m)
    cflags = subprocess.run(["pkg-config", "--cflags"] + mods, capture_output=True,
                            text=True, check=True).stdout.split()
    libs = subprocess.run(["pkg-config", "--libs"] + mods, capture_output=True,
                          text=True, check=True).stdout.split()
    return cflags, libs


def sources(include_tests=False):
    out = []
    for d in LIB_DIRS:
        for p in sorted(glob.glob(os.path.join(REPO, d, "**", "*.cc"), recursive=True)):
            b = os.path.basename(p)
            if b.endswith("_test.cc") or b.endswith("test_util.cc") or "benchmark" in b:
                continue
            out.append(p)
    return out


def protos():
    out = []
    for d in LIB_DIRS:
        out += sorted(glob.glob(os.path.join(REPO, d, "**", "*.proto"), recursive=True))
    return out


def build_variant(variant, targets):
    """Builds the targets of one variant and returns its build directory."""
    repo_flags, all_flags, link_flags = VARIANT[variant]
    bdir = os.path.join(BUILD, variant)
    os.makedirs(bdir, exist_ok=True)
    lock = open(os.path.join(bdir, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    cflags, libs = pkgconfig()
    # Same code generation as the repository's own build, with assertions on and
    # the standard library's precondition checks.
    flags = ["-std=c++17", "-O1", "-g1", "-w", "-DHAVE_ZLIB", "-D_GLIBCXX_ASSERTIONS",
             "-pthread", "-I" + REPO, "-Igen", "-I" + os.path.join(VERIF, "harness")]
    lines = ["ninja_required_version = 1.3",
             "cxxflags = " + " ".join(flags + all_flags + cflags),
             "libs = " + " ".join(libs + link_flags) + " -pthread",
             "rule protoc",
             "  command = protoc -I%s --cpp_out=gen $in" % REPO,
             "rule cxx",
             "  command = g++ $cxxflags $extra -MMD -MF $out.d -c $in -o $out",
             "  depfile = $out.d",
             "  deps = gcc",
             "rule ar",
             "  command = rm -f $out && ar rcs $out $in",
             "rule link",
             "  command = g++ -o $out $in $libs", ""]
    pb_headers, objs = [], []
    for p in protos():
        rel = os.path.relpath(p, REPO)[:-len(".proto")]
        lines.append("build gen/%s.pb.cc gen/%s.pb.h: protoc %s" % (rel, rel, p))
        pb_headers.append("gen/%s.pb.h" % rel)
    hdr = " ".join(pb_headers)

    def cxx(src, obj, extra=()):
        lines.append("build %s: cxx %s || %s" % (obj, src, hdr))
        if extra:
            lines.append("  extra = " + " ".join(extra))

    for p in protos():
        rel = os.path.relpath(p, REPO)[:-len(".proto")]
        obj = "obj/%s.pb.o" % rel
        cxx("gen/%s.pb.cc" % rel, obj)
        objs.append(obj)
    for p in sources():
        obj = "obj/%s.o" % os.path.relpath(p, REPO)[:-3]
        cxx(p, obj, repo_flags)
        objs.append(obj)
    lines.append("build libtrader.a: ar " + " ".join(objs))
    cxx(os.path.join(VERIF, "harness", "mc.cc"), "obj/h/mc.o")
    for s, v in sorted({part for hh in HARNESS.values() for part in hh["parts"]}):
        src = os.path.join(VERIF, "harness", s + ".cc")
        if v != variant or not os.path.exists(src):
            continue
        o = "obj/h/%s.o" % s
        cxx(src, o)
        lines.append("build bin/%s: link %s obj/h/mc.o libtrader.a" % (s, o))
    for b in ["convert", "trader"]:
        cxx(os.path.join(REPO, b + ".cc"), "obj/cli/%s.o" % b, repo_flags)
        lines.append("build bin/%s: link obj/cli/%s.o libtrader.a" % (b, b))
    text = "\n".join(lines) + "\n"
    nf = os.path.join(bdir, "build.ninja")
    if not os.path.exists(nf) or open(nf).read() != text:
        with open(nf, "w") as f:
            f.write(text)
    r = subprocess.run(["ninja", "-C", bdir, "-j", str(os.cpu_count() or 8)] + targets,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        sys.stderr.write("\nbuild of the harness failed\n")
        sys.exit(3)
    return bdir


def build(name):
    """Builds all parts of a harness; returns [(binary, build directory)]."""
    h = HARNESS[name]
    out = []
    for s, v in h["parts"]:
        bdir = build_variant(v, ["bin/" + s] + ["bin/" + b for b in h.get("bins", []) if s == "h_cli"])
        out.append((os.path.join(bdir, "bin", s), bdir))
    return out


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                out.append(line[len("finding: "):])
    return out


def tsan_command(binary, cmd, env):
    """ThreadSanitizer needs a predictable address space layout."""
    for prefix in ([], ["setarch", "-R"]):
        r = subprocess.run(prefix + [binary, "--list"], env=env, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL)
        if r.returncode == 0:
            return prefix + cmd, ""
    return None, "ThreadSanitizer cannot start here: its spaces were skipped"


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    if "--replay" in args:
        i = args.index("--replay")
        replay = args[i + 1]
        del args[i:i + 2]
    extra = []
    if "--space" in args:
        i = args.index("--space")
        extra = args[i:i + 2]
        del args[i:i + 2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    checks = load_checks()
    if args and args[0] == "--build-all":
        for n in HARNESS:
            if all(os.path.exists(os.path.join(VERIF, "harness", s + ".cc"))
                   for s, _ in HARNESS[n]["parts"]):
                build(n)
        return 0
    prop = args[0]
    spec = checks[prop]
    t0 = time.time()
    parts = build(spec["harness"])
    t_build = time.time() - t0
    env = dict(os.environ)
    env.update(LC_ALL="C.UTF-8", TZ="UTC",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:"
                            "detect_stack_use_after_return=1:exitcode=99",
               UBSAN_OPTIONS="print_stacktrace=0:exitcode=99",
               TSAN_OPTIONS="halt_on_error=1:exitcode=66:die_after_fork=0:report_bugs=1")
    env["MALLOC_PERTURB_"] = "90"
    if "safety" in spec:
        env["MC_SAFETY"] = "1"
    if replay:
        for binary, bdir in parts:
            env["MC_BIN_DIR"] = os.path.join(bdir, "bin")
            rc = subprocess.run([binary, "--replay", replay], env=env).returncode
            if rc != 2:
                return rc
        return 2
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    rc, res, notes = 0, {"spaces": [], "violations": 0}, []
    for binary, bdir in parts:
        out = os.path.join(bdir, "out-%s.json" % prop)
        if os.path.exists(out):
            os.unlink(out)
        env["MC_BIN_DIR"] = os.path.join(bdir, "bin")
        # The thorough tier of M01 runs more spaces, with the bounds of the quick one.
        cmd = [binary, "--prop", prop, "--tier", "quick" if "safety" in spec else tier, "--out", out, "--replay-dir", rdir] + extra
        if "safety" in spec:
            cmd += ["--safety", ",".join(spec["safety"] if tier == "quick" else
                                         spec["safety_thorough"])]
        if bdir.endswith("tsan"):
            cmd, why = tsan_command(binary, cmd, env)
            if cmd is None:
                notes.append(why)
                sys.stderr.write(why + "\n")
                continue
        c = subprocess.run(cmd, env=env).returncode
        if not os.path.exists(out):
            sys.stderr.write("the harness did not finish (exit %d)\n" % c)
            return 3
        if c == 2 and extra:  # the space is in another part
            continue
        r = json.load(open(out))
        res["spaces"] += r["spaces"]
        res["violations"] += r["violations"]
        rc = max(rc, c)
        if rc == 1 and tier == "quick":
            break
    sp = res["spaces"]
    samples = [s for x in sp for s in x["samples"]][:8]
    level = spec["level"]
    ex = sum(x["executions"] for x in sp)
    cov = {}
    if level == "model_checking":
        cov["states"] = sum(x["states"] for x in sp)
        cov["transitions"] = sum(x["transitions"] for x in sp)
        cov["traces_validated_against_impl"] = ex
    else:
        cov["evaluations"] = ex
        cov["distinct_nontrivial"] = sum(x["states"] for x in sp)
        cov["rule"] = spec["rule"]
    cov["samples"] = samples or ["(violation found before sampling)"]
    cov["exhaustive"] = all(x["complete"] and not x["table_overflow"] for x in sp)
    cov["spaces"] = [{k: v for k, v in x.items() if k != "samples"} for x in sp]
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
          "level": level, "coverage": cov, "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 3), "violations": res["violations"]}
    ev["assumptions"] += notes
    ev["coverage"]["build_s"] = round(t_build, 3)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in known_findings(prop):
        print("KNOWN-FINDING: " + k)
    if rc == 0:
        print("OK property=%s tier=%s executions=%d states=%d transitions=%d wall=%.1fs (build %.1fs)" % (
            prop, tier, ex, sum(x["states"] for x in sp), sum(x["transitions"] for x in sp),
            time.time() - t0, t_build))
    return rc


if __name__ == "__main__":
    sys.exit(main())
