#!/usr/bin/env python3
"""Builds the harnesses from /repo's working tree and runs the checks.

  run.py setup                 build everything
  run.py check ID              run the check of property ID (VERIF_SEED, VERIF_TIER)
  run.py replay ID FILE        replay a saved failing case
  run.py bin ID                build and print the harness path
"""
import fcntl, glob, hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PREFIX = "/opt/vp/prefix"
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
HARNESS = os.path.join(VERIF, "harness")
JOBS = 8

BASE = ("-DSOFA_PBRPC_ENABLE_DETAILED_LOGGING -DBOOST_BIND_GLOBAL_PLACEHOLDERS "
        "-include /opt/vp/compat.h -w -fPIC -D_GNU_SOURCE -D__STDC_LIMIT_MACROS -DHAVE_SNAPPY "
        "-std=gnu++17 -pipe").split()
VARIANTS = {
    "asan": ["g++", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address"],
    "plain": ["g++", "-O2", "-g1"],
}
LIBS = ("-L%s/lib -lprotobuf -lsnappy -lpthread -lz -lrt" % PREFIX).split()


def log(*a):
    print(*a, file=sys.stderr, flush=True)


_sha = {}


def sha(path):
    if path not in _sha:
        try:
            with open(path, "rb") as f:
                _sha[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _sha[path] = None
    return _sha[path]


class BuildError(Exception):
    pass


def run_cmd(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def gen_protos():
    """pb files of /repo and of the harnesses, generated outside /repo."""
    pb = os.path.join(BUILD, "pb")
    os.makedirs(pb, exist_ok=True)
    protos = sorted(glob.glob(REPO + "/src/sofa/pbrpc/*.proto"))
    own = sorted(glob.glob(HARNESS + "/*.proto"))
    stamp = os.path.join(pb, "stamp.json")
    want = {p: sha(p) for p in protos + own}
    out = [os.path.join(pb, os.path.relpath(p, REPO + "/src"))[:-6] + ".pb.cc" for p in protos]
    own_out = [os.path.join(pb, os.path.basename(p))[:-6] + ".pb.cc" for p in own]
    try:
        have = json.load(open(stamp))
    except Exception:
        have = None
    if have != want or not all(os.path.exists(o) for o in out + own_out):
        for p in protos:
            run_cmd([PREFIX + "/bin/protoc", "--proto_path=" + REPO + "/src", "--proto_path=" + PREFIX + "/include",
                     "--proto_path=/usr/include", "--cpp_out=" + pb, p])
        for p in own:
            run_cmd([PREFIX + "/bin/protoc", "--proto_path=" + HARNESS, "--proto_path=" + REPO + "/src",
                     "--proto_path=" + PREFIX + "/include", "--proto_path=/usr/include", "--cpp_out=" + pb, p])
        json.dump(want, open(stamp, "w"))
        _sha.clear()
    return out, own_out


def includes():
    return ["-I" + os.path.join(BUILD, "pb"), "-I" + REPO + "/src", "-I" + HARNESS, "-I" + PREFIX + "/include", "-I/usr/include"]


def compile_one(src, obj, flags):
    """Compile unless the object is up to date with respect to the content of everything it read."""
    meta = obj + ".json"
    cmd = flags + BASE + includes() + ["-MMD", "-MF", obj + ".d", "-c", src, "-o", obj]
    key = hashlib.sha256(" ".join(cmd).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m["key"] == key and all(sha(p) == h for p, h in m["deps"].items()):
                return False
        except Exception:
            pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    run_cmd(cmd)
    deps = open(obj + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    roots = (REPO + "/", VERIF + "/", "/opt/vp/compat.h", BUILD + "/")
    d = {os.path.realpath(p): sha(os.path.realpath(p)) for p in deps if os.path.realpath(p).startswith(roots)}
    json.dump({"key": key, "deps": d}, open(meta, "w"))
    return True


def lib_sources():
    skip = ("boost_system_error_code.cc",)
    return [s for s in sorted(glob.glob(REPO + "/src/sofa/pbrpc/*.cc"))
            if not s.endswith(".pb.cc") and os.path.basename(s) not in skip]


def build_lib(variant, pool):
    pbs, _ = gen_protos()
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    srcs = lib_sources() + pbs
    objs = [os.path.join(d, "lib", os.path.basename(s)[:-3] + ".o") for s in srcs]
    flags = VARIANTS[variant]
    changed = list(pool.map(lambda so: compile_one(so[0], so[1], flags), zip(srcs, objs)))
    lib = os.path.join(d, "libsofa.a")
    names = os.path.join(d, "libsofa.names")
    listing = "\n".join(objs)
    if any(changed) or not os.path.exists(lib) or not os.path.exists(names) or open(names).read() != listing:
        if os.path.exists(lib):
            os.unlink(lib)
        run_cmd(["ar", "crs", lib] + objs)
        open(names, "w").write(listing)
        return lib, True
    return lib, False


def harness_source(pid):
    m = sorted(glob.glob(os.path.join(HARNESS, pid.lower() + "_*.cc")))
    if len(m) != 1:
        raise BuildError("no single harness for " + pid)
    return m[0]


def directives(src):
    d = {"variant": "asan", "link": [], "extra": []}
    for line in open(src):
        m = re.match(r"//\s*(VARIANT|LINK|EXTRA):\s*(.*)", line)
        if m:
            k, v = m.group(1).lower(), m.group(2).split()
            if k == "variant":
                d[k] = v[0]
            else:
                d[k] += v
        elif line.strip() and not line.startswith("//"):
            break
    return d


def build_harness(pid, libs, pool):
    src = harness_source(pid)
    dr = directives(src)
    variant = dr["variant"]
    if variant not in libs:
        libs[variant] = build_lib(variant, pool)
    lib, lib_changed = libs[variant]
    _, own = gen_protos()
    d = os.path.join(BUILD, variant, "h")
    flags = VARIANTS[variant]
    srcs = [src] + own + [os.path.join(REPO, "src", e) for e in dr["extra"]]
    objs = [os.path.join(d, os.path.basename(s)[:-3] + ".o") for s in srcs]
    changed = list(pool.map(lambda so: compile_one(so[0], so[1], flags), zip(srcs, objs)))
    exe = os.path.join(BUILD, variant, "bin", pid)
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    key = hashlib.sha256((" ".join(objs + dr["link"]) + "".join(str(sha(os.path.realpath(o))) for o in objs) + str(sha(lib))).encode()).hexdigest()
    keyf = exe + ".key"
    if not os.path.exists(exe) or not os.path.exists(keyf) or open(keyf).read() != key:
        tmp = exe + ".tmp%d" % os.getpid()
        run_cmd(flags + ["-o", tmp] + objs + ["-Wl,--start-group", lib, "-Wl,--end-group"] + dr["link"] + LIBS)
        os.replace(tmp, exe)
        open(keyf, "w").write(key)
    return exe


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def manifest_ids():
    return [c["property"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]


def build(ids):
    with Lock(), ThreadPoolExecutor(JOBS) as pool, ThreadPoolExecutor(4) as outer:
        libs = {}
        for pid in ids:      # libraries first, once per variant
            v = directives(harness_source(pid))["variant"]
            if v not in libs:
                libs[v] = build_lib(v, pool)
        # own protos once per variant, before the parallel part
        if len(ids) > 1:
            build_harness(ids[0], libs, pool)
        return dict(zip(ids, outer.map(lambda p: build_harness(p, libs, pool), ids)))


def known_findings(pid):
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4000:handle_abort=1:detect_stack_use_after_return=0"
    e["LC_ALL"] = "C.UTF-8"
    return e


def check(pid):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        exe = build([pid])[pid]
    except BuildError as e:
        log("BUILD ERROR", e)
        return 2
    tb = time.time()
    ev_dir = os.path.join(VERIF, "evidence")
    rep_dir = os.path.join(ev_dir, "replay")
    os.makedirs(rep_dir, exist_ok=True)
    out = os.path.join(BUILD, "out", "%s-%s.json" % (pid, tier))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out):
        os.unlink(out)
    replay = os.path.join(rep_dir, "%s-%s-seed%d.txt" % (pid, tier, seed))
    cmd = [exe, "--seed", str(seed), "--tier", tier, "--out", out, "--replay-out", replay]
    if os.environ.get("VERIF_SCALE"):
        cmd += ["--scale", os.environ["VERIF_SCALE"]]
    p = subprocess.run(cmd, env=env(), cwd=BUILD)
    try:
        r = json.load(open(out))
    except Exception as e:
        log("no result from harness (exit %d): %s" % (p.returncode, e))
        return 2
    c = {"evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"], "rule": r["rule"],
         "samples": r["samples"], "nontrivial": r["nontrivial"], "planned": r["planned"], "discarded": r["discarded"],
         "distribution": r["labels"], "unreproduced_soft_failures": r["unreproduced_soft"],
         "unreproduced_messages": r.get("unreproduced_msgs", []), "build_s": round(tb - t0, 1), "search_s": r["wall_s"]}
    if r["violations"]:
        c["violations"] = r["violations"]
    props = {}
    for line in open(os.path.join(VERIF, "properties.jsonl")):
        if line.strip():
            d = json.loads(line)
            props[d["id"]] = d
    level = "exploration"
    for ch in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
        if ch["property"] == pid:
            level = ch["level"]
    evidence = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": c,
                "assumptions": ["the check sees only the generated cases; absence of violations elsewhere is not established"],
                "wall_s": round(time.time() - t0, 2), "violations": len(r["violations"])}
    json.dump(evidence, open(os.path.join(ev_dir, pid + ".json"), "w"), indent=1)
    for key, text in known_findings(pid):
        # harnesses probe each listed finding and label the probe when it still fails
        if r["labels"].get("known:" + key, 0) > 0:
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
    if r["violations"]:
        v = r["violations"][0]
        log("violation: sub=%s %s\ncase: %s" % (v["sub"], v["msg"], v["case"]))
        print("VIOLATION property=%s replay=%s" % (pid, replay), flush=True)
        return 1
    if p.returncode != 0:
        log("harness error exit %d" % p.returncode)
        return 2
    log("%s %s ok: %d cases, %d distinct non-trivial, build %.1fs search %.1fs" %
        (pid, tier, r["evaluations"], r["distinct_nontrivial"], tb - t0, r["wall_s"]))
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        try:
            build(manifest_ids())
        except BuildError as e:
            log("BUILD ERROR", e)
            return 1
        return 0
    if a[0] == "check":
        return check(a[1])
    if a[0] == "bin":
        try:
            print(build([a[1]])[a[1]])
        except BuildError as e:
            log(str(e))
            return 2
        return 0
    if a[0] == "replay":
        exe = build([a[1]])[a[1]]
        return subprocess.run([exe, "--replay", a[2]], env=env()).returncode
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
