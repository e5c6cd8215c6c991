#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE] [engine options...]

Builds /repo's libraries (current working tree) and the harness of one property, then runs it.
Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed.
"""
import concurrent.futures, hashlib, os, shutil, subprocess, sys, time, fcntl

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")

COMMON = "-w -Wno-error -O1 -g1 -fno-omit-frame-pointer"
FLAVORS = {
    # bool loads are left alone: json::Traits() leaves skipEmpty uninitialised (see known_findings)
    "asan": COMMON + " -fsanitize=address,undefined -fno-sanitize=vptr,bool -fno-sanitize-recover=all",
    "tsan": COMMON + " -fsanitize=thread",
}
FLAVOR_OF = {"P25": "tsan"}
BASE_LIBS = ["reflect", "reflect_primitives", "reflect_std"]
JSON_CHECKS = {"P%02d" % i for i in (15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 27, 30)}


def files_under(d):
    out = []
    for root, dirs, names in os.walk(d):
        dirs.sort()
        out += [os.path.join(root, n) for n in sorted(names)]
    return out


def digest(paths, *extra):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    for e in extra:
        h.update(e.encode() + b"\0")
    return h.hexdigest()[:16]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def prune(keep):
    """Old build directories are only a cache: keep the most recent few."""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("lib-")]
        ds = sorted((d for d in ds if d != keep and time.time() - os.path.getmtime(d) > 1800), key=os.path.getmtime)
        for d in ds[:-3]:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def libs_of(pid):
    return BASE_LIBS + (["reflect_json"] if pid in JSON_CHECKS else [])


# Generated programs: how many units in each tier. They are compiled without sanitizers, which take long.
PROGRAMS = {"P29": {"quick": 12, "thorough": 40}}
GENFLAGS = "-w -O0 -g0 -fno-omit-frame-pointer".split()


def build(pid, flavor, programs=None):
    """Returns (exe, None) or (None, compiler output) when only the harness fails to build.
    programs: seed and number of units of the generated programs, if there are any."""
    flags = FLAVORS[flavor]
    libs = libs_of(pid)
    key = digest(files_under(os.path.join(REPO, "src")) + [os.path.join(REPO, "CMakeLists.txt")], flags, "v4")
    d = os.path.join(BUILD, "lib-%s-%s" % (flavor, key))
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    prune(d)

    hdir = os.path.join(VERIF, "harness")
    srcs = [f for f in sorted(os.listdir(hdir)) if f.startswith(pid.lower()) and f.endswith(".cpp")]
    if any('"json_' in open(os.path.join(hdir, f)).read() for f in srcs):
        srcs += [f for f in sorted(os.listdir(hdir)) if f.startswith("json_") and f.endswith(".cpp")]
    heads = [os.path.join(hdir, f) for f in sorted(os.listdir(hdir)) if f.endswith(".h")]
    gen = os.path.join(hdir, pid.lower() + ".gen.py")
    hkey = digest([os.path.join(hdir, s) for s in srcs] + heads + ([gen] if programs else []), flags, " ".join(GENFLAGS), str(programs), "v5")
    exe = os.path.join(d, "%s-%s" % (pid, hkey))
    base = ["g++", "-std=c++14", "-DREFLECT_USE_EXCEPTIONS=1", "-I" + REPO + "/src"] + flags.split()

    with open(os.path.join(d, pid + ".lock"), "w") as hlock:
        fcntl.flock(hlock, fcntl.LOCK_EX)
        jobs = []
        pool = concurrent.futures.ThreadPoolExecutor(max(4, os.cpu_count() or 4))
        if not os.path.exists(exe):
            # the objects are compiled while the libraries build
            paths = [(os.path.join(hdir, s), base) for s in srcs]
            if programs:
                gdir = os.path.join(d, "gen-%s-%s" % (pid, hkey))
                os.makedirs(gdir, exist_ok=True)
                subprocess.run([sys.executable, gen, str(programs[0]), str(programs[1]), gdir], check=True)
                gbase = ["g++", "-std=c++14", "-DREFLECT_USE_EXCEPTIONS=1", "-I" + REPO + "/src", "-I" + hdir] + GENFLAGS
                paths += [(os.path.join(gdir, s), gbase) for s in sorted(os.listdir(gdir)) if s.endswith(".cpp")]
            for s, cc in paths:
                o = os.path.join(d, "%s-%s-%s.o" % (pid, os.path.basename(s), hkey))
                jobs.append((pool.submit(run, cc + ["-c", s, "-o", o]), cc, s, o))

        with open(d + "/lock", "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            todo = [t for t in libs if not os.path.exists(d + "/done-" + t)]
            if todo:
                r = None
                if not os.path.exists(d + "/build.ninja"):
                    obj = "<CMAKE_CXX_COMPILER> <DEFINES> <INCLUDES> <FLAGS> %s -o <OBJECT> -c <SOURCE>" % flags
                    san = [f for f in flags.split() if f.startswith("-fsanitize")]
                    r = run(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DUSE_TCMALLOC=OFF", "-DCMAKE_CXX_COMPILER=g++",
                             "-DCMAKE_CXX_FLAGS=-DREFLECT_USE_EXCEPTIONS=1", "-DCMAKE_CXX_COMPILE_OBJECT=" + obj,
                             "-DCMAKE_SHARED_LINKER_FLAGS=" + " ".join(san)])
                if r is None or r.returncode == 0:
                    r = run(["ninja", "-C", d] + todo)
                    if r.returncode != 0:
                        r = run(["ninja", "-C", d, "-j2"] + todo)
                if r.returncode != 0:
                    for j in jobs:
                        j[0].cancel()
                    print(r.stdout[-6000:])
                    print("check.py: /repo does not build")
                    sys.exit(2)
                for t in todo:
                    open(d + "/done-" + t, "w").close()

        if os.path.exists(exe):
            return exe, None
        errors = ""
        done = [(j.result(), cc, s, o) for j, cc, s, o in jobs]
        for r, cc, s, o in done:
            if r.returncode != 0:
                if not errors:
                    r = run(cc + ["-c", s, "-o", o])     # once more, alone: memory may have been short
                if r.returncode != 0:
                    errors += r.stdout
        if errors:
            for _, _, _, o in jobs:
                if os.path.exists(o):
                    os.unlink(o)
            return None, errors
        r = run(base + [o for _, _, _, o in jobs] + ["-o", exe + ".tmp", "-L" + d + "/lib", "-Wl,-rpath," + d + "/lib",
                "-Wl,--no-as-needed"] + ["-l" + t for t in libs] + ["-lpthread", "-ldl"])
        for _, _, _, o in jobs:
            os.unlink(o)
        if r.returncode != 0:
            return None, r.stdout
        os.rename(exe + ".tmp", exe)
    return exe, None


def locales():
    """A directory with a locale that has a decimal comma, made once."""
    d = os.path.join(BUILD, "locale")
    with open(os.path.join(BUILD, "locale.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.isdir(d + "/de_DE.UTF-8") and shutil.which("localedef"):
            shutil.rmtree(d + ".tmp", ignore_errors=True)
            os.makedirs(d + ".tmp")
            subprocess.run(["localedef", "--no-archive", "-i", "de_DE", "-f", "UTF-8", d + ".tmp/de_DE.UTF-8"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.exists(d + ".tmp/de_DE.UTF-8/LC_NUMERIC"):
                os.rename(d + ".tmp", d)
    return d


def main():
    args = sys.argv[1:]
    if not args:
        sys.exit(__doc__)
    pid, args = args[0], args[1:]
    opts = {"--tier": os.environ.get("VERIF_TIER") or "quick", "--seed": os.environ.get("VERIF_SEED") or "1"}
    for i in range(0, len(args) - 1, 2):
        opts[args[i]] = args[i + 1]
    if opts["--tier"] not in ("quick", "thorough"):
        opts["--tier"] = "quick"
    if not opts["--seed"].isdigit():
        opts["--seed"] = str(int(hashlib.sha256(opts["--seed"].encode()).hexdigest()[:8], 16))
    flavor = FLAVOR_OF.get(pid, "asan")
    evidence = os.path.join(VERIF, "evidence", pid + ".json")
    replays = os.path.join(VERIF, "replays")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    os.makedirs(replays, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    if "--replay" not in opts and os.path.exists(evidence):
        os.unlink(evidence)

    programs = None
    if pid in PROGRAMS:
        programs = (int(opts["--seed"]), PROGRAMS[pid][opts["--tier"]])
        if "--replay" in opts:
            for l in open(opts["--replay"]):
                if l.startswith("programs "):
                    programs = tuple(int(x) for x in l.split()[1:3])
        opts["--programs"] = "%d %d" % programs
    exe, err = build(pid, flavor, programs)
    if not exe:
        # The libraries build but code that only uses the public API in the documented way does not.
        path = os.path.join(replays, pid + "-compile.log")
        with open(path, "w") as f:
            f.write(err)
        print(err[-5000:])
        print("%s: the library builds but its documented use no longer compiles" % pid)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if "--build-only" in opts:
        return 0

    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:hard_rss_limit_mb=3000:malloc_context_size=12:detect_stack_use_after_return=1:quarantine_size_mb=16"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0"
    env["LC_ALL"] = "C"
    env["LOCPATH"] = locales()          # see harness/abroad.h
    opts.update({"--id": pid, "--replays": replays, "--known": os.path.join(VERIF, "known_findings")})
    if "--replay" not in opts:
        opts["--evidence"] = evidence
    cmd = [exe]
    for k, v in opts.items():
        cmd += [k, v]
    if flavor == "tsan":
        cmd = ["setarch", os.uname().machine, "-R"] + cmd if shutil.which("setarch") else cmd
    sys.stdout.flush()
    return subprocess.run(cmd, env=env).returncode


if __name__ == "__main__":
    sys.exit(main())
