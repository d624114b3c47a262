"""Builds what a check needs from the current tree: engine, standard-library image, bitcode and native replay programs.

Everything goes to /verif/build/<key>, where key is a hash of the sources; nothing is written into /repo."""
import signal, lzma
import fcntl, hashlib, os, shutil, subprocess, sys, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NSYM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18/bin"
CL = ["clang", "-std=gnu99", "-O1", "-gline-tables-only", "-D_GNU_SOURCE", "-D__NO_CTYPE", "-fwrapv", "-fno-strict-aliasing", "-fno-vectorize",
      "-fno-slp-vectorize", "-w", "-emit-llvm", "-c"]
SRC_DIRS = ["lib", "bin", "stdlib", "stdlib_modules", "binlib", "bootstrap", "mk", "third-party", "tools"]
SRC_FILES = ["GNUmakefile", "Makefile"]


class BuildError(Exception):
    pass


def run(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-4000:]))
    return p.stdout.decode(errors="replace")


def walk(base, dirs, files=()):
    for d in dirs:
        for r, ds, fs in os.walk(os.path.join(base, d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".o", ".no", ".d", ".deps", ".wo", ".obj")):
                    continue
                yield os.path.join(r, f)
    for f in files:
        p = os.path.join(base, f)
        if os.path.exists(p):
            yield p


def hash_files(paths, base):
    h = hashlib.sha256()
    for p in paths:
        try:
            with open(p, "rb") as f:
                h.update(os.path.relpath(p, base).encode() + b"\0" + hashlib.sha256(f.read()).digest())
        except (FileNotFoundError, OSError):
            pass
    return h.hexdigest()


def engine(log):
    os.makedirs(BUILD, exist_ok=True)
    key = hash_files(list(walk(VERIF, ["engine"])), VERIF)[:16]
    d = os.path.join(BUILD, "engine-" + key)
    exe = os.path.join(d, "nsym")
    if not os.path.exists(exe):
        log("building the engine")
        run(["make", "-j4", "-C", os.path.join(VERIF, "engine"), "OUT=" + d])
        for o in os.listdir(BUILD):
            if o.startswith("engine-") and o != "engine-" + key:
                shutil.rmtree(os.path.join(BUILD, o), ignore_errors=True)
    return exe


def program(log, fallback=False):
    """Returns the directory with prog.bc, replay (plain) and replay-asan.
    fallback: with the compiled standard library of an earlier build, for trees that write an image they can't read."""
    key = hash_files(list(walk(REPO, SRC_DIRS, SRC_FILES)), REPO)[:16] + hash_files(list(walk(VERIF, ["harness"])), VERIF)[:8] + ("f" if fallback else "")
    d = os.path.join(BUILD, "p-" + key)
    if os.path.exists(os.path.join(d, "ok")):
        os.utime(d)  # the ones used last are kept
        return d
    log("building the project and the harness")
    shutil.rmtree(d, ignore_errors=True)
    t = os.path.join(d, "src")
    os.makedirs(t)
    for p in walk(REPO, SRC_DIRS, SRC_FILES):
        q = os.path.join(t, os.path.relpath(p, REPO))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        if os.path.islink(p) and not os.path.exists(p):
            continue
        shutil.copy(p, q)
    os.makedirs(os.path.join(t, "tmp"), exist_ok=True)
    env = dict(os.environ, HOME="/root", LC_ALL="C.UTF-8")
    # a process group of its own: a standard library compiler that never ends must not outlive this
    mk = subprocess.Popen(["make", "-j8", "--eval=.DELETE_ON_ERROR:", "CC=gcc", "WARNINGS=-w", "future-nujel"], cwd=t, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, env=env, start_new_session=True)
    try:
        mk_out, mk_rc = mk.communicate(timeout=240)[0].decode(errors="replace"), mk.returncode
    except subprocess.TimeoutExpired:
        os.killpg(mk.pid, signal.SIGKILL)
        mk_out, mk_rc = mk.communicate()[0].decode(errors="replace") + "\n(no end after 240 s)", 1
    failed = mk_rc or not os.path.exists(os.path.join(t, "tmp/image.c"))
    if fallback or (failed and os.path.exists(os.path.join(t, "nujel"))):
        # The C code compiles, but can't compile the standard library (it crashes or throws): decide the properties of that code
        # with the standard library of an earlier build
        if not fallback:
            log("the project compiles but fails to compile its standard library, using harness/stdlib.nuji.xz:\n" + mk_out[-600:])
        with open(os.path.join(t, "tmp/image.c"), "w") as f:
            b = lzma.open(os.path.join(VERIF, "harness/stdlib.nuji.xz")).read()
            f.write("unsigned long long int bootstrap_image_len = %d;\nunsigned char bootstrap_image[] = {%s};\n" % (len(b), ",".join(map(str, b))))
    elif failed:
        raise BuildError("the project does not build:\n" + mk_out[-4000:])
    srcs = sorted([os.path.join("lib", f) for f in os.listdir(os.path.join(t, "lib")) if f.endswith(".c")] +
                  [os.path.join("bin", f) for f in os.listdir(os.path.join(t, "bin")) if f.endswith(".c") and f != "main.c"]) + ["tmp/image.c"]
    hd = os.path.join(VERIF, "harness")
    shutil.copytree(hd, os.path.join(t, "harness"))
    hs = sorted(f for f in os.listdir(hd) if f.endswith(".c"))
    os.makedirs(os.path.join(d, "bc"))
    os.makedirs(os.path.join(d, "on"))
    os.makedirs(os.path.join(d, "oa"))
    inc = ["-I", "lib", "-I", "bin", "-I", "harness"]
    jobs, bcs, on, oa = [], [], [], []

    def name(s):
        return s.replace("/", "_")[:-2]
    IO = "--wrap=fread,--wrap=fwrite,--wrap=ferror,--wrap=fclose"
    G = ["gcc", "-std=gnu99", "-D_GNU_SOURCE", "-w", "-g"]
    for s in srcs + ["harness/" + h for h in hs]:
        # harness/tu_NAME.c includes a source of the project with other parameters: only the function tu_NAME stays visible
        tu = s.startswith("harness/tu_")

        def native(c, o):
            return [c + ["-o", o]] + ([["objcopy", "--keep-global-symbol=" + os.path.basename(s)[:-2], o]] if tu else [])
        # calls from other files reach the versions in harness/boot.c first
        x = {"lib/garbage-collection.c": ["-DlGarbageCollect=lGarbageCollectReal"], "lib/symbol.c": ["-DlSymS=lSymSReal"]}.get(s, [])
        if not s.endswith("symrt.c"):
            o = os.path.join(d, "bc", name(s) + ".bc")
            bcs.append(o)
            jobs.append([CL + inc + (["-fno-builtin"] if s.endswith("guestlibc.c") else []) + x + [s, "-o", o]] +
                        ([[LLVM + "/opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + os.path.basename(s)[:-2], o, "-o", o]] if tu else []))
        if not s.endswith("guestlibc.c"):
            o = os.path.join(d, "on", name(s) + ".o")
            on.append(o)
            jobs.append(native(G + ["-O2", "-c"] + x + inc + [s], o))
            o = os.path.join(d, "oa", name(s) + ".o")
            oa.append(o)
            jobs.append(native(G + ["-O1", "-fwrapv", "-fsanitize=address", "-c"] + x + inc + [s], o))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda cs: [run(c, cwd=t) for c in cs], jobs))
    with cf.ThreadPoolExecutor(3) as ex:
        list(ex.map(run, [[LLVM + "/llvm-link", "-o", os.path.join(d, "prog.bc")] + bcs,
                          ["gcc", "-Wl,--wrap=malloc,--wrap=realloc," + IO, "-o", os.path.join(d, "replay")] + on + ["-lm"],
                          ["gcc", "-fsanitize=address", "-Wl," + IO, "-o", os.path.join(d, "replay-asan")] + oa + ["-lm"]]))
    for x in ("bc", "on", "oa", "src"):
        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
    open(os.path.join(d, "ok"), "w").close()
    keep = sorted((os.path.getmtime(os.path.join(BUILD, o)), o) for o in os.listdir(BUILD) if o.startswith("p-"))
    for _, o in keep[:-12]:
        shutil.rmtree(os.path.join(BUILD, o), ignore_errors=True)
    return d


def build(log=lambda s: None, fallback=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return engine(log), program(log, fallback)


if __name__ == "__main__":
    print(*build(lambda s: print("#", s, file=sys.stderr)))
