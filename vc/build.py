#!/usr/bin/env python3
"""Builds the simulator binaries from /repo's working tree. Objects are cached by content in /verif/.build."""
import glob, hashlib, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(REPO, "libconcurrent")
OUT = os.path.join(VERIF, ".build")

# Build-time configurations: edits of config.h's switches, plus defines
VARIANTS = {
    "default": dict(),
    "nonuma": dict(off=["SYNCH_NUMA_SUPPORT"]),
    "nocompact": dict(off=["SYNCH_COMPACT_ALLOCATION"]),
    "emulate": dict(on=["SYNCH_EMULATE_FAA", "SYNCH_EMULATE_SWAP"]),
    "norecycle": dict(on=["SYNCH_POOL_NODE_RECYCLING_DISABLE"]),
    "nobackoff": dict(on=["SYNCH_DISABLE_BACKOFF"]),
    "debug": dict(on=["DEBUG"]),
    "smallring": dict(defs=["-DRING_POW=1"]),
    "smallring3": dict(defs=["-DRING_POW=3"]),
    "gcclto": dict(gcc=True),
    "gcclto-nonuma": dict(gcc=True, off=["SYNCH_NUMA_SUPPORT"]),
    "optimized": dict(opt="-O3"),
    "asis": dict(opt="-O0"),
}
TSAN = ("-fsanitize=thread -mllvm -tsan-distinguish-volatile=1 -mllvm -tsan-instrument-func-entry-exit=0 -mllvm -tsan-instrument-read-before-write=1 "
        "-femulated-tls -mno-red-zone -fno-pie -fno-pic -fno-stack-protector -fno-builtin-printf").split()
WARN = ["-w"]
CLANG = "clang"
# libc functions the library calls that the simulator answers (only undefined references are renamed)
INTERCEPT = ("pthread_create pthread_join pthread_detach pthread_self pthread_setconcurrency pthread_yield sched_yield "
             "pthread_setaffinity_np sched_setaffinity sched_getcpu sysconf numa_node_of_cpu numa_num_task_nodes "
             "numa_num_configured_nodes numa_max_node numa_num_configured_cpus numa_num_task_cpus numa_available "
             "numa_alloc_local numa_alloc numa_alloc_onnode numa_alloc_interleaved numa_free malloc calloc realloc free "
             "memalign aligned_alloc posix_memalign munmap clock_gettime fprintf printf vfprintf puts putchar fputs fputc "
             "fwrite fflush perror exit abort").split()
# libc functions that look at the program's memory behind the simulator's back: the thread's store buffer is emptied first
DRAINED = ("getcontext makecontext swapcontext setcontext _setjmp setjmp __sigsetjmp _longjmp longjmp siglongjmp memcmp bcmp memchr "
           "strcmp strncmp strcasecmp strlen strnlen strcpy strncpy strcat strchr strrchr strstr strtok strdup qsort bsearch strtol strtoul strtoll "
           "strtoull strtod __isoc23_strtol __isoc23_strtoul __isoc23_strtoll __isoc23_strtoull atoi atol atoll atof getopt getopt_long snprintf sscanf").split()
# library functions whose calls from other translation units pass through the simulator
HOOKED = "_CAS128 synchResched synchGetMachineModel synchAllocObj synchRecycleObj synchRollback".split()


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stdout.write("build command failed: %s\n%s\n" % (" ".join(cmd), r.stdout))
        raise SystemExit(3)
    return r.stdout


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def config_for(variant):
    v = VARIANTS[variant]
    text = read(os.path.join(LIB, "config.h")).decode()
    for name in v.get("off", []):
        text = re.sub(r"(?m)^[ \t]*#[ \t]*define[ \t]+%s\b.*$" % name, "/* %s off */" % name, text)
    extra = "".join("#ifndef %s\n#define %s\n#endif\n" % (n, n) for n in v.get("on", []))
    if extra:
        text = text.replace("#define _CONFIG_H_", "#define _CONFIG_H_\n" + extra, 1)
    return text


def cached(key, suffix, make):
    """make(tmp_path) creates the file; returns its cached path."""
    path = os.path.join(OUT, "obj", key + suffix)
    if not os.path.exists(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        tmp = "%s.%d.%s" % (path, os.getpid(), os.urandom(3).hex())
        make(tmp)
        os.replace(tmp, path)
    return path


def fix_object(obj):
    """Own sections for writable data (so that the engine can reset it), intercepted calls, hooked functions."""
    args = ["objcopy"]
    for s in (".data", ".bss"):
        args += ["--rename-section", "%s=%s" % (s, "lib" + s[1:])]
    undef = set(l.split()[-1] for l in sh(["nm", "-u", obj]).splitlines() if l.strip())
    for n in INTERCEPT:
        if n in undef:
            args += ["--redefine-sym", "%s=simlib_%s" % (n, n)]
    for n in DRAINED:
        if n in undef:
            args += ["--redefine-sym", "%s=simdrain_%s" % (n, n)]
    for n in HOOKED:
        if n in undef:
            args += ["--redefine-sym", "%s=simhook_%s" % (n, n)]
    sh(args + [obj])


def inc_flags(cfgdir):
    return ["-I" + cfgdir, "-I" + os.path.join(LIB, "includes"), "-I" + LIB]


def headers_blob():
    blob = b""
    for h in sorted(glob.glob(os.path.join(LIB, "**", "*.h"), recursive=True)):
        blob += h.encode() + read(h)
    return blob


def compile_lib(src, variant, cfgdir, hdr, opt):
    defs = VARIANTS[variant].get("defs", [])
    flags = ["-std=gnu89", opt] + TSAN + WARN + defs + ["-D_GNU_SOURCE"]
    key = digest("lib5", read(src), src, hdr, read(os.path.join(cfgdir, "config.h")), flags, INTERCEPT, HOOKED, DRAINED)

    def make(tmp):
        asm = tmp + ".s"
        sh([CLANG, "-S", src, "-o", asm] + flags + inc_flags(cfgdir) + ["-I" + os.path.dirname(src)])
        text = read(asm).decode()
        text = re.sub(r"(?m)^\s*pause\s*$", "\tnop", text)      # 140 cycles each, no effect on the semantics
        text = re.sub(r"(?m)^\s*mfence\s*$", "\tcallq simhook_mfence", text)
        with open(asm, "w") as f:
            f.write(text)
        sh([CLANG, "-c", asm, "-o", tmp])
        os.unlink(asm)
        fix_object(tmp)
    return cached(key, ".o", make)


GCC = ("gcc -std=gnu89 -Ofast -flto -ftree-vectorize -finline-functions -march=native -mtune=native -fsanitize=thread "
       "--param tsan-distinguish-volatile=1 --param tsan-instrument-func-entry-exit=0 -mno-red-zone -fno-stack-protector "
       "-fno-pie -fno-pic -fcf-protection=none -w -D_GNU_SOURCE").split()


def compile_gcc(srcs, variant, cfgdir, hdr):
    """These files as gcc optimises them together (the project's flags), with the accesses that remain instrumented.
    The primitives stay outside (compiled as ever): their calls are what an atomic operation is to the optimiser."""
    key = digest("gcc2", hdr, read(os.path.join(cfgdir, "config.h")), GCC, INTERCEPT, HOOKED, DRAINED, *[x for s in srcs for x in (s, read(s))])

    def make(tmp):
        with tempfile.TemporaryDirectory(dir=OUT) as d:
            def cc(src):
                obj = os.path.join(d, os.path.basename(src) + ".o")
                sh(GCC + ["-c", src, "-o", obj] + inc_flags(cfgdir) + ["-I" + os.path.dirname(src)])
                return obj
            with ThreadPoolExecutor(8) as ex:
                objs = list(ex.map(cc, srcs))
            sh(GCC + ["-r", "-nostdlib", "-flinker-output=nolto-rel"] + objs + ["-o", tmp])
        sh(["objcopy"] + [x for n in ("memcpy", "memset", "memmove") for x in ("--redefine-sym", "%s=__tsan_%s" % (n, n))] + [tmp])
        fix_object(tmp)
    return cached(key, ".o", make)


def compile_scen(src, variant, cfgdir, hdr):
    defs = VARIANTS[variant].get("defs", [])
    flags = ["-std=gnu11", "-fgnu89-inline", "-O1", "-g", "-femulated-tls", "-mno-red-zone", "-fno-pie", "-fno-pic",
             "-Wall", "-Wno-unused", "-Wno-incompatible-pointer-types-discards-qualifiers", "-DVARIANT_" + variant.replace("-", "_"), '-DVARIANT="%s"' % variant, "-D_GNU_SOURCE"] + defs
    if os.path.basename(src).startswith("inst_"):      # for library code that lives in headers
        flags = flags + TSAN
    blob = b"".join(read(h) for h in sorted(glob.glob(os.path.join(VERIF, "scen", "*.h")))) + read(os.path.join(VERIF, "sim", "simapi.h"))
    key = digest("scen1", read(src), src, hdr, blob, read(os.path.join(cfgdir, "config.h")), flags, HOOKED)

    def make(tmp):
        sh([CLANG, "-c", src, "-o", tmp] + flags + inc_flags(cfgdir) + ["-I" + os.path.join(VERIF, "sim"), "-I" + os.path.join(VERIF, "scen")])
        args = ["objcopy"]
        for s in (".data", ".bss"):
            args += ["--rename-section", "%s=%s" % (s, "lib" + s[1:])]
        undef = set(l.split()[-1] for l in sh(["nm", "-u", tmp]).splitlines() if l.strip())
        for n in HOOKED:
            if n in undef and not os.path.basename(src).startswith("hook_"):
                args += ["--redefine-sym", "%s=simhook_%s" % (n, n)]
        sh(args + [tmp])
    return cached(key, ".o", make)


def compile_sim(src):
    blob = read(os.path.join(VERIF, "sim", "simapi.h"))
    flags = ["-std=c++17", "-O2", "-g", "-fno-pie", "-fno-pic", "-w"]
    key = digest("sim1", read(src), blob, flags)
    return cached(key, ".o", lambda tmp: sh(["g++", "-c", src, "-o", tmp] + flags))


def compile_drained():
    text = ".text\n" + "".join(".globl simdrain_%s\n.type simdrain_%s,@function\nsimdrain_%s:\n\tcall simhook_mfence\n\tjmp %s\n" % (n, n, n, n) for n in DRAINED)

    def make(tmp):
        asm = tmp + ".s"
        with open(asm, "w") as f:
            f.write(text)
        sh([CLANG, "-c", asm, "-o", tmp])
        os.unlink(asm)
    return cached(digest("drained1", text), ".o", make)


def build(variant, opt="-O1"):
    """Returns the path of the simulator binary for this variant of /repo's working tree."""
    os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
    cfg = config_for(variant)
    cfgdir = os.path.join(OUT, "cfg", digest(cfg))
    if not os.path.exists(os.path.join(cfgdir, "config.h")):
        os.makedirs(cfgdir, exist_ok=True)
        tmp = os.path.join(cfgdir, "config.h.%d" % os.getpid())
        with open(tmp, "w") as f:
            f.write(cfg)
        os.replace(tmp, os.path.join(cfgdir, "config.h"))
    hdr = headers_blob()
    libs = sorted(glob.glob(os.path.join(LIB, "concurrent", "*.c")) + glob.glob(os.path.join(LIB, "primitives", "*.c")))
    opt = VARIANTS[variant].get("opt", opt)
    together = []
    if VARIANTS[variant].get("gcc"):        # thread-local variables would need the simulator's own handling
        together = [s for s in libs if "/concurrent/" in s and b"__thread" not in read(s)]
        libs = [s for s in libs if s not in together]
    scens = sorted(glob.glob(os.path.join(VERIF, "scen", "*.c")))
    sims = sorted(glob.glob(os.path.join(VERIF, "sim", "*.cpp")))
    with ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(compile_sim, s) for s in sims]
        futs += [ex.submit(compile_lib, s, variant, cfgdir, hdr, opt) for s in libs]
        if together:
            futs.append(ex.submit(compile_gcc, together, variant, cfgdir, hdr))
        futs += [ex.submit(compile_scen, s, variant, cfgdir, hdr) for s in scens]
        futs.append(ex.submit(compile_drained))
        objs = [f.result() for f in futs]
    key = digest("bin1", *objs)
    path = os.path.join(OUT, "bin", "sim-%s-%s" % (variant, key))
    if not os.path.exists(path):
        tmp = "%s.%d" % (path, os.getpid())
        sh(["clang++", "-no-pie", "-o", tmp] + objs + ["-lpthread", "-latomic", "-lm", "-ldl"])
        os.replace(tmp, path)
    return path


NATIVE = {      # the project's own compiler flags
    "native": "gcc -std=gnu89 -Ofast -fPIC -flto -ftree-vectorize -finline-functions -march=native -mtune=native".split(),
    "native-clang": "clang -std=gnu89 -Ofast -fPIC -ftree-vectorize -finline-functions -march=native -mtune=native".split(),
}


def build_native(variant):
    """The library and the native scenarios, compiled and linked as the project's Makefile does."""
    os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
    libs = sorted(glob.glob(os.path.join(LIB, "concurrent", "*.c")) + glob.glob(os.path.join(LIB, "primitives", "*.c")))
    nats = sorted(glob.glob(os.path.join(VERIF, "native", "*.c")))
    blob = headers_blob() + b"".join(read(f) for f in libs + nats + sorted(glob.glob(os.path.join(VERIF, "native", "*.h"))))
    flags = NATIVE[variant] + ["-w"] + inc_flags(LIB)[1:]
    path = os.path.join(OUT, "bin", "nat-%s-%s" % (variant, digest("nat1", blob, flags)))
    if not os.path.exists(path):
        tmp = "%s.%d" % (path, os.getpid())
        with tempfile.TemporaryDirectory(dir=OUT) as d:
            def cc(src):
                obj = os.path.join(d, os.path.basename(src) + ".o")
                fl = flags + (["-std=gnu11", "-fgnu89-inline"] if src in nats else [])
                sh(fl[:1] + ["-c", src, "-o", obj] + fl[1:])
                return obj
            with ThreadPoolExecutor(8) as ex:
                objs = list(ex.map(cc, libs + nats))
            sh(flags + objs + ["-o", tmp, "-lpthread", "-lm", "-lnuma", "-latomic"])
        os.replace(tmp, path)
    return path


def build_any(variant):
    return build_native(variant) if variant in NATIVE else build(variant)


if __name__ == "__main__":
    for v in sys.argv[1:] or list(NATIVE) + list(VARIANTS):
        print(v, build_any(v))
