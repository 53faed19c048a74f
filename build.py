#!/usr/bin/env python3
"""Builds the library variants and the per-property simulators from /repo's working tree.

Everything goes to a scratch build directory (default /verif/build, ignored by git), keyed by a hash of the
inputs, so an unchanged input is not rebuilt. Nothing is written under /repo."""
import hashlib, os, re, subprocess, sys, threading, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CRY_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
CC, CXX = "clang", "clang++"
JOBS = os.cpu_count() or 4

REDEF = {s: "sim_" + s for s in ("malloc", "calloc", "realloc", "free", "strdup", "strndup", "reallocarray",
                                 "aligned_alloc", "posix_memalign")}

VARIANTS = {
    # default configuration, as shipped (config/config.mk)
    "def": dict(add=[], cov="trace-pc-guard"),
    # tiny digits and library assertions on: carry/threshold logic at small sizes
    "dbg": dict(add=["CRY_MPI_DEBUG_CONF", "CRY_ASSERT_CHECK"], cov="trace-pc-guard"),
    # the other algorithms of config/config.mk: binary inverse, small division, baseline multiplier only, windowed EC multiplication
    "alt": dict(add=["CRY_MPI_DIV_SMALL"], rm=["CRY_MPI_INV_EUCLID", "CRY_MPI_MUL_COMBA", "CRY_MPI_MUL_KARATSUBA", "CRY_MPI_MUL_TOOM3", "CRY_ECP_MUL_SLIDING_WIN"], cov="trace-pc-guard"),
    "altd": dict(add=["CRY_MPI_DIV_SMALL", "CRY_MPI_DEBUG_CONF", "CRY_ASSERT_CHECK"], rm=["CRY_MPI_INV_EUCLID", "CRY_MPI_MUL_COMBA", "CRY_MPI_MUL_KARATSUBA", "CRY_MPI_MUL_TOOM3", "CRY_ECP_MUL_SLIDING_WIN"], cov="trace-pc-guard"),
    # double-and-add EC multiplication, comba with x86-64 assembly, library assertions on
    "asm": dict(add=["CRY_ARCH_X86_64", "CRY_ASSERT_CHECK"], rm=["CRY_MPI_MUL_KARATSUBA", "CRY_ECP_MUL_SLIDING_WIN", "CRY_ECP_MUL_WIN"], cov="trace-pc-guard"),
    # preemption possible at every basic block and every load/store; not optimised, as shipped (CRY_DEBUG=y), so that no access is merged away
    "thr": dict(add=[], cov="trace-pc-guard,trace-loads,trace-stores", opt="-O0"),
    # no instrumentation, full speed: messages long enough to carry length counters over 32 bits
    "big": dict(add=[], cov=None, plain=True),
}

class BuildError(Exception):
    pass

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout

def config_defs():
    """The configuration the project's Makefile would generate: X=y -> #define X, X=v -> #define X v."""
    out = []
    for line in open(os.path.join(REPO, "config/config.mk")):
        m = re.match(r"\s*(CRY_\w+)\s*=\s*(\S+)\s*$", line)
        if m:
            out.append((m.group(1), "" if m.group(2) == "y" else m.group(2)))
    return out

def sources():
    """Object list of the project, from its own subdir.mk files."""
    res = []
    def visit(d):
        mk = os.path.join(REPO, d, "subdir.mk")
        if not os.path.exists(mk):
            return
        txt = open(mk).read().replace("\\\n", " ")
        for m in re.finditer(r"^\s*objects-y\s*[:+]?=\s*(.*)$", txt, re.M):
            for o in m.group(1).split():
                if o.endswith(".o"):
                    res.append(os.path.join(d, o[:-2] + ".c"))
        for m in re.finditer(r"^\s*subdirs-y\s*[:+]?=\s*(.*)$", txt, re.M):
            for s in m.group(1).split():
                visit(os.path.join(d, s))
    visit("src")
    return [s for s in dict.fromkeys(res) if os.path.exists(os.path.join(REPO, s))]

def h(*parts):
    x = hashlib.sha256()
    for p in parts:
        x.update(p if isinstance(p, bytes) else str(p).encode())
        x.update(b"\0")
    return x.hexdigest()[:20]

_hdr = None
def headers_hash():
    global _hdr
    if _hdr is None:
        x = []
        for top in ("include", "src"):
            for r, d, fs in os.walk(os.path.join(REPO, top)):
                d.sort()
                for f in sorted(fs):
                    if f.endswith((".h", ".inc", ".def")) and f != "config.h":
                        p = os.path.join(r, f)
                        x.append(os.path.relpath(p, REPO)); x.append(open(p, "rb").read())
        x.append(open(os.path.join(REPO, "config/config.mk"), "rb").read())
        _hdr = h(*x)
    return _hdr

def overlay(variant):
    d = os.path.join(BUILD, "cfg-" + variant)
    os.makedirs(os.path.join(d, "cry"), exist_ok=True)
    defs = [d for d in config_defs() if d[0] not in VARIANTS[variant].get("rm", ())]
    txt = "/* generated */\n" + "".join("#define %s %s\n" % kv for kv in defs)
    have = dict(defs)
    txt += "".join("#define %s\n" % a for a in VARIANTS[variant]["add"] if a not in have)
    p = os.path.join(d, "cry", "config.h")
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)
    return d

def compile_lib(variant, src):
    v = VARIANTS[variant]
    path = os.path.join(REPO, src)
    flags = ["-std=gnu11", v.get("opt", "-O1"), "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-fno-builtin-malloc", "-fno-builtin-calloc",
             "-fno-builtin-realloc", "-fno-builtin-free", "-fno-common", "-w", "-fsanitize-coverage=%s" % v["cov"],
             "-fno-sanitize-address-use-odr-indicator"]
    if v.get("plain"):
        flags = ["-std=gnu11", "-O2", "-g1", "-fno-builtin-malloc", "-fno-builtin-calloc", "-fno-builtin-realloc", "-fno-builtin-free", "-fno-common", "-w"]
    name = src.replace("/", "_")[:-2]
    key = h(open(path, "rb").read(), headers_hash(), flags, v["add"], v.get("rm", ""), sorted(REDEF.items()), src, "v3")
    o = os.path.join(BUILD, "obj", "%s-%s-%s.o" % (variant, name, key))
    if not os.path.exists(o):
        tmp = o + ".tmp%d-%d" % (os.getpid(), threading.get_ident())
        run([CC, "-c", *flags, "-I" + overlay(variant), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), path, "-o", tmp])
        redef = dict(REDEF)
        if not src.startswith("src/prng/"):
            redef["cry_prng_aes_rand"] = "sim_prng_rand"
        args = []
        for a, b in redef.items():
            args += ["--redefine-sym", a + "=" + b]
        run(["objcopy", *args, tmp])
        os.rename(tmp, o)
    return o

def compile_harness(variant, src):
    path = os.path.join(HERE, "sim", src)
    deps = [open(os.path.join(HERE, "sim", f), "rb").read() for f in sorted(os.listdir(os.path.join(HERE, "sim"))) if f.endswith(".h")]
    core = src == "sim.cc"
    flags = ["-std=c++20", "-O2", "-g1", "-w", "-fno-omit-frame-pointer", "-DVARIANT_" + variant]
    if core: flags.pop()
    key = h(open(path, "rb").read(), *deps, flags, "" if core else headers_hash(), variant if not core else "")
    o = os.path.join(BUILD, "obj", "h-%s-%s-%s.o" % ("core" if core else variant, src[:-3], key))
    if not os.path.exists(o):
        tmp = o + ".tmp%d-%d" % (os.getpid(), threading.get_ident())
        run([CXX, "-c", *flags, "-I" + os.path.join(HERE, "sim"), "-I" + overlay(variant), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), path, "-o", tmp])
        os.rename(tmp, o)
    return o

def build(prop, variants, extra=()):
    """Returns {variant: path of simulator binary}."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    for v in variants:
        overlay(v)
    headers_hash()
    srcs = sources()
    res = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        hs = {v: [ex.submit(compile_harness, v, s) for s in ("p_%s.cc" % prop.lower(), "sim.cc") + tuple(extra)] for v in variants}
        ls = {v: [ex.submit(compile_lib, v, s) for s in srcs] for v in variants}
        for v in variants:
            objs = [f.result() for f in hs[v]] + [f.result() for f in ls[v]]
            exe = os.path.join(BUILD, "%s-%s-%s" % (prop.lower(), v, h(*objs)))
            if not os.path.exists(exe):
                tmp = exe + ".tmp%d-%d" % (os.getpid(), threading.get_ident())
                run([CXX, "-fsanitize=address", "-g1", "-o", tmp, *objs, "-lpthread"])
                os.rename(tmp, exe)
            res[v] = exe
    return res

if __name__ == "__main__":
    if sys.argv[1] == "all":
        from props import PROPS
        for p, c in PROPS.items():
            build(p, list(c["variants"]), c.get("extra", ()))
    else:
        print(build(sys.argv[1], sys.argv[2].split(",")))
