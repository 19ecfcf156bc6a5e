"""Stage /repo's working tree and build the library plus a harness, per instrumentation variant.

Nothing here reads /repo/_build or runs /repo's own build: the m4 pass that /repo/configure makes
is repeated into /verif/build, every object is cached under a hash of what went into it, so a
change to /repo's working tree is always seen, and an unchanged file is not compiled twice.
"""
import hashlib, os, subprocess, sys, glob, shutil, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

COMMON = ["-g", "-fno-omit-frame-pointer", "-fstack-reuse=none", "-DHAVE_CONFIG_H", "-w", "-fPIC"]
VARIANTS = {
    # compiler, compile flags, link flags
    "asan": ("gcc", ["-O1", "-fopenmp", "-fsanitize=address,undefined,float-cast-overflow",
                     "-fno-sanitize-recover=all", "-fno-sanitize=nonnull-attribute,returns-nonnull-attribute",
                     "-fno-sanitize-address-use-after-scope"],
             ["-fopenmp", "-fsanitize=address,undefined"]),
    "plain": ("gcc", ["-O2", "-fopenmp"], ["-fopenmp"]),
    # the OpenMP runtime is /verif/lib/minigomp.c, so that tsan sees every synchronisation
    "tsan": ("gcc", ["-O1", "-fopenmp", "-fsanitize=thread"], ["-fsanitize=thread"]),
}
LIBS = ["-lgsl", "-lgslcblas", "-lsqlite3", "-lpthread", "-lm"]


class BuildError(Exception):
    pass


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        m.update(p + b"\0")
    return m.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def put(path, data):
    """write atomically, only when the content differs"""
    if os.path.exists(path) and rd(path) == data:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=os.path.dirname(path))
    with os.fdopen(fd, "wb") as f:
        f.write(data)
    os.chmod(tmp, 0o644)
    os.rename(tmp, path)


def m4(src):
    prep = os.path.join(REPO, "install/prep_variadics.m4")
    key = h("m4", rd(prep), rd(src))
    out = os.path.join(BUILD, "m4", key)
    if not os.path.exists(out):
        r = subprocess.run(["m4", "-P", "install/prep_variadics.m4", src], cwd=REPO, stdout=subprocess.PIPE)
        if r.returncode:
            raise BuildError("m4 failed on " + src)
        put(out, r.stdout)
    return rd(out)


def stage():
    """returns (include dir, {relative name: absolute staged .c}, header hash)"""
    files = {}
    srcs = sorted(glob.glob(REPO + "/*.c") + glob.glob(REPO + "/*.h") + glob.glob(REPO + "/model/*")
                  + glob.glob(REPO + "/transform/*") + glob.glob(REPO + "/cmd/*.c"))
    with ThreadPoolExecutor(8) as ex:
        def one(p):
            rel = os.path.relpath(p, REPO)
            if not (rel.endswith(".c") or rel.endswith(".h")):
                return None
            if rel.endswith(".m4.c") or rel.endswith(".m4.h"):
                data = m4(p)
                rel = rel.replace(".m4.", ".")
            else:
                data = rd(p)
            if rel == "apop.h":
                data = data.replace(b"@Autoconf_no_atomics@", b"0")
            return rel, data
        for r in ex.map(one, srcs):
            if r:
                files[r[0]] = r[1]
    files["config.h"] = rd(os.path.join(VERIF, "lib/config.h"))
    key = h(*[x for k in sorted(files) for x in (k, files[k])])
    d = os.path.join(BUILD, "stage", key)
    for k, v in files.items():
        put(os.path.join(d, k), v)
    # headers, and the .c files others include: any of them may change what an object is
    hdr = [files[k] for k in sorted(files) if k.endswith(".h") or k in ("apop_db_sqlite.c", "apop_db_mysql.c")]
    cs = [k for k in sorted(files) if k.endswith(".c") and not k.startswith("cmd/")
          and k not in ("apop_db_sqlite.c", "apop_db_mysql.c", "asprintf.c")]
    return d, cs, files, h(*hdr)


def run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(what + "\n" + " ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-3000:])


def build_lib(variant):
    d, cs, files, hh = stage()
    cc, cflags, _ = VARIANTS[variant]
    objs = []

    def one(rel):
        key = h(variant, cc, " ".join(cflags + COMMON), hh, rel, files[rel])
        o = os.path.join(BUILD, "obj", variant, key + ".o")
        if not os.path.exists(o):
            os.makedirs(os.path.dirname(o), exist_ok=True)
            tmp = o + ".%d.tmp.o" % os.getpid()
            run([cc] + COMMON + cflags + ["-I", d, "-c", os.path.join(d, rel), "-o", tmp], "compiling " + rel)
            os.rename(tmp, o)
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, sorted(cs, key=lambda r: -len(files[r]))))
    return d, objs


def build(variant, sources, extra_flags=(), name=None):
    """build the library and link it with the given harness sources; returns the program's path"""
    d, objs = build_lib(variant)
    cc, cflags, lflags = VARIANTS[variant]
    srcs = [os.path.join(VERIF, s) for s in sources]
    if variant == "tsan":
        srcs.append(os.path.join(VERIF, "lib/minigomp.c"))
    hdrs = [rd(x) for x in sorted(glob.glob(VERIF + "/harness/*.h") + glob.glob(VERIF + "/lib/*.h"))]
    key = h(variant, " ".join(cflags + COMMON + list(extra_flags)), *objs, *[rd(s) for s in srcs], d, *hdrs)
    exe = os.path.join(BUILD, "bin", key + "-" + (name or os.path.basename(sources[0]).split(".")[0]))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        hobjs = []
        tmpd = tempfile.mkdtemp(dir=os.path.dirname(exe))
        try:
            def one(s):
                o = os.path.join(tmpd, os.path.basename(s) + ".o")
                fl = list(cflags)
                if s.endswith("minigomp.c"):
                    fl = [f for f in fl if f != "-fopenmp"]
                run([cc] + COMMON + fl + list(extra_flags)
                    + ["-I", d, "-I", VERIF + "/harness", "-c", s, "-o", o], "compiling " + s)
                return o
            with ThreadPoolExecutor(8) as ex:
                hobjs = list(ex.map(one, srcs))
            run([cc] + hobjs + objs + lflags + ["-rdynamic"] + LIBS + ["-o", tmpd + "/exe"], "linking")
            os.rename(tmpd + "/exe", exe)
        finally:
            shutil.rmtree(tmpd, ignore_errors=True)
    return exe


def build_cmds(variant):
    """the command-line programs; {name: path}"""
    d, objs = build_lib(variant)
    out = {}
    for c in sorted(glob.glob(os.path.join(d, "cmd/*.c"))):
        n = os.path.basename(c)[:-2]
        cc, cflags, lflags = VARIANTS[variant]
        key = h(variant, " ".join(cflags + COMMON), *objs, rd(c), d)
        exe = os.path.join(BUILD, "bin", key + "-" + n)
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            tmp = exe + ".%d.tmp" % os.getpid()
            run([cc] + COMMON + cflags + ["-I", d, c] + objs + lflags + LIBS + ["-o", tmp], "building " + n)
            os.rename(tmp, exe)
        out[n] = exe
    return out


if __name__ == "__main__":
    for v in sys.argv[1:] or ["asan"]:
        build_lib(v)
