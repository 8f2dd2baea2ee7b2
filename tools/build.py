"""Builds the library from /repo's working tree, and the harnesses, into /verif/build.

Objects are cached by content (flags + source + every header), never by time stamps, so a change
anywhere in /repo is always seen and an unchanged tree costs nothing."""
import fcntl, glob, hashlib, json, os, shlex, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OBJ = os.path.join(BUILD, "obj")
BIN = os.path.join(BUILD, "bin")
HARN = os.path.join(VERIF, "harness")

CXX, CC = "clang++", "clang"
ASAN = ["-fsanitize=address", "-fsanitize=bounds,return,unreachable,bool,enum",
        "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
FLAVOURS = {
    "asan": ["-O1", "-g1", "-ftrivial-auto-var-init=pattern"] + ASAN,
    "fuzz": ["-O1", "-g1", "-ftrivial-auto-var-init=pattern", "-fsanitize=fuzzer-no-link"] + ASAN,
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
    "plain": ["-O1", "-g1"],
}
LINK = {
    "asan": ASAN, "fuzz": ASAN + ["-fsanitize=fuzzer"], "tsan": ["-fsanitize=thread"], "plain": [],
}


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_files(*roots, exts=None):
    out = []
    for r in roots:
        for d, dn, fn in os.walk(r):
            dn.sort()
            for f in sorted(fn):
                if exts is None or os.path.splitext(f)[1] in exts:
                    out.append(os.path.join(d, f))
    return out


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace")
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def configure():
    """cmake configure (outside /repo); returns (library compile entries, varsh compile entries, cfg dir)."""
    cml = [p for p in tree_files(REPO, exts={".txt", ".in", ".cmake"})
           if "/_build/" not in p and "/.git/" not in p]
    names = [os.path.relpath(p, REPO) for p in tree_files(os.path.join(REPO, "src"), os.path.join(REPO, "lib"))]
    key = sha(REPO, *[os.path.relpath(p, REPO) for p in cml], *[read(p) for p in cml], *names)[:24]
    cfg = os.path.join(BUILD, "cfg", key)
    cc = os.path.join(cfg, "compile_commands.json")
    if not os.path.exists(os.path.join(cfg, "ok")):
        shutil.rmtree(cfg, ignore_errors=True)
        os.makedirs(cfg)
        env_cc = ["-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++"]
        run(["cmake", "-S", REPO, "-B", cfg, "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON",
             "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_C_FLAGS_RELWITHDEBINFO=-O2 -g",
             "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2 -g", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
             "-DLIBVARIANT_BUILD_TESTS=OFF", "-DLIBVARIANT_BUILD_EXAMPLES=OFF",
             "-DLIBVARIANT_ENABLE_YAML=ON", "-DLIBVARIANT_ENABLE_XML=ON", "-DLIBVARIANT_ENABLE_CURL=ON",
             "-DLIBVARIANT_ENABLE_MSGPACK=OFF"] + env_cc)
        open(os.path.join(cfg, "ok"), "w").close()
    lib, varsh = [], []
    for e in json.load(open(cc)):
        args = shlex.split(e["command"]) if "command" in e else e["arguments"]
        out = args[args.index("-o") + 1]
        keep, i = [], 1
        while i < len(args):
            a = args[i]
            if a in ("-o", "-c"):
                i += 2 if a == "-o" else 1
                continue
            if a == "-isystem" or a == "-include":
                keep += [a, args[i + 1]]
                i += 2
                continue
            if a.startswith(("-I", "-D", "-std=", "-U")):
                keep.append(a)
            i += 1
        ent = (os.path.normpath(os.path.join(e["directory"], e["file"])), keep)
        if "varsh.dir" in out:
            varsh.append(ent)
        elif "Variant.dir" in out:
            lib.append(ent)
    lib.sort()
    varsh.sort()
    return lib, varsh, cfg


_hdr = {}


def header_hash(cfg):
    if cfg not in _hdr:
        hs = tree_files(os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(REPO, "lib"),
                        exts={".h", ".hh", ".hpp", ".inc", ".ipp", ".def", ""})
        hs += tree_files(os.path.join(cfg, "include"))
        _hdr[cfg] = sha(*[p.replace(cfg, "") for p in hs], *[read(p) for p in hs])
    return _hdr[cfg]


def compile_obj(src, flags, hdr, extra=b""):
    cc = CC if src.endswith(".c") else CXX
    std = [] if (src.endswith(".c") or any(f.startswith("-std=") for f in flags)) else ["-std=gnu++17"]
    key = sha(cc, " ".join(flags + std), src, read(src), hdr, extra)[:32]
    o = os.path.join(OBJ, key + ".o")
    if not os.path.exists(o):
        tmp = o + ".%d.tmp" % os.getpid()
        run([cc] + flags + std + ["-w", "-c", src, "-o", tmp])
        os.replace(tmp, o)
    else:
        os.utime(o)
    return o


# flags a library source may carry; -std is left to the compiler default like the real build
def lib_objects(flavour, pool):
    lib, varsh, cfg = configure()
    hdr = header_hash(cfg)
    fl = FLAVOURS[flavour]
    futs = [pool.submit(compile_obj, s, fl + k, hdr) for s, k in lib]
    return futs, lib, varsh, cfg, hdr


def tool_obj(o):
    """The command line tool's object with its main renamed, to be run inside a harness."""
    out = o[:-2] + ".tool.o"
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        run(["objcopy", "--redefine-sym", "main=varsh_main", o, tmp])
        os.replace(tmp, out)
    else:
        os.utime(out)
    return out


HARNESS = {}  # filled by registry


def harness_hash():
    hs = tree_files(HARN, exts={".h"})
    return sha(*[read(p) for p in hs])


def build_harness(names, flavour="asan", extra_link=(), want_varsh=()):
    """names: list of (binary name, [harness sources], [extra link flags]); want_varsh: names that also get
    the command line tool's objects. Returns {name: path}."""
    os.makedirs(OBJ, exist_ok=True)
    os.makedirs(BIN, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        with ThreadPoolExecutor(os.cpu_count() or 4) as pool:
            futs, lib, varsh, cfg, hdr = lib_objects(flavour, pool)
            inc = sorted({f for _, k in lib for f in k if f.startswith("-I") or f.startswith("-D")})
            inc += ["-I" + os.path.join(REPO, "src"), "-I" + HARN]
            hh = harness_hash()
            srcs = sorted({s for _, ss, _ in names for s in ss})
            ofut = {s: pool.submit(compile_obj, os.path.join(HARN, s), FLAVOURS[flavour] + inc, hdr,
                                   hh.encode()) for s in srcs}
            vfut = [pool.submit(compile_obj, s, FLAVOURS[flavour] + k, hdr) for s, k in varsh] if want_varsh else []
            libobjs = [f.result() for f in futs]
            objs = {s: f.result() for s, f in ofut.items()}
            vobjs = [tool_obj(f.result()) for f in vfut]
            libs = ["-lyaml", "-lxml2", "-lcurl", "-lpthread"]
            key = sha(*libobjs)[:32]
            ar = os.path.join(OBJ, key + ".a")
            if not os.path.exists(ar):
                tmp = ar + ".%d.tmp" % os.getpid()
                if os.path.exists(tmp):
                    os.unlink(tmp)
                run(["ar", "rcs", tmp] + libobjs)
                os.replace(tmp, ar)
            else:
                os.utime(ar)

            def link(name, os_, extra):
                k = sha(name, flavour, " ".join(os_), key, " ".join(extra))[:24]
                out = os.path.join(BIN, "%s-%s" % (name, k))
                if not os.path.exists(out):
                    tmp = out + ".%d.tmp" % os.getpid()
                    run([CXX] + LINK[flavour] + os_ + [ar] + libs + list(extra) + ["-o", tmp])
                    os.replace(tmp, out)
                else:
                    os.utime(out)
                return out
            lf = {n: pool.submit(link, n, [objs[s] for s in ss] + (vobjs if n in want_varsh else []),
                                 list(ex) + list(extra_link)) for n, ss, ex in names}
            res = {n: f.result() for n, f in lf.items()}
            prune()
            return res
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def prune():
    """Keep the cache bounded: drop the oldest files above the limit."""
    for d, limit in ((OBJ, 1500 << 20), (BIN, 2500 << 20)):
        fs = [(os.stat(p).st_mtime, os.stat(p).st_size, p) for p in glob.glob(os.path.join(d, "*"))]
        tot = sum(s for _, s, _ in fs)
        for m, s, p in sorted(fs):
            if tot <= limit:
                break
            try:
                os.unlink(p)
                tot -= s
            except OSError:
                pass
