"""Builds, from /repo's current sources, (1) the symbolic program of a harness and (2) its native replay program."""
import concurrent.futures as cf
import glob
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LL = "/usr/lib/llvm-18/bin/"
CQ = "/opt/vp/include/concurrentqueue"

SYM = ("-std=c++17 -O1 -Xclang -disable-llvm-passes -fno-vectorize -fno-slp-vectorize -include %s/shim/pre.h "
       "-D_GLIBCXX_ASSERTIONS -DNDEBUG -DSY_SYMBOLIC -I%s/shim -I%s/shim/cq/concurrentqueue -I%s/engine -I%s/harness "
       "-I%s/src -w -emit-llvm -c" % (V, V, V, V, V, REPO)).split()
NAT = ("-std=c++17 -O0 -w -D_GLIBCXX_ASSERTIONS -DNDEBUG -I%s -I%s/engine -I%s/harness -I%s/src -c"
       % (CQ, V, V, REPO)).split()
LIBS = ["-lboost_filesystem", "-lboost_serialization", "-lboost_regex", "-lpthread", "-ldl", "-ldocopt"]
OWN = ("driver", "zone-file-parser", "label-graph", "interpretation-graph")  # translation units compiled alone


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd)[:300], p.stdout.decode(errors="replace")[-4000:]))
    return p.stdout.decode(errors="replace")


def groups(work):
    """The repository's translation units; small ones are compiled together."""
    own, rest = [], []
    for f in sorted(glob.glob(REPO + "/src/*.cpp")):
        (own if os.path.basename(f)[:-4] in OWN else rest).append(f)
    g = [(os.path.basename(f)[:-4].replace("-", "_"), [f]) for f in own]
    half = [r for r in rest if os.path.basename(r) in ("properties.cpp", "zone-graph.cpp")]
    other = [r for r in rest if r not in half]
    for n, fs in (("unity1", half), ("unity2", other)):
        if fs:
            g.append((n, fs))
    return g


def compile_group(cc, flags, name, files, out, ext):
    """Returns the outputs.  A unity file that does not compile is compiled file by file."""
    if len(files) == 1:
        o = "%s/%s.%s" % (out, name, ext)
        sh([cc] + flags + [files[0], "-o", o])
        return [o]
    u = "%s/%s.cpp" % (out, name)
    with open(u, "w") as f:
        for x in files:
            f.write('#include "%s"\n' % x)
    o = "%s/%s.%s" % (out, name, ext)
    try:
        sh([cc] + flags + [u, "-o", o])
        return [o]
    except BuildError:
        r = []
        for i, x in enumerate(files):
            o = "%s/%s_%d.%s" % (out, name, i, ext)
            sh([cc] + flags + [x, "-o", o])
            r.append(o)
        return r


def build(work, harness, defs, want_native=True, race=False):
    """harness: path of a .cpp; returns (futures) dict with 'sym' path ready and 'native' future."""
    sym, nat = work + "/sym", work + "/nat"
    os.makedirs(sym, exist_ok=True)
    os.makedirs(nat, exist_ok=True)
    ex = cf.ThreadPoolExecutor(max_workers=12)
    D = ["-D" + d for d in defs]
    plug = sym + "/SymPass.so"
    RACE = {"SYM_RACE": "1"} if race else {}  # report every memory access to the race detector

    def plugin():
        fl = sh(["llvm-config-18", "--cxxflags"]).split()
        fl = [f for f in fl if not f.startswith("-O")]
        sh(["clang++", "-O1", "-fPIC", "-shared"] + fl + ["-w", "-o", plug, V + "/engine/SymPass.cpp"])

    def rt():
        sh(["clang++", "-std=c++17", "-O2", "-w", "-c", V + "/engine/rt.cpp", "-o", sym + "/rt.o"])

    def opt1(bc):
        o = bc[:-3] + ".o1.bc"
        sh([LL + "opt", "-load-pass-plugin=" + plug, "-passes=sym-early,default<O1>", "-vectorize-loops=false",
            "-vectorize-slp=false", bc, "-o", o], env=RACE)
        return o

    fp = ex.submit(plugin)
    fr = ex.submit(rt)
    fronts = []
    for name, files in groups(work):
        fronts.append(ex.submit(compile_group, "clang++", SYM, name, files, sym, "bc"))
    fronts.append(ex.submit(compile_group, "clang++", SYM + D, "harness", [harness], sym, "bc"))
    fronts.append(ex.submit(compile_group, "clang++", SYM, "models", [V + "/engine/models.cpp"], sym, "bc"))
    natf = []
    if want_native:
        for name, files in groups(work):
            natf.append(ex.submit(compile_group, "clang++", NAT, name, files, nat, "o"))
        natf.append(ex.submit(compile_group, "clang++", NAT + D, "harness", [harness], nat, "o"))
        natf.append(ex.submit(compile_group, "clang++", NAT, "native", [V + "/engine/native.cpp"], nat, "o"))
    fp.result()
    # optimise each unit as soon as it is there
    opts = []
    for f in fronts:
        for bc in f.result():
            opts.append(ex.submit(opt1, bc))
    bcs = [o.result() for o in opts]
    sh([LL + "llvm-link", "-o", sym + "/all.bc"] + bcs)
    keep = "sy_harness,__sy_model_*,main,__m_*"
    sh([LL + "opt", "-load-pass-plugin=" + plug, "-passes=internalize,globaldce,sym",
        "-internalize-public-api-list=" + keep, sym + "/all.bc", "-o", sym + "/sym.bc"],
       env=dict(RACE, SYM_EXT=sym + "/ext.txt"))
    n = 8
    sh([LL + "llvm-split", "-j", str(n), "-o", sym + "/part", sym + "/sym.bc"])
    objs = list(ex.map(lambda i: (sh([LL + "llc", "-O0", "-filetype=obj", "-relocation-model=pic", sym + "/part%d" % i,
                                      "-o", sym + "/part%d.o" % i]), sym + "/part%d.o" % i)[1], range(n)))
    fr.result()
    sh(["clang++"] + objs + [sym + "/rt.o", "-o", sym + "/prog", "-rdynamic", "-lz3"] + LIBS)

    def link_native():
        o = []
        for f in natf:
            o += f.result()
        sh(["clang++"] + o + ["-o", nat + "/prog", "-lspdlog", "-lfmt"] + LIBS)
        return nat + "/prog"

    return sym + "/prog", (ex.submit(link_native) if want_native else None), sym + "/ext.txt"


def build_native(work, harness, defs):
    nat = work + "/nat"
    os.makedirs(nat, exist_ok=True)
    D = ["-D" + d for d in defs]
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        natf = [ex.submit(compile_group, "clang++", NAT, n, f, nat, "o") for n, f in groups(work)]
        natf.append(ex.submit(compile_group, "clang++", NAT + D, "harness", [harness], nat, "o"))
        natf.append(ex.submit(compile_group, "clang++", NAT, "native", [V + "/engine/native.cpp"], nat, "o"))
        o = []
        for f in natf:
            o += f.result()
    sh(["clang++"] + o + ["-o", nat + "/prog", "-lspdlog", "-lfmt"] + LIBS)
    return nat + "/prog"
