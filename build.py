#!/usr/bin/env python3
"""Builds the simulated executables from /repo's working tree into /verif/build.

usage: build.py TARGET...      (core kv schemes run programs)

Sources of /repo and the scenarios are compiled with -fsanitize=thread only to
get a call before each memory access and atomic operation: the executables are
linked without the sanitizer's library, sim/tsan_rt.cpp provides the calls."""
import glob, hashlib, json, os, subprocess, sys, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")

def sources(pats, root):
    r = []
    for p in pats:
        r += sorted(glob.glob(os.path.join(root, p), recursive=True))
    return r

NATIVE = ["lib/utils/*.cpp", "lib/abstractio/*.cpp", "lib/tethys/*.cpp"]
NEEDS_CRYPTO_STUB = {"lib/utils/db_generator.cpp"}
TARGETS = {
    "core": dict(repo=NATIVE, scen=["scen/core/*.cpp"], flags=[], extra=[]),
    "kv": dict(repo=["lib/utils/*.cpp"], scen=["scen/kv/*.cpp"], flags=[], extra=[]),
    "schemes": dict(
        repo=NATIVE + ["lib/sophos/*.cpp", "lib/diana/*.cpp", "lib/janus/*.cpp", "lib/oceanus/*.cpp", "lib/pluto/*.cpp"],
        drop=["_runner", "_client_runner", "_server_runner", "protobuf", "_service", "_net_types"],
        scen=["scen/schemes/*.cpp"], plain=["stubs/*.cpp"], flags=["-I" + VERIF + "/stubs/include"], extra=[],
        ld="-Wl,--wrap=_ZN3sse10abstractio26make_default_aio_schedulerEm"),
    "run": dict(
        repo=NATIVE + ["lib/sophos/*.cpp", "lib/diana/*.cpp"],
        drop=["db_generator"], scen=["scen/run/*.cpp", "stubs/grpc/*.cpp"], plain=["stubs/*.cpp"],
        flags=["-I" + VERIF + "/stubs/include", "-I" + OUT + "/gen", "-I" + REPO + "/lib/include/sse/runners"], extra=["proto"]),
    "programs": dict(
        repo=NATIVE + ["lib/sophos/*.cpp", "lib/diana/*.cpp"], mains=["src/*.cpp"],
        scen=["scen/programs/*.cpp", "stubs/grpc/*.cpp"], plain=["stubs/*.cpp"],
        flags=["-I" + VERIF + "/stubs/include", "-I" + OUT + "/gen", "-I" + REPO + "/lib/include/sse/runners"], extra=["proto"]),
}

def guard_stale():
    """Ninja goes by modification times. If a file's content changed without a
    newer time, start over."""
    cur = {}
    for base, _, files in [x for d in ("/lib", "/src") for x in os.walk(REPO + d)]:
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as h:
                cur[p] = [os.stat(p).st_mtime_ns, hashlib.sha256(h.read()).hexdigest()]
    stamp = OUT + "/stamp.json"
    old = {}
    try:
        old = json.load(open(stamp))
    except Exception:
        pass
    bad = [p for p in cur if p in old and old[p][1] != cur[p][1] and cur[p][0] <= old[p][0]]
    bad += [p for p in old if p not in cur]
    if bad and os.path.isdir(OUT):
        shutil.rmtree(OUT)
    os.makedirs(OUT, exist_ok=True)
    json.dump(cur, open(stamp, "w"))

def main():
    want = sys.argv[1:] or ["core"]
    guard_stale()
    inc = OUT + "/include/sse"
    os.makedirs(inc, exist_ok=True)
    conf = open(REPO + "/lib/include/sse/configure.hpp.in").read()
    conf = conf.replace("#cmakedefine HAS_LIBAIO", "#define HAS_LIBAIO").replace("#cmakedefine01 HAS_LIBAIO", "#define HAS_LIBAIO 1")
    import re
    conf = re.sub(r"#cmakedefine (\w+)", r"/* #undef \1 */", conf)
    dst = inc + "/configure.hpp"
    if not os.path.exists(dst) or open(dst).read() != conf:
        open(dst, "w").write(conf)

    L = []
    w = L.append
    w("ninja_required_version = 1.5")
    base = "-std=gnu++17 -g1 -pipe -fno-omit-frame-pointer -Wno-deprecated-declarations -pthread"
    w("cxxsim = g++ -fno-threadsafe-statics %s -O2 -Wall -Wno-unused-result -fno-builtin -fno-stack-protector -fno-delete-null-pointer-checks -Wno-nonnull-compare -I%s/sim" % (base, VERIF))
    w("cxxapp = g++ %s -O1 -w -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -Dnew_table_reader_for_compaction_inputs=is_fd_close_on_exec -DSPDLOG_SHARED_LIB -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL" % base)
    w("incs = -I%s/include -I%s/include/sse -I%s/lib/include -I%s/lib -I%s/lib/include/sse/schemes -I%s/sim -I%s/scen" % (OUT, OUT, REPO, REPO, REPO, VERIF, VERIF))
    w("rule sim\n command = $cxxsim -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = SIM $out")
    w("rule app\n command = $cxxapp $xflags $incs -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = APP $out")
    # a program's main() under another name, everything else it defines hidden
    w("rule prog\n command = $cxxapp $xflags $incs -MMD -MF $out.d -c $in -o $out.0 && nm $out.0 | awk '$$2 ~ /^[A-UX-Z]$$/ && $$2 != \"U\" && $$3 !~ /_main/ {print $$3} END {print \"-none-\"}' > $out.syms && objcopy --localize-symbols=$out.syms $out.0 $out\n depfile = $out.d\n deps = gcc\n description = PROG $out")
    wraps = " ".join("-Wl,--wrap=_ZNSt8__detail15_List_node_base" + x for x in ("7_M_hookEPS0_", "9_M_unhookEv", "11_M_transferEPS0_S1_"))
    w("rule link\n command = g++ -rdynamic -no-pie %s -o $out $in -lrocksdb -lspdlog -lfmt $libs -ldl -lpthread\n description = LINK $out" % wraps)
    w("rule protoc\n command = protoc --proto_path=%s/lib/protos --cpp_out=%s/gen $in\n description = PROTO $in" % (REPO, OUT))
    # The simulator's template instantiations must not be merged with the
    # instrumented ones: its weak symbols are made local.
    w("rule simlink\n command = ld -r --force-group-allocation -o $out.0 $in && nm $out.0 | awk '$$2 ~ /^[WVu]$$/ {print $$3}' > $out.syms && objcopy --localize-symbols=$out.syms $out.0 $out\n description = SIMLINK $out")
    hooks = "%s/o/sim/list_hooks.o" % OUT
    w("build %s: app %s/sim/app/list_hooks.cpp" % (hooks, VERIF))
    simobjs = []
    for s in sorted(glob.glob(VERIF + "/sim/*.cpp")):
        o = "%s/o/sim/%s.o" % (OUT, os.path.basename(s)[:-4])
        w("build %s: sim %s" % (o, s)); simobjs.append(o)
    w("build %s/o/simall.o: simlink %s" % (OUT, " ".join(simobjs)))
    simobjs = ["%s/o/simall.o" % OUT, hooks]
    for t in TARGETS:
        if t not in want:
            continue
        d = TARGETS[t]
        objs = []
        order = ""
        libs = ""
        gen = []
        if "proto" in d["extra"]:
            os.makedirs(OUT + "/gen", exist_ok=True)
            for p in sorted(glob.glob(REPO + "/lib/protos/*.proto")):
                b = os.path.basename(p)[:-6]
                if b not in seen:
                    w("build %s/gen/%s.pb.cc %s/gen/%s.pb.h: protoc %s" % (OUT, b, OUT, b, p))
                seen.add(b)
                gen.append("%s/gen/%s.pb.h" % (OUT, b))
                o = "%s/o/%s/gen/%s.o" % (OUT, t, b)
                w("build %s: app %s/gen/%s.pb.cc\n xflags = %s" % (o, OUT, b, " ".join(d["flags"])))
                objs.append(o)
            order = " || " + " ".join(gen)
            libs = "-lprotobuf"
        libs = (libs + " " + d.get("ld", "")).strip()
        for s in sources(d["repo"], REPO):
            rel = os.path.relpath(s, REPO)
            if any(x in os.path.basename(rel) for x in d.get("drop", [])):
                continue
            if rel in NEEDS_CRYPTO_STUB and t in ("core", "kv"):
                continue
            share = "app" if rel.split("/")[1] in ("utils", "abstractio", "tethys") and t in ("core", "kv") else t
            o = "%s/o/%s/%s.o" % (OUT, share, rel.replace("/", "_")[:-4])
            w.__call__("build %s: app %s%s\n xflags = %s" % (o, s, order, " ".join(d["flags"]))) if (o not in seen) else None
            seen.add(o)
            objs.append(o)
        for s in sources(d.get("mains", []), REPO):
            b = os.path.basename(s)[:-4]
            o = "%s/o/%s/src_%s.o" % (OUT, t, b)
            w("build %s: prog %s%s\n xflags = %s -Dmain=%s_main" % (o, s, order, " ".join(d["flags"]), b))
            objs.append(o)
        for s in sources(d["scen"], VERIF):
            rel = os.path.relpath(s, VERIF)
            o = "%s/o/%s/%s.o" % (OUT, t, rel.replace("/", "_")[:-4])
            w("build %s: app %s%s\n xflags = %s" % (o, s, order, " ".join(d["flags"])))
            objs.append(o)
        for s in sources(d.get("plain", []), VERIF):
            o = "%s/o/sim/%s.o" % (OUT, os.path.relpath(s, VERIF).replace("/", "_")[:-4])
            if o not in seen:
                w("build %s: sim %s" % (o, s))
            seen.add(o)
            objs.append(o)
        w("build %s/sim_%s: link %s %s\n libs = %s" % (OUT, t, " ".join(objs), " ".join(simobjs), libs))
    txt = "\n".join(L) + "\n"
    nf = OUT + "/build-%s.ninja" % "-".join(want)
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, "w").write(txt)
    r = subprocess.run(["ninja", "-C", OUT, "-f", nf] + ["%s/sim_%s" % (OUT, t) for t in want],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-12000:])
        sys.exit(2)
    elif "-v" in os.environ.get("BUILD", ""):
        print(r.stdout)

seen = set()
if __name__ == "__main__":
    main()
