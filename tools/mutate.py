#!/usr/bin/env python3
"""Mutation testing of the checks: small changes of the natively built sources, in
scratch copies; prints which change no check of the listed properties notices.
usage: mutate.py OUT.jsonl WORKERS SAMPLE SEED [FILE-SUBSTRING]"""
import sys, os, re, json, random, subprocess, shutil, threading, queue
OUT, WORKERS, SAMPLE, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
SUB = sys.argv[5] if len(sys.argv) > 5 else ""
I = "lib/include/sse/schemes/"
FILES = {
 I+"utils/thread_pool.hpp": ["C01"],
 "lib/abstractio/linux_aio_scheduler.cpp": ["C02"],
 "lib/abstractio/thread_pool_aio_scheduler.cpp": ["C02"],
 "lib/abstractio/scheduler.cpp": ["C02"],
 I+"abstractio/awonvm_vector.hpp": ["C03", "C04", "C05"],
 "lib/tethys/tethys_graph.cpp": ["C08"],
 I+"tethys/details/tethys_graph.hpp": ["C08"],
 "lib/utils/utils.cpp": ["C09"],
 "lib/utils/rocksdb_wrapper.cpp": ["C06"],
 I+"utils/rocksdb_wrapper.hpp": ["C07", "C06"],
 I+"tethys/tethys_store.hpp": ["C10"],
 I+"tethys/tethys_store_builder.hpp": ["C10"],
 I+"tethys/tethys_builder.hpp": ["C10"],
 I+"tethys/tethys_client.hpp": ["C10"],
 I+"tethys/encoders/encode_encrypt.hpp": ["C10"],
 I+"tethys/encoders/encode_separate.hpp": ["C10"],
 I+"oceanus/cuckoo.hpp": ["C11"],
 I+"oceanus/oceanus.hpp": ["C11"],
 "lib/oceanus/cuckoo.cpp": ["C11"],
 I+"pluto/pluto_builder.hpp": ["C12"],
 I+"pluto/pluto_client.hpp": ["C12"],
 I+"pluto/pluto_server.hpp": ["C12"],
 I+"pluto/rocksdb_store.hpp": ["C12"],
 "lib/pluto/rocksdb_store.cpp": ["C12"],
 "lib/sophos/sophos_client.cpp": ["C13", "C18"],
 "lib/sophos/sophos_server.cpp": ["C13", "C16"],
 I+"diana/diana_client.hpp": ["C14", "C18"],
 I+"diana/diana_server.hpp": ["C14", "C17"],
 "lib/janus/janus_client.cpp": ["C15"],
 "lib/janus/janus_server.cpp": ["C15"],
 "lib/sophos/sophos_client_runner.cpp": ["C16"],
 "lib/sophos/sophos_server_runner.cpp": ["C16"],
 "lib/diana/client_runner.cpp": ["C17"],
 "lib/diana/server_runner.cpp": ["C17"],
 "lib/utils/db_generator.cpp": ["C21"],
 "src/diana_client.cpp": ["C22"], "src/sophos_client.cpp": ["C22"],
 "src/diana_server.cpp": ["C22"], "src/sophos_server.cpp": ["C22"],
}
OPS = [(r"(?<![<\-=!>+*/&|])<(?![<=])\s", "<= "), (r"<=", "<"), (r"(?<![->=])>(?![>=])\s", ">= "), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
       (r"&&", "||"), (r"\|\|", "&&"), (r"\+ 1\b", "+ 0"), (r"- 1\b", "- 0"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"notify_all", "notify_one"), (r"\+\+", "--"), (r"\+=", "-="), (r"\b0\b", "1"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"),
       (r"if \((?!constexpr)", "if (!("), (r" \* ", " / "), (r" / ", " * "), (r" % ", " / "), (r" \+ ", " - "), (r" - ", " + ")]
def mutants(path):
    s = open("/repo/" + path).read().split("\n")
    r = []
    depth_cmt = False
    for i, l in enumerate(s):
        t = l.strip()
        if t.startswith(("//", "*", "#", "/*", "using", "namespace", "template", "static_assert", "logger", "assert", "EXPECT")) or not t: continue
        if "logger" in l or "throw " in l: continue
        for pat, rep in OPS:
            for m in re.finditer(pat, l):
                if rep == "if (!(":
                    # negate a condition on one line
                    if not t.endswith(") {"): continue
                    n = l[:m.start()] + "if (!(" + l[m.end():].rstrip()[:-3] + ")) {"
                else:
                    n = l[:m.start()] + rep + l[m.end():]
                r.append((i, n))
        if t.endswith(";") and not re.match(r"(return|\w[\w:<>,\s\*&]*\s+\w+(\s*=.*|\(.*\))?;|\}|const|auto|std::|public|typedef)", t) and t.count("(") == t.count(")"):
            r.append((i, re.sub(r"\S.*", ";", l)))
        elif re.match(r"std::(lock_guard|unique_lock)<.*;", t):
            r.append((i, re.sub(r"\S.*", ";", l)))
    return [(path, i, n) for i, n in r]
allm = []
for f in FILES:
    if SUB in f: allm += mutants(f)
random.Random(SEED).shuffle(allm)
allm = allm[:SAMPLE]
print(len(allm), "mutants", flush=True)
q = queue.Queue()
for m in allm: q.put(m)
lock = threading.Lock()
stats = {}
def work(k):
    base = "/tmp/mut/w%d" % k
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.run(["cp", "-a", "/repo", base + "/repo"], check=True)
    subprocess.run(["git", "clone", "-q", "/verif", base + "/verif"], check=True)
    env = dict(os.environ, VERIF_REPO=base + "/repo", VERIF_MAX_SECONDS="120", VERIF_JOBS="2", VERIF_SEED="1")
    while True:
        try: path, i, n = q.get_nowait()
        except queue.Empty: return
        p = base + "/repo/" + path
        src = open(p).read()
        L = src.split("\n")
        old = L[i]
        L[i] = n
        open(p, "w").write("\n".join(L))
        res = {}
        killed = None
        for c in FILES[path]:
            r = subprocess.run(["timeout", "400", "./check", c], cwd=base + "/verif", env=env, capture_output=True, text=True)
            res[c] = r.returncode
            if r.returncode == 1: killed = c; break
            if r.returncode == 2 and "build failed" in r.stderr: killed = "build"; break
            if r.returncode not in (0, 1): killed = "rc%d" % r.returncode; break
        open(p, "w").write(src)
        os.utime(p)
        with lock:
            open(OUT, "a").write(json.dumps(dict(file=path, line=i + 1, old=old.strip(), new=n.strip(), res=res, killed=killed)) + "\n")
ts = [threading.Thread(target=work, args=(k,)) for k in range(WORKERS)]
for t in ts: t.start()
for t in ts: t.join()
for k in range(WORKERS): shutil.rmtree("/tmp/mut/w%d" % k, ignore_errors=True)
