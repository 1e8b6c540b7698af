#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": "Seeded search over interleavings of the real ThreadPool (header) under a simulated pthread layer: a switch may happen at every lock, condition variable, atomic and plain memory access. Trusts the simulator's model of mutexes, condition variables (with spurious wake-ups) and futexes; sequentially consistent memory.",
 "C02": "Both real schedulers over simulated kernel AIO / positioned I/O with partial submission, full queues, reordering, short and failed I/O, interrupted waits. Each callback is matched with its request. Trusts the simulated io_* system calls.",
 "C03": "The real vector over the simulated file system, AIO and threads; every element is compared with a reference model, in the same process and after reopening.",
 "C04": "As C03 with failing and short reads, refused submissions, failing allocations and failing access-mode switches; memory is checked by the simulator's heap (use after free, overflow).",
 "C05": "Power loss and process crashes at seeded I/O events over a file system which loses any subset of unsynced pages; failing, short and refused writes and fsync.",
 "C06": "The real RocksDBCounter and the real RocksDB library run over the simulated file system, threads and clock, with process crashes at seeded I/O events and power loss, failing, short and corrupted I/O; the history of every key, over several incarnations and from several threads, is checked for linearizability against a map.",
 "C07": "As C06 for the key-value and list stores.",
 "C08": "The real graph and pool under seeded interleavings; an independent Edmonds-Karp gives the value of the maximum flow.",
 "C10": "The real builder, allocator, stash and client codecs and the real store, over the simulated file system, kernel AIO and threads: all lists are looked up in another incarnation, synchronously and asynchronously from several threads, with failing reads and writes, and compared with a map; whole scheme databases are decoded by the real client. Ciphers and PRFs are crypto-tk's stand-ins.",
 "C11": "The real cuckoo builder and tables (Oceanus with two page sizes, a generic one) over the simulated file system, kernel AIO and threads: builders moved, interrupted by crashes and power loss or left to their destructor, failing writes; a table which looks committed must contain every inserted pair and no other, through every lookup path, with failing reads and allocations.",
 "C12": "The real Pluto builder, server and client with both block stores (cuckoo table, and RocksDB with both kinds of tables) over the simulated file system and threads: every keyword is searched by the building process or another, after process kills, with failing reads and writes, and the multiset returned is compared with the one inserted.",
 "C13": "The real Sophos client, server, thread pool, counter map, store and RocksDB under seeded interleavings, reopening, process crashes at seeded I/O events and failing writes; every result is compared with the multiset of inserted documents. crypto-tk is absent here: its interface is implemented by a deterministic stand-in with the same algebra (the permutation inverts, tokens are distinct).",
 "C14": "As C13 for Diana, with bulk insertions, deleting searches and keyword removals; positions and thread ids given to callbacks are checked.",
 "C15": "As C13 for Janus against a set per keyword; the stand-in's puncturable encryption decrypts only under a key made of the shares of punctures 1 to n, once each. Reopening and killing between operations.",
 "C18": "The real clients, counter map and RocksDB under seeded interleavings, crashes, reopening and failing I/O; every token given out in any incarnation is compared with all the others and with those derived from earlier search requests, by the code the server would use. The stand-in for crypto-tk has no cryptographic strength: what is decided is that the positions in the chains are never reused or revealed ahead.",
 "C16": "The real client and server programs, with the real scheme, counter map and RocksDB under them, in one process over a simulated gRPC: handler threads, delayed and windowed streams, requests, replies and statuses lost, refused connections, connections lost under a running handler, clean server restarts, process kills and disk errors. Every result is compared with the multiset of acknowledged and possible insertions. gRPC, protobuf and crypto-tk are stand-ins of their interfaces; a kill ends client and server together.",
 "C17": "As C16 for the Diana programs, with insertions and lists of insertions in sessions and bulk loading.",
 "C21": "The real generator under seeded interleavings, with 0 to 16 hardware threads and a simulated random device; every delivered entry is checked against its keyword, and the counts of all families against the number of documents.",
 "C22": "The real main functions of the four programs, run as threads of one simulated process over the simulated gRPC, file system, clock and signals (a signal runs the handler in a thread of its own): client programs one after the other over several lives of a server program; printed results, exit statuses and later searches are compared with what was asked for. gRPC, crypto-tk and the JSON parser are stand-ins; a kill ends client and server together.",
 "C23": "The real logger and Benchmark with the real spdlog and its logging thread under seeded interleavings, simulated clock and files: every message must reach one logger in use at that time, every measure its line, with the time the simulated clock says.",
 "C09": "The real helpers over the simulated tree with failing system calls and concurrent changes; single-name histories are checked for linearizability.",
}
TECH = "deterministic simulation with fault injection (seeded schedules and faults, minimised replay)"
CLAIMED = os.environ.get("CLAIM", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C21 C22 C23").split()
NA = {
 "C19": "The allocation is a pure single-threaded function of its inputs: no scheduling, time, I/O or fault can affect it, so a simulator has nothing to decide; enumerating inputs would be another technique. Its effect on the stored lists is covered by C10.",
 "C20": "Pure in-memory iteration and stream encoding without concurrency, time or faults: there is nothing for a simulator to schedule or inject.",
}
targets = {"core"}
for c in CLAIMED:
    targets.add("kv" if c in ("C06", "C07") else "schemes" if c in ("C10", "C11", "C12", "C13", "C14", "C15", "C18", "C21") else "run" if c in ("C16", "C17") else "programs" if c == "C22" else "core")
m = {
 "version": 1,
 "setup_cmd": "python3 build.py " + " ".join(sorted(targets)),
 "checks": [dict(property=c, quick_cmd="./check %s" % c, thorough_cmd="./check %s thorough" % c,
                 evidence_file="evidence/%s.json" % c, technique=TECH, level="exploration", level_note=NOTE[c]) for c in CLAIMED],
 "not_applicable": [dict(property=c, reason=NA[c]) for c in sorted(NA) if c not in CLAIMED],
 "notes": "No hooks in /repo: the seams are the C library and kernel interfaces, which the simulator defines. Replay: build/sim_<target> --replay FILE --trace.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
