#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS BREAKS FILE OLD NEW [FILE OLD NEW ...]  -- writes seeded/ID/{patch.diff,meta.json} from an edit of /repo (undone)."""
import sys, subprocess, json, os
id_, prop, needs, breaks, *rest = sys.argv[1:]
d = "/verif/seeded/" + id_
os.makedirs(d, exist_ok=True)
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "--untracked-files=no"], capture_output=True, text=True).stdout
try:
    for i in range(0, len(rest), 3):
        p = "/repo/" + rest[i]
        s = open(p).read()
        assert s.count(rest[i+1]) == 1, (rest[i], s.count(rest[i+1]), rest[i+1])
        open(p, "w").write(s.replace(rest[i+1], rest[i+2]))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print(diff)
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
