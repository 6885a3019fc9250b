"""rewrites the "fixed" list of known_findings.json from the fix: commits of /repo"""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "ab5ec1f"
PROP = """a3ea908 C17 fd51369 C17 c1fffd3 C10 7fe242e C05 829eae8 C08 48e8d9d C08 d2b27e0 C08 70036f9 C16 1d9ee75 C12
ff89ee5 C16 119807b C16 95a0e97 C16 e61f43b C16 822b0c0 C16 35a0fb7 C17 ad12c52 C15 03f79de C05 7aea3b7 C08 f0687f1 C18
5142f6d C04 c4af8e5 C14 bec8a8d C07 c812450 C06 f3d1797 C12 7034a6f C02 968f027 C11 2960e9b C17 c5c49bf C13 b294e4d C19
07ef0c6 C07 492aeeb C12 0919c80 C09 fd9ac62 C08 fd6903f C09 01a4367 C09 3138898 C17""".split()
PROP = dict(zip(PROP[::2], PROP[1::2]))
extra = os.path.join(V, "tools", "fixed_extra.json")
if os.path.exists(extra):
    PROP.update(json.load(open(extra)))
p = os.path.join(V, "known_findings.json")
k = json.load(open(p))
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", BASE + "..HEAD"], capture_output=True, text=True).stdout
k["fixed"] = []
for line in out.splitlines():
    h, msg = line.split(" ", 1)
    if msg.startswith("fix: "):
        k["fixed"].append("fixed: property=%s %s %s" % (PROP[h], h, msg[5:]))
json.dump(k, open(p, "w"), indent=1, ensure_ascii=False)
print(len(k["fixed"]), "fixed")
