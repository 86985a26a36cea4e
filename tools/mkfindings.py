#!/usr/bin/env python3
"""known_findings.json: the repaired defects, from /repo's fix: commits and the property each broke."""
import json, os, subprocess
P = """3cfc2ee C03 8ede8cb C03 bd4eb7e C04 6f8eedb C27 543b70e C27 160f966 C05 381dd47 C05 27e77df C05 8217cac C01 7aab25f C23 d0ac913 C21 2fa94f6 C21 f0a070b C21 e5c726e C08 54c73d1 C23 6d70a0b C23
b3c35d3 C10 39b90e5 C11 d502b9a C17 4017a24 C12 020fa56 C19 c22a316 C19 1aa30e4 C09 5a8684e C14 3a23309 C15 9ef0ffa C17 2ce7f7e C27 603757e C27 3eb681f C13 2ff7a08 C22 f4ecb53 C14 973b66a C14 db3e6a5 C15
64df008 C08 440dac0 C08 0b97c5e C21 1954e6b C22 dfa1150 C09 82eec10 C09 490cfb3 C13 1d23c04 C26 5cce953 C12 97d52f3 C12 cc5533c C19 5a62d37 C19 e9391fe C19 55e5adc C14 22075ef C14 a0afa2a C15 44833f7 C15
a1594f1 C14 0fc3994 C14 cc518f7 C28 a5a89a8 C28 e42bf06 C20 a6be868 C01 efcc325 C02 7ff2b7b C11 328237d C11 6b6ad11 C11 522232a C10 00dc9ad C05 42e39f6 C26 7c58c7f C22 21167a2 C27 8707b52 C27 80cc5ac C01 be513b2 C12 0eed3e2 C26 ee2b28c C12 9720715 C24""".split()
P = dict(zip(P[::2], P[1::2]))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "f0bb8e7..HEAD"], capture_output=True, text=True).stdout
out = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    assert h in P, l
    out.append(f"fixed: property={P[h]} {h} {s[len('fix: '):]}")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "known_findings.json"), "w") as f:
    json.dump({"findings": [], "fixed": out}, f, indent=1)
    f.write("\n")
