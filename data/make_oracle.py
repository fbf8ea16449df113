#!/usr/bin/env python3
"""One-off: freeze the published mapping tables into oracle.json.

Sources: the vendor/WHATWG table files shipped in /repo/encoding_tables,
cross-checked against Python's independent codecs (differences are printed
and were reviewed by hand).  Not run by any check: the oracle is frozen so a
change to /repo cannot move it."""
import json, os, sys
R = "/repo/encoding_tables"

def load(path, base):
    out = {}
    for line in open(path, encoding="utf-8", errors="replace"):
        p = line.split()
        if len(p) >= 2 and not p[0].startswith("#") and not p[1].startswith("#"):
            out[int(p[0], base)] = int(p[1], 16)
    return out

PY = {"ibm-cp866": "cp866", "koi8-r": "koi8_r", "koi8-u": "koi8_u", "mac-roman": "mac_roman",
      "mac-cyrillic": "mac_cyrillic"}
single = {}
d = R + "/single_byte/ascii_ext"
for f in sorted(os.listdir(d)):
    n = f[:-4]
    t = load(d + "/" + f, 16)
    for i in range(128):
        assert t[i] == i
    row = [t.get(128 + i, -1) for i in range(128)]
    mod = n.replace("ibm-cp", "ibm_").replace("windows-cp", "windows_").replace("-", "_")
    codec = PY.get(n) or n.replace("iso-8859", "iso8859").replace("windows-cp", "cp")
    diff = []
    for i in range(128):
        try:
            c = ord(bytes([128 + i]).decode(codec))
        except UnicodeDecodeError:
            c = -1
        if c != row[i]:
            diff.append((hex(128 + i), hex(row[i]) if row[i] >= 0 else None, hex(c) if c >= 0 else None))
    vals = [x for x in row if x >= 0]
    dup = len(vals) - len(set(vals))
    print(mod, codec, "undef", row.count(-1), "dups", dup, "diff vs python:", diff)
    single[mod] = row
single["ascii"] = [-1] * 128

big5 = load(R + "/whatwg/index-big5.txt", 10)
jis = load(R + "/whatwg/index-jis0208.txt", 10)
# cross-check
bad = []
for p, c in big5.items():
    b = bytes([p // 157 + 0x81, p % 157 + (0x40 if p % 157 < 0x3F else 0x62)])
    try:
        x = b.decode("big5hkscs")
    except UnicodeDecodeError:
        x = None
    if x != chr(c):
        bad.append((p, b.hex(), hex(c), x))
print("big5", len(big5), "differences vs python big5hkscs", len(bad), bad[:12])
bad = []
for p, c in jis.items():
    l, t = p // 188, p % 188
    b = bytes([l + (0x81 if l < 0x1F else 0xC1), t + (0x40 if t < 0x3F else 0x41)])
    try:
        x = b.decode("cp932")
    except UnicodeDecodeError:
        x = None
    if x != chr(c):
        bad.append((p, b.hex(), hex(c), x))
print("jis", len(jis), "max", max(jis), "differences vs python cp932", len(bad), bad[:12])

def pack(m, n):
    return [m.get(i, -1) for i in range(n)]
json.dump({"single": single, "big5": pack(big5, max(big5) + 1), "jis0208": pack(jis, max(jis) + 1)},
          open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "oracle.json"), "w"), separators=(",", ":"))
