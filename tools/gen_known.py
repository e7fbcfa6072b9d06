#!/usr/bin/env python3
"""Writes /verif/known_findings.json: findings that are recorded instead of repaired, and what was repaired."""
import json, os, struct
i = lambda n: struct.pack('<i', n)
s = lambda t: bytes([len(t)]) + t.encode()
msg = lambda root: b'\0' + i(root) + i(-1) + i(1) + i(0)
arr = lambda id, n: b'\x10' + i(id) + i(n)
ref = lambda id: b'\x09' + i(id)
sysc = lambda id, name, *m: b'\x04'.replace(b'\x04', b'\x02') + i(id) + s(name) + i(len(m)) + b''.join(s(x) for x in m)
prim = lambda id, *v: b'\x0f' + i(id) + i(len(v)) + b'\x08' + b''.join(i(x) for x in v)
end = b'\x0b'
why = "a result cannot hold one object in two places, and copying it would let a message of n bytes yield a result of 2^n values, so the parse fails"
share = [
 ("an object referenced twice from an array", msg(1) + arr(1, 2) + ref(2) + ref(2) + sysc(2, "A") + end),
 ("an array referenced twice from an array", msg(1) + arr(1, 2) + ref(2) + ref(2) + arr(2, 1) + b'\x0a' + end),
 ("a primitive array referenced by two members", msg(1) + sysc(1, "A", "x", "y") + ref(2) + ref(2) + prim(2, 5) + end),
 ("a reference to an object that stands in the array already", msg(1) + arr(1, 2) + sysc(2, "A") + ref(2) + end),
 ("a reference to an object that stands in another member already", msg(1) + sysc(1, "A", "x", "y") + sysc(2, "B") + ref(2) + end),
]
findings = [dict(id=f"KF-SHARE-{k+1}", property="C10", input=b.hex(), what=f"KF-SHARE: {w}: {why} (input {b.hex()})") for k, (w, b) in enumerate(share)]
for k, (c, w) in enumerate([
  ("nested objects 100000", "objects nested 100000 levels deep in place"),
  ("chain of references 100000", "a chain of references through 100000 arrays"),
  ("array rank 100000", "an array of rank 100000 (every length 1)"),
]):
    findings.append(dict(id=f"KF-DEPTH-{k+1}", property="C01", crash=c, what=f"KF-DEPTH: {w} overflow(s) a stack of 8 MB: reading, resolving and dropping values recurse with their depth"))
findings.append(dict(id="KF-NULLBOMB", property="C01", crash="null run 2147483647",
  what="KF-NULLBOMB: an array of 2147483647 elements filled by one null run (about 40 bytes of input) exhausts the memory, since each element of the result is stored"))
fixed = [l.rstrip('\n') for l in open(os.path.join(os.path.dirname(__file__), 'fixed.txt')) if l.strip()]
json.dump(dict(findings=findings, fixed=fixed), open(os.path.join(os.path.dirname(__file__), '..', 'known_findings.json'), 'w'), indent=1)
