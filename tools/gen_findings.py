#!/usr/bin/env python3
"""Rewrites the fixed: lines of known-findings.txt from /repo's fix commits (run by hand, never by a check)."""
import subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {  # subject (start) -> property
"keep the pending messages of each sender": "C18", "evicting an old item": "C18", "inserting a request": "C04",
"return an error instead of crashing when encrypted": "C20", "report an unsupported public key": "C23",
"reading a message must not": "C21", "refuse to write a message": "C21", "leave unusable public keys": "C23",
"save the given peers": "C19", "allow several presigns": "C19", "load presigns in the order": "C19",
"report a missing keygen output": "C19", "keep the in-memory database": "C19", "release the lock": "C16",
"write the configuration file": "C29", "carry the given answer": "C24", "split message keys": "C24",
"return the right round": "C24", "wait for all kinds": "C07", "know the messages of the eddsa": "C08",
"never start more works": "C05", "do not start a work again": "C05", "do not block on nested": "C10",
"report that a node was not selected": "C03", "report an eddsa signing as failed": "C01",
"only accept messages signed": "C11", "do not crash or block on incomplete": "C10", "refuse a selection": "C13",
"a response at the deadline": "C14", "members must wait": "C14", "report a work whose jobs": "C28",
"a malformed message of a participant": "C10", "a job must time out": "C03", "a slow or unreachable": "C14",
"replace broken streams": "C22", "return an error for a peer address": "C28", "a work requested again": "C17",
"return the request that a signing": "C17", "return an error for requests": "C28", "do not crash or keep a broken": "C27",
"protect the list of connections": "C22", "report an error when there is a result": "C31", "do not crash the single node": "C30",
}
extra = here + '/tools/fix_map.txt'
if os.path.exists(extra):
    for l in open(extra):
        if '\t' in l:
            k, v = l.rstrip('\n').split('\t'); M[k] = v
out = []
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s']).decode().splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    k = [v for a, v in M.items() if s.startswith(a)]
    assert len(k) == 1, (s, k)
    out.append(f"fixed: property={k[0]} {h} before the repair this did not hold: {s}")
p = here + '/known-findings.txt'
keep = [l for l in (open(p).read().splitlines() if os.path.exists(p) else []) if not l.startswith('fixed:')]
if not keep:
    keep = ['# finding: property=<id> id=<slug> <what fails>   genuine defects that are recorded, not repaired',
            '# fixed: property=<id> <commit> <what failed>      repaired ones (they suppress nothing)']
open(p, 'w').write('\n'.join(keep + out) + '\n')
print(len(out), 'fixed')
