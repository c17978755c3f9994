#!/usr/bin/env python3
"""Builds every module and harness the checks use from /repo's working tree (the checks rebuild what changed)."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B, checks as C
t = time.time()
todo = {}
for pid, c in C.CHECKS.items():
    for p in c['parts']:
        if p.get('py'):
            for h, mods, san in p.get('builds', []): todo[(h, san)] = (mods, ())
        else: todo[(p['harness'], p.get('san', 'asan'))] = (p['mods'], p.get('flags', ()))
for san in sorted(set(s for _, s in todo)):
    mods = sorted(set(m for (h, s), (ms, _) in todo.items() if s == san for m in ms))
    _, n = B.build(None, mods, san)
    print('%s: %d objects, %.0fs' % (san, n, time.time() - t), flush=True)
# harnesses: compile in parallel threads (the build lock is per call, so use one process each)
from concurrent.futures import ThreadPoolExecutor
def one(a):
    (h, san), (mods, flags) = a
    src = os.path.join(B.VERIF, 'harness', h + '.cpp')
    return B.compile_one(src, os.path.join(B.BUILD, san, 'harness', h + '.o'), B.harness_flags(san, list(flags)))
with ThreadPoolExecutor(os.cpu_count() or 4) as ex: list(ex.map(one, todo.items()))
for (h, san), (mods, flags) in todo.items():
    B.build(h, mods, san, extra_flags=flags)
print('setup done in %.0fs' % (time.time() - t))
