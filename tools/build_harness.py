#!/usr/bin/env python3
"""Compile /repo's library sources (current working tree) and one property's contract-instance cases.
usage: build_harness.py OUTDIR pXX"""
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from crgv import extract  # noqa: E402


def main():
    out, prop = sys.argv[1], sys.argv[2]
    opts = ['-O0', '-g1', '-w', '-D_GLIBCXX_ASSERTIONS', '-I', os.path.join(HERE, 'harness')]
    h = os.path.join(HERE, 'harness')
    jobs = [os.path.join(h, prop + '.cpp'), os.path.join(h, 'main.cpp')] + extract.sources()

    def one(i, s):
        o = os.path.join(out, '%03d.o' % i)
        own = s.startswith(h)
        r = subprocess.run(['g++'] + extract.cxxflags() + opts + (['-fno-access-control'] if own else []) + ['-c', s, '-o', o], capture_output=True, text=True)
        return (s, r.returncode, r.stderr, o)
    with ThreadPoolExecutor(int(os.environ.get('CRGV_JOBS', '8'))) as ex:
        res = list(ex.map(lambda t: one(*t), enumerate(jobs)))
    bad = [r for r in res if r[1]]
    if bad:
        for s, rc, err, o in bad:
            sys.stderr.write('compile failed: %s\n%s\n' % (s, err[-3000:]))
        return 4 if any(not b[0].startswith(h) for b in bad) else 5
    r = subprocess.run(['g++', '-o', os.path.join(out, 'harness')] + [r[3] for r in res], capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write('link failed\n' + r.stderr[-3000:])
        return 5
    for x in res:
        os.unlink(x[3])
    return 0


sys.exit(main())
