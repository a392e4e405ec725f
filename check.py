#!/opt/veriftools/pyvenv/bin/python3
"""Decide one property on /repo's current working tree.
   check.py --property P01 --tier quick|thorough      (VERIF_SEED: seed of the contract instances)
   check.py --replay FILE                             (replay a reported violation)"""
import argparse
import collections
import importlib
import json
import os
import pickle
import pkgutil
import re
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('CRGV_JOBS', '8')
from crgv import extract            # noqa: E402
from crgv import contract as C      # noqa: E402
from crgv.specs import common       # noqa: E402

PYTHON = sys.executable


def load_specs():
    import crgv.specs as pkg
    for m in sorted(x.name for x in pkgutil.iter_modules(pkg.__path__)):
        importlib.import_module('crgv.specs.' + m)
    return common.REGISTRY


def resolve_all(prog, reg):
    modular, missing = {}, []
    for c in reg:
        l = prog.find(c.qn, c.np, c.sub)
        c.mangled = l[0] if len(l) == 1 else None
        if len(l) > 1:
            l2 = [m for m in l if m in prog.funcs]
            c.mangled = l2[0] if len(l2) >= 1 else l[0]
        if c.mangled and c.modular:
            modular[c.mangled] = c
        elif not c.mangled:
            missing.append(c.key)
    return modular, missing


class Slim:
    def __init__(self, r):
        self.__dict__.update({k: v for k, v in r.__dict__.items() if k != 'obls'})
        self.obls = [dict(name=o.name, kind=o.kind, status=o.status, backend=o.backend, time=o.time, model=o.model, line=o.line, fn=o.func) for o in r.obls]


def run_forked(tasks, jobs, hard):
    """tasks: [(key, fn)] -> {key: result | 'timeout' | 'crash'}"""
    out, run, todo = {}, {}, list(tasks)
    while todo or run:
        while todo and len(run) < jobs:
            key, fn = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                try:
                    os.close(r)
                    data = pickle.dumps(fn())
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                except BaseException as e:
                    sys.stderr.write('worker %s: %r\n' % (key, e))
                finally:
                    os._exit(0)
            os.close(w)
            run[r] = [pid, key, time.time(), []]
        rd, _, _ = select.select(list(run), [], [], 0.5)
        for r in list(run):
            pid, key, t0, buf = run[r]
            done = False
            if r in rd:
                d = os.read(r, 1 << 16)
                if d:
                    buf.append(d)
                else:
                    done = True
            if not done and (time.time() - t0 > hard or time.time() > float(os.environ.get('CRGV_DEADLINE', 'inf')) + 20):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                out[key] = 'timeout'
                done = True
            if done:
                os.close(r)
                os.waitpid(pid, 0)
                if key not in out:
                    try:
                        out[key] = pickle.loads(b''.join(buf))
                    except Exception:
                        out[key] = 'crash'
                del run[r]
    return out


def verify_set(prog, vk, cons, modular, timeout, budget, bounded=False, unroll=2, jobs=8):
    inner = max(1, jobs // max(1, len(cons)))

    def task(c):
        def go():
            os.environ['CRGV_JOBS'] = str(max(2, inner))
            m = {k: v for k, v in modular.items() if not bounded or v.spec_fn}
            return Slim(C.verify(prog, vk, c, m, timeout=timeout, unroll=unroll, use_inv=not bounded, budget=max(budget, c.budget)))
        return go
    res = run_forked([(c.key, task(c)) for c in cons], jobs, max([budget] + [c.budget for c in cons]) * 2 + 60)
    out = {}
    for c in cons:
        r = res[c.key]
        if isinstance(r, str):
            x = C.FnResult(c.key)
            x.error = r
            r = Slim(x)
        out[c.key] = r
    return out


def closure(prog, vk, prop, reg, modular, timeout, budget, jobs, phase, retry=True):
    """verify the property's contracts and, transitively, every contract their proofs lean on"""
    bykey = {c.key: c for c in reg}
    todo = [c for c in reg if prop in c.props and not c.assumed]
    done = {}
    phase(0)
    while todo:
        res = verify_set(prog, vk, todo, modular, timeout, budget, jobs=jobs)
        done.update(res)
        nxt = []
        for r in res.values():
            for k in r.contracts:
                if k in bykey and k not in done and k not in [c.key for c in nxt] and not bykey[k].assumed:
                    nxt.append(bykey[k])
        todo = nxt
    # solver time is wall-clock: an obligation left unknown while eight functions shared the machine gets a second, quieter try
    again = [bykey[k] for k, r in done.items() if not r.error and not r.missing and not r.bounded_loops and not proved(r)
             and not any(o['status'] == 'refuted' for o in r.obls)][:12]
    if again and retry and phase(1):
        for k, r in verify_set(prog, vk, again, modular, max(timeout * 4, 60), budget * 2, jobs=2).items():
            if sum(o['status'] == 'proved' for o in r.obls) > sum(o['status'] == 'proved' for o in done[k].obls):
                done[k] = r
    return done


PRECISE_EXTERNS = re.compile(r'')


def proved(r):
    return not r.error and not r.missing and not r.bounded_loops and r.reach != 'unsat' and r.obls and all(o['status'] == 'proved' for o in r.obls)


def run_harness(exe, cwd, seed, scale, limit, extra=(), dic=None):
    cmd = [exe, '--seed', str(seed), '--scale', str(scale)] + list(extra)
    if dic:
        cmd += ['--dict', ','.join(map(str, dic[:200]))]
    cur = os.path.join(cwd, 'current_case.txt')
    if os.path.exists(cur):
        os.unlink(cur)
    out = dict(fails=[], cases=[], samples=[], known=[], instances=0, distinct=0, checks=0, crash=None)
    try:
        p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, errors='replace', timeout=limit)
        rc, txt, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        rc, txt, err = 'timeout', (e.stdout or b'').decode(errors='replace'), ''
    lines = txt.split('\n')
    for i, l in enumerate(lines):
        if l.startswith('FAIL '):
            d = dict(x.split('=', 1) for x in l[5:].split())
            rest, j = [], i + 1
            while j < len(lines) and not lines[j].startswith('CASE '):
                rest.append(lines[j])
                j += 1
            d['detail'] = '\n'.join(rest)[:6000]
            out['fails'].append(d)
        elif l.startswith('CASE '):
            out['cases'].append(l[5:])
            for k, v in re.findall(r'(instances|distinct|checks)=(\d+)', l):
                out[k] += int(v)
        elif l.startswith('SAMPLE '):
            out['samples'].append(l[7:])
        elif l.startswith('KNOWN '):
            out['known'].append(l[6:])
    if rc not in (0, 3):
        try:
            n, s, it = open(cur).read().split()
            out['crash'] = dict(case=n, seed=s, iter=it, detail='ended with %s\n%s' % (rc, err[-3000:]), hang=rc == 'timeout')
        except Exception:
            out['crash'] = dict(case='?', seed=str(seed), iter='0', detail='ended with %s\n%s' % (rc, err[-3000:]), hang=rc == 'timeout')
        if out['crash']['case'] != '?':
            # confirm on its own
            c = out['crash']
            try:
                p = subprocess.run([exe, '--seed', c['seed'], '--case', c['case'], '--iter', c['iter']] + (['--dict', ','.join(map(str, dic[:200]))] if dic else []), cwd=cwd, capture_output=True, text=True, errors='replace', timeout=120)
                ok = p.returncode in (0, 3)
            except subprocess.TimeoutExpired:
                ok = False
            c['confirmed'] = not ok
            if not ok:
                out['fails'].append({k: c[k] for k in ('case', 'seed', 'iter', 'detail')})
    return out


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--no-harness', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    scratch = tempfile.mkdtemp(prefix='crgcheck-')
    try:
        return decide(prop, tier, seed, scratch, t0, a)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    h = d.get('harness')
    if not h:
        print('no failing input is recorded; the failed obligations are in the file')
        return 0
    scratch = tempfile.mkdtemp(prefix='crgreplay-')
    try:
        r = subprocess.run([PYTHON, HERE + '/tools/build_harness.py', scratch, d['property'].lower()])
        if r.returncode:
            return 2
        cmd = [scratch + '/harness', '--case', h['case'], '--seed', h['seed'], '--iter', h['iter']]
        if d.get('dict'):
            cmd += ['--dict', ','.join(map(str, d['dict']))]
        return subprocess.run(cmd, cwd=scratch).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, scratch, t0, a):
    thorough = tier == 'thorough'
    meta = {m['id']: m for m in map(json.loads, open(HERE + '/properties.jsonl'))} if os.path.exists(HERE + '/properties.jsonl') else {}
    man = json.load(open(HERE + '/MANIFEST.json')) if os.path.exists(HERE + '/MANIFEST.json') else {'checks': []}
    me = next((c for c in man['checks'] if c['property'] == prop), {})
    hsrc = os.path.join(HERE, 'harness', prop.lower() + '.cpp')
    bh = None
    if os.path.exists(hsrc) and not a.no_harness:
        bh = subprocess.Popen([PYTHON, HERE + '/tools/build_harness.py', scratch, prop.lower()], stderr=subprocess.PIPE, text=True)
    timeout, budget = (30, 300) if thorough else (10, 100)

    def phase(n):
        """each phase of the proof search has to end by its share of the check's 900 seconds (four times that in the thorough tier)"""
        end = t0 + (440, 580, 700)[n] * (4 if thorough else 1)
        os.environ['CRGV_DEADLINE'] = str(end)
        return time.time() < end - 20
    prog = vk = None
    xerr = None
    try:
        prog, vk = extract.load(), extract.VkHeader()
    except Exception as e:
        xerr = '%s: %s' % (type(e).__name__, e)
    if bh:
        _, berr = bh.communicate()
        if bh.returncode:
            sys.stderr.write(berr or '')
            if bh.returncode == 4:
                print('the library does not compile')
                return 2
            # the harness no longer compiles against the library's interface
            sys.stderr.write('harness does not build\n')
            bh = None
            if xerr:
                return 2
    if xerr and not bh:
        sys.stderr.write(xerr + '\n')
        return 2
    reg = load_specs()
    t_ext = time.time() - t0
    results, missing = {}, []
    hr = None
    exe = os.path.join(scratch, 'harness')
    if bh:
        hr = run_harness(exe, scratch, seed, me.get('x_scale_thorough', 10) if thorough else 1, 1500 if thorough else 200)
    if prog:
        modular, missing = resolve_all(prog, reg)
        # a failing input already decides the matter: the open obligations are then reported as they are
        results = closure(prog, vk, prop, reg, modular, timeout, budget, 8, phase, not (hr and hr['fails']))
    bykey = {c.key: c for c in reg}
    weak = [k for k, r in results.items() if not proved(r)]
    dic, second = [], {}
    if weak and not (hr and hr['fails']) and phase(2):
        second = verify_set(prog, vk, [bykey[k] for k in weak if not results[k].missing], modular, min(timeout, 8), min(budget, 60), bounded=True, unroll=2)
        for r in list(results.values()) + list(second.values()):
            for o in r.obls:
                if o['status'] == 'refuted' and o['model']:
                    for v in o['model'].values():
                        for x in re.findall(r'\b\d+\b', v):
                            if int(x) < 1 << 64 and int(x) not in dic:
                                dic.append(int(x))
    if bh and weak and not hr['fails']:
        # the contracts' instances once more, with more of them and with the numbers of the counterexamples mixed in
        more = run_harness(exe, scratch, seed + 1, 4 * (me.get('x_scale_thorough', 10) if thorough else 1), 600 if thorough else 120, dic=dic)
        if more['fails'] or not more['crash']:
            hr = more
    # ---------------------------------------------------------------- verdict
    known = known_findings(prop)
    kf_lines, unlisted = [], []
    if hr:
        ids = sorted(set(x.split()[0] for x in hr['known']))
        for i in ids:
            k = next((k for k in known if k['id'] == i), None)
            if k:
                kf_lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            else:
                unlisted.append(dict(case='known:' + i, seed=str(seed), iter='0', detail='unlisted finding ' + i))
    refuted = []
    for k in weak:
        con = bykey[k]
        r2 = second.get(k)
        for src, r in (('bounded', r2), ('full', results[k])):
            if r is None or (src == 'full' and (r.error or con.loops)):
                continue
            if r.imprecise or r.error:
                continue
            for o in r.obls:
                if o['status'] == 'refuted' and o['kind'] in ('post', 'throw', 'trace', 'safety') and not o.get('inv'):
                    refuted.append(dict(function=k, mode=src, **o))
            if refuted and src == 'bounded':
                break
    fails = (hr['fails'] if hr else []) + unlisted
    nobl = sum(len(r.obls) for r in results.values())
    ndis = sum(1 for r in results.values() for o in r.obls if o['status'] == 'proved')
    be = collections.Counter(o['backend'] for r in results.values() for o in r.obls if o['status'] == 'proved')
    cov = {
        'obligations': nobl, 'discharged': ndis,
        'discharged_by': dict(be),
        'solver_time_s': round(sum((o['time'] or 0) for r in results.values() for o in r.obls), 2),
        'functions_under_contract': [dict(function=k, file_line=r.where, obligations=len(r.obls),
                                          discharged=sum(o['status'] == 'proved' for o in r.obls), paths=r.paths,
                                          status='proved' if proved(r) else ('not proved: ' + (r.error or ('missing' if r.missing else ('loops without an accepted invariant' if r.bounded_loops else 'open obligations')))),
                                          inlined=r.inlined, contracts_used=r.contracts, reachable=r.reach, wall_s=round(r.wall, 2))
                                     for k, r in sorted(results.items())],
        'undecided_functions': [k for k in weak],
        'bounded_pass': [dict(function=k, unroll=2, obligations=len(r.obls), proved=sum(o['status'] == 'proved' for o in r.obls), refuted=sum(o['status'] == 'refuted' for o in r.obls), error=(r.error or '')[:300]) for k, r in sorted(second.items())],
        'checker_cmd': 'python3-vt check.py --property %s --tier %s' % (prop, tier),
        'trusted_base': TRUSTED + (me.get('x_trusted') or []),
        'extraction_s': round(t_ext, 2),
        'external_calls': sorted(set(e for r in results.values() for e in r.externs)),
    }
    if hr:
        cov.update({'evaluations': hr['instances'], 'distinct_nontrivial': hr['distinct'], 'contract_assertions_evaluated': hr['checks'],
                    'rule': 'seeded pseudo-random instances of the contracts executed on the compiled library behind a recording device; distinct = distinct generated inputs per case',
                    'samples': hr['samples'][:12] or ['none'], 'harness_cases': hr['cases']})
    elif not results:
        cov['explanation'] = 'nothing could be run'
    cov['explanation'] = me.get('level_note', '') or 'see DESIGN.md'
    level = me.get('level', 'proof')
    viol = bool(fails or refuted)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': ASSUMPTIONS + (me.get('x_assumptions') or []) + ['contract taken on trust: ' + k for k in sorted(set(x for r in results.values() for x in r.contracts if bykey.get(x) is not None and bykey[x].assumed))]
          + (['not decided on this tree (bounded pass and contract instances only): ' + k for k in weak]),
          'wall_s': round(time.time() - t0, 2), 'violations': 1 if viol else 0}
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, prop), 'w'), indent=1, default=str)
    for k, r in sorted(results.items()):
        print('%-60s %3d/%3d %s %.1fs' % (k, sum(o['status'] == 'proved' for o in r.obls), len(r.obls), 'proved' if proved(r) else 'OPEN ' + (r.error or ('missing' if r.missing else ('bounded ' + str(r.bounded_loops)[:80] if r.bounded_loops else '')))[:300], r.wall))
        if a.v or not proved(r):
            for o in r.obls:
                if a.v or o['status'] != 'proved':
                    print('      %-8s %-5s %s: %s (line %s)' % (o['status'], o['kind'], o['fn'], o['name'], o['line']))
    if hr:
        print('contract instances: %d run, %d distinct, %d assertions, %d failed' % (hr['instances'], hr['distinct'], hr['checks'], len(hr['fails'])))
    for l in kf_lines:
        print(l)
    print('%s: %d obligations, %d discharged, %d functions, %.1f s' % (prop, nobl, ndis, len(results), time.time() - t0))
    if not viol:
        return 0
    rp = '%s/evidence/replay-%s.json' % (HERE, prop)
    openobl = [dict(function=k, **o) for k in weak for o in results[k].obls if o['status'] != 'proved']
    json.dump({'property': prop, 'statement': meta.get(prop, {}).get('statement'),
               'failed_obligations': openobl, 'undecided': {k: results[k].error for k in weak if results[k].error},
               'refuted_bounded': refuted, 'harness': fails[0] if fails else None, 'all_failures': fails, 'dict': dic,
               'how': 'check.py --replay %s rebuilds the library from /repo and reruns the instance' % rp}, open(rp, 'w'), indent=1, default=str)
    for f in fails[:3]:
        print('failing instance: case %s seed %s iter %s\n%s' % (f['case'], f['seed'], f['iter'], f['detail'][:2500]))
    for o in refuted[:4]:
        print('failed obligation: %s: %s [%s] line %s' % (o['function'], o['name'], o['kind'], o['line']))
    print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if fails else ' no-failing-input-found'))
    return 1


TRUSTED = [
    'clang 18 front end (typed AST of /repo\'s sources), g++ 13 for the replayed binary',
    'the VC generator in /verif/crgv (symbolic semantics of the C++ subset, standard-library container axioms)',
    'z3 (python bindings) and cvc5 1.1.2',
]
ASSUMPTIONS = [
    'Vulkan entry points are external: a call appends to a ghost trace and returns arbitrary results; they do not call back into the library',
    'no data races: each verified function runs to completion without interference',
    'by-reference parameters of crg types do not alias each other unless the contract says so; allocation succeeds',
    'std:: containers, strings, functions and hashes follow their axioms in crgv/stl.py (hash functions are uninterpreted)',
]

if __name__ == '__main__':
    sys.exit(main())
