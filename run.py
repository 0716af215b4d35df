#!/usr/bin/env python3
"""Runs the checks.  run.py --prop C01 [--tier quick|thorough] [--runs N] [--seed S]
run.py --replay FILE    re-executes one recorded run
run.py --digests ...    prints one digest per run (determinism check)"""
import argparse
import copy
import hashlib
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from dst import build as B          # noqa
from dst import minimise as M       # noqa
from dst import table as T          # noqa

REPO = os.environ.get('DST_REPO', '/repo')
NW = int(os.environ.get('DST_WORKERS', '8'))
FIRST = int(os.environ.get('DST_FIRST', '40'))       # runs that violate the property after which to stop


class Pool(object):
    def __init__(self, scratch, n=NW, cpu=60):
        self.scratch = scratch
        e = B.env(scratch, LD_PRELOAD=os.path.join(scratch, 'shim.so'), DST_CPU=str(cpu))
        self.procs = [subprocess.Popen([B.PY, '-m', 'dst.zygote', REPO, scratch], stdin=subprocess.PIPE,
                                       stdout=subprocess.PIPE, stderr=open(os.path.join(scratch, 'err%d' % i), 'wb'),
                                       env=e, cwd=scratch) for i in range(n)]
        self.buf = {p: b'' for p in self.procs}

    def run(self, jobs, stop=None):
        """Yields results as they come; jobs is an iterator.  stop() ends early."""
        jobs = iter(jobs)
        busy = {}
        done = False

        def feed(p):
            nonlocal done
            if done or (stop and stop()):
                done = True
                return
            try:
                j = next(jobs)
            except StopIteration:
                done = True
                return
            p.stdin.write(json.dumps(j).encode() + b'\n')
            p.stdin.flush()
            busy[p] = j
        for p in self.procs:
            feed(p)
        while busy:
            rd, _, _ = select.select([p.stdout for p in busy], [], [], 600)
            if not rd:
                raise RuntimeError('workers do not answer')
            for p in list(busy):
                if p.stdout in rd:
                    d = os.read(p.stdout.fileno(), 1 << 20)
                    if not d:
                        raise RuntimeError('a worker ended: ' + self.errors())
                    self.buf[p] += d
                    while b'\n' in self.buf[p]:
                        ln, self.buf[p] = self.buf[p].split(b'\n', 1)
                        busy.pop(p, None)
                        yield json.loads(ln)
                        feed(p)

    def one(self, case):
        for r in self.run([{'id': 0, 'case': case, 'keep': 1}]):
            return r

    def many(self, cases):
        out = [None] * len(cases)
        for r in self.run([{'id': i, 'case': c, 'keep': 1} for i, c in enumerate(cases)]):
            out[r['id']] = r
        return out

    def errors(self):
        out = ''
        for i in range(len(self.procs)):
            try:
                out += open(os.path.join(self.scratch, 'err%d' % i), errors='replace').read()[-1500:]
            except OSError:
                pass
        return out

    def close(self):
        for p in self.procs:
            try:
                p.stdin.close()
            except OSError:
                pass
        for p in self.procs:
            try:
                p.wait(10)
            except subprocess.TimeoutExpired:
                p.kill()


def load_findings():
    """Known findings: {property: [id, ...]} from known_findings.txt."""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith('finding: '):
                w = ln.split()
                d = dict(x.split('=', 1) for x in w[1:3])
                out.setdefault(d['property'], {})[d['id']] = ln.split(' -- ', 1)[1].strip()
    return out


def check(prop, tier, seed, nruns, flavours, quiet=False):
    t0 = time.time()
    conf = T.CHECKS[prop]
    known = load_findings().get(prop, {})
    scratch = B.build(REPO, flavours)
    pool = None
    try:
        pool = Pool(scratch, cpu=conf.get('cpu', 60))
        built = time.time() - t0
        base = (seed - 1) * 10000000
        jobs = ({'id': i, 'gen': [prop, base + i, tier]} for i in range(nruns))
        agg, pairs, states = {}, set(), set()
        bad, harness, found = [], [], set()
        other = {}
        sample = []
        n = 0
        nontriv = set()
        t1 = time.time()
        limit = conf.get('limit', {}).get(tier, 700 if tier == 'quick' else 36000)
        for r in pool.run(jobs, stop=lambda: len(bad) >= FIRST or time.time() - t0 > limit):
            n += 1
            o = r['out']
            if 'harness' in o:
                harness.append((r['id'], o))
                continue
            for k, v in o.get('st', {}).items():
                agg[k] = agg.get(k, 0) + v
            for k, v in o.get('other', {}).items():
                other[k] = other.get(k, 0) + v
            pairs.update(o.get('pairs', ()))
            if o.get('digest'):
                states.add(o['digest'])
                if o.get('nontrivial', True):
                    nontriv.add(o['digest'])
            for f in o.get('findings', ()):
                if f in known:
                    found.add(f)
                else:
                    o.setdefault('violation', {'tag': 'finding', 'text': 'unlisted finding %s' % f, 'op': None})
            if 'violation' in o:
                bad.append(r)
            if len(sample) < 2 and o.get('sample'):
                sample.append(o['sample'])
        t2 = time.time()
        status = 0
        bad.sort(key=lambda r: r['id'])
        if harness and not bad:
            print('HARNESS ERROR in %d runs, first: seed %d: %s' % (
                len(harness), base + harness[0][0], json.dumps(harness[0][1])[:3000]))
            status = 2
        reports = []
        if bad:
            status = 1
            r = bad[0]
            text = r['out']['violation']
            case, viol, tries = M.minimise(pool, r, budget=0 if FIRST < 2 else conf.get('minimise', 60 if tier == 'quick' else 180))
            d = os.path.join(HERE, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%d.json' % (prop, base + r['id']))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'seed': base + r['id'], 'violation': viol, 'case': case,
                           'original': r['case'] if len(json.dumps(r['case'])) < 200000 else None}, f, indent=1)
            print('seed %d: [%s] %s' % (base + r['id'], viol['tag'], viol['text']))
            print('minimised with %d re-executions; as found: %s' % (tries, text['text']))
            print('%d of %d runs violate the property' % (len(bad), n))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            reports.append(viol)
        for f in sorted(found):
            print('KNOWN-FINDING: property=%s %s' % (prop, known[f]))
        if status == 0:
            for f in sorted(known):
                if f not in found:
                    print('note: known finding %s did not show' % f)
        if not sample:
            sample = [json.dumps({'seed': base, 'prop': prop})]
        faults = {k[6:]: v for k, v in agg.items() if k.startswith('fault:')}
        cov = {'evaluations': n, 'distinct_nontrivial': len(nontriv), 'rule': conf['rule'], 'samples': sample,
               'runs_per_hour': round(n / max(t2 - t1, 1e-3) * 3600), 'seeds': [base, base + n - 1],
               'simulated_time': '%d scheduler steps (the code under test has no clock)' % agg.get('steps', 0),
               'thread_switches': agg.get('switches', 0), 'distinct_switch_pairs': len(pairs),
               'distinct_run_digests': len(states), 'faults_injected': faults,
               'outcomes': {k[4:]: v for k, v in agg.items() if k.startswith('out:')},
               'operations': {k[3:]: v for k, v in agg.items() if k.startswith('op:')},
               'other_counts': {k: v for k, v in agg.items() if ':' not in k and k not in ('steps', 'switches')},
               'real_components': conf['real'], 'stub_components': conf['stub'],
               'build_s': round(built, 1)}
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
              'assumptions': conf['assumptions'], 'wall_s': round(time.time() - t0, 1), 'violations': len(bad)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        print('%s: %d runs, %d violating, %d steps, %d switches, faults %s, %.1f s' % (
            prop, n, len(bad), agg.get('steps', 0), agg.get('switches', 0), json.dumps(faults, sort_keys=True),
            time.time() - t0))
        if other:
            print('seen but not this property\'s concern: %s' % json.dumps(other, sort_keys=True))
        if n < nruns and not bad:
            print('note: stopped after %d of %d runs at the time limit' % (n, nruns))
        return status
    finally:
        if pool:
            pool.close()
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    case = d['case']
    scratch = B.build(REPO, ('plain', 'hard') if case.get('ext') == 'hard' else ('plain',))
    pool = None
    try:
        pool = Pool(scratch, 1)
        r = pool.one(case)
        v = r['out'].get('violation')
        if 'harness' in r['out']:
            print(json.dumps(r['out'])[:3000])
            return 2
        if v:
            print('[%s] %s' % (v['tag'], v['text']))
            print('VIOLATION property=%s replay=%s' % (d['property'], path))
            return 1
        print('no violation')
        return 0
    finally:
        if pool:
            pool.close()
        shutil.rmtree(scratch, ignore_errors=True)


def digests(prop, tier, seed, nruns):
    scratch = B.build(REPO, T.CHECKS[prop].get('flavours', ('plain',)))
    pool = None
    try:
        pool = Pool(scratch)
        base = (seed - 1) * 10000000
        out = {}
        for r in pool.run({'id': i, 'gen': [prop, base + i, tier]} for i in range(nruns)):
            o = r['out']
            out[r['id']] = '%s %s %s' % (o.get('digest'), hashlib.md5(json.dumps(
                [o.get('taken'), o.get('st'), o.get('violation')], sort_keys=True).encode()).hexdigest(), o.get('harness', ''))
        for i in sorted(out):
            print(prop, i, out[i])
        return 0
    finally:
        if pool:
            pool.close()
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--digests', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    conf = T.CHECKS[a.prop]
    n = a.runs or conf['runs'][a.tier]
    if a.digests:
        return digests(a.prop, a.tier, a.seed, n)
    try:
        return check(a.prop, a.tier, a.seed, n, conf.get('flavours', ('plain',)))
    except B.BuildError as e:
        print('BUILD ERROR: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
