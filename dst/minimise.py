"""Shrinks a failing case: fewer threads, operations, faults, switches; smaller sizes."""
import copy
import json
import time


def klass(v):
    return (v['tag'].split(':')[0], ) if v['tag'] in ('died', 'hang') else (v['tag'],)


class Shrink(object):
    def __init__(self, pool, case, viol, budget):
        self.pool, self.case, self.viol = pool, case, viol
        self.k = klass(viol)
        self.end = time.time() + budget
        self.tries = 0

    def first(self, cands):
        """Adopts the first candidate that fails in the same way."""
        cands = list(cands)
        i = 0
        while i < len(cands) and time.time() < self.end:
            batch = cands[i:i + 8]
            res = self.pool.many(batch)
            self.tries += len(batch)
            for c, r in zip(batch, res):
                v = r['out'].get('violation')
                if v and klass(v) == self.k:
                    self.case, self.viol = c, v
                    self.taken = r['out'].get('taken')
                    return True
            i += 8
        return False


def edit(case, f):
    c = copy.deepcopy(case)
    return c if f(c) is not False else None


def lists(case):
    """Paths of the operation lists of a case."""
    if 'threads' in case:
        return [('threads', i, 'ops') for i in range(len(case['threads']))]
    return [(k,) for k in ('ops', 'steps') if isinstance(case.get(k), list)]


def at(case, path):
    for p in path:
        case = case[p]
    return case


def minimise(pool, res, budget=60):
    case = res['case']
    if case is None:
        return None, res['out']['violation'], 0
    s = Shrink(pool, case, res['out']['violation'], budget)
    s.taken = res['out'].get('taken')
    changed = True
    while changed and time.time() < s.end:
        changed = False
        # whole threads
        th = s.case.get('threads', [])
        if len(th) > 1:
            c = []
            for i in range(len(th)):
                x = copy.deepcopy(s.case)
                x['threads'][i]['ops'] = []
                if th[i]['ops']:
                    c.append(x)
                if i == len(th) - 1 and not th[i]['ops']:
                    y = copy.deepcopy(s.case)
                    y['threads'].pop()
                    c.append(y)
            changed |= s.first(c)
        if s.case.get('toggle'):
            x = copy.deepcopy(s.case)
            x['toggle'] = 0
            changed |= s.first([x])
        # chunks of operations
        for path in lists(s.case):
            n = len(at(s.case, path))
            size = max(1, n // 2)
            while size >= 1 and time.time() < s.end:
                c = []
                n = len(at(s.case, path))
                for i in range(0, n, size):
                    x = copy.deepcopy(s.case)
                    del at(x, path)[i:i + size]
                    c.append(x)
                if c and s.first(c):
                    changed = True
                    continue
                size //= 2
        # faults
        c = []
        for path in lists(s.case):
            for i, op in enumerate(at(s.case, path)):
                for k in ('irq', 'oom', 'retry', 'io', 'top'):
                    if isinstance(op, dict) and k in op:
                        x = copy.deepcopy(s.case)
                        del at(x, path)[i][k]
                        c.append(x)
        if c:
            changed |= s.first(c)
        # preemption
        sch = s.case.get('sched')
        if sch and sch.get('gap'):
            x = copy.deepcopy(s.case)
            x['sched'] = {'seed': 0, 'gap': 0.0}
            changed |= s.first([x])
        # unused objects
        used = json.dumps([[o.get('a'), ] for p in lists(s.case) for o in at(s.case, p) if isinstance(o, dict)])
        c = []
        for where in [('shared',)] + [('threads', i, 'own') for i in range(len(s.case.get('threads', [])))]:
            try:
                d = at(s.case, where)
            except (KeyError, IndexError):
                continue
            for nm in d:
                if '$' + nm + '"' not in used:
                    x = copy.deepcopy(s.case)
                    del at(x, where)[nm]
                    c.append(x)
        if c:
            changed |= s.first(c)
        # smaller objects
        c = []
        for where in [('shared',)] + [('threads', i, 'own') for i in range(len(s.case.get('threads', [])))]:
            try:
                d = at(s.case, where)
            except (KeyError, IndexError):
                continue
            for nm, sp in d.items():
                for k in ('n', 'm', 'r', 'c'):
                    if k in sp and sp[k] > 0:
                        for v in sorted({sp[k] // 2, sp[k] - 1, sp[k] - 2}):
                            if v < 0 or v == sp[k]:
                                continue
                            x = copy.deepcopy(s.case)
                            y = at(x, where)[nm]
                            y[k] = v
                            if k == 'n' and y['m'] > v:
                                y['m'] = v
                            if legal(y):
                                c.append(x)
        if c:
            changed |= s.first(c)
    # explicit schedule
    if s.taken and s.case.get('sched') and len(s.case.get('threads', [])) + bool(s.case.get('toggle')) > 1:
        x = copy.deepcopy(s.case)
        x['sched'] = {'switches': s.taken}
        if s.first([x]):
            size = max(1, len(s.taken) // 2)
            while size >= 1 and time.time() < s.end:
                sw = s.case['sched']['switches']
                c = []
                for i in range(0, len(sw), size):
                    y = copy.deepcopy(s.case)
                    del y['sched']['switches'][i:i + size]
                    c.append(y)
                if len(c) > 0 and s.first(c):
                    continue
                size //= 2
    return s.case, s.viol, s.tries


def legal(y):
    t = y['t']
    if t in ('bsp', 'bvp'):
        return y['r'] >= y['n'] + 2 and y['c'] >= 2 * y['m'] + 2 and y['c'] % 2 == 0
    if t in ('sp', 'vp'):
        return y['r'] >= 2 and y['c'] >= 2 and y['c'] % 2 == 0
    return True
