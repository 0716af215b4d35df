"""Case generators of the storage, random, plotting and verification engines."""
import json
import math
import random

from .gen import grid, loguni, size

HARD_OPEN = [5, 13, 24, 28, 30]
HARD_WRITE = [5, 28, 27, 122]
KINDS06 = ['special'] * 8 + ['normal', 'mixed', 'int', 'tiny', 'sparse', 'zero', 'single']
SCHED = {'gap': 0.0}


def sched(r, nthr):
    return {'seed': r.randrange(1 << 30),
            'gap': 0.0 if nthr == 1 else math.exp(r.uniform(math.log(0.002), math.log(0.4)))}


def chosen(r, op, nthr, p, acts=('sw', 'sw', 'irq')):
    """Something happens at a chosen line of the routine called itself."""
    if op.get('tr') != 'no' and not op.get('irq') and r.random() < p:
        acts = acts if nthr > 1 else [a for a in acts if a != 'sw']
        if acts:
            op['top'] = [[r.randint(1, 40 if r.random() < 0.3 else 12), r.choice(acts)] for _ in range(r.choice([1, 1, 2]))]
    return op


def fspec(r, t, big, kinds):
    d = r.randrange(1 << 30)
    k = r.choice(kinds)
    n, m = size(r, big)
    if t in ('sc', 'vc'):
        return {'t': t, 'n': n, 'm': m, 'd': d, 'k': k}
    rows, cols = grid(r, n, m)
    return {'t': t, 'r': rows, 'c': cols, 'd': d, 'k': k}


def soft_io(r):
    io = {}
    if r.random() < 0.7:
        io['chunk'] = [r.randrange(1, 1 << 40), r.choice([1, 2, 3, 7, 16, 50, 100, 500, 4000])]
    if r.random() < 0.4:
        io['blk'] = r.choice([16, 64, 100, 512, 1024])
    fs = []
    while r.random() < 0.5 and len(fs) < 6:
        sc = r.choice(['open', 'read', 'write', 'write'])
        fs.append([sc, 1 if sc == 'open' else loguni(r, 1, 12), 0, 4, 0])
    while r.random() < 0.3 and len(fs) < 8:
        fs.append([r.choice(['read', 'write']), loguni(r, 1, 8), 1, r.choice([1, 2, 10, 47, 48, 49]), 0])
    if fs:
        io['faults'] = fs
    return io


def hard_io(r, f):
    io = soft_io(r) if r.random() < 0.5 else {}
    if r.random() < 0.3:
        io['blk'] = r.choice([16, 64, 512])
    fs = list(io.get('faults', ()))
    x = r.random()
    p = int(r.random() < 0.35)
    if f == 'save':
        if x < 0.15:
            fs.append(['open', 1, 0, r.choice(HARD_OPEN), p])
        elif x < 0.5:
            fs.append(['write', loguni(r, 1, 8), 0, r.choice(HARD_WRITE), p])
        elif x < 0.65:
            fs.append(['close', 1, 0, r.choice([5, 28, 122]), p])
        elif x < 0.7:
            fs.append([r.choice(['fstat', 'lseek', 'fsync', 'rename']), loguni(r, 1, 3), 0, 5, p])
        else:
            io['budget'] = r.choice([0, 1, 3, 10, 40, 47, 48, 49, 100, loguni(r, 1, 9000), loguni(r, 1, 9000)])
    else:
        if x < 0.25:
            fs.append(['open', loguni(r, 1, 2), 0, r.choice(HARD_OPEN), p])
        elif x < 0.85:
            fs.append(['read', loguni(r, 1, 8), 0, 5, p])
        else:
            fs.append([r.choice(['fstat', 'lseek', 'close']), loguni(r, 1, 2), 0, 5, p])
    if fs:
        io['faults'] = fs
    return io


def how_for(r, spec):
    t = spec['t']
    if t in ('sc', 'vc'):
        return 'coef'
    if t == 'sp':
        return r.choice(['patt', 'patt', 'fdata'])
    return 'fdata'


def named(r, threads):
    """Some calls name their file by a Path object or in bytes."""
    if r.random() < 0.3:
        for th in threads:
            for op in th['ops']:
                if op['f'] in ('save', 'load', 'check') and r.random() < 0.3:
                    op['as'] = r.choice(['path', 'bytes'])


# endings of file names that must mean nothing
ENDS = ['', '', '.gz', '.bz2', '.csv', '.TXT', '~', '.bak', '.tmp', '{0}', '%s', '$HOME', '*', '#', ' ', '.npy', '.patt', ',1', '\n']


def disk(prop, seed, tier):
    r = random.Random('%s/%d' % (prop, seed))
    nthr = r.choice([1, 1, 1, 2, 2, 3]) if prop != 'C08' else r.choice([1, 1, 2, 2])
    kinds = KINDS06 if prop == 'C06' else ['special', 'normal', 'normal', 'mixed', 'int', 'sparse', 'zero']
    big = r.choice([2, 4, 7, 14] if prop != 'C07' else [1, 3, 6, 13])
    large = r.random() < 0.04           # files of hundreds of kilobytes
    if large:
        nthr, big = r.choice([1, 1, 2]), 4
    objs = {}
    for i in range(r.randint(2, 5)):
        objs['O%d' % i] = fspec(r, r.choice(['sc', 'sc', 'sp', 'sp', 'vc', 'vp']), big, kinds)
    if large:
        for s in list(objs.values())[:2]:
            s['k'] = r.choice(['normal', 'mixed', 'special'])
            if s['t'] in ('sc', 'vc'):
                s['n'] = loguni(r, 30, 80)
                s['m'] = min(s['n'], loguni(r, 15, 60))
            else:
                s['r'], s['c'] = loguni(r, 20, 60), 2 * loguni(r, 10, 50)
    if r.random() < 0.6:        # the same shape twice, and a smaller one
        s = dict(objs['O0'])
        s['d'] = r.randrange(1 << 30)
        objs['O8'] = s
    frozen = r.random() < 0.3
    if frozen and r.random() < 0.8:     # files of equal length
        s = r.choice(sorted(objs))
        objs[s]['k'] = 'pos'
        for i in range(2):
            objs['P%d' % i] = dict(objs[s], d=r.randrange(1 << 30))
    names = {}
    uni = r.random() < 0.1
    odd = r.random() < 0.15
    threads = []
    known = {}                  # file -> specs saved to it
    for ti in range(nthr):
        ops = []
        files = [('f%d%s%d' % (ti, ' \u00e9\u4e2d' if uni else '_', j)) for j in range(r.randint(1, 3))]
        if odd:
            files = [r.choice(['', '', '~', '.', '-']) + f + r.choice(ENDS) for f in files]
        for f in files:
            names.setdefault(f, r.choice(['coef', 'patt']))
        n = r.randint(3, 9) * (2 if nthr == 1 else 1)
        ps = [o for o in sorted(objs) if o[0] == 'P']
        if ps and r.random() < 0.8:     # a file replaced by one of equal length
            f = 'p%d' % ti
            names[f] = 'coef' if objs[ps[0]]['t'] in ('sc', 'vc') else 'patt'
            files.append(f)
            how = how_for(r, objs[ps[0]])
            for _ in range(r.randint(2, 4)):
                o = r.choice(ps)
                op = {'f': 'save', 'o': o, 'n': f, 'part': 1}
                if r.random() < 0.2:
                    op['fork'] = 1
                    op['io'] = {}
                elif prop == 'C08' and r.random() < 0.2:
                    op['io'] = hard_io(r, 'save')
                ops.append(op)
                known.setdefault(f, []).append(o)
                op = {'f': 'load', 'n': f, 'how': how}
                if r.random() < 0.2:
                    op['poke'] = 1
                ops.append(op)
            n += len(ops)
        while len(ops) < n:
            x = r.random()
            if x < 0.45 or not any(f in known for f in files):
                f = r.choice(files)
                c = [o for o in sorted(objs) if (objs[o]['t'] in ('sc', 'vc')) == (names[f] == 'coef')]
                if not c:
                    names[f] = 'coef' if names[f] == 'patt' else 'patt'
                    continue
                o = r.choice(c)
                op = {'f': 'save', 'o': o, 'n': f, 'part': r.randint(1, 2)}
                known.setdefault(f, []).append(o)
                y = r.random()
                if prop == 'C06':
                    if y < 0.7:
                        op['io'] = soft_io(r)
                    if y > 0.75:
                        op['fork'] = 1
                        op.pop('io', None)
                elif prop == 'C07':
                    if y < 0.65:
                        op['io'] = hard_io(r, 'save')
                    elif y < 0.75:
                        op['irq'] = loguni(r, 1, 200)
                else:
                    if y < 0.4:
                        op['fork'] = 1
                        op['io'] = {'kill': r.choice([0, 1, 2, 3, 4, 5, 10, 40, 49, 50, 51, loguni(r, 1, 9000),
                                                      loguni(r, 1, 9000), loguni(r, 1, 600)])}
                        if r.random() < 0.3:
                            op['io']['chunk'] = [r.randrange(1, 1 << 40), r.choice([1, 5, 50, 500])]
                        if r.random() < 0.25:
                            op['io'] = {'faults': [[r.choice(['open', 'write', 'close']), loguni(r, 1, 4), 2, 0, 0]]}
                    elif y < 0.6:
                        op['io'] = soft_io(r)
                    elif y < 0.7:
                        op['io'] = hard_io(r, 'save')
                    elif y < 0.8:
                        op['irq'] = loguni(r, 1, 200)
                ops.append(op)
            elif x < 0.85:
                # mostly own files; the others' too
                mine = [f for f in files if f in known]
                f = r.choice(mine) if mine and r.random() < 0.6 else r.choice(sorted(known))
                o = r.choice(known[f])
                op = {'f': 'load', 'n': f, 'how': how_for(r, objs[o])}
                if objs[o]['t'] == 'vp' and r.random() < 0.5:
                    op['how'] = 'fdata'
                y = r.random()
                if prop == 'C06':
                    if y < 0.6:
                        op['io'] = soft_io(r)
                elif prop == 'C07':
                    if y < 0.65:
                        op['io'] = hard_io(r, 'load')
                    elif y < 0.75:
                        op['irq'] = loguni(r, 1, 200)
                elif y < 0.3:
                    op['io'] = soft_io(r)
                if r.random() < (0.6 if prop == 'C04' else 0.12):
                    op['poke'] = 1
                ops.append(op)
            elif x < 0.92 and prop == 'C08':
                f = r.choice(files)
                if f in known:
                    ops.append(tear_op(r, f))
                    ops.append({'f': 'load', 'n': f, 'how': how_for(r, objs[r.choice(known[f])])})
            elif x < 0.89 and prop != 'C08':
                vcs = [o for o in sorted(objs) if objs[o]['t'] == 'vc']
                if vcs:
                    f = 'v%d' % ti
                    ops.append({'f': 'vcoef', 'n': f, 'o': r.choice(vcs), 'd': r.randint(0, 5)})
                    for _ in range(r.randint(1, 2)):
                        op = {'f': 'load', 'n': f, 'how': 'vcoef'}
                        if r.random() < 0.5:
                            op['io'] = soft_io(r) if prop != 'C07' else hard_io(r, 'load')
                        if r.random() < (0.6 if prop == 'C04' else 0.1):
                            op['poke'] = 1
                        ops.append(op)
            elif x < 0.93 and nthr == 1 and prop != 'C08':
                ops.append({'f': 'edit', 'o': r.choice(sorted(objs)), 'd': r.randrange(1 << 30)})
            elif prop == 'C08' and nthr == 1 and x < 0.96 and 'vc' in [s['t'] for s in objs.values()]:
                o = [x for x in sorted(objs) if objs[x]['t'] == 'vc'][0]
                ops.append({'f': 'vcoef', 'n': 'v', 'o': o, 'd': r.randint(0, 5)})
                for _ in range(r.randint(1, 4)):
                    ops.append(tear_op(r, 'v'))
                    ops.append({'f': 'load', 'n': 'v', 'how': 'vcoef'})
                    if r.random() < 0.5:
                        ops.append({'f': 'vcoef', 'n': 'v', 'o': o, 'd': r.randint(0, 5)})
                        ops.append({'f': 'load', 'n': 'v', 'how': 'vcoef'})
        threads.append({'ops': ops})
    # both components of a vector pattern
    vps = [o for o in sorted(objs) if objs[o]['t'] == 'vp']
    if vps and r.random() < 0.7:
        o = r.choice(vps)
        for pt, f in ((1, 'th'), (2, 'ph')):
            op = {'f': 'save', 'o': o, 'n': f, 'part': pt}
            if prop != 'C08' and r.random() < 0.5:
                op['io'] = soft_io(r)
            threads[0]['ops'].append(op)
        if prop == 'C08' and r.random() < 0.8:
            threads[0]['ops'].append(tear_op(r, r.choice(['th', 'ph'])))
        op = {'f': 'load', 'n': 'th', 'n2': 'ph', 'how': 'vpatt'}
        if prop == 'C07':
            op['io'] = hard_io(r, 'load')
        elif prop == 'C06':
            op['io'] = soft_io(r)
        threads[0]['ops'].append(op)
    if prop == 'C09':
        for th in threads:
            for op in th['ops']:
                op.pop('io', None)
                op.pop('fork', None)
                if op['f'] in ('load', 'save') and r.random() < 0.6:
                    op['oom'] = ['array', loguni(r, 1, 20), int(r.random() < 0.25)]
    case = {'engine': 'disk', 'prop': prop, 'seed': seed, 'ext': 'plain', 'objects': objs, 'threads': threads,
            'sched': sched(r, nthr), 'hold': r.random() < 0.4, 'abs': r.random() < 0.3}
    if frozen:
        case['frozen'] = 1
    named(r, threads)
    for th in threads:
        for op in th['ops']:
            if op['f'] in ('save', 'load') and not op.get('fork') and prop != 'C09':
                chosen(r, op, nthr, 0.15, ('sw', 'sw') if prop == 'C06' else ('sw', 'sw', 'irq'))
    if large:
        for th in threads:
            for op in th['ops']:
                io = op.get('io') or {}
                if 'chunk' in io:
                    io['chunk'][1] = max(io['chunk'][1], 100) * r.choice([1, 10, 100])
                for k in ('kill', 'budget'):
                    if io.get(k, 0) > 100:
                        io[k] *= r.choice([1, 10, 40])
                for f in io.get('faults', ()):
                    if f[0] in ('read', 'write') and r.random() < 0.5:
                        f[1] = loguni(r, 1, 60)
    return case


def tear_op(r, f):
    k = r.choice(['trunc', 'trunc', 'trunc', 'zero', 'zerotail', 'block', 'lines', 'empty', 'trunc'])
    op = {'f': 'tear', 'n': f, 'kind': k, 'x': round(r.random(), 6), 'y': round(r.random() ** 3, 6)}
    if k == 'block':
        op['size'] = r.choice([16, 64, 512, 4096])
    if k in ('trunc', 'zero', 'zerotail') and r.random() < 0.5:
        op['abs'] = r.choice([-1, -2, -3, 1, 2, 3, 4, 5, 6, -23, -24, -25, -48, -49, -50])
    return op


def known08(which, seed):
    """The recorded overlaps of two operations on one name."""
    objs = {'O0': {'t': 'sc', 'n': 14, 'm': 14, 'd': 11, 'k': 'pos'},
            'O1': {'t': 'sc', 'n': 14, 'm': 14, 'd': 12, 'k': 'pos'}}
    if which == 0:
        th = [{'ops': [{'f': 'save', 'o': 'O0', 'n': 'x'}, {'f': 'load', 'n': 'x', 'how': 'coef'}]},
              {'ops': [{'f': 'save', 'o': 'O1', 'n': 'x'}]}]
        # the first caller loads; at its second read the other one saves
        script = [[1, 'open', 1, 0], [0, 'read', 2, 1]]
    else:
        th = [{'ops': [{'f': 'save', 'o': 'O0', 'n': 'x'}, {'f': 'load', 'n': 'x', 'how': 'coef'}]},
              {'ops': [{'f': 'save', 'o': 'O1', 'n': 'x'}]}]
        script = [[1, 'open', 1, 0], [0, 'write', 2, 1]]
    return {'engine': 'disk', 'prop': 'C08', 'seed': seed, 'ext': 'plain', 'objects': objs, 'threads': th,
            'sched': {'seed': 0, 'gap': 0.0}, 'script': script, 'hold': False, 'scenario': which}


# ------------------------------------------------------------------- random
def rcall(r, big):
    x = r.random()
    if x < 0.55:
        n, m = size(r, big)
        if r.random() < 0.06:
            n = loguni(r, 20, 90)
            m = r.choice([n, n, r.randint(0, n)])
        c = {'f': 'random_coefs', 'a': [n, m], 'kw': {}}
        if r.random() < 0.5:
            c['kw']['coef_type'] = r.choice([0, 1])
        y = r.random()
        if y < 0.25:
            c['kw'].update(mu=r.choice([0.5, -2.0, 10.0, 3, 1e-3]), sigma=r.choice([0.25, 2.0, 1.0, 5, 0.5]))
        elif y < 0.35:
            c['kw']['sigma'] = r.choice([0.1, 3.0, 1e-6, 1e6])
        elif y < 0.42:
            c['kw']['mu'] = r.choice([1.0, -0.5, 100.0])
        elif y < 0.47:
            c['kw'].update(mu=r.choice([0.0, 2.5]), sigma=0.0)
        elif y < 0.55:
            c['a'] += [r.choice([0.0, 1.5]), r.choice([2.0, 0.5])]
        if r.random() < 0.06:
            c['a'][1] = n + r.randint(1, 3)
        elif r.random() < 0.04:
            c['kw']['coef_type'] = r.choice([2, -1, 7])
    else:
        c = {'f': 'random_patt_uniform', 'a': [r.randint(2, big + 3), 2 * r.randint(1, big)], 'kw': {}}
        if r.random() < 0.04:
            c['a'] = [loguni(r, 15, 60), 2 * loguni(r, 8, 40)]
            c['tr'] = 'no'
        if r.random() < 0.5:
            c['kw']['patt_type'] = r.choice([0, 1])
        if r.random() < 0.06:
            c['a'][1] += 1
        elif r.random() < 0.04:
            c['kw']['patt_type'] = r.choice([2, -1])
    return c


def rnoise(r, names):
    x = r.random()
    n = r.choice(sorted(names))
    t = names[n]['t']
    if t == 'sc':
        op = r.choice([{'f': 'ispht', 'a': ['$' + n]}, {'f': 'copy', 'a': ['$' + n]}, {'f': 'L2_coef', 'a': ['$' + n]},
                       {'f': 'add', 'a': ['$' + n, 2]}, {'f': 'str', 'a': ['$' + n]}])
    elif t == 'vc':
        op = r.choice([{'f': 'vispht', 'a': ['$' + n]}, {'f': 'copy', 'a': ['$' + n]}, {'f': 'mag', 'a': ['$' + n]}])
    else:
        op = r.choice([{'f': 'spht' if t == 'bsp' else 'vspht', 'a': ['$' + n, 1, 1]}, {'f': 'is_symmetric', 'a': ['$' + n]}])
    if x < 0.2:
        op = {'f': r.choice(['zeros', 'ones']), 'a': [r.randint(0, 5), 0]}
    return op


def rand(prop, seed, tier):
    r = random.Random('%s/%d' % (prop, seed))
    mode = r.choice(['run', 'run', 'run', 'free', 'free', 'craft', 'stats'])
    if seed % 100 == 7 and tier == 'thorough' or seed % 10000000 == 7:
        mode = 'huge'
    case = {'engine': 'rand', 'prop': prop, 'seed': seed, 'ext': 'plain', 'mode': mode, 'calls': [], 'threads': []}
    big = r.choice([2, 4, 7, 12])

    def own():
        s = {'N0': {'t': 'sc', 'n': 4, 'm': 3, 'd': r.randrange(1 << 30)},
             'N1': {'t': 'bsp', 'n': 2, 'm': 2, 'r': 5, 'c': 6, 'd': r.randrange(1 << 30)},
             'N2': {'t': 'vc', 'n': 3, 'm': 3, 'd': r.randrange(1 << 30)},
             'N3': {'t': 'bvp', 'n': 2, 'm': 2, 'r': 5, 'c': 8, 'd': r.randrange(1 << 30)}}
        return {k: s[k] for k in sorted(s) if r.random() < 0.6} or {'N0': s['N0']}

    def faulted(op):
        x = r.random()
        if x < 0.2:
            op['irq'] = loguni(r, 1, 120)
        elif x < 0.35:
            op['oom'] = ['array', loguni(r, 1, 12), int(r.random() < 0.3)]
        return op
    if mode == 'run':
        nthr = r.choice([1, 1, 2, 3])
        case['calls'] = [rcall(r, big) for _ in range(r.randint(1, 6))]
        if r.random() < 0.5:        # the same call twice in a row
            case['calls'].insert(0, dict(case['calls'][0]))
        seeds = [r.randrange(1 << 32) for _ in range(r.randint(1, 3))]
        if r.random() < 0.3:
            seeds[0] = r.choice([0, 1, 12345, (1 << 32) - 1])
        ops = []
        for _ in range(r.randint(2, 6)):
            while r.random() < 0.6:
                ops.append(faulted(rcall(r, big)))
            if r.random() < 0.25:
                ops.append({'f': 'run', 'seed': r.choice(seeds), 'via': 'seed', 'irq': loguni(r, 1, 400)})
            ops.append({'f': 'run', 'seed': r.choice(seeds), 'via': r.choice(['seed', 'seed', 'state'])})
        case['threads'].append({'own': {}, 'ops': ops})
        for _ in range(nthr - 1):
            o = own()
            case['threads'].append({'own': o, 'ops': [rnoise(r, o) for _ in range(r.randint(1, 8))]})
    elif mode in ('free', 'craft'):
        nthr = r.choice([1, 2, 3, 4]) if mode == 'free' else 1
        for _ in range(nthr):
            ops = []
            for _ in range(r.randint(3, 14)):
                if mode == 'craft' and (not ops or r.random() < 0.4):
                    ops.append({'f': 'craft', 'd': r.randrange(1 << 30), 'kind': r.choice(['tiny', 'zero', 'edge', 'mix'])})
                c = faulted(rcall(r, big))
                if r.random() < 0.1:
                    c['tr'] = 'op'
                ops.append(chosen(r, c, nthr, 0.15))
            case['threads'].append({'own': {}, 'ops': ops})
    else:
        b = 400 if mode == 'huge' else r.choice([15, 25, 40])
        ops = []
        for _ in range(1 if mode == 'huge' else r.randint(1, 3)):
            ct = r.choice([0, 1]) if mode != 'huge' else 1
            c = {'f': 'random_coefs', 'a': [b, r.choice([b, b // 2])], 'kw': {'coef_type': ct}, 'tr': 'no'}
            if mode == 'huge':
                c['a'] = [b, b]
            elif r.random() < 0.6:
                c['kw'].update(mu=r.choice([0.0, 3.0, -1.0]), sigma=r.choice([1.0, 0.2, 4.0]))
            ops.append(c)
            ops.append({'f': 'random_patt_uniform', 'a': [b, 2 * (b // 2)], 'kw': {'patt_type': ct}, 'tr': 'no'})
        case['threads'].append({'own': {}, 'ops': ops})
    case['sched'] = sched(r, len(case['threads']))
    return case


# ------------------------------------------------------------------ plotting
PLOTS = [('simple_plot', None), ('plot_mag_on_sphere', 'sp'), ('plot_sphere_mag', 'sp'), ('plot_sphere_mag', 'vp'),
         ('pcolor_coefs', 'sc'), ('plot_coefs', 'sc')]


def plot(prop, seed, tier):
    from . import gen, plot_eng
    r = random.Random('%s/%d' % (prop, seed))
    geom = prop == 'C19'
    lib = 'present' if geom else r.choice(['absent', 'present', 'failing', 'failing', 'failing', 'failing'])
    fail = []
    if lib == 'failing':
        # the first runs go through every point, with a seeded exception
        k = seed % 10000000
        pts = plot_eng.POINTS
        fail.append([pts[k % len(pts)] if r.random() < 0.5 else r.choice(pts), r.choice(sorted(plot_eng.ANY))])
        if r.random() < 0.2:
            fail.append([r.choice(pts), r.choice(sorted(plot_eng.ANY))])
    if geom and r.random() < 0.3:
        return plot_twins(prop, seed, r)
    specs = {}
    g = gen.G(r, {})
    huge = r.random() < 0.06
    for t in ('sc', 'vc', 'bsp', 'bvp', 'sp', 'sc'):
        g.add_own(t, 5 if not huge else r.choice([20, 40, 60]))
    w = {'st': 2, 'vt': 2, 'arith': 2, 'norm': 2, 'cont': 3, 'patt': 2}
    n = r.randint(6, 16)
    guard = 0
    while n > 0 and guard < 200:
        guard += 1
        x = r.random()
        if x < (0.75 if geom else 0.3):
            name, kind = r.choice(PLOTS)
            if name == 'simple_plot':
                if r.random() < 0.5:
                    continue
                a = r.randint(0, 6)
                g.ops.append({'f': 'draw', 'name': name, 'a': [a, r.randint(-a, a)]})
            else:
                c = [o for o in sorted(g.specs) if gen.shape(g.specs[o])[0] == kind and
                     (kind != 'sc' or g.specs[o]['n'] > 0)]
                if not c:
                    continue
                g.ops.append({'f': 'draw', 'name': name, 'a': ['$' + r.choice(c)]})
        elif x < 0.36:
            g.ops.append({'f': 'file', 'a': ['$' + r.choice(sorted(g.specs))]})
        elif x < 0.39:
            g.ops.append({'f': 'verify', 'd': r.randrange(1 << 20)})
        elif x < 0.44:
            g.ops.append({'f': 'rnd', 'z': round(r.uniform(0.3, 20), 3)})
        else:
            op = gen.op_any(g, w)
            if op is None:
                continue
        if g.ops:
            g.ops[-1]['tr'] = 'no'
        if geom and g.ops and g.ops[-1]['f'] == 'draw':
            op = g.ops[-1]
            if op['name'] != 'simple_plot' and not huge and r.random() < 0.5:
                op['tr'] = 'line'
                if r.random() < 0.3:
                    op['irq'] = loguni(r, 1, 60)
            if r.random() < 0.2:
                op['drawfail'] = [loguni(r, 1, 12), r.choice(sorted(plot_eng.EXC))]
        n -= 1
    threads = [{'own': g.specs, 'ops': g.ops}]
    sch = {'seed': 0, 'gap': 0.0}
    if geom and r.random() < 0.5:       # split between two callers
        k = r.randint(0, len(g.ops))
        # results of dropped steps are simply missing
        threads = [{'own': g.specs, 'ops': g.ops[:k]}, {'own': g.specs, 'ops': g.ops[k:]}]
        sch = sched(r, 2)
    return {'engine': 'plot_eng', 'prop': prop, 'seed': seed, 'ext': 'plain', 'bare': True, 'lib': lib, 'fail': fail,
            'shared': {}, 'threads': threads, 'alloc': {'mode': 0, 'poison': 0xA5},
            'backend': r.random() < 0.7, 'sched': sch, 'probe': {}}


def plot_twins(prop, seed, r):
    """Callers drawing objects of the same shape by the same routines."""
    from . import gen
    nthr = r.choice([2, 2, 3])
    g = gen.G(r, {})
    for t in ('sc', 'sp', 'vp', 'bsp'):
        g.add_own(t, 5)
    plan = []
    for _ in range(r.randint(2, 6)):
        name, kind = r.choice(PLOTS[1:])
        c = [o for o in sorted(g.specs) if gen.shape(g.specs[o])[0] == kind and (kind != 'sc' or g.specs[o]['n'] > 0)]
        if c:
            plan.append({'f': 'draw', 'name': name, 'a': ['$' + r.choice(c)], 'tr': 'line'})
    threads = []
    for i in range(nthr):
        own = {n: dict(s, d=r.randrange(1 << 30)) for n, s in g.specs.items()}
        ops = [chosen(r, dict(o), nthr, 0.4) for o in plan]
        if r.random() < 0.2 and ops:
            ops[r.randrange(len(ops))]['irq'] = loguni(r, 1, 60)
        threads.append({'own': own, 'ops': ops})
    sch = sched(r, nthr)
    return {'engine': 'plot_eng', 'prop': prop, 'seed': seed, 'ext': 'plain', 'bare': True, 'lib': 'present', 'fail': [],
            'shared': {}, 'threads': threads, 'alloc': {'mode': 0, 'poison': 0xA5},
            'backend': True, 'sched': sch, 'probe': {}}


# -------------------------------------------------------------- verification
def bspec(r, big):
    n, m = size(r, big)
    rows, cols = grid(r, n, m)
    return {'n': n, 'm': m, 'r': rows, 'c': cols, 'd': r.randrange(1 << 30),
            'k': r.choice(['normal'] * 5 + ['int', 'sparse', 'single', 'pos', 'real', 'zero'])}


def verify(prop, seed, tier):
    r = random.Random('%s/%d' % (prop, seed))
    nthr = r.choice([1, 1, 1, 2, 3])
    big = r.choice([2, 4, 7, 10]) if r.random() > 0.03 else 32
    twins = nthr > 1 and r.random() < 0.5
    threads = []

    def group(pre, vec, src):
        if vec:
            return [(pre + 'th', 'th'), (pre + 'ph', 'ph'), (pre + 'c1', 'c1'), (pre + 'c2', 'c2')]
        return [(pre + 'p', 'patt'), (pre + 'c', 'coef'), (pre + 'f', 'fdata')]

    def checks(pre, vec):
        if vec:
            return {'f': 'check', 'w': r.choice(['vspht', 'vispht']), 'n': [pre + x for x in ('th', 'ph', 'c1', 'c2')]}
        w = r.choice(['spht', 'ispht', 'spht', 'ispht', 'fdata'])
        return {'f': 'check', 'w': w, 'n': [pre + ('f' if w == 'fdata' else 'p'), pre + 'c']}

    def faulted(op):
        x = r.random()
        if x < 0.2:
            op['io'] = soft_io(r)
        elif x < 0.42:
            op['io'] = hard_io(r, 'load')
        elif x < 0.52:
            op['irq'] = loguni(r, 1, 2500)
        elif x < 0.6:
            op['oom'] = ['array', loguni(r, 1, 60), int(r.random() < 0.2)]
        return op
    for ti in range(nthr):
        ops = []
        groups = []
        for j in range(r.randint(1, 2)):
            vec = r.random() < 0.5
            src = bspec(r, big)
            pre = 't%dg%d' % (ti, j)
            fs = group(pre, vec, src)
            groups.append((pre, vec, src, fs))
            for n, w in fs:
                ops.append({'f': 'put', 'n': n, 'src': src, 'what': w})
        for _ in range(r.randint(3, 9)):
            pre, vec, src, fs = r.choice(groups)
            n, w = r.choice(fs)
            x = r.random()
            if x < 0.3:
                op = {'f': 'alter', 'n': n, 'x': r.choice([0.0, r.random(), r.random(), 0.9999]),
                      'v': [r.choice([0.0, 1e-3, 1.0, -2.5, 1e-7]), r.choice([0.0, 1e-3, 0.5])]}
                if r.random() < 0.4:
                    op['mtime'] = 1
                ops.append(op)
            elif x < 0.42:       # a stale version of the file
                s = dict(src)
                s['d'] = r.choice([r.randrange(1 << 30), src['d']])
                if r.random() < 0.3:
                    s = bspec(r, big)
                ops.append({'f': 'put', 'n': n, 'src': s, 'what': w, 'mtime': int(r.random() < 0.4)})
                if r.random() < 0.35 and vec:       # two coefficient sets of as many values but another shape
                    (s['n'], s['m']), t = r.sample([(5, 0), (2, 1)] if r.random() < 0.5 else [(8, 0), (2, 2)], 2)
                    ops[-1] = {'f': 'put', 'n': pre + 'c1', 'src': s, 'what': 'c1'}
                    ops.append({'f': 'put', 'n': pre + 'c2', 'src': dict(s, n=t[0], m=t[1]), 'what': 'c2'})
            elif x < 0.55:
                ops.append(tear_op(r, n))
            elif x < 0.65:       # everything consistent again
                for n, w in fs:
                    ops.append({'f': 'put', 'n': n, 'src': src, 'what': w, 'mtime': int(r.random() < 0.4)})
            for _ in range(r.randint(1, 2)):
                ops.append(chosen(r, faulted(checks(pre, vec)), nthr, 0.3))
        threads.append({'ops': ops})
    if twins:           # everyone does the same to files of the same sizes
        base = json.dumps(threads[0]['ops'])
        for i in range(1, nthr):
            ops = json.loads(base.replace('"t0g', '"t%dg' % i))
            k = {}
            for op in ops:
                if 'src' in op:
                    op['src']['d'] = k.setdefault(op['src']['d'], r.randrange(1 << 30))
            threads[i] = {'ops': ops}
    named(r, threads)
    return {'engine': 'verify_eng', 'prop': prop, 'seed': seed, 'ext': 'plain', 'objects': {}, 'threads': threads,
            'sched': sched(r, nthr), 'hold': r.random() < 0.3, 'abs': r.random() < 0.5}


# ----------------------------------------------------------- packaged setting
def setting(prop, seed, tier):
    from . import gen
    r = random.Random('%s/set/%d' % (prop, seed))
    v = r.choice(['"False"', '"False"', 'false', '"True"', 'true'])
    nthr = r.choice([1, 1, 2, 3])
    shared, threads = {}, []
    for i in range(r.randint(1, 2)):
        shared['S%d' % i] = gen.spec(r, r.choice(['sc', 'vc', 'bsp', 'bvp']), 4)
    shapes = {n: gen.shape(s) for n, s in shared.items()}
    P = {'irq': 0.1, 'oom': 0.08}
    for _ in range(nthr):
        g = gen.G(r, shapes)
        for t in ('sc', 'vc', 'bsp', 'bvp'):
            g.add_own(t, 4)
        n = r.randint(3, 8)
        guard = 0
        while n > 0 and guard < 100:
            guard += 1
            op = gen.op_any(g, {'st': 4, 'vt': 4, 'arith': 0.4})
            if op is None:
                continue
            n -= 1
            gen.fault(g, op, P)
            if nthr == 1 and r.random() < 0.5 and not op.get('irq'):
                op['tr'] = 'no'
        threads.append({'own': g.specs, 'ops': g.ops})
    return {'engine': 'setting', 'prop': prop, 'seed': seed, 'ext': 'plain', 'bare': True, 'setting': v, 'off': v in ('"False"', 'false'),
            'fail': r.choice([0, 0, 1, 2]), 'shared': shared, 'threads': threads, 'alloc': {'mode': 0, 'poison': 0xA5},
            'sched': sched(r, nthr), 'probe': {}}


def generate(prop, seed, tier):
    if prop == 'C05':
        return setting(prop, seed, tier)
    if prop == 'C08' and seed % 10000000 < 2:
        return known08(seed % 10000000, seed)
    if prop in ('C04', 'C06', 'C07', 'C08', 'C09'):
        return disk(prop, seed, tier)
    if prop == 'C14':
        return rand(prop, seed, tier)
    if prop in ('C15', 'C19'):
        return plot(prop, seed, tier)
    if prop == 'C16':
        return verify(prop, seed, tier)
    raise KeyError(prop)
