"""What the engines share: counting, reporting, invoking one call under faults."""
import hashlib
import sys

from . import kernel, sim, world
from .world import Found

SC = {n: i for i, n in enumerate(sim.SC_NAMES)}
EINTR = 4


class Base(object):
    def __init__(self, case):
        self.case = case
        self.prop = case['prop']
        self.relevant = world.RELEVANT[self.prop]
        self.violation = None
        self.other = {}
        self.st = {}
        self.findings = []
        self.log = hashlib.blake2b(digest_size=16)
        self.k = None
        self.held = []
        self.sample = None

    def count(self, k, n=1):
        self.st[k] = self.st.get(k, 0) + n

    def report(self, tags, text, t=None, op=None, i=None):
        """tags: one or several names of the rule broken."""
        if isinstance(tags, str):
            tags = [tags]
        for tag in tags:
            if tag in self.relevant or tag.split(':')[0] in self.relevant:
                if self.violation is None:
                    self.violation = {'tag': tag, 'text': text, 'thread': t, 'index': i,
                                      'op': op and op.get('f')}
                raise Found()
        for tag in tags:
            self.other[tag] = self.other.get(tag, 0) + 1

    def trap(self, f, *a):
        try:
            return f(*a)
        except Found:
            return None

    def note(self, *what):
        self.log.update(repr(what).encode())

    def simulate(self, bodies, sched, max_steps=3000000):
        """Runs the bodies as simulated callers."""
        self.k = kernel.Kernel(seed=sched.get('seed', 0), gap=sched.get('gap', 0.0),
                               switches=sched.get('switches'), max_steps=max_steps)
        for n, b in bodies:
            self.k.spawn(b, n)
        try:
            self.k.run()
        except Found:
            pass
        except kernel.SimDeadlock:
            self.trap(self.report, 'hang', 'all callers wait for each other')
        except kernel.SimStepLimit:
            self.trap(self.report, 'hang', 'no end after %d steps' % self.k.step)

    def result(self):
        k = self.k
        if k is not None:
            self.count('steps', k.step)
            self.count('switches', len(k.taken))
        self.count('runs')
        out = {'st': self.st, 'digest': self.log.hexdigest(), 'taken': k.taken if k else [],
               'pairs': [world.hash_pair(p) for p in sorted(k.pairs, key=repr)] if k else [],
               'other': self.other, 'findings': sorted(set(self.findings))}
        if self.violation:
            out['violation'] = self.violation
        return out


def set_io(io):
    """Arms the storage faults of one call for the calling thread."""
    L = sim.L
    L.sim_io_clear()
    if not io:
        return
    if io.get('chunk'):
        L.sim_io_chunk(*io['chunk'])
    if io.get('blk'):
        L.sim_io_blksize(io['blk'])
    if io.get('budget') is not None:
        L.sim_io_budget(io['budget'])
    if io.get('kill') is not None:
        L.sim_io_killbytes(io['kill'])
    for sc, k, act, arg, p in io.get('faults', ()):
        L.sim_io_fault(SC[sc], k, act, arg, p)


def hard(names):
    return sum(sim.L.sim_io_hard(SC[n]) for n in names)


def traced_call(t, tracer, op, f):
    """-> (how, value) with how in ret, exc, irq."""
    t.irq_fired = False
    if op.get('irq'):
        t.irq_at = t.lines + op['irq']
    t.opcodes = op.get('tr') == 'op' and not t.irq_at
    t.top, t.toplines, t.at_top = None, 0, None
    if op.get('top') and op.get('tr') != 'no':
        t.at_top = {k: a for k, a in op['top'] if a != 'irq' or op.get('tr') != 'op'}
    try:
        if op.get('tr') != 'no':
            sys.settrace(tracer)
        try:
            r = f()
        finally:
            sys.settrace(None)
            t.irq_at = t.top = t.at_top = None
    except kernel.SimInterrupt as e:
        return 'irq', e
    except (kernel.SimStepLimit, kernel.SimDeadlock, sim.HarnessError):
        raise
    except Exception as e:
        return 'exc', e
    return 'ret', r
