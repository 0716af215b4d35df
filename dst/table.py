"""The checks: number of runs per tier, and what the evidence says about them."""
REAL = ['spherepy (all Python modules, from /repo)', '_csphi C extension (built from /repo/src)', 'numpy 1.26 incl. pocketfft',
        'CPython 3.12']
STUB = ['thread scheduler (one caller at a time, switched at traced lines)', 'malloc of _csphi and pocketfft and numpy array memory (tracking allocator)',
        'plotting library (recording stub)']
W_RULE = ('A run is one seeded program: 1-4 caller threads over shared and private objects, preempted at seeded source lines, with '
          'interrupts, failing allocations and backend switches. Non-trivial: it executed at least one operation of the property; '
          'distinct: by digest of all outcomes and result bits.')
W_ASSUME = ['preemption happens at source lines (some runs: bytecodes) of spherepy, not inside C code, which runs under the GIL',
            'the reference model (dst/refmodel.py) is a correct implementation of the harmonic sums',
            'x86-64, numpy as installed']


def world(quick, thorough, **kw):
    d = dict(runs={'quick': quick, 'thorough': thorough}, rule=W_RULE, real=REAL, stub=STUB, assumptions=W_ASSUME)
    d.update(kw)
    return d


D_RULE = ('A run is one seeded program of 1-3 callers that save, load, edit and reload coefficient and pattern files on simulated '
          'storage, with partial transfers, interrupted and failing system calls, full disks, killed writer processes, torn files and '
          'interrupts, switched at source lines and at system calls. Non-trivial: every run saves and loads; distinct: by digest of '
          'all outcomes, fired faults and loaded bits.')


def disk(quick, thorough, **kw):
    kw.setdefault('rule', D_RULE)
    return world(quick, thorough, stub=STUB[:1] + ['system calls on the store directory (fault-injecting shim around '
                 'open, read, write, close, fstat, lseek, fsync, rename, unlink)', 'plotting library (recording stub)'],
                 assumptions=['a killed process loses what it had not handed to the kernel; the kernel keeps the rest',
                              'callers are switched at source lines of spherepy and before each system call on a data file',
                              'x86-64 Linux, CPython and numpy as installed'], **kw)


R_RULE = ('A run is one seeded program of 1-4 callers making random objects and other calls: either a fixed sequence of factory calls '
          'repeated after reseeding (amid interrupted and failed calls and other callers) and compared with a fresh process, or free '
          'draws, also from crafted generator states, whose objects are checked one by one and pooled statistically. Distinct: by digest of outcomes.')
R_ASSUME = ['statistical bounds are at least 6 sigma on fixed seeds', 'numpy legacy generator (MT19937)', 'preemption at source lines']

P_RULE = ('A run imports the package in a fresh process in which the plotting library is absent, present (recording stub), or fails with '
          'one of 29 exception types at one or two of its import points, then makes 6-16 seeded calls of all kinds, including plotting ones. '
          'Distinct: by digest of all outcomes.')
P_ASSUME = ['the import structure of the plotting library is that of the stub', 'the drawing itself is not rendered']

G_RULE = ('A run is one seeded program of one or two callers that plot patterns and coefficient sets, with other computations in between, '
          'interrupts at source lines and exceptions raised by the plotting library in the middle of a drawing; every array handed to the '
          'library by a completed drawing is compared with the geometry prescribed. Distinct: by digest of all outcomes.')

V_RULE = ('A run is one seeded program of 1-3 callers that verify stored coefficient and pattern files against each other while the files are '
          'replaced, altered in one value, made stale (also with an unchanged time stamp) or torn, with failing reads, interrupts and failing '
          'allocations. Distinct: by digest of all outcomes and reported numbers.')

CHECKS = {
    'C01': world(2600, 40000), 'C02': world(2200, 40000), 'C03': world(2400, 20000), 'C04': world(3000, 40000),
    'C05': world(2500, 30000),
    'C06': disk(3500, 60000), 'C07': disk(4000, 80000), 'C08': disk(4500, 100000),
    'C09': world(3000, 40000),
    'C10': world(900, 30000, flavours=('plain', 'hard')),
    'C11': world(4000, 80000), 'C12': world(4500, 80000), 'C13': world(3000, 60000),
    'C14': world(2500, 60000, rule=R_RULE, assumptions=R_ASSUME,
                 stub=STUB[:1] + ['array memory (tracking allocator)', 'states of the numpy global generator', 'plotting library (recording stub)']),
    'C15': world(3500, 40000, rule=P_RULE, assumptions=P_ASSUME, stub=['plotting library (a stub with twelve modules that records what is drawn)']),
    'C19': world(3000, 60000, rule=G_RULE, assumptions=P_ASSUME + W_ASSUME[:1], stub=['plotting library (a stub with twelve modules that records what is drawn)', STUB[0]]),
    'C16': disk(2500, 60000, **dict(rule=V_RULE)),
    'C17': world(3500, 80000), 'C18': world(2800, 60000),
}
