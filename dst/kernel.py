"""The simulation kernel: caller threads that run one at a time, a scheduler that
decides at every traced line which one runs, and the injection points.

Real threads, each parked on its own lock; the running thread hands control over
only inside the kernel.  A schedule is the list of decisions actually taken:
{step: thread id}.  Replaying the list (and nothing else) repeats the run.
"""
import _thread
import dis
import random
import sys
import threading

_alloc = _thread.allocate_lock
PUSH_EXC_INFO = dis.opmap.get('PUSH_EXC_INFO', -1)


class SimInterrupt(KeyboardInterrupt):
    """The injected Ctrl-C."""


class SimDeadlock(BaseException):
    pass


class SimStepLimit(BaseException):
    pass


KERNEL = None          # the kernel of the run in progress
TRACED_PREFIX = None   # files below this directory are traced


class SimThread(object):
    __slots__ = ('tid', 'gate', 'body', 'done', 'blocked', 'error', 'lines',
                 'irq_at', 'irq_fired', 'in_op', 'loc', 'name', 'opcodes',
                 'top', 'toplines', 'at_top')

    def __init__(self, tid, body, name):
        self.tid = tid
        self.gate = _alloc()
        self.gate.acquire()
        self.body = body
        self.done = False
        self.blocked = None
        self.error = None
        self.lines = 0
        self.irq_at = None
        self.irq_fired = False
        self.in_op = False
        self.loc = ('', 0)
        self.name = name
        self.opcodes = False
        self.top = None         # outermost traced frame of the call, and what to do
        self.toplines = 0       # at certain lines of it: line count -> action
        self.at_top = None


class Kernel(object):
    def __init__(self, seed=0, gap=0.0, switches=None, max_steps=3000000):
        """gap: probability of preemption per traced line.  switches: explicit
        schedule for a replay (list of [step, tid])."""
        self.rng = random.Random(seed)
        self.gap = gap
        self.replay = None if switches is None else dict((int(s), int(t)) for s, t in switches)
        self.taken = []
        self.step = 0
        self.max_steps = max_steps
        self.threads = []
        self.cur = None
        self.main_gate = _alloc()
        self.main_gate.acquire()
        self.pairs = set()
        self.deadlock = False
        self.limit = False
        self.next_at = self._draw()

    # ------------------------------------------------------------- schedule
    def _draw(self):
        if self.replay is not None:
            later = [s for s in self.replay if s > self.step]
            return min(later) if later else -1
        if self.gap <= 0:
            return -1
        g = 1
        # geometric with a heavy tail of long uninterrupted stretches
        p = self.gap
        while self.rng.random() >= p and g < 100000:
            g += 1
        return self.step + g

    def spawn(self, body, name):
        t = SimThread(len(self.threads), body, name)
        self.threads.append(t)
        return t

    def runnable(self):
        return [t for t in self.threads if not t.done and t.blocked is None]

    def _choose(self, forced):
        """Next thread; with forced, the current one cannot go on."""
        rs = self.runnable()
        if not rs:
            return None
        if self.replay is not None:
            tid = self.replay.get(self.step)
            for t in rs:
                if t.tid == tid:
                    return t
            if forced:
                return rs[0]
            return self.cur
        if forced:
            t = rs[self.rng.randrange(len(rs))]
        else:
            others = [t for t in rs if t is not self.cur]
            t = others[self.rng.randrange(len(others))] if others else self.cur
        return t

    def _switch(self, t):
        me = self.cur
        if t is me:
            return
        self.taken.append([self.step, t.tid])
        if me is not None:
            self.pairs.add((me.loc, t.loc))
        self.cur = t
        t.gate.release()
        if me is not None and not me.done:
            me.gate.acquire()

    def tick(self):
        """Called by the running thread at each traced line."""
        self.step += 1
        if self.step >= self.max_steps:
            self.limit = True
            raise SimStepLimit()
        if self.step == self.next_at:
            t = self._choose(False)
            if t is not None and t is not self.cur:
                self._switch(t)
            self.next_at = self._draw()

    def iopoint(self, force=False):
        """The running thread is about to make a system call, or to be preempted."""
        self.step += 1
        if self.step == self.next_at or force and self.replay is None:
            t = self._choose(False)
            if t is not None and t is not self.cur:
                self._switch(t)
            self.next_at = self._draw()

    def handover(self, tid):
        """Hands control to a certain thread."""
        self.step += 1
        t = self.threads[tid]
        if not t.done and t.blocked is None and t is not self.cur:
            self._switch(t)
        self.next_at = self._draw()

    def point(self):
        """A voluntary yield point between operations."""
        if len(self.threads) > 1:
            self.step += 1
            if self.step == self.next_at or (self.replay is None and self.gap > 0
                                             and self.rng.random() < 0.3):
                t = self._choose(False)
                if t is not None and t is not self.cur:
                    self._switch(t)
                self.next_at = self._draw()

    def block(self, on):
        """The running thread waits for `on` (a SimLock)."""
        me = self.cur
        me.blocked = on
        self.step += 1
        t = self._choose(True)
        if t is None:
            me.blocked = None
            self.deadlock = True
            raise SimDeadlock()
        self._switch(t)
        if self.next_at != -1 and self.next_at <= self.step:
            self.next_at = self._draw()

    # ------------------------------------------------------------------ run
    def run(self):
        global KERNEL
        KERNEL = self
        try:
            for t in self.threads:
                _thread.start_new_thread(self._main, (t,))
            self.step += 1
            first = self._choose(True)
            if first is not None:
                self.taken.append([self.step, first.tid])
                self.cur = first
                first.gate.release()
                self.main_gate.acquire()
        finally:
            KERNEL = None
        for t in self.threads:
            if t.error is not None:
                raise t.error

    def _main(self, t):
        t.gate.acquire()
        try:
            t.body(t)
        except BaseException as e:   # harness errors and kernel stops
            t.error = e
        sys.settrace(None)
        t.done = True
        self.step += 1
        n = self._choose(True)
        if n is None:
            stuck = [x for x in self.threads if not x.done]
            if stuck:
                self.deadlock = True
                self._abandon(stuck)
            self.cur = None
            self.main_gate.release()
            return
        self._switch(n)
        if self.next_at != -1 and self.next_at <= self.step:
            self.next_at = self._draw()

    def _abandon(self, stuck):
        for x in stuck:
            x.error = SimDeadlock()


# ------------------------------------------------------------------- tracing
def make_tracer(kern, t):
    prefix = TRACED_PREFIX

    def local(frame, event, arg):
        if event == 'line' or event == 'opcode':
            t.lines += 1
            t.loc = (frame.f_code.co_name, frame.f_lineno)
            kern.tick()
            if t.at_top is not None and frame is t.top and event == 'line':
                t.toplines += 1
                act = t.at_top.get(t.toplines)
                if act == 'sw':
                    kern.iopoint(True)
                elif act == 'irq':
                    t.irq_at = t.lines
                elif act is not None:
                    act()
            if t.irq_at is not None and t.lines >= t.irq_at and \
                    frame.f_code.co_code[frame.f_lasti] != PUSH_EXC_INFO:
                # (no signal is handled between an exception and its handler)
                t.irq_at = None
                t.irq_fired = True
                raise SimInterrupt()
        return local

    def glob(frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(prefix) and co.co_name != '<module>':
                if t.at_top is not None and t.top is None:
                    t.top = frame
                if t.opcodes:
                    frame.f_trace_opcodes = True
                return local
        return None
    return glob


# -------------------------------------------------------------- simulated locks
class SimLock(object):
    """Stands in for threading.Lock in the code under test; a waiting thread
    hands control to the scheduler instead of stopping the process."""
    _re = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def _me(self):
        k = KERNEL
        if k is not None and k.cur is not None:
            return k.cur
        return 'main'

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        k = KERNEL
        while self.owner is not None and not (self._re and self.owner is me):
            if not blocking or k is None or me == 'main' or timeout >= 0:
                return False
            k.block(self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0 or not self._re:
            self.count = 0
            self.owner = None
            k = KERNEL
            if k is not None:
                for t in k.threads:
                    if t.blocked is self:
                        t.blocked = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    _re = True


def patch_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock
