"""Worker process: loaded once with numpy and the harness (never the package under
test); forks one child per simulated run.

stdin: one JSON job per line {"id", "case"} or {"id", "gen": [prop, seed, tier]};
stdout: one JSON result per line."""
import gc
import json
import os
import resource
import select
import signal
import sys
import time

REPO, SCRATCH = sys.argv[1], sys.argv[2]
CPU_LIMIT = int(os.environ.get('DST_CPU', '60'))
WALL_LIMIT = 2 * CPU_LIMIT


def child(job, w):
    os.environ['DST_CHILD'] = '1'
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    from . import gen
    case = job.get('case')
    if case is None:
        case = gen.generate(*job['gen'])
        send(w, {'case': case})
    engine = __import__('dst.' + case['engine'], fromlist=['x'])
    from . import sim
    try:
        sim.prepare(REPO, SCRATCH, case)
        gc.freeze()
        out = engine.run(case)
        if job.get('id', 9) < 2 and 'gen' in job:
            out['sample'] = ('seed %d: ' % job['gen'][1] + json.dumps(case, sort_keys=True))[:3000]
    except BaseException as e:
        import traceback
        out = {'harness': '%s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc()[-3000:]}
    send(w, {'out': out})


def send(w, obj):
    b = json.dumps(obj).encode() + b'\n'
    while b:
        n = os.write(w, b)
        b = b[n:]


def main():
    import numpy   # noqa
    import numpy.fft   # noqa
    import random, pickle, ctypes, hashlib, tempfile, struct  # noqa
    import threading  # noqa
    import six  # noqa
    import six.moves  # noqa
    from . import gen, gen2, kernel, ops, refmodel, sim, world, disk, setting, rand, verify_eng, plot_eng  # noqa
    numpy.random.seed(1)
    out = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    gc.collect()
    gc.freeze()
    for line in sys.stdin:
        job = json.loads(line)
        r, w = os.pipe()
        t0 = time.time()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.setpgid(0, 0)
                sys.stdin.close()
                child(job, w)
            finally:
                os._exit(0)
        os.close(w)
        buf = b''
        late = False
        while True:
            left = WALL_LIMIT - (time.time() - t0)
            if left <= 0:
                late = True
                os.kill(pid, signal.SIGKILL)
                left = 5
            rd, _, _ = select.select([r], [], [], left)
            if rd:
                d = os.read(r, 1 << 16)
                if not d:
                    break
                buf += d
            elif late:
                break
        os.close(r)
        _, st = os.waitpid(pid, 0)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        res = {'id': job['id'], 'case': job.get('case'), 'sec': round(time.time() - t0, 4)}
        for ln in buf.split(b'\n'):
            if ln:
                try:
                    o = json.loads(ln)
                except ValueError:
                    continue
                res.update(o)
        if 'out' not in res:
            sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
            if late or sig == signal.SIGXCPU:
                v = {'tag': 'hang', 'text': 'the run does not end', 'op': None}
                res['out'] = {'violation': v, 'st': {}}
            elif sig and sig != signal.SIGKILL:
                v = {'tag': 'died', 'text': 'the process was killed by signal %d' % sig, 'op': None}
                res['out'] = {'violation': v, 'st': {}}
            elif os.WIFEXITED(st) and res.get('case') is not None and os.WEXITSTATUS(st) not in (0,):
                v = {'tag': 'died', 'text': 'the process exited with status %d' % os.WEXITSTATUS(st), 'op': None}
                res['out'] = {'violation': v, 'st': {}}
            else:
                res['out'] = {'harness': 'child ended without a result (status %d)' % st}
        v = res['out'].get('violation')
        if not v and not job.get('keep'):
            res.pop('case', None)
        os.write(out, json.dumps(res).encode() + b'\n')


main()
