"""Setting engine (part of C05): the package, with its packaged backend setting
written in one of its forms, is imported afresh while reading that setting is
disturbed, and then used by simulated callers that never select a backend
themselves.

Case: a world case with "setting": JSON text of the value, "io": faults of the
import, "off": the setting turns the native backend off."""
import json
import os
import shutil
import sys
import tempfile

from . import base, kernel, sim, world


class SettingWorld(world.World):
    def run(self):
        d = tempfile.mkdtemp(prefix='set', dir=sim.SCRATCH)
        try:
            return self.go(d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def go(self, d):
        case = self.case
        shutil.copytree(os.path.join(sim.REPO, 'spherepy'), os.path.join(d, 'spherepy'),
                        ignore=lambda p, ns: [n for n in ns if n in ('__pycache__', 'tests', 'test') or n.endswith(('.so', '.pyc'))])
        p = os.path.join(d, 'spherepy', 'pkg_info.json')
        with open(p) as f:
            info = json.load(f)
        info['use_cext'] = json.loads(case['setting'])
        with open(p, 'w') as f:
            json.dump(info, f)
        self.count('setting ' + case['setting'])
        repo = sim.REPO
        sim.REPO = d
        sys.path.insert(0, d)
        kernel.TRACED_PREFIX = os.path.join(d, 'spherepy') + os.sep
        sim.stub_plotting()
        try:
            if case.get('fail'):
                self.failed_import(d, case['fail'])
            sim.load_package(os.path.join(sim.SCRATCH, 'ext'))
        except sim.HarnessError:
            raise
        except Exception as e:
            self.trap('backend', 'importing the package with use_cext = %s raised %r' % (case['setting'], e))
            self.count('runs')
            return {'st': self.st, 'digest': '', 'taken': [], 'pairs': [], 'other': {}, 'violation': self.violation}
        finally:
            sim.REPO = repo
        sim.backend = lambda v=None: None
        sim.alloc_on(0, 0xA5)
        self.native0 = sim.L.sim_total(sim.ID_CSPHI)
        return world.World.run(self)

    def failed_import(self, d, k):
        """The first import fails while reading the setting, the next one works."""
        import builtins
        real, n = builtins.open, [0]

        def fake(path, *a, **kw):
            if str(path).endswith('pkg_info.json'):
                n[0] += 1
                if n[0] == k:
                    self.count('fault:setting unreadable')
                    raise OSError(5, 'Input/output error', str(path))
            return real(path, *a, **kw)
        builtins.open = fake
        try:
            import spherepy   # noqa
        except OSError:
            pass
        finally:
            builtins.open = real
        for m in list(sys.modules):
            if m == 'spherepy' or m.startswith('spherepy.'):
                del sys.modules[m]

    def step(self, ti, t, tracer, own, conts, i, op):
        world.World.step(self, ti, t, tracer, own, conts, i, op)
        n = sim.L.sim_total(sim.ID_CSPHI) - self.native0
        if self.case['off'] and n:
            self.report('backend', 'with the packaged setting use_cext = %s, %s ran native code' % (
                self.case['setting'], op['f']), ti, op, i)
        self.count('native work areas', n)
        self.native0 += n


def run(case):
    return SettingWorld(case).run()
