"""Builds what a check needs from /repo's working tree into a scratch directory."""
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
HARD = '-fsanitize=bounds -fsanitize-undefined-trap-on-error -fstack-protector-all -ftrivial-auto-var-init=pattern'


class BuildError(Exception):
    pass


def env(scratch, **kw):
    e = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'HOME': scratch,
         'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': os.path.join(scratch, 'pyc'),
         'PYTHONHASHSEED': os.environ.get('DST_HASHSEED', '0'), 'OPENBLAS_NUM_THREADS': '1',
         'OMP_NUM_THREADS': '1', 'MPLBACKEND': 'Agg',
         'MPLCONFIGDIR': scratch, 'PYTHONWARNINGS': 'ignore', 'LC_ALL': 'C.UTF-8', 'TMPDIR': scratch,
         'PYTHONPATH': os.path.dirname(HERE)}
    e.update(kw)
    return e


def sh(cmd, cwd, e):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode('utf8', 'replace')[-4000:]))


def build(repo, flavours=('plain',)):
    scratch = tempfile.mkdtemp(prefix='spherepy-dst-')
    try:
        e = env(scratch)
        procs = []
        for fl in flavours:
            ee = dict(e)
            if fl == 'hard':
                ee['CFLAGS'] = HARD
            ext = os.path.join(scratch, 'ext' if fl == 'plain' else 'ext_' + fl)
            os.mkdir(ext)
            cmd = [PY, 'setup.py', '-q', 'build_ext', '--build-lib', ext, '--build-temp',
                   os.path.join(scratch, 'tmp_' + fl), '--force']
            procs.append((cmd, subprocess.Popen(cmd, cwd=repo, env=ee, stdout=subprocess.PIPE,
                                                stderr=subprocess.STDOUT)))
        sh(['gcc', '-O2', '-Wall', '-shared', '-fPIC', '-fvisibility=hidden', '-o', os.path.join(scratch, 'shim.so'),
            os.path.join(HERE, 'shim.c'), '-ldl'], scratch, e)
        inc = subprocess.run([PY, '-c', 'import numpy;print(numpy.get_include())'], env=e,
                             stdout=subprocess.PIPE, cwd=scratch).stdout.decode().strip()
        pyinc = subprocess.run([PY, '-c', 'import sysconfig;print(sysconfig.get_paths()["include"])'], env=e,
                               stdout=subprocess.PIPE, cwd=scratch).stdout.decode().strip()
        os.mkdir(os.path.join(scratch, 'lib'))
        sh(['gcc', '-O2', '-shared', '-fPIC', '-w', '-I', inc, '-I', pyinc, '-o',
            os.path.join(scratch, 'lib', 'npsim.so'), os.path.join(HERE, 'npsim.c'),
            os.path.join(scratch, 'shim.so')], scratch, e)
        ee = dict(e)
        del ee['PYTHONDONTWRITEBYTECODE']
        subprocess.run([PY, '-m', 'compileall', '-q', os.path.join(repo, 'spherepy')], env=ee, cwd=scratch,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for cmd, p in procs:
            o, _ = p.communicate()
            if p.returncode:
                raise BuildError('%s\n%s' % (' '.join(cmd), o.decode('utf8', 'replace')[-4000:]))
        return scratch
    except BaseException:
        shutil.rmtree(scratch, ignore_errors=True)
        raise
