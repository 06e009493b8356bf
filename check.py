#!/usr/bin/env python3
"""python3 check.py <property id>: decide one property on /repo's current working tree."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


CRASH = {4: 'SIGILL', 6: 'SIGABRT', 7: 'SIGBUS', 8: 'SIGFPE', 11: 'SIGSEGV'}


def die_with_parent():
    import ctypes
    ctypes.CDLL(None).prctl(1, 9)


def supervise(pid, env):
    """run the check in a process of its own: the compiled code under test can take the process down, which is then the violation"""
    tmp = tempfile.mkdtemp(prefix='lslverif.top.')
    env.update(TMPDIR=tmp, LSLVERIF_TRAIL=os.path.join(tmp, 'trail'))
    try:
        rc = subprocess.call([PY, os.path.abspath(__file__)] + sys.argv[1:], env=env, preexec_fn=die_with_parent)
        if -rc not in CRASH:
            return rc
        try:
            kind, name, what = json.load(open(env['LSLVERIF_TRAIL']))
        except (OSError, ValueError):
            return rc
        if kind == 'done':
            return int(name)
        ev = os.path.join(HERE, 'evidence')
        os.makedirs(ev, exist_ok=True)
        msg = 'the process ended with %s' % CRASH[-rc]
        rp = os.path.join(ev, 'replay_%s.json' % pid)
        with open(rp, 'w') as fh:
            json.dump({'property': pid, 'violations': [{'obligation': name, 'message': msg, 'detail': {kind: what}, 'replayed': kind != 'contract'}]}, fh, indent=1)
        print('failed obligation: %s: %s (%s %s)' % (name, msg, kind, what[:300]))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, ' no-failing-input-found' if kind == 'contract' else ''))
        return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    pid = sys.argv[1]
    if os.environ.get('LSLVERIF_CHILD') != '1':
        env = dict(os.environ, LSLVERIF_CHILD='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   PYTHONWARNINGS='ignore', TZ='UTC', LANG='C.UTF-8')
        env.pop('PYTHONPATH', None)
        sys.exit(supervise(pid, env))
    sys.path.insert(0, HERE)
    sys.path.append(VT)
    sys.setrecursionlimit(20000)
    import importlib
    mod = importlib.import_module('checks.' + pid.lower())
    from pv.runner import Runner
    r = Runner(pid, level=getattr(mod, 'LEVEL', 'proof'))
    mod.run(r)
    rc = r.finish()
    sys.exit(rc)


if __name__ == '__main__':
    main()
