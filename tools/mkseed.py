#!/usr/bin/env python3
"""python3 tools/mkseed.py SPEC.py [id ...]: validate planted bugs in private copies and keep the valid ones.
SPEC.py defines SEEDS = [dict(id=, prop=, edits=[(file, old, new), ...], demo='python text', needs=, breaks=)].
Each runs in a scratch copy of /repo bind-mounted over /repo in a private mount namespace."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
HOME=$T LSLCONFIGDIR=$T/lsl XDG_CONFIG_HOME=$T XDG_CACHE_HOME=$T MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo TMPDIR=$T \\
  /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def one(s, tests=True):
    w = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    log = ''
    try:
        sh('cp -a /repo %s/r && mkdir %s/v && cp -a /verif/check.py /verif/checks /verif/pv /verif/known_findings.jsonl %s/v/ && mkdir %s/v/evidence' % (w, w, w, w))
        d = w + '/s'
        os.mkdir(d)
        if s.get('patch'):
            open(d + '/patch.diff', 'w').write(s['patch'])
        else:
            for f, old, new in s['edits']:
                t = open('%s/r/%s' % (w, f)).read()
                if t.count(old) < 1:
                    return s['id'], 'INVALID: text not found in %s: %r' % (f, old[:60])
                open('%s/r/%s' % (w, f), 'w').write(t.replace(old, new, 1))
            p = sh('git -C %s/r diff' % w).stdout
            open(d + '/patch.diff', 'w').write(p)
            sh('git -C %s/r checkout -- .' % w)
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(s['demo'])
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        ns = lambda c: sh("unshare -m bash -c 'mount --bind %s/r /repo && mount --bind %s/v /verif && cd /repo && %s'" % (w, w, c))
        o = ns('timeout 300 bash %s/demo.sh' % d)
        if o.returncode:
            return s['id'], 'INVALID: demo fails on the clean tree: ' + o.stdout[-600:]
        o = sh('git -C %s/r apply %s/patch.diff' % (w, d))
        if o.returncode:
            return s['id'], 'INVALID: patch does not apply ' + o.stdout
        o = ns('bash /opt/vp/build.sh')
        if o.returncode:
            return s['id'], 'INVALID: build fails: ' + o.stdout[-800:]
        o = ns('timeout 300 bash %s/demo.sh' % d)
        if o.returncode == 0:
            return s['id'], 'INVALID: demo passes with the patch'
        log += 'demo: ' + (o.stdout.strip().splitlines() or ['?'])[-1][:160] + '\n'
        if tests:
            ns('bash /opt/vp/test.sh %s/out.json' % w)
            base = json.load(open('/opt/vp/BASELINE.json'))
            out = json.load(open(w + '/out.json'))
            st = base.get('stable') or base.get('passed') or base
            got = set(out.get('passed', []))
            bad = [x for x in st if x not in got]
            if bad:
                return s['id'], 'INVALID: tests fail: %s' % bad[:4]
        o = ns('cd /verif && timeout 900 python3 check.py %s' % s['prop'])
        v = [l for l in o.stdout.splitlines() if 'VIOLATION' in l or l.startswith('failed obl')]
        res = 'CAUGHT' if o.returncode == 1 and any('VIOLATION property=' + s['prop'] in x for x in v) else 'MISSED'
        log += '\n'.join(x[:260] for x in v[-3:])
        if res == 'MISSED':
            log += 'rc=%d %s' % (o.returncode, o.stdout[-300:])
        if tests:
            t = os.path.join(HERE, 'seeded', s['id'])
            shutil.rmtree(t, ignore_errors=True)
            shutil.copytree(d, t)
        return s['id'], res + '\n' + log
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    ns = {}
    if sys.argv[1] == '--recheck':
        import glob
        seeds = []
        for d in sorted(glob.glob(HERE + '/seeded/*')):
            i = os.path.basename(d)
            if len(sys.argv) > 2 and i not in sys.argv[2:] and not any(i.startswith(a) for a in sys.argv[2:]):
                continue
            m = json.load(open(d + '/meta.json'))
            seeds.append(dict(id=i, prop=m['property'], patch=open(d + '/patch.diff').read(), demo=open(d + '/demo.py').read(),
                              needs=m['needs'], breaks=m['what_it_breaks']))
        tests = False
    else:
        exec(open(sys.argv[1]).read(), ns)
        seeds = [s for s in ns['SEEDS'] if len(sys.argv) < 3 or s['id'] in sys.argv[2:]]
        tests = True
    with ThreadPoolExecutor(3) as ex:
        for i, res in ex.map(lambda s: one(s, tests), seeds):
            print('==', i, res, flush=True)


if __name__ == '__main__':
    main()
