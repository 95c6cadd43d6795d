#!/usr/bin/env python3
"""seed.py ID new            scratch worktree /tmp/seed/ID of /repo HEAD
   seed.py ID done [--tests] write the patch, run the demo on both trees, the property's check (and the tests), drop it
   seed.py ID check          apply the stored patch in a scratch worktree and run the property's check"""
import json, os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', JAX_PLATFORMS='cpu', CUDA_VISIBLE_DEVICES='',
           TF_CPP_MIN_LOG_LEVEL='3', PYTHONHASHSEED='0', RAY_USAGE_STATS_ENABLED='0')


def sh(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def main():
    i, what = sys.argv[1], sys.argv[2]
    w, d = '/tmp/seed/' + i, os.path.join(R, 'seeded', i)
    if what == 'new':
        sh('git -C /repo worktree remove --force %s' % w)
        print(sh('git -C /repo worktree add --detach %s HEAD' % w)[1].splitlines()[-1])
        return
    meta = json.load(open(d + '/meta.json'))
    if what == 'check':
        sh('git -C /repo worktree add --detach %s HEAD' % w)
        rc, o = sh('git apply %s/patch.diff' % d, w)
        if rc:
            print(o)
    else:
        _, diff = sh('git diff', w)
        open(d + '/patch.diff', 'w').write(diff)
        for tree in ('/repo', w):
            rc, o = sh('bash %s/demo.sh' % d, tree)
            print('demo on %s: %d %s' % (tree, rc, o.strip().splitlines()[-1:]))
    for p in [meta['property']] + sys.argv[3:]:
        if p.startswith('--'):
            continue
        rc, o = sh('python3 check.py --property %s' % p, R, dict(ENV, SA_REPO=w, SA_EVIDENCE='/tmp/seed/ev'))
        print('check %s: %d' % (p, rc))
        print('\n'.join(l[:260] for l in o.splitlines()[-8:]))
    if '--tests' in sys.argv:
        rc, o = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider -W ignore --tb=short --timeout=300 --continue-on-collection-errors '
                   '-o python_files="test_*.py tests_stats.py big_data_tests.py" --ignore=tests/test_boosters.py '
                   '--ignore=tests/test_models.py --ignore=tests/test_nns.py tests', w)
        print('tests:', o.strip().splitlines()[-1:])
    if '--keep' not in sys.argv:
        sh('git -C /repo worktree remove --force %s' % w)


main()
