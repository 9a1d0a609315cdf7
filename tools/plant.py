"""
Writes and tries out the planted bugs of ``planted.py``.

    python3 tools/plant.py [-j N] [--no-check] [--seeds 1,2] [ID ...]

For each bug, in a scratch copy of /repo: writes patch.diff, confirms that the
tree still builds and passes its stable tests, and that the demonstration fails
with the patch and passes without it. Bugs for which that holds are written to
/verif/seeded/<id>/. Then runs the check of the bug's property in a scratch copy
of /verif, and prints whether it was caught.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
PYTHON = '/opt/venv/bin/python'
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']

DEMO_SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=900):
    full = dict(os.environ, PYTHONHASHSEED='0', MPLBACKEND='Agg',
                PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
                OPENBLAS_NUM_THREADS='1', MPLCONFIGDIR='/opt/mplconfig')
    full.update(env or {})
    try:
        res = subprocess.run(cmd, cwd=cwd, env=full, timeout=timeout,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             text=True)
        return res.returncode, res.stdout
    except subprocess.TimeoutExpired as exc:
        return 'timeout', str(exc.stdout)[-2000:]


def tests_pass(repo):
    ids = []
    for name in STABLE:
        module, test = name.split('::', 1)
        ids.append(module.replace('.', '/') + '.py::' + test)
    rc, out = sh([PYTHON, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                  '--timeout=300', '--no-plot-compare'] + ids, repo,
                 {'PYTHONPATH': repo})
    return rc == 0 and '{} passed'.format(len(STABLE)) in out, out


def try_bug(bug, check, seeds, tier):
    work = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = os.path.join(work, 'repo')
        subprocess.run(['cp', '-a', REPO, repo], check=True)
        subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'],
                       check=True)
        demo_dir = os.path.join(work, 'demo')
        os.mkdir(demo_dir)
        with open(os.path.join(demo_dir, 'demo.sh'), 'w') as f:
            f.write(DEMO_SH)
        os.chmod(os.path.join(demo_dir, 'demo.sh'), 0o755)
        with open(os.path.join(demo_dir, 'demo.py'), 'w') as f:
            f.write(bug['demo'].lstrip('\n'))
        demo = ['bash', os.path.join(demo_dir, 'demo.sh')]
        rc, out = sh(demo, repo, timeout=250)
        if rc != 0:
            return 'DEMO FAILS ON CLEAN: {} {}'.format(rc, out[-600:])
        for path, old, new in bug['edits']:
            full = os.path.join(repo, path)
            text = open(full).read()
            if text.count(old) != 1:
                return 'EDIT MATCHES {} TIMES: {!r}'.format(
                    text.count(old), old)
            with open(full, 'w') as f:
                f.write(text.replace(old, new))
        diff = subprocess.run(['git', '-C', repo, 'diff'],
                              capture_output=True, text=True,
                              check=True).stdout
        rc, out = sh([PYTHON, '-m', 'compileall', '-q', 'nodefinder'], repo)
        if rc != 0:
            return 'DOES NOT COMPILE ' + out[-300:]
        ok, out = tests_pass(repo)
        if not ok:
            return 'TESTS FAIL ' + out[-600:]
        rc, out = sh(demo, repo, timeout=250)
        if rc == 0:
            return 'DEMO PASSES WITH BUG'
        demo_out = out.strip().splitlines()[-1] if out.strip() else str(rc)
        target = os.path.join(VERIF, 'seeded', bug['id'])
        os.makedirs(target, exist_ok=True)
        for name in ('demo.sh', 'demo.py'):
            shutil.copy(os.path.join(demo_dir, name), target)
        with open(os.path.join(target, 'patch.diff'), 'w') as f:
            f.write(diff)
        with open(os.path.join(target, 'meta.json'), 'w') as f:
            json.dump({'property': bug['property'], 'needs': bug['needs'],
                       'what_it_breaks': bug['breaks']}, f, indent=1)
            f.write('\n')
        if not check:
            return 'ok (demo: {})'.format(demo_out[:90])
        verif = os.path.join(work, 'verif')
        shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns(
            '.git', 'seeded', 'evidence', 'replays'))
        os.makedirs(os.path.join(verif, 'evidence'))
        res = []
        for prop in [bug['property']] + list(bug.get('also', ())):
            for seed in seeds:
                rc, out = sh(['./check', prop, '--tier', tier, '--seed',
                              str(seed)], verif,
                             {'VERIF_REPO': repo, 'VERIF_SEED': str(seed)})
                lines = [l for l in out.splitlines() if 'VIOLATION' in l]
                caught = rc == 1 and bool(lines)
                res.append('{}/{}:{}'.format(
                    prop, seed, 'CAUGHT' if caught else
                    'missed' if rc == 0 else 'BROKEN {} {}'.format(
                        rc, out[-500:])))
        return 'ok {} (demo: {})'.format(' '.join(res), demo_out[:90])
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    sys.path.insert(0, HERE)
    from planted import BUGS
    parser = argparse.ArgumentParser()
    parser.add_argument('-j', type=int, default=3)
    parser.add_argument('--no-check', action='store_true')
    parser.add_argument('--seeds', default='1')
    parser.add_argument('--tier', default='quick')
    parser.add_argument('ids', nargs='*')
    args = parser.parse_args()
    bugs = [b for b in BUGS if not args.ids
            or b['id'] in args.ids or b['property'] in args.ids]
    assert len({b['id'] for b in BUGS}) == len(BUGS)
    seeds = [int(s) for s in args.seeds.split(',')]

    def task(bug):
        res = try_bug(bug, not args.no_check, seeds, args.tier)
        print(bug['id'], res, flush=True)

    with ThreadPoolExecutor(args.j) as pool:
        list(pool.map(task, bugs))


if __name__ == '__main__':
    main()
