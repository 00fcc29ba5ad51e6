"""Validate and store planted bugs.

plant.py BATCH.py [id ...]: BATCH defines BUGS, a list of dicts with id,
property, file (below beam_telescope_analysis/), edits [(old, new), ...],
needs, breaks, demo (python text).  Each is applied in a scratch copy of /repo
under /tmp; the demonstration must pass without and fail with it, the extension
must build and the stable test files must pass.  Kept ones go to
/verif/seeded/<id>/.  Not used by any check.
"""
import json, os, runpy, shutil, subprocess, sys
PY = '/opt/venv/bin/python'
ORIG = '79738d2'
SH = '#!/bin/bash\n# run with cwd = repository\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR="$(mktemp -d)"\n' \
     + PY + ' "$(dirname "$0")/demo.py"\nrc=$?\nrm -rf "$NUMBA_CACHE_DIR"\nexit $rc\n'


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = sys.argv[2:]
    base = '/tmp/plant_scratch'
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    repo = base + '/repo'
    sh('cp -a /repo %s' % repo, '/')
    for b in bugs:
        if only and b['id'] not in only:
            continue
        d = '%s/%s' % (base, b['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        sh('git checkout -q -- "beam_telescope_analysis/*.py" beam_telescope_analysis/cpp/AnalysisFunctions.h', repo)
        files = b.get('files') or [(b['file'], b['edits'])]
        bad = None
        for f, edits in files:
            path = repo + '/beam_telescope_analysis/' + f
            s = open(path).read()
            orig = sh('git show %s:beam_telescope_analysis/%s' % (ORIG, f), repo).stdout
            olines = set(orig.splitlines())
            for old, new in edits:
                if s.count(old) != 1:
                    bad = 'edit matches %d times: %s' % (s.count(old), old[:60])
                    break
                s = s.replace(old, new)
            if bad:
                break
            open(path, 'w').write(s)
        if bad:
            print(b['id'], 'BAD', bad)
            continue
        diff = sh('git diff -- ' + ' '.join('beam_telescope_analysis/' + f for f, _ in files), repo).stdout
        new_only = [l for l in diff.splitlines() if l.startswith('-') and not l.startswith('---') and l[1:] not in olines]
        header = any(f.endswith(('.h', '.pyx')) for f, _ in files)
        sh('git checkout -q -- "beam_telescope_analysis/*.py" beam_telescope_analysis/cpp/AnalysisFunctions.h', repo)
        if header:
            r0 = sh(PY + ' setup.py build_ext --inplace --force', repo)
        p0 = sh('bash %s/demo.sh' % d, repo)
        open(d + '/patch.diff', 'w').write(diff)
        a = sh('git apply %s/patch.diff' % d, repo)
        if header:
            r1 = sh(PY + ' setup.py build_ext --inplace --force', repo)
            if r1.returncode:
                print(b['id'], 'BUILD FAILS')
        print(a.stderr, len(diff), len(orig), new_only[:2]) if a.returncode or new_only else 0
        p1 = sh('bash %s/demo.sh' % d, repo)
        t = sh('PYTHONPATH=%s %s -m pytest -q -p no:cacheprovider --rootdir=%s test_analysis_utils.py test_geometry_utils.py 2>&1 | tail -4' % (repo, PY, repo),
               repo + '/beam_telescope_analysis/testing')
        ok = p0.returncode == 0 and p1.returncode != 0 and '9 passed' in t.stdout and 'failed' not in t.stdout and not a.returncode
        print(b['id'], 'OK' if ok else 'NO', p0.returncode, p1.returncode, t.stdout.strip().splitlines()[-1:], (p0.stderr if p0.returncode else p1.stderr).strip().splitlines()[-1:], 'NEWLINES' if new_only else '', flush=True)
        sh('git checkout -q -- "beam_telescope_analysis/*.py" beam_telescope_analysis/cpp/AnalysisFunctions.h', repo)
        if header:
            sh(PY + ' setup.py build_ext --inplace --force', repo)
        if ok and not new_only:
            t = '/verif/seeded/' + b['id']
            os.makedirs(t, exist_ok=True)
            for n in ('demo.py', 'demo.sh', 'patch.diff'):
                shutil.copy2(d + '/' + n, t)
            json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(t + '/meta.json', 'w'), indent=1)
    shutil.rmtree(base, ignore_errors=True)


main()
