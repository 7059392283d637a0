"""Runs edit cases against the analysis: python3 selftest/run.py refactor|mutant [filter...]

Each case is a list of textual edits applied to a scratch copy of /repo.  Refactorings must be quiet, mutants must be reported.
"""
import importlib
import os
import shutil
import subprocess
import sys
from multiprocessing import Pool, current_process

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ROOT = os.environ.get('VST', '/tmp/vst')


def tree(i):
    d = '%s%d' % (ROOT, i)
    if not os.path.isdir(d):
        os.makedirs(d)
        subprocess.run('git -C /repo archive HEAD | tar -x -C ' + d, shell=True, check=True)
    return d


def run(job):
    name, edits, extra = job
    i = (current_process()._identity or (1,))[0] % 8
    d = tree(i)
    saved = {}
    try:
        for f, old, new in edits:
            p = os.path.join(d, f)
            if p not in saved:
                saved[p] = open(p).read() if os.path.exists(p) else None
            t = open(p).read() if os.path.exists(p) else ''
            if old is not None and t.count(old) != 1:
                return name, 'BADCASE %d matches of %r in %s' % (t.count(old), old[:60], f), ''
            open(p, 'w').write(t.replace(old, new) if old is not None else t + new)
        r = subprocess.run([sys.executable, HERE + '/one.py'], env=dict(os.environ, VERIF_REPO=d, VERIF_STRICT='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return name, None, r.stdout
    finally:
        for p, t in saved.items():
            if t is None:
                os.unlink(p)
            else:
                open(p, 'w').write(t)


def main():
    kind, filt = sys.argv[1], sys.argv[2:]
    sys.path.insert(0, HERE)
    cases = importlib.import_module(kind).CASES
    jobs = [(c[0], c[1], None) for c in cases if not filt or any(x in c[0] for x in filt)]
    bad = 0
    stat = {}
    with Pool(int(os.environ.get('P', '8'))) as p:
        for name, err, out in p.imap(run, jobs, chunksize=1):
            l = [x for x in out.split('\n') if x]
            if err:
                v = err
            elif not l or not l[-1].startswith('{'):
                v = 'BROKEN ' + (l[-1][:300] if l else '')
            else:
                differs = [x for x in l if x.startswith(('DIFFERS', 'HOOK'))]
                und = [x for x in l if x.startswith(('UNDECIDED', 'GONE'))]
                v = 'differs' if differs else 'undecided' if und else 'same'
            want = ('differs',) if kind.startswith('mutant') else ('same',)
            stat[v.split()[0]] = stat.get(v.split()[0], 0) + 1
            if v not in want:
                bad += 1
                print('==', name, '->', v)
                if filt or v != 'same':
                    print('\n'.join('     ' + x[:int(os.environ.get('W', '220'))] for x in out.split('\n')[:int(os.environ.get('N', '5'))] if x))
    print(len(jobs), 'cases', stat)


main()
