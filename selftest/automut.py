"""Samples small source mutations over the product and reports those the contracts do not see.

python3 selftest/automut.py SEED COUNT [path filter]
"""
import glob
import os
import random
import re
import subprocess
import sys
from multiprocessing import Pool, current_process

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ROOT = '/tmp/vam'
REPO = '/repo'

SUBS = [
    (r'(?<![<>=!\-])==', ['!=']), (r'!=', ['==']), (r'(?<=\s)<(?=\s)', ['<=', '>']), (r'(?<=\s)>(?=\s)', ['>=', '<']),
    (r'>=', ['>', '<']), (r'<=', ['<', '>']), (r'&&', ['||']), (r'\|\|', ['&&']),
    (r'\bif \((?!.*\bdecl)', ['if (!(', ]), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'\b1\b', ['2', '0']), (r'\b2\b', ['3']), (r'\b0\b', ['1']), (r'\+\+', ['--']), (r'\+=', ['-=']), (r'(?<=\s)\+(?=\s)', ['-']),
    (r'\bbreak;', ['', 'return;']), (r'\bcontinue;', ['break;', '']), (r'\bgetThen\b', ['getElse']), (r'\bgetElse\b', ['getThen']),
    (r'\bgetLHS\b', ['getRHS']), (r'\bgetRHS\b', ['getLHS']), (r'\bgetCond\b', ['getInc']), (r'\bbody_back\b', ['body_front']),
    (r'\bfront\(\)', ['back()']), (r'"(?=[a-z_A-Z])', ['"x']), (r'\binsert\b', ['erase']), (r'!(?=[a-zA-Z_(])', ['']),
    (r'\bstartLine\b', ['endLine']), (r'\bstartColumn\b', ['startLine']), (r'\bBO_LAnd\b', ['BO_LOr']), (r'\bBO_EQ\b', ['BO_NE']),
    (r'\bpath\b', ['message']), (r'\bend\(\)', ['begin()']), (r'\bbegin\(\)', ['end()']), (r'\bgetNumParams\b', ['getMinRequiredArguments']),
]


def mutants():
    out = []
    for f in sorted(glob.glob(REPO + '/oclint-*/**/*.cpp', recursive=True) + glob.glob(REPO + '/oclint-*/**/*.h', recursive=True)):
        if '/test/' in f or '/template/' in f or 'docgen' in f or '_build' in f:
            continue
        rel = f[len(REPO) + 1:]
        doc = 0
        for i, l in enumerate(open(f, errors='replace')):
            if re.match(r'\s*#ifdef DOCGEN', l):
                doc = 1
            if doc and re.match(r'\s*#endif', l):
                doc = 0
            if doc or re.match(r'\s*(//|\*|/\*|#)', l) or not l.startswith(' '):
                continue
            for pat, news in SUBS:
                for m in re.finditer(pat, l):
                    for n in news:
                        r = l[:m.start()] + n + l[m.end():]
                        if n == 'if (!(':
                            r = re.sub(r'if \(!\((.*)\)(\s*\{?)$', r'if (!(\1))\2', r.rstrip('\n')) + '\n'
                        out.append((rel, i, l, r))
            if re.match(r'\s+[A-Za-z_:>\-.()\[\]"&*, ]+\(.*\);\s*$', l) or re.match(r'\s+\w[\w\-.>]*\s*[+|]?=[^=].*;\s*$', l):
                out.append((rel, i, l, '    ;\n'))
    return out


def run(job):
    rel, i, old, new = job
    n = (current_process()._identity or (1,))[0] % 8
    d = '%s%d' % (ROOT, n)
    if not os.path.isdir(d):
        os.makedirs(d)
        subprocess.run('git -C /repo archive HEAD | tar -x -C ' + d, shell=True, check=True)
    p = os.path.join(d, rel)
    t = open(p).read()
    try:
        ls = t.split('\n')
        assert ls[i] + '\n' == old
        ls[i] = new.rstrip('\n')
        open(p, 'w').write('\n'.join(ls))
        try:
            r = subprocess.run([sys.executable, os.environ.get('FROZEN', VERIF) + '/lib/behave.py'], env=dict(os.environ, VERIF_REPO=d, VERIF_CACHE='/tmp/vstcache'), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=600)
            o = r.stdout
        except subprocess.TimeoutExpired:
            o = 'TIMEOUT'
    finally:
        open(p, 'w').write(t)
    return job, o


def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    ms = [m for m in mutants() if not sys.argv[3:] or any(re.search(x, m[0]) for x in sys.argv[3:])]
    random.Random(seed).shuffle(ms)
    ms = ms[:count]
    st = {}
    with Pool(int(os.environ.get('P', '4'))) as p:
        for (rel, i, old, new), o in p.imap_unordered(run, ms, chunksize=1):
            l = [x for x in o.split('\n') if x]
            v = 'nocompile' if any(x.startswith('ERRORS') for x in l) else 'broken' if not l or not l[-1].startswith('{') else \
                'differs' if any(x.startswith('DIFFERS') for x in l) else 'undecided' if any(x.startswith('UNDECIDED') for x in l) else \
                'gone' if any(x.startswith('GONE') for x in l) else 'same'
            st[v] = st.get(v, 0) + 1
            if v in ('same', 'undecided', 'gone', 'broken'):
                print('%s %s:%d\n   - %s\n   + %s' % (v, rel, i + 1, old.strip()[:150], new.strip()[:150]))
                if v != 'same':
                    print('\n'.join('       ' + x[:240] for x in l[:4]))
                sys.stdout.flush()
    print(st)


main()
