"""Everything the checks decide, in one process, on $VERIF_REPO: behaviour of all functions and all rules."""
import os
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import facts          # noqa: E402
import behave
import names
import props
import rules
import rulebook       # noqa: F401
import rulebook2      # noqa: F401

t = time.time()
db = facts.load()
for f, e in db.errors:
    if len(e) > {'CompilerInstance.cpp': 6, 'Driver.cpp': 6}.get(f.split('/')[-1], 0):
        print('ERRORS', facts.rel(f), e[:2])
        sys.exit(1)
ref = behave.Reference()
names.unify(db, ref)
known = {l.split()[2][4:] for l in open(os.path.join(facts.VERIF, 'known-findings.txt')) if l.startswith('KNOWN')}
n = {}
for r in sorted(behave.check(db, ref), key=lambda r: r.sig):
    n[r.status] = n.get(r.status, 0) + 1
    if r.status != 'same':
        print(r.status.upper(), r.sig[:150], r.where, r.note)
        for d in r.diffs[:6]:
            print('   ', d.kind, '(soft)' if d.soft else '', d.text.replace('\n', '\n      '))
ctx = rules.Context(db, ref)
for name in sorted(rules.RULES):
    try:
        for f in rules.RULES[name](db, ctx):
            if f.key not in known:
                print('DIFFERS rule %s %s %s %s' % (name, f.key[:150], f.where, f.text[:300]))
                n['rule'] = n.get('rule', 0) + 1
    except Exception as ex:
        if os.environ.get('VERIF_STRICT'):
            raise
        print('UNDECIDED rule %s (%s)' % (name, ex))
for x in ctx.notes:
    if x.startswith('undecided'):
        print('UNDECIDED rule', x[:200])
print(n, 'time', round(time.time() - t, 1))
