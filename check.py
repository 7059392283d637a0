#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property on /repo's current tree."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import json
import re
import time
import traceback

import facts          # noqa: E402  (re-executes with a fixed hash seed)
import behave
import contract
import names
import props
import rules
import rulebook       # noqa: F401  (registers the rules)
import rulebook2      # noqa: F401

HERE = os.path.dirname(os.path.abspath(__file__))
# translation units the pinned tool chain cannot compile (they are written for another LLVM release); what the front
# end recovers of them is analysed
FOREIGN = {'oclint-driver/lib/CompilerInstance.cpp': 6, 'oclint-driver/lib/Driver.cpp': 6}


def known_findings(pid):
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    tier = 'thorough' if tier == 'thorough' else 'quick'
    t0 = time.time()
    p = props.BY_ID[pid]
    db = facts.load()
    foreign = []
    for f, e in db.errors:
        if facts.rel(f) in FOREIGN:
            if len(e) > FOREIGN[facts.rel(f)]:
                foreign.append('%s: %d constructs the front end does not resolve (reviewed tree: %d); what it recovers is analysed' % (facts.rel(f), len(e), FOREIGN[facts.rel(f)]))
        elif e:
            raise facts.AnalysisBroken('%s does not compile: %s' % (facts.rel(f), e[:3]))
    for tu in db.tus:
        if not tu['ok'] and facts.rel(tu['file']) not in FOREIGN:
            raise facts.AnalysisBroken('no front-end result for ' + facts.rel(tu['file']))
    ref = behave.Reference()
    names.unify(db, ref)
    viol, notes = [], foreign

    scope = [(re.compile(a), re.compile(b)) for a, b in p['scope']]
    within = lambda file, s: any(a.search(file) and b.search(s) for a, b in scope)
    wanted = [s for s, b in ref.behs.items() if within(b.file, s)]
    if scope and not wanted:
        raise facts.AnalysisBroken('no reviewed function in scope')
    deeper = set()
    if tier == 'thorough' and wanted:
        # everything the functions in scope call, directly or not, in the reviewed program
        bdb = ref.db()
        bf = contract.product_functions(bdb)
        todo = [k for k, f in bf.items() if contract.sig(f) in set(wanted)]
        seen = set(todo)
        while todo:
            for c in contract.callees(bf[todo.pop()], bdb):
                if c in bf and c not in seen:
                    seen.add(c)
                    todo.append(c)
        deeper = {contract.sig(bf[k]) for k in seen}
    res = behave.check(db, ref, lambda b: within(b.file, b.sig) or b.sig in deeper) if wanted else []
    st = {}
    neff = 0
    for r in res:
        st[r.status] = st.get(r.status, 0) + 1
        neff += len(ref.behs[r.sig].effects)
        if r.status == 'differs':
            for d in r.diffs[:6]:
                w = d.where or r.where or ('', 0)
                viol.append(('behaviour', r.sig, w, '%s: %s' % (d.kind, d.text)))
            if not r.diffs:
                viol.append(('behaviour', r.sig, r.where or ('', 0), 'behaves differently than reviewed'))
        elif r.status == 'undecided':
            notes.append('undecided: %s (%s)%s' % (r.sig, r.note, ''.join('; %s %s' % (d.kind, d.text[:200].replace('\n', ' ')) for d in r.diffs[:2])))

    ctx = rules.Context(db, ref)
    ctx.results = res
    ctx.within = within
    ctx.scope, ctx.every_member = scope, pid in ('C10', 'C11')
    known = known_findings(pid)
    hit = {}
    rcount = {}
    for name in p['rules']:
        fn = rules.RULES.get(name)
        if fn is None:
            continue
        n = 0
        try:
            for f in fn(db, ctx):
                n += 1
                if f.key in known:
                    hit.setdefault(f.key, f)
                else:
                    viol.append((f.rule, f.key, f.where, f.text))
        except Exception as ex:
            if os.environ.get('VERIF_STRICT'):
                raise
            # code in a shape the rule cannot read: said so, not guessed
            notes.append('undecided: rule %s could not be evaluated (%s: %s)' % (name, type(ex).__name__, str(ex)[:200]))
        rcount[name] = n
    notes += ctx.notes

    for k, f in sorted(hit.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
    for n in notes[:40]:
        print('note: ' + n[:600])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    nob = len(res) + sum(ctx.counts.values())
    bad = st.get('differs', 0) + sum(1 for v in viol if v[0] != 'behaviour')
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the resolved program (clang front end over %d translation units, %d functions). '
                           'Value-flow summaries of the functions in scope are compared, condition by condition, with the reviewed behaviour; '
                           'hand-written rules decide the clauses listed under rule_instances.' % (len(db.tus), len(db.fns)),
            'translation_units': len(db.tus), 'functions_parsed': len(db.fns),
            'functions_in_scope': len(res), 'functions_by_verdict': st, 'observable_effects_compared': neff,
            'rule_instances': ctx.counts, 'rule_reports': rcount,
            'obligations': nob, 'discharged': nob - bad - st.get('undecided', 0) - len(hit),
            'undecided': st.get('undecided', 0), 'known_findings': sorted(hit),
            'samples': [{'function': r.sig, 'verdict': r.status, 'effects': [behave.etext(e)[:300] for e in ref.behs[r.sig].effects[:3]]} for r in sorted(res, key=lambda r: r.sig)[:4]] + ctx.samples,
            'notes': notes[:40],
        },
        'assumptions': ['calls into the standard library and the clang AST have their documented meaning',
                        'the reviewed reference behaviour in contracts/ is the intended one'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    if viol:
        rep = os.path.join(HERE, 'evidence', pid + '.violations.txt')
        with open(rep, 'w') as o:
            for kind, key, w, text in viol:
                o.write('%s:%s: [%s] %s\n    %s\n' % (w[0], w[1], kind, key, text))
        for kind, key, w, text in viol[:12]:
            print('%s:%s: [%s] %s: %s' % (w[0], w[1], kind, key[:160], text[:700].replace('\n', ' ')))
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(rep, HERE)))
        return 1
    print('%s holds: %d functions in scope, %s; rules %s; %.1f s' % (pid, len(res), st, rcount, time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except facts.AnalysisBroken as ex:
        print('analysis broken: %s' % ex)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
