"""Reference behaviour of the reviewed tree, and the comparison of the current tree with it.

The reference holds, for every anchor function, its canonical behaviour summary (see canon.py): every observable effect
with the exact condition and iteration under which it happens.  The comparison recomputes the summary from the current
source, with the same analysis boundaries, and compares effect sets and conditions as boolean functions.  How a function
is written does not matter; what it does does.
"""
import functools
import glob
import json
import os
import re
import sys
import time
from multiprocessing import Pool

import facts
import canon
import contract
import flow
from contract import sig, stem
from flow import I, T, const, is_const, subterms, contains, subst, last, base

DIR = os.path.join(facts.VERIF, 'contracts')

# functions of the two procedural files are boundaries of their own: main() is compared in terms of them
PROCEDURAL = ('main.cpp', 'Driver.cpp')
SKIP_KINDS = ('mapref', 'delete')


# decided by a rule of their own: many different behaviours are equally right
EXEMPT = ('ViolationHash::operator()',)


def is_anchor(f, opaque):
    if f['n'].startswith(EXEMPT):
        return False
    if f.get('pseudo'):
        return True
    if f['n'].startswith('operator') and not f.get('cls'):
        return True
    if f.get('cls'):
        if f.get('overrides'):
            return True
        return f.get('access') != 2 or sig(f) in opaque
    return bool(f.get('hdr') or f.get('externc')) or sig(f) in opaque or f['n'] == 'main'


# ---------------------------------------------------------------------------------------------- order of effects

def shared(a, b):
    """Two effects on the same object."""
    ra, rb = a[1], b[1]
    return ra is not None and ra == rb


def receiver(e):
    """The thing an effect acts on, when that is one definite object."""
    kind, term = e
    t = term[1] if kind == 'call' and len(term) > 1 else term[0] if kind in ('set', 'assign') else None
    if t is None:
        return None
    while t and t[0] in ('field', 'index') and kind in ('set', 'assign'):
        t = t[1]
        break
    return t if t and t[0] in ('this', 'param', 'obj', 'new', 'global', 'field', 'svar', 'elem') else None


def own_names(db):
    if not hasattr(db, '_own'):
        db._own = {last(base(f['n'])) for f in contract.product_functions(db).values()}
    return db._own


def orders(evs, memo, pure, own=()):
    """Pairs (x, y): effect x comes before effect y on the same object somewhere on a path."""
    out = set()

    def walk(es):
        seq = []
        for ev in es:
            k = ev[0]
            cur = []
            if k == 'alt':
                for _, x in ev[1]:
                    cur += walk(x)
            elif k == 'loop':
                for _, _, x in ev[3]:
                    cur += walk(x)
            elif k == 'inloop':
                cur += walk((ev[3],))
                cur += walk(ev[4])
            elif k == 'call':
                n = last(ev[1]) if '(' not in ev[1] else ev[1].split('::')[-1].split('(')[0]
                if n in pure or n in canon.IGNORE_CALLS or ev[1] in canon.IGNORE_CALLS or n == 'operator<<':
                    continue
                r = canon.canon(ev[2][0], memo=memo) if ev[2] else None
                text = lambda: canon.clip('%s(%s)' % (n, ', '.join(canon.ctext(canon.canon(x, memo=memo)) for x in ev[2])), 2000)
                if r is not None and r[0] in ('this', 'param', 'obj', 'new', 'global', 'field', 'svar', 'elem'):
                    # for objects that outlive the call: also told apart by what is passed
                    cur.append((n, I(r), text() if r[0] in ('global', 'field', 'this') and len(ev[2]) > 1 else None))
                elif n not in own:
                    cur.append((n, None, None))
                else:
                    # a free function of the repository called twice: the later call may overrule the earlier one
                    cur.append((n, None, text()))
            for b in cur:
                for a in seq:
                    if a[1] != b[1]:
                        continue
                    if a[0] != b[0]:
                        out.add((a[0], b[0]))
                    if a[2] and b[2] and a[2] != b[2] and (a[0] == b[0]) == (a[1] is None):
                        out.add((a[2], b[2]))
            seq += cur
        return seq
    walk(evs)
    return out


# ---------------------------------------------------------------------------------------------- summaries in memory

class Beh:
    """Comparable behaviour of one function."""
    __slots__ = ('sig', 'file', 'name', 'effects', 'order', 'incomplete')

    def __init__(self, sg, file, name, effects, order, incomplete):
        self.sig, self.file, self.name, self.effects, self.order, self.incomplete = sg, file, name, effects, order, incomplete


def tup(d):
    return I(tuple(tuple((I(a), p) for a, p in g) for g in d))


def behave(db, f, known, opaque, pure, seconds=40, force=()):
    sink = []
    S = contract.summarise(db, f, known, opaque, seconds=seconds, sink=sink, force=force)
    eff = []
    for e in S.effects:
        if e.kind in SKIP_KINDS:
            continue
        if e.kind in ('call', 'call again'):
            n = e.term[0][1] if is_const(e.term[0]) else None
            if n and (n.split('(')[0] in pure or n.split('(')[0] == 'makeMatcher' or (n == 'init' and f.get('pseudo'))):
                continue
        eff.append((e.kind, I(e.term), tup(e.cond), tuple((I(c), tup(a), tup(b)) for c, (a, b) in e.loops), e.where))
    od = set()
    memo = {}
    for ex in sink:
        od |= orders(ex.events, memo, pure, own_names(db))
    if f.get('pseudo'):
        eff = [(k, option(t), c, l, w) for k, t, c, l, w in eff]
    return Beh(sig(f), facts.rel(f['file']), f['n'], eff, frozenset(od), list(S.incomplete))


DOC_ARGS = ('desc', 'value_desc', 'cat')


def option(t):
    """A command line option: its name, default and occurrence flags, in any order; help texts are no behaviour."""
    if not (t and isinstance(t[0], tuple)):
        return t
    v = t[0]
    if v[0] == 'new' and any(str(x) in ('llvm::cl::opt', 'llvm::cl::list') for x in v[1:3]):
        args = next((x for x in v[2:] if isinstance(x, tuple) and x and isinstance(x[0], tuple)), None)
        if args is not None:
            keep = sorted((a for a in args if not (a[0] == 'new' and last(str(a[1])) in DOC_ARGS)), key=lambda a: I(a).dg)
            return I((tuple(tuple(keep) if x is args else x for x in v),) + t[1:])
    if v[0] == 'new' and last(str(v[1])) == 'extrahelp':
        return I((('new', v[1], 'help text'),) + t[1:])
    return t


# ---------------------------------------------------------------------------------------------- files

class Enc:
    def __init__(self):
        self.tab, self.idx = [], {}

    def t(self, x):
        if isinstance(x, tuple):
            k = I(x).dg
            i = self.idx.get(k)
            if i is None:
                row = [self.t(y) for y in x]
                i = self.idx[k] = len(self.tab)
                self.tab.append(row)
            return i
        if x is None or isinstance(x, (bool, str)):
            return x
        if isinstance(x, int):
            return [x]
        if isinstance(x, float):
            return ['f', repr(x)]
        return ['s', str(x)]


class Dec:
    def __init__(self, tab):
        self.tab, self.memo = tab, {}

    def t(self, x):
        if isinstance(x, bool) or x is None or isinstance(x, str):
            return x
        if isinstance(x, list):
            return x[0] if len(x) == 1 else float(x[1]) if x[0] == 'f' else x[1]
        r = self.memo.get(x)
        if r is None:
            r = self.memo[x] = I(tuple(self.t(y) for y in self.tab[x]))
        return r


def save(path, behs):
    enc = Enc()
    fns = []
    for b in sorted(behs, key=lambda b: b.sig):
        fns.append({'sig': b.sig, 'file': b.file, 'name': b.name, 'incomplete': b.incomplete, 'order': sorted(map(list, b.order)),
                    'effects': [[k, enc.t(t), enc.t(c), [[enc.t(x), enc.t(y), enc.t(z)] for x, y, z in l]] for k, t, c, l, w in
                                sorted(b.effects, key=lambda e: (e[0], I(e[1]).dg, I(e[2]).dg))]})
    with open(path, 'w') as o:
        o.write('{"terms": [\n' + ',\n'.join(json.dumps(r, separators=(',', ':')) for r in enc.tab) + '\n],\n"functions": [\n' +
                ',\n'.join(json.dumps(r, separators=(',', ':')) for r in fns) + '\n]}\n')


def load(path):
    d = json.load(open(path))
    dec = Dec(d['terms'])
    out = []
    for f in d['functions']:
        out.append(Beh(f['sig'], f['file'], f['name'], [(k, dec.t(t), dec.t(c), tuple((dec.t(x), dec.t(y), dec.t(z)) for x, y, z in l), None)
                                                       for k, t, c, l in f['effects']], frozenset(map(tuple, f['order'])), f['incomplete']))
    return out


# ---------------------------------------------------------------------------------------------- comparison

def imprecise(e):
    """The engine has no exact model of something this effect depends on."""
    return any(contains(x, lambda z: z and z[0] in ('unk', 'acc', 'lambda')) for x in (e[1], e[2])) or \
        any(contains(x, lambda z: z and z[0] in ('unk', 'acc', 'lambda')) for l in e[3] for x in l)


def cond_eq(a, b):
    if a == b:
        return True
    try:
        return canon.equivalent([tuple(g) for g in a], [tuple(g) for g in b])
    except RecursionError:
        return None


def eff_eq(a, b):
    r = cond_eq(a[2], b[2])
    if r is not True:
        return r
    res = True
    for (c1, p1, s1), (c2, p2, s2) in zip(a[3], b[3]):
        for x, y in ((p1, p2), (s1, s2)):
            r = cond_eq(x, y)
            if r is False:
                return False
            if r is None:
                res = None
    return res


def groups(b):
    g = {}
    for e in b.effects:
        g.setdefault((e[0], e[1].dg, tuple(l[0].dg for l in e[3])), []).append(e)
    return g


def local_names(e):
    out = set()
    for x in (e[1], e[2]) + tuple(y for l in e[3] for y in l):
        for z in canon.subterms(x):
            if z and z[0] in ('obj', 'new') and len(z) > 1 and isinstance(z[1], str) and z[1].startswith(('std::vector', 'std::set', 'std::map', 'std::unordered', 'std::list', 'std::deque', 'std::array', 'std::queue', 'std::stack')):
                out.add(canon.ctext(z))
    return frozenset(out)


def locals_of(b):
    out = set()
    for e in b.effects:
        out |= local_names(e)
    return out


class Diff:
    def __init__(self, kind, text, where, soft, full=frozenset(), pair=(None, None)):
        self.kind, self.text, self.where, self.soft, self.full, self.pair = kind, text, where, soft, full, pair


# ---------------------------------------------------------------------------------------------- what may still be equal

VAGUE = ('unk', 'acc', 'lambda')


def vague(t):
    return isinstance(t, tuple) and contains(t, lambda z: z and z[0] in VAGUE)


def unify(e, d):
    """Could the two effects be the same, given what is not known about them?"""
    if e[0] != d[0]:
        return False
    return uni(e[1], d[1]) and (e[3] == d[3] or any(vague(y) for l in e[3] + d[3] for y in l) or len(e[3]) != len(d[3])) and \
        (vague(e[2]) or vague(d[2]) or cond_eq(e[2], d[2]) is not False)


def uni(a, b):
    if a == b:
        return True
    if not (isinstance(a, tuple) and isinstance(b, tuple)):
        return False
    if (a and a[0] in VAGUE) or (b and b[0] in VAGUE):
        return True
    if not (vague(a) or vague(b)):
        return False
    if a and b and (a[0] == 'cat*' or b[0] == 'cat*'):
        x = list(a[1]) if a[0] == 'cat*' else [a]
        y = list(b[1]) if b[0] == 'cat*' else [b]
        return uni_seq(x, y) and uni_seq(x[::-1], y[::-1], True)
    if not a or not b or a[0] != b[0]:
        return isinstance(a[0] if a else 0, str) and isinstance(b[0] if b else 0, str) and (a[0] in ('fold', 'sofar', 'cases') or b[0] in ('fold', 'sofar', 'cases')) 
    if a[0] in ('rep', 'fold', 'sofar', 'cases', 'none', 'seen'):
        return all(uni(x, y) for x, y in zip(a[1:2], b[1:2])) if a[0] in ('rep', 'fold', 'sofar') else True
    return len(a) == len(b) and all(uni(x, y) for x, y in zip(a, b))


def uni_seq(x, y, back=False):
    """Do two texts agree up to the first place where one of them is not known exactly?"""
    x, y = list(x), list(y)
    while x and y:
        a, b = x.pop(0), y.pop(0)
        if a == b:
            continue
        if vague(a) or vague(b):
            if a[0] == 'rep' and b[0] == 'rep':
                if not uni(a[1], b[1]):
                    return False
                va, vb = [q for q in a[2] if not vague(I(q))], [q for q in b[2] if not vague(I(q))]
                if len(a[2]) == len(b[2]) and not any(vague(I(q[0])) for q in a[2] + b[2]):
                    # alternatives are told apart by their conditions
                    for d, q in a[2]:
                        m = [r for c, r in b[2] if c == d]
                        if not m or not (uni_seq(q, m[0]) and uni_seq(list(q)[::-1], list(m[0])[::-1], True)):
                            return False
            return True
        if is_const(a) and is_const(b) and isinstance(a[1], str) and isinstance(b[1], str):
            s, t = (a[1][::-1], b[1][::-1]) if back else (a[1], b[1])
            n = min(len(s), len(t))
            if s[:n] != t[:n] or n == 0:
                return False
            cut = lambda z: const(z[n:][::-1] if back else z[n:])
            if len(s) > n:
                x.insert(0, cut(s))
            elif len(t) > n:
                y.insert(0, cut(t))
            continue
        return False
    return True


def etext(e):
    class X:
        pass
    x = X()
    x.kind, x.term, x.cond = e[0], e[1], [tuple(g) for g in e[2]]
    x.loops = tuple((c, ([tuple(g) for g in p], [tuple(g) for g in s])) for c, p, s in e[3])
    return '\n'.join(canon.clip(l, 400) for l in canon.etext(x).split('\n'))


def covered(e, others):
    """Whenever the effect happens, one of the others with equal terms happens as well."""
    def loops(d):
        return len(d[3]) == len(e[3]) and all(a[0] == b[0] and cond_eq(a[1], b[1]) is True and cond_eq(a[2], b[2]) is True for a, b in zip(e[3], d[3]))
    if sum(len(g) for g in e[2]) > 400:
        return False
    others = [d for d in others if len(d[1]) == len(e[1]) and d[1][:1] == e[1][:1] or e[0] in ('return', 'set')]
    others = [(d[2], d[1]) for d in others if loops(d)]
    try:
        return bool(others) and canon.agree(e[2], e[1], others) is True
    except RecursionError:
        return False


GUARDED = {'none': 2, 'seen': 2, 'stop': 2, 'pred': 1, 'fold': 3, 'sofar': 3, 'cases': 1}


def align(ref, cur):
    """The current behaviour with its quantifiers, folds and case distinctions spelled as in the reference where they are
    equivalent; None when nothing changes."""
    def parts(b):
        for e in b.effects:
            yield e[1]
            yield e[2]
            for l in e[3]:
                yield from l
    known, by = set(), {}
    for t in parts(ref):
        for z in canon.subterms(t):
            if z and z[0] in GUARDED and z not in known:
                known.add(z)
                by.setdefault(I(z[:GUARDED[z[0]]]), []).append(z)
    memo, changed = {}, []

    def same(a, b):
        if len(a) != len(b):
            return False
        x, y = a[GUARDED[a[0]]], b[GUARDED[b[0]]]
        if sum(len(g) for g in x) + sum(len(g) for g in y) > 600:
            return False
        if a[0] in ('fold', 'sofar', 'cases'):
            x, y = flat(x), flat(y)
            return all(canon.agree(d, v, y, 1500) is True for d, v in x) and all(canon.agree(d, v, x, 1500) is True for d, v in y)
        return cond_eq(x, y) is True

    def flat(x):
        """Cases whose value is itself a case distinction, spelled out."""
        out = []
        for d, v in x:
            if canon.find_case(v) is None:
                out.append((d, v))
                continue
            for g, w in canon.explode(v, 24):
                out.append(([tuple(c) + tuple(l for l in g if l not in c) for c in d], w))
        return out

    def m(t):
        if not isinstance(t, tuple):
            return t
        t = I(t)
        r = memo.get(t.dg)
        if r is None:
            r = t if t in known else I(tuple(m(x) for x in t))
            if r and r[0] == 'op' and len(r) == 4 and r[1] in ('==', '*', '&', '|'):
                r = I(r[:2] + tuple(sorted(r[2:], key=lambda x: (is_const(x), canon.dkey(x)))))
            if r and r[0] in GUARDED and r not in known:
                for c in by.get(I(r[:GUARDED[r[0]]]), []):
                    if same(c, r):
                        r = c
                        changed.append(r)
                        break
            memo[t.dg] = r
        return r
    eff = [(e[0], m(e[1]), m(e[2]), tuple((m(a), m(b), m(c)) for a, b, c in e[3]), e[4]) for e in cur.effects]
    return Beh(cur.sig, cur.file, cur.name, eff, cur.order, cur.incomplete) if changed else None


def compare(ref, cur):
    """Differences between two behaviours of one function."""
    out = compare1(ref, cur)
    if any(d.kind != 'order' for d in out):
        try:
            other = align(ref, cur)
        except RecursionError:
            other = None
        if other is not None:
            alt = compare1(ref, other)
            if len(alt) < len(out):
                return alt
    return out


def compare1(ref, cur):
    out = []
    rg, cg = groups(ref), groups(cur)
    rest = []
    for k in sorted(set(rg) | set(cg), key=str):
        r, c = list(rg.get(k, [])), list(cg.get(k, []))
        undecided = False
        for e in list(r):
            for d in list(c):
                q = eff_eq(e, d)
                if q is True:
                    r.remove(e)
                    c.remove(d)
                    break
                if q is None:
                    undecided = True
        if len(r) + len(c) > 1 and (r or c) and not undecided and all(not e[3] for e in r + c):
            j = lambda es: tuple(g for e in es for g in e[2])
            q = cond_eq(j(rg.get(k, [])), j(cg.get(k, [])))
            if q is True:
                continue
            undecided = undecided or q is None
        if r or c:
            rest.append((r, c, undecided))
    if rest:
        # the same effects told apart by other conditions: compare case by case
        lost = [(e, [d for d in cur.effects if d[0] == e[0]]) for r, c, u in rest for e in r]
        gain = [(d, [e for e in ref.effects if e[0] == d[0]]) for r, c, u in rest for d in c]
        done = {id(e) for e, others in lost + gain if covered(e, others)}
        rest = [([e for e in r if id(e) not in done], [d for d in c if id(d) not in done], u) for r, c, u in rest]
    for r, c, undecided in rest:
        for e in r:
            if c:
                d = c.pop(0)
                soft = undecided or ((imprecise(e) or imprecise(d)) and unify(e, d))
                out.append(Diff('condition', 'the condition of an effect changed\n  reviewed: ' + etext(e) + '\n  now:      ' + etext(d), d[4], soft, local_names(e) | local_names(d), (e, d)))
            else:
                out.append(Diff('missing', 'an effect of the reviewed behaviour no longer happens\n  reviewed: ' + etext(e), None, undecided, local_names(e), (e, None)))
        for d in c:
            out.append(Diff('new', 'an effect that is not part of the reviewed behaviour\n  now:      ' + etext(d), d[4], undecided, local_names(d), (None, d)))
    lr, lc = locals_of(ref), locals_of(cur)
    kept = {canon.ctext(e[1][-1]) for b in (ref, cur) for e in b.effects if e[0] == 'set' and e[1][-1] and e[1][-1][0] == 'new'}
    lr, lc = lr - kept, lc - kept
    if lr != lc:
        # another choice of local containers: their contents cannot be matched one by one
        for d in out:
            if any(x in d.full for x in lr ^ lc):
                d.soft = True
    # where one side has no exact model of an effect, it may be the other side's effect after all
    for d in out:
        if d.kind in ('missing', 'new') and not d.soft:
            e = d.pair[0] or d.pair[1]
            for o in out:
                if o.kind in ('missing', 'new') and o.kind != d.kind:
                    f = o.pair[0] or o.pair[1]
                    if (imprecise(e) or imprecise(f)) and unify(e, f):
                        d.soft = o.soft = True
    if not out:
        both = lambda o: {(a, b) for a, b in o if (b, a) not in o}
        for a, b in sorted(both(ref.order)):
            if (b, a) in cur.order and (a, b) not in cur.order:
                out.append(Diff('order', 'the order of two effects on the same object changed\n  reviewed: %s before %s\n  now:      %s before %s' % (a, b, b, a), None, False))
    return out


# ---------------------------------------------------------------------------------------------- building the reference

_G = {}


def _beh(k):
    db, known, opaque, pure = _G['db'], _G['known'], _G['opaque'], _G['pure']
    try:
        return k, behave(db, db.fns[k], known, opaque, pure), None
    except contract.Timeout:
        return k, None, 'timeout'
    except (facts.AnalysisBroken, RecursionError) as ex:
        return k, None, type(ex).__name__ + ': ' + str(ex)[:200]


def run_many(db, keys, known, opaque, pure, procs=8):
    _G.update(db=db, known=known, opaque=frozenset(opaque), pure=frozenset(pure))
    with Pool(min(procs, max(1, len(keys) // 4 + 1))) as p:
        return list(p.imap_unordered(_beh, keys, chunksize=4))


def short_name(f):
    return f['sn'] if f.get('sn') else last(f['n'])


def library_actions(db, fns):
    """Names of called functions outside the repository that may do something: a repository function of that name proves nothing about them."""
    out = set()

    def go(x):
        if isinstance(x, list):
            for y in x:
                go(y)
        elif isinstance(x, dict):
            fn = x.get('fn')
            if isinstance(fn, dict) and fn.get('n') and not fn.get('const'):
                n = last(base(fn['n']))
                if not (db.fns.get(fn.get('key')) or {}).get('body') and not n.startswith(('get', 'is', 'has', 'operator')):
                    out.add(n)
            for y in x.values():
                if isinstance(y, (dict, list)):
                    go(y)
    for f in fns.values():
        go(f['body'])
    return out


def purity(db, fns, res):
    """Names of repository functions that do nothing but compute a value (greatest fixed point)."""
    by = {}
    for k, b, err in res:
        by.setdefault(last(base(fns[k]['n'])), []).append(b)
    virt = {last(base(f['n'])) for f in fns.values() if f.get('virt') and not f.get('const')}
    names = {n for n, bs in by.items() if all(b is not None for b in bs)} - virt - library_actions(db, fns)
    while True:
        drop = set()
        for n in names:
            for b in by[n]:
                for e in b.effects:
                    if e[0] == 'return':
                        continue
                    if e[0] in ('call', 'call again') and is_const(e[1][0]) and isinstance(e[1][0][1], str) and e[1][0][1].split('(')[0] in names:
                        continue
                    drop.add(n)
                    break
        if not drop:
            return names
        names -= drop


def generate(db):
    fns, known, opaque, graph, sizes = contract.plan(db)
    for f in fns.values():
        if f['file'].endswith(PROCEDURAL) and not f.get('cls') and f['n'] != 'main':
            opaque.add(sig(f))
    res = run_many(db, list(fns), known, opaque, ())
    pure = purity(db, fns, res)
    taken, files, used = {}, {}, {}
    for k, f in fns.items():
        if is_anchor(f, opaque):
            s = sig(f)
            if s not in taken or f['n'] < fns[taken[s]]['n']:
                taken[s] = k
    out = run_many(db, list(taken.values()), known, opaque, pure)
    os.makedirs(DIR, exist_ok=True)
    for p in glob.glob(DIR + '/*.json'):
        os.unlink(p)
    bad = []
    for k, b, err in out:
        if b is None:
            bad.append((fns[k]['n'], err))
            continue
        files.setdefault(stem(b.file), []).append(b)
    for st, bs in files.items():
        save(os.path.join(DIR, st + '.json'), bs)
    fields = {}
    for c in db.classes.values():
        if c.get('fields'):
            fields[base(c['n'])] = [[x['n'], x['t']] for x in c['fields']]
    glob_ = {g['n']: [stem(g['file']), g['t']] for g in db.globals.values()}
    db.dump(os.path.join(DIR, 'reviewed.xz'))
    json.dump({'globals': glob_, 'known': known, 'opaque': sorted(opaque), 'pure': sorted(pure), 'fields': fields}, open(os.path.join(DIR, 'index.json'), 'w'), indent=0, sort_keys=True)
    return taken, bad


# ---------------------------------------------------------------------------------------------- checking a tree

class Reference:
    def __init__(self):
        d = json.load(open(os.path.join(DIR, 'index.json')))
        self.known, self.opaque, self.pure, self.fields = d['known'], set(d['opaque']), set(d['pure']), d['fields']
        self.globals = d['globals']
        self.behs = {}
        for p in sorted(glob.glob(DIR + '/*.json')):
            if not p.endswith('/index.json'):
                for b in load(p):
                    self.behs[b.sig] = b
        self._db = None

    def db(self):
        """The reviewed program itself, for recomposing a reference with other boundaries."""
        if self._db is None:
            self._db = facts.DB().undump(os.path.join(DIR, 'reviewed.xz'))
            contract.add_initialisers(self._db)
        return self._db


def field_renames(db, ref):
    """Members that were renamed: gone from the class under the old name, one new one of the same type in its place."""
    cur = {}
    for c in db.classes.values():
        if c.get('fields'):
            cur[base(c['n'])] = [[x['n'], x['t']] for x in c['fields']]
    allcur = {n for fs in cur.values() for n, _ in fs}
    allref = {n for fs in ref.fields.values() for n, _ in fs}
    m = {}
    for c, fs in ref.fields.items():
        if c not in cur:
            continue
        gone = [x for x in fs if x[0] not in {n for n, _ in cur[c]} and x[0] not in allcur]
        new = [x for x in cur[c] if x[0] not in {n for n, _ in fs} and x[0] not in allref]
        for n, t in gone:
            cand = [x for x in new if x[1] == t]
            if len(cand) == 1 and len([g for g in gone if g[1] == t]) == 1:
                m[cand[0][0]] = n
            elif len(cand) == len([g for g in gone if g[1] == t]):
                m[cand[[g[0] for g in gone if g[1] == t].index(n)][0]] = n
    return m


def global_renames(db, ref):
    """Variables at namespace scope that only changed their name."""
    cur = {g['n']: [stem(g['file']), g['t']] for g in db.globals.values()}
    gone = {n: v for n, v in ref.globals.items() if n not in cur}
    new = {n: v for n, v in cur.items() if n not in ref.globals}
    m = {}
    for n, v in gone.items():
        cand = [x for x, w in new.items() if w == v]
        if len(cand) == 1 and len([1 for w in gone.values() if w == v]) == 1:
            m[cand[0]] = n
    return m


def rename(t, m, memo):
    if not isinstance(t, tuple):
        return t
    t = I(t)
    r = memo.get(t.dg)
    if r is None:
        if len(t) == 3 and t[0] == 'field' and t[2] in m:
            r = I(('field', rename(t[1], m, memo), m[t[2]]))
        elif len(t) == 2 and t[0] == 'global' and ('global', t[1]) in m:
            r = I(('global', m['global', t[1]]))
        else:
            r = I(tuple(rename(x, m, memo) for x in t))
        memo[t.dg] = r
    return r


def rename_beh(b, m):
    memo = {}
    b.effects = [(k, rename(t, m, memo), rename(c, m, memo), tuple((rename(x, m, memo), rename(y, m, memo), rename(z, m, memo)) for x, y, z in l), w) for k, t, c, l, w in b.effects]
    return b


class Result:
    """status: same / differs / undecided / gone"""

    def __init__(self, sg, status, diffs=(), note='', beh=None, where=None):
        self.sig, self.status, self.diffs, self.note, self.beh, self.where = sg, status, list(diffs), note, beh, where


def mentions(b, names):
    return any(contains(x, lambda z: z and ((z[0] == 'call' and isinstance(z[1], str) and z[1].split('(')[0] in names) or (z[0] == 'const' and isinstance(z[1], str) and z[1].split('(')[0] in names)))
               for e in b.effects for x in (e[1], e[2]) + tuple(y for l in e[3] for y in l))


_C = {}


STRICT = bool(os.environ.get('VERIF_STRICT'))


def bounded(seconds):
    """One function that takes too long or trips the analysis leaves that function undecided, nothing else."""
    def wrap(fn):
        @functools.wraps(fn)
        def run(job):
            left = min(seconds, _C['until'] - time.time())
            s = job if isinstance(job, str) else job[0]
            if left < 1:
                return Result(s, 'undecided', note='analysis time limit')
            try:
                with contract.limit(left):
                    return fn(job)
            except contract.Timeout:
                return Result(s, 'undecided', note='analysis time limit')
            except Exception as ex:
                if STRICT:
                    raise
                return Result(s, 'undecided', note='analysis error: %s: %s' % (type(ex).__name__, str(ex)[:160]))
        return run
    return wrap


@bounded(90)
def _cmp(s):
    ref, db, insts, ren, gone = _C['ref'], _C['db'], _C['insts'], _C['ren'], _C['gone']
    rb = ref.behs[s]
    ks = insts.get(s)
    if not ks:
        return Result(s, 'gone', note='no function of this name and signature')
    f = db.fns[next((k for k in ks if db.fns[k]['n'] == rb.name), ks[0])]
    where = (facts.rel(f['file']), f['l'])
    try:
        cb = behave(db, f, ref.known, ref.opaque, ref.pure)
    except contract.Timeout:
        return Result(s, 'undecided', note='analysis time limit', where=where)
    except (facts.AnalysisBroken, RecursionError) as ex:
        return Result(s, 'undecided', note=str(ex)[:200], where=where)
    if ren:
        cb = rename_beh(cb, ren)
    return verdict(s, rb, cb, where, gone)


# library functions whose purpose is to change a sequence or pick values: using one is a change of behaviour to be shown, not a question of spelling
TELLING = {'sort', 'stable_sort', 'partial_sort', 'unique', 'reverse', 'min', 'max', 'clamp', 'abs', 'erase', 'erase_if', 'remove', 'remove_if', 'resize', 'clear', 'pop_back', 'pop_front', 'pop', 'rotate',
           'shuffle', 'random_shuffle', 'truncate', 'exit', 'abort', 'terminate', '_Exit', 'quick_exit', 'push_back', 'insert', 'push_front', 'emplace_back', 'emplace', 'swap', 'assign', 'size', 'empty',
           'rand', 'tolower', 'toupper', 'replace', 'pop_back_val', 'set_size', 'take_front', 'take_back', 'drop_front', 'drop_back', 'back', 'front', 'find', 'count', 'round', 'floor', 'ceil', 'lround'}


def library(db):
    """Last names of the standard and LLVM support library functions the program calls."""
    out = set()
    st = [x for f in db.fns.values() for x in (f.get('body'), f.get('inits'))]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            fn = x.get('fn')
            if isinstance(fn, dict) and str(fn.get('n', '')).startswith(('std::', 'llvm::')):
                out.add(last(base(fn['n'])).split('<')[0])
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)
    return out


def unmodelled(db, ref):
    """Library functions the reviewed program does not use anywhere: what they compute is not known to the analysis."""
    if 'novel' not in _C:
        _C['novel'] = library(db) - library(ref.db()) - TELLING
    return _C['novel']


def foreign(d, novel):
    e = d.pair[1]
    return e is not None and novel and any(contains(x, lambda z: z and (z[0] == 'call' and isinstance(z[1], str) and z[1].split('(')[0].split('<')[0] in novel or z[0] == 'const' and z[1] in novel)) for x in (e[1], e[2]) + tuple(y for l in e[3] for y in l))


# different ways to cut the same text: which one is used says nothing by itself
SLICERS = {'split', 'rsplit', 'substr', 'slice', 'take_front', 'take_back', 'drop_front', 'drop_back', 'take_until', 'take_while', 'drop_until', 'drop_while', 'consume_front', 'consume_back', 'find', 'rfind', 'find_if',
           'find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of', 'getline', 'SplitString', 'remove_prefix', 'remove_suffix'}
# functions that answer another text or number than they are given
REWRITES = TELLING | SLICERS | {'ltrim', 'rtrim', 'trim', 'lower', 'upper', 'toLower', 'toUpper', 'remove_filename', 'filename', 'stem', 'lexically_normal', 'fmod', 'trunc', 'quoted', 'toHex', 'sys::path::filename'}


def calls_in(e):
    return {x[1].split('(')[0].split('<')[0] for t in (e[1], e[2]) + tuple(y for l in e[3] for y in l) for x in subterms(t) if x and x[0] == 'call' and isinstance(x[1], str)} | \
        {x[2] for t in (e[1], e[2]) for x in subterms(t) if x and x[0] == 'field' and x[2] in ('first', 'second')}


def without(t, names):
    """The term with the named functions replaced by their first argument."""
    if not isinstance(t, tuple):
        return t
    r = tuple(without(x, names) for x in t)
    if r and r[0] == 'call' and isinstance(r[1], str) and r[1].split('(')[0].split('<')[0] in names and r[2]:
        return r[2][0]
    return I(r) if type(t) is flow.T else r


def rewraps(ds):
    """An effect of the reviewed behaviour still happens, with one of its values sent through a function that rewrites it."""
    refs = [d.pair[0] for d in ds if d.pair[0] is not None]
    for d in ds:
        e = d.pair[1]
        if e is None:
            continue
        mine = calls_in(e)
        for r in refs:
            if r[0] != e[0]:
                continue
            extra = (mine - calls_in(r)) & REWRITES
            if extra and canon.ctext(without(e[1], extra)) == canon.ctext(r[1]):
                return True
    return False


FROM_END = {'rsplit', 'rfind', 'find_last_of', 'find_last_not_of'}
FROM_START = {'split', 'find', 'find_first_of', 'find_first_not_of'}


def ends_of(names):
    """Which occurrence the searches look for, when they all look for the same one."""
    r = {w for w, s in (('last', FROM_END), ('first', FROM_START)) if names & s}
    return r.pop() if len(r) == 1 else None


def recut(ds):
    """The same text is cut by other means."""
    a = set().union(*[calls_in(d.pair[0]) for d in ds if d.pair[0] is not None] or [set()])
    b = set().union(*[calls_in(d.pair[1]) for d in ds if d.pair[1] is not None] or [set()])
    a, b = a & SLICERS, b & SLICERS
    if FROM_END & (a ^ b) and ends_of(a) != ends_of(b) and ends_of(a) and ends_of(b):
        return False        # the first occurrence instead of the last one: not the same place
    return bool(a and b and a != b)


def verdict(s, rb, cb, where, gone):
    try:
        ds = compare(rb, cb)
        if ds and (recut(ds) or any(foreign(d, unmodelled(_C['db'], _C['ref'])) for d in ds)):
            told = rewraps(ds)
            novel = any(foreign(d, unmodelled(_C['db'], _C['ref'])) for d in ds)
            for d in ds:
                if told:
                    d.soft = False
                elif novel or any(e is not None and calls_in(e) & SLICERS for e in d.pair):
                    d.soft = True
    except (RecursionError, MemoryError) as ex:
        return Result(s, 'undecided', note=type(ex).__name__, where=where)
    hard = [d for d in ds if not d.soft]
    if not ds and any(x.startswith('too many cases') for b in (rb, cb) for x in b.incomplete):
        return Result(s, 'undecided', note='too many cases to tell apart', where=where)
    if not ds:
        return Result(s, 'same', beh=len(rb.effects), where=where)
    newinc = [x for x in cb.incomplete if not any(y.split(' at ')[0] == x.split(' at ')[0] for y in rb.incomplete)]
    if newinc:
        return Result(s, 'undecided', ds, 'construct the analysis does not model: ' + newinc[0], where=where)
    if gone and mentions(rb, gone):
        return Result(s, 'undecided', ds, 'a function the reviewed behaviour is expressed in no longer exists', where=where)
    if not hard:
        return Result(s, 'undecided', ds, 'no exact model on one side', where=where)
    return Result(s, 'differs', hard, where=where)


def check(db, ref, wanted=None, procs=8):
    fns = contract.product_functions(db)
    insts = {}
    ren = field_renames(db, ref)
    ren.update({('global', a): b for a, b in global_renames(db, ref).items()})
    for k, f in sorted(fns.items()):
        s = sig(f)
        if f.get('pseudo') and ('global', f['vn']) in ren:
            s = sig(dict(f, vn=ren['global', f['vn']]))
        insts.setdefault(s, []).append(k)
    gone = {last(base(s.split('(')[0])) for s in ref.opaque if s not in insts}
    present = {last(base(s.split('(')[0])) for s in insts}
    gone -= present
    _C.pop('novel', None)
    _C.update(ref=ref, db=db, insts=insts, ren=ren, gone=gone, until=time.time() + 420)
    with Pool(procs) as p:
        res = list(p.imap_unordered(_cmp, sorted(ref.behs), chunksize=4))
    _C['rsig'], _C['csig'] = by_sig(contract.product_functions(ref.db())), by_sig(fns)
    res = reuse(db, ref, res, fns)
    res = recompose(db, ref, res, fns)
    return [r for r in res if wanted is None or wanted(ref.behs[r.sig])]


# ---------------------------------------------------------------------------------------------- moved work

def helpers_of(fs, d, known):
    """Signatures of the contracted functions a function calls, directly or through functions no contract covers."""
    out, seen, st = set(), set(), list(fs)
    while st:
        f = st.pop()
        if f['key'] in seen:
            continue
        seen.add(f['key'])
        for c in contract.callees(f, d):
            g = d.fns[c]
            if g.get('body'):
                if sig(g) in known:
                    out.add(sig(g))
                else:
                    st.append(g)
    return out


def spelled_out(rfs, cfs, bdb, db, known):
    """The helpers to spell out, outermost first, until both sides call the same ones."""
    X = set()
    while len(X) <= 8:
        a, b = helpers_of(rfs, bdb, set(known) - X), helpers_of(cfs, db, set(known) - X)
        D = a ^ b
        if not D:
            return X
        under = set()
        for d, fs in ((bdb, _C['rsig']), (db, _C['csig'])):
            for s in D:
                st, seen = list(fs.get(s, ())[:1]), set()
                while st:
                    f = st.pop()
                    for c in contract.callees(f, d):
                        g = d.fns[c]
                        if g.get('body') and c not in seen:
                            seen.add(c)
                            st.append(g)
                under |= {sig(d.fns[c]) for c in seen} - {s}
        tops = {s for s in D - under if s in _C['rsig'] or s in _C['csig']}
        if not tops:
            return None
        X |= tops
    return None


def recursive(fns, d):
    rec = set()
    g = {k: {c for c in contract.callees(f, d) if c in fns} for k, f in fns.items()}
    for c in contract.sccs(g):
        if len(c) > 1 or c[0] in g[c[0]]:
            rec |= {sig(fns[k]) for k in c}
    return rec


def reuse(db, ref, res, fns):
    """A function that starts (or stops) calling a function that exists on both sides: compared with that function spelled out."""
    bad = [r for r in res if r.status == 'differs']
    if not bad or len(bad) > 24:
        return res
    bdb = ref.db()
    jobs = []
    rec = None
    for r in bad:
        rf, cf_ = _C['rsig'].get(r.sig), _C['csig'].get(r.sig)
        if not rf or not cf_:
            continue
        N = helpers_of(rf[:1], bdb, ref.known) ^ helpers_of(cf_[:1], db, ref.known)
        if N and rec is None:
            rec = recursive(fns, db) | recursive(contract.product_functions(bdb), bdb)
        N = {s for s in N if s not in rec and s in _C['rsig'] and s in _C['csig'] and not any(f.get('overrides') or f.get('virt') for f in _C['rsig'][s] + _C['csig'][s])} if N else N
        X = spelled_out(rf[:1], cf_[:1], bdb, db, ref.known)
        if X and any(s in rec or any(f.get('overrides') or f.get('virt') for f in _C['rsig'].get(s, []) + _C['csig'].get(s, [])) for s in X):
            X = None
        for n in {frozenset(n) for n in (X, N) if n and len(n) <= 8}:
            jobs.append((r.sig, n))
    if not jobs:
        return res
    with Pool(min(8, len(jobs))) as p:
        same = {d.sig for d in p.map(_deep, jobs, chunksize=1) if d.status == 'same'}
    for r in bad:
        if r.sig in same:
            r.status, r.diffs = 'same', []
            r.note = 'a call of an existing function instead of its text; same behaviour'
    return res


def anchor_callers(db, fns, anchors):
    """sig -> anchors that reach it without passing another anchor."""
    rev = {}
    for k, f in fns.items():
        for c in contract.callees(f, db):
            if c in fns:
                rev.setdefault(sig(fns[c]), set()).add(sig(f))
    out = {}

    def up(s):
        seen, st, res = set(), [s], set()
        while st:
            x = st.pop()
            for c in rev.get(x, ()):
                if c in seen:
                    continue
                seen.add(c)
                if c in anchors:
                    res.add(c)
                else:
                    st.append(c)
        return res
    return lambda s: out.setdefault(s, up(s))


def by_sig(fns):
    out = {}
    for k, f in sorted(fns.items()):
        out.setdefault(sig(f), []).append(f)
    return out


def exposed(f, entries=('main',)):
    """Observable from outside the unit it is written in."""
    if f.get('pseudo') or f['n'] == 'main' or f.get('externc') or f.get('overrides') or f.get('virt'):
        return True
    n = last(base(f['n']))
    if f.get('cls') and re.match(r'(Visit|Traverse|callback|dataTraverse|WalkUpFrom|should)', n):
        return True
    return False


@bounded(60)
def _deep(job):
    s, N = job
    ref, db, ren = _C['ref'], _C['db'], _C['ren']
    bdb = ref.db()
    rf, cf_ = _C['rsig'].get(s), _C['csig'].get(s)
    if not rf or not cf_:
        return Result(s, 'undecided', note='a caller of the changed function exists on one side only')
    rf = next((f for f in rf if f['n'] == ref.behs[s].name), rf[0])
    f = next((f for f in cf_ if f['n'] == rf['n']), cf_[0])
    where = (facts.rel(f['file']), f['l'])
    op = frozenset(ref.opaque - N)
    # what no contract covers is part of its callers
    N = N | frozenset(x for x in ref.known if x not in ref.behs)
    try:
        rb = behave(bdb, rf, ref.known, op, ref.pure, seconds=20, force=N)
        cb = behave(db, f, ref.known, op, ref.pure, seconds=20, force=N)
    except contract.Timeout:
        return Result(s, 'undecided', note='analysis time limit', where=where)
    except (facts.AnalysisBroken, RecursionError) as ex:
        return Result(s, 'undecided', note=str(ex)[:200], where=where)
    if ren:
        cb = rename_beh(cb, ren)
    return verdict(s, rb, cb, where, ())


def fingerprint(f):
    """What is written in a function, without positions."""
    def go(x):
        if isinstance(x, dict):
            return {k: go(v) for k, v in x.items() if k not in ('l', 'file', 'col')}
        if isinstance(x, list):
            return [go(v) for v in x]
        if isinstance(x, str):
            return re.sub(r'@[^@ ]*|/[^ ]*?:\d+:\d+', '', x)
        return x
    return json.dumps(go({k: f.get(k) for k in ('body', 'inits', 'params')}), sort_keys=True)


def rewritten(db, bdb):
    """Signatures of the functions whose own text changed, appeared or vanished."""
    out = []
    for d in (bdb, db):
        contract.add_initialisers(d)
        m = {}
        for f in d.fns.values():
            if f.get('body') and not f.get('inst'):
                m.setdefault(sig(f), set()).add(fingerprint(f))
        out.append(m)
    a, b = out
    return {s for s in set(a) | set(b) if a.get(s) != b.get(s)}


def recompose(db, ref, res, fns):
    """Functions whose behaviour moved: when a changed helper has callers, what counts is what the callers do."""
    changed = {r.sig: r for r in res if r.status != 'same'}
    if not changed:
        return res
    bdb = ref.db()
    rfns = contract.product_functions(bdb)
    anchors = set(ref.behs)
    rup, cup = anchor_callers(bdb, rfns, anchors), anchor_callers(db, fns, anchors)
    _C['rsig'], _C['csig'] = by_sig(rfns), by_sig(fns)
    rec = set()
    for fs, d in ((rfns, bdb), (fns, db)):
        g = {k: {c for c in contract.callees(f, d) if c in fs} for k, f in fs.items()}
        for c in contract.sccs(g):
            if len(c) > 1 or c[0] in g[c[0]]:
                rec |= {sig(fs[k]) for k in c}
    up = lambda s: (rup(s) | cup(s)) - {s}
    inner = lambda s: s not in rec and not any(exposed(f) for f in _C['rsig'].get(s, []) + _C['csig'].get(s, []))
    comp = {s: s for s in changed}

    def find(x):
        while comp[x] != x:
            x = comp[x]
        return x
    for s in changed:
        if inner(s):
            for c in up(s):
                if c in changed:
                    comp[find(s)] = find(c)
    groups_ = {}
    for s in changed:
        groups_.setdefault(find(s), set()).add(s)
    wrote = None
    for M in groups_.values():
        N = {s for s in M if inner(s) and up(s)}
        if not N:
            continue
        roots = (M - N) | (set().union(*(up(s) for s in N)) - N)
        if len(roots) > 40:
            continue
        jobs = [(r, frozenset(N)) for r in sorted(roots)]
        if len(jobs) > 3:
            with Pool(min(8, len(jobs))) as p:
                deep = p.map(_deep, jobs, chunksize=1)
        else:
            deep = [_deep(j) for j in jobs]
        st = {d.status for d in deep}
        if st == {'same'}:
            for s in M:
                changed[s].status, changed[s].diffs = 'same', []
                changed[s].note = 'work moved between functions; every caller behaves as reviewed'
        elif 'differs' in st:
            dd = [d for d in deep if d.status == 'differs']
            for s in M:
                if changed[s].status != 'differs':
                    changed[s].status = 'differs'
                    changed[s].diffs = [x for d in dd for x in d.diffs]
                    changed[s].where = changed[s].where or dd[0].where
            for d in dd:
                if d.sig not in changed:
                    changed[d.sig] = d
        else:
            whole = [s for s in M if changed[s].status == 'differs']
            if wrote is None:
                wrote = rewritten(db, bdb)
            if len(M) > 1 and len(wrote) > 1:
                for s in whole:
                    changed[s].status, changed[s].note = 'undecided', 'the change spans several functions that could not be analysed together'
    return [changed.get(r.sig, r) for r in res]


def main(argv):
    db = facts.load()
    t = time.time()
    if argv[:1] == ['generate']:
        taken, bad = generate(db)
        print('contracted', len(taken), 'failed', bad[:10], 'time', round(time.time() - t, 1))
        return
    for f, e in db.errors:
        if len(e) > {'CompilerInstance.cpp': 3, 'Driver.cpp': 3}.get(f.split('/')[-1], 0):
            print('ERRORS', facts.rel(f), e[:2])
            return
    ref = Reference()
    import names
    names.unify(db, ref)
    res = check(db, ref, (lambda b: any(a in b.sig for a in argv)) if argv else None)
    n = {}
    for r in sorted(res, key=lambda r: r.sig):
        n[r.status] = n.get(r.status, 0) + 1
        if r.status != 'same':
            print(r.status.upper(), r.sig[:150], r.where, r.note)
            for d in r.diffs[:6]:
                print('   ', d.kind, '(soft)' if d.soft else '', d.text.replace('\n', '\n      '))
    print(n, 'time', round(time.time() - t, 1))


if __name__ == '__main__':
    main(sys.argv[1:])
