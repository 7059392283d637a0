"""Behaviour contracts: which functions carry one, and how one is computed from the current tree."""
import contextlib
import json
import os
import re
import signal
import sys
import time
from multiprocessing import Pool

import facts
import flow
import canon
from flow import base, last

LIMIT = 3500      # a helper with a longer summary is a boundary of its own


def stem(f):
    return re.sub(r'\.(h|cpp)$', '', f.split('/')[-1])


def ptype(t):
    t = t.replace('const ', '').replace('&', '').replace('std::__cxx11::', 'std::').replace(' ', '')
    return t


def sig(f):
    """Overload-unique, refactoring-tolerant name of a function."""
    if f.get('pseudo'):
        return 'initialiser of %s:%s' % (stem(f['file']), f['vn'])
    if f.get('externc') and not f.get('hdr') and f['n'] != 'main':
        return '%s:%s()' % (stem(f['file']), f['n'])
    if f.get('targs'):
        return '%s<%s>(%s)' % (base(f['n']), ','.join(ptype(str(t)) for t in f['targs']), ','.join(ptype(p['t']) for p in f['params']))
    return '%s(%s)' % (base(f['n']) if not f['n'].startswith('operator') else f['n'], ','.join(ptype(p['t']) for p in f['params']))


def callees(f, db):
    out = set()
    st = [f.get('body'), f.get('inits')]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            fn = x.get('fn')
            if isinstance(fn, dict) and fn.get('key') in db.fns:
                out.add(fn['key'])
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)
    return out


def sccs(graph):
    idx, low, on, stack, out, n = {}, {}, set(), [], [], [0]
    sys.setrecursionlimit(20000)

    def go(v):
        idx[v] = low[v] = n[0]
        n[0] += 1
        stack.append(v)
        on.add(v)
        for w in graph.get(v, ()):
            if w not in graph:
                continue
            if w not in idx:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            c = []
            while True:
                w = stack.pop()
                on.discard(w)
                c.append(w)
                if w == v:
                    break
            out.append(c)
    for v in graph:
        if v not in idx:
            go(v)
    return out


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


@contextlib.contextmanager
def limit(seconds):
    """A time limit on what is done inside; limits nest."""
    signal.signal(signal.SIGALRM, _alarm)
    outer, t0 = signal.getitimer(signal.ITIMER_REAL)[0], time.time()
    signal.setitimer(signal.ITIMER_REAL, min(seconds, outer) if outer else seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, max(0.05, outer - (time.time() - t0)) if outer else 0)


def make_inline(root_sig, known, opaque, always=(), force=()):
    """known: sig -> file stem at the time the contracts were written; opaque: sigs that are boundaries everywhere."""
    rs = known.get(root_sig)

    def pred(f):
        s = sig(f)
        if s in always:
            return False
        if s in force:
            return True
        if s not in known:
            return True
        if s in opaque:
            return False
        if f.get('targs') or '<' in f['n']:
            return True
        return known[s] == rs
    return pred


def summarise(db, f, known, opaque, always=(), seconds=60, sink=None, force=()):
    with limit(seconds):
        flow.LOST[0] = False
        S = canon.Summariser(db, inline=make_inline(sig(f), known, opaque, always, force)).run(f, sink)
        if flow.LOST[0]:
            S.incomplete.append('too many cases')
        return S


def add_initialisers(db):
    """Variables at namespace scope: their initialisers are analysed as functions that return the initial value."""
    for k, g in db.globals.items():
        if g.get('init') and 'init:' + k not in db.fns:
            db.fns['init:' + k] = {'rec': 'fn', 'key': 'init:' + k, 'n': 'initialiser of ' + g['n'], 'vn': g['n'], 'vt': g['t'], 'pseudo': True, 'file': g['file'], 'l': g['l'], 'params': [],
                                   'rt': g['t'], 'body': {'k': 'CompoundStmt', 'l': g['l'], 'c': [{'k': 'ReturnStmt', 'l': g['l'], 'v': g['init']}]}}


def product_functions(db):
    add_initialisers(db)
    return {k: f for k, f in db.fns.items() if not f.get('pattern') and f.get('body') and not f['n'].startswith('lambda') and '(anonymous class)' not in f['n']}


_G = {}


def _size(k):
    db, known, opaque = _G['db'], _G['known'], _G['opaque']
    f = db.fns[k]
    t = time.time()
    try:
        S = summarise(db, f, known, opaque, seconds=20)
        return k, sum(len(canon.etext(e)) for e in S.effects), time.time() - t, S.incomplete
    except Timeout:
        return k, 10 ** 9, time.time() - t, ['timeout']
    except RecursionError:
        return k, 10 ** 9, time.time() - t, ['recursion']


def plan(db):
    """Decides the boundaries bottom-up: recursion groups and helpers with a long summary of their own."""
    fns = product_functions(db)
    known = {}
    for k, f in fns.items():
        known.setdefault(sig(f), stem(f['file']))
    graph = {k: {c for c in callees(f, db) if c in fns} for k, f in fns.items()}
    comps = sccs(graph)          # reverse topological order: callees first
    level, where = {}, {}
    for i, c in enumerate(comps):
        for k in c:
            where[k] = i
    opaque = set()
    for i, c in enumerate(comps):
        level[i] = 1 + max([level[where[w]] for k in c for w in graph[k] if where[w] != i] + [-1])
        if len(c) > 1 or c[0] in graph[c[0]]:
            opaque |= {sig(fns[k]) for k in c}
    sizes = {}
    for lv in range(max(level.values()) + 1):
        keys = [k for i, c in enumerate(comps) if level[i] == lv for k in c]
        _G.update(db=db, known=known, opaque=opaque)
        with Pool(8) as p:
            for k, n, dt, inc in p.imap_unordered(_size, keys, chunksize=2):
                sizes[k] = (n, dt, inc)
        # a function with too many cases is analysed in terms of its helpers
        again = [k for k in keys if 'too many cases' in sizes[k][2]]
        for k in again:
            opaque |= {sig(fns[w]) for w in graph[k] if w != k}
        if again:
            _G.update(db=db, known=known, opaque=opaque)
            with Pool(8) as p:
                for k, n, dt, inc in p.imap_unordered(_size, again):
                    sizes[k] = (n, dt, inc)
        for k in keys:
            if sizes[k][0] > LIMIT:
                opaque.add(sig(fns[k]))
    return fns, known, opaque, graph, sizes


if __name__ == '__main__':
    db = facts.load()
    t = time.time()
    fns, known, opaque, graph, sizes = plan(db)
    print('functions', len(fns), 'boundaries', len(opaque), 'time', round(time.time() - t, 1))
    for k, (n, dt, inc) in sorted(sizes.items(), key=lambda x: -x[1][0])[:70]:
        print(n, round(dt, 1), sig(fns[k])[:150])
