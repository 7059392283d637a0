"""Names carry no behaviour: classes, members and recursive helpers that were only renamed get their reviewed names back.

Any one-to-one renaming that makes two programs equal proves them equal, so the choice among candidates needs no
justification beyond consistency: what is compared afterwards is the whole behaviour under the renaming.
"""
import re

import facts

PRODUCT = ('oclint-core/', 'oclint-driver/', 'oclint-metrics/', 'oclint-reporters/', 'oclint-rules/')
WORD = re.compile(r'[A-Za-z_]\w*')


def product(r):
    return facts.rel(r.get('file') or '').startswith(PRODUCT) and '/test/' not in (r.get('file') or '')


def plain(n):
    """A name without template arguments."""
    out, d = [], 0
    for ch in n:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    return ''.join(out)


def simple(n):
    return plain(n).split('::')[-1]


def classes(db):
    out = {}
    for c in db.classes.values():
        if product(c) and simple(c['n']) and '(' not in c['n']:
            out.setdefault((facts.rel(c['file']), plain(c['n'])), []).append(c)
    return out


def shape(c):
    me = simple(c['n'])
    other = lambda t: re.sub(r'\b%s\b' % re.escape(me), '@', re.sub(r'\b(\w+::)+(?=%s\b)' % re.escape(me), '', t))
    return (sorted({plain(b.get('n') or b['t']) for b in c['bases']}), {(m['n'] if m['n'] != me and m['n'] != '~' + me else '@', tuple(other(x) for x in m.get('pt', ()))) for m in c['methods'] if not m.get('implicit')},
            sorted(other(x['t']) for x in c.get('fields', ())), {m['n'] for m in c['methods'] if not m.get('implicit') and m['n'] not in (me, '~' + me)})


def class_renames(db, bdb):
    """[(current record, reviewed record)] of classes that have another name, or live in another scope of the same file."""
    was, now = classes(bdb), classes(db)
    gone = {k: v[0] for k, v in was.items() if k not in now}
    new = {k: v[0] for k, v in now.items() if k not in was}
    out = []
    for (f, n), c in sorted(gone.items()):
        sc = shape(c)
        best = []
        for (g, m), d in sorted(new.items()):
            if g != f:
                continue
            sd = shape(d)
            common = len(sc[3] & sd[3])
            total = max(len(sc[3] | sd[3]), 1)
            alike = simple(m) == simple(n) or (sc[0] == sd[0] and (common * 2 >= total or sc[2] == sd[2] and sc[2]))
            if alike:
                best.append((simple(m) == simple(n), common / total, sc[2] == sd[2], m, d))
        best.sort(key=lambda x: x[:4], reverse=True)
        if best and (len(best) == 1 or best[0][:3] > best[1][:3]):
            out.append((best[0][4], c))
            del new[(f, plain(best[0][4]['n']))]
    return out


def strings(x, f, skip=('s', 'file')):
    """x with f applied to every text in it (program text in literals aside)."""
    if isinstance(x, dict):
        return {k: (v if k in skip and isinstance(v, str) else strings(v, f, skip)) for k, v in x.items()}
    if isinstance(x, list):
        return [strings(y, f, skip) for y in x]
    if isinstance(x, str):
        return f(x)
    return x


def words(db, only=None):
    out = set()

    def go(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k != 's' and k != 'file':
                    go(v)
        elif isinstance(x, list):
            for y in x:
                go(y)
        elif isinstance(x, str):
            out.update(WORD.findall(x))
    for d in (db.fns, db.classes, db.globals, db.enums):
        for r in d.values():
            if only is None or r.get('file') == only:
                go(r)
    return out


def rebuild(db, f):
    for name in ('fns', 'classes', 'globals', 'enums'):
        d = getattr(db, name)
        out = {}
        for r in d.values():
            r = f(r)
            out[r['key']] = r
        setattr(db, name, out)
    db.by_name, db.cls_by_name = {}, {}
    db.load([])


def apply_classes(db, pairs):
    rules = []
    for d, c in pairs:
        rules.append((d['key'], c['key']))
    rules.sort(key=lambda x: -len(x[0]))
    quals = [(re.compile(r'(?<![\w:])%s(?!\w)' % re.escape(plain(d['n']))), plain(c['n']), simple(d['n']), simple(c['n'])) for d, c in pairs]
    quals.sort(key=lambda x: -len(x[0].pattern))
    tests = [x for d, c in pairs for x in (simple(d['n']),)]

    def text(s):
        if not any(x in s for x in tests):
            return s
        for a, b in rules:
            if a in s:
                s = re.sub(re.escape(a) + r'(?!\w)', lambda m: b, s)
        for rx, q, a, b in quals:
            s = rx.sub(lambda m: q, s)
            if a != b:
                s = re.sub(r'(?<!\w)%s(?!\w)' % re.escape(a), b, s)
        return s
    rebuild(db, lambda r: strings(r, text))


def field_renames(db, bdb):
    """{(class, current name): reviewed name}"""
    was, now = classes(bdb), classes(db)
    byname = {}
    for (f, n), cs in now.items():
        byname.setdefault(n, cs)
    m = {}
    for (f, n), cs in was.items():
        if n not in byname:
            continue
        c, d = cs[0], byname[n][0]
        old = [(x['n'], x['t']) for x in c.get('fields', ())]
        cur = [(x['n'], x['t']) for x in d.get('fields', ())]
        gone = [x for x in old if x[0] not in {y[0] for y in cur}]
        new = [x for x in cur if x[0] not in {y[0] for y in old}]
        for t in sorted({x[1] for x in gone}):
            a, b = [x[0] for x in gone if x[1] == t], [x[0] for x in new if x[1] == t]
            if len(a) == len(b):
                m.update({(n, y): x for x, y in zip(a, b)})
        # one member in place of one other, of a related type (an owning pointer for a plain one)
        rest = lambda l, q: [x for x in l if (n, x[0]) not in m and x[0] not in {v for (k, _), v in m.items() if k == n}]
        a, b = rest(gone, 0), rest(new, 0)
        if len(a) == 1 and len(b) == 1 and pointee(a[0][1]) == pointee(b[0][1]):
            m[(n, b[0][0])] = a[0][0]
    return m


def pointee(t):
    t = re.sub(r'\bconst\b', '', t)
    g = re.match(r'\s*std::(?:unique_ptr|shared_ptr)<\s*([^<>,]+)', t)
    return (g.group(1) if g else t).replace('*', '').replace('&', '').strip()


def apply_fields(db, m):
    by_field = {}
    for (c, n), o in m.items():
        by_field.setdefault(n, {})[c] = o

    def fix_id(i, n, o):
        return i[:-len(n)] + o if isinstance(i, str) and i.endswith('@FI@' + n) else i

    def go(x, cls):
        if isinstance(x, list):
            for y in x:
                go(y, cls)
            return
        if not isinstance(x, dict):
            return
        if x.get('k') == 'MemberExpr' and x.get('field') and x.get('n') in by_field:
            q = plain(x['qn'].rsplit('::' + x['n'], 1)[0])
            o = by_field[x['n']].get(q)
            if o:
                n = x['n']
                x['qn'] = x['qn'][:-len(n)] + o
                x['id'] = fix_id(x.get('id'), n, o)
                x['n'] = o
        elif isinstance(x.get('field'), str) and x['field'] in by_field and 'e' in x:
            o = by_field[x['field']].get(cls)
            if o:
                x['id'] = fix_id(x.get('id'), x['field'], o)
                x['field'] = o
        for v in x.values():
            if isinstance(v, (dict, list)):
                go(v, cls)
    for f in db.fns.values():
        go(f.get('inits'), plain(f.get('cls') or ''))
        go(f.get('body'), plain(f.get('cls') or ''))
    for c in db.classes.values():
        for x in c.get('fields', ()):
            o = by_field.get(x['n'], {}).get(plain(c['n']))
            if o:
                x['id'] = fix_id(x.get('id'), x['n'], o)
                x['n'] = o
            go(x, plain(c['n']))


def calls_itself(f):
    st = [f.get('body')]
    me = plain(f['n'])
    while st:
        x = st.pop()
        if isinstance(x, dict):
            fn = x.get('fn')
            if isinstance(fn, dict) and plain(fn.get('n', '')) == me:
                return True
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(x)
    return False


def fn_renames(db, bdb):
    """[(file, current name, reviewed name)] of functions that call themselves and only changed their name."""
    def table(d):
        out = {}
        for f in d.fns.values():
            if product(f) and f.get('body') and not f.get('ctor') and not f.get('overrides') and not f.get('virt') and not f.get('externc') and not f.get('pseudo'):
                out.setdefault((facts.rel(f['file']), plain(f.get('cls') or ''), simple(f['n'])), []).append(f)
        return out
    was, now = table(bdb), table(db)
    out = []
    for k, fs in sorted(was.items()):
        if k in now or not any(calls_itself(f) for f in fs):
            continue
        sigs = {(tuple(p['t'] for p in f['params']), f.get('rt')) for f in fs}
        cand = [q for q, gs in now.items() if q[:2] == k[:2] and q not in was and {(tuple(p['t'] for p in g['params']), g.get('rt')) for g in gs} == sigs and any(calls_itself(g) for g in gs)]
        if len(cand) == 1:
            out.append((k[0], cand[0][2], k[2]))
    return out


def apply_fns(db, l):
    for file, a, b in l:
        path = next((r['file'] for r in db.fns.values() if facts.rel(r.get('file') or '') == file), None)
        if path is None or b in words(db, path):
            continue
        rx = re.compile(r'(?<!\w)%s(?!\w)' % re.escape(a))
        only = None if file.endswith('.h') else path
        rebuild(db, lambda r: r if only and r.get('file') != only else strings(r, lambda s: rx.sub(b, s) if a in s else s))


BINDING = re.compile(r'(^|::)(bind|getNodeAs|hasNode|getNode)(<|$)')


def literals(x):
    if isinstance(x, dict):
        if x.get('k') == 'StringLiteral':
            yield x
        else:
            for v in x.values():
                if isinstance(v, (dict, list)):
                    yield from literals(v)
    elif isinstance(x, list):
        for y in x:
            yield from literals(y)


def bound(db):
    """file -> literals that name a part of a pattern, in the order of the program text"""
    out = {}
    for f in sorted(db.fns.values(), key=lambda f: (f.get('file') or '', f.get('l') or 0, f['key'])):
        if not product(f):
            continue
        st = [f.get('body')]
        here = []
        while st:
            x = st.pop()
            if isinstance(x, dict):
                fn = x.get('fn')
                if isinstance(fn, dict) and BINDING.search(plain(fn.get('n', ''))):
                    here += list(literals(x.get('args')))
                st.extend(v for v in x.values() if isinstance(v, (dict, list)))
            elif isinstance(x, list):
                st.extend(x)
        if here:
            out.setdefault(facts.rel(f['file']), []).extend(sorted(here, key=lambda x: (x.get('l') or 0)))
    return out


def unify_bindings(db, bdb):
    was, now = bound(bdb), bound(db)
    n = 0
    for file, l in now.items():
        a = list(dict.fromkeys(x.get('s') for x in was.get(file, ())))
        b = list(dict.fromkeys(x.get('s') for x in l))
        gone, new = [x for x in a if x not in b], [x for x in b if x not in a]
        # every use must have been renamed: a name that is bound but no longer looked up is another program
        count = lambda q, s: len([1 for x in q if x.get('s') == s])
        if gone and len(gone) == len(new) and all(count(was[file], x) == count(l, y) for x, y in zip(gone, new)):
            m = dict(zip(new, gone))
            for x in l:
                if x.get('s') in m:
                    x['s'] = m[x['s']]
                    n += 1
    return n


def unify(db, ref):
    """Gives renamed parts of db the names that the reviewed program uses.  Answers what was renamed."""
    if getattr(db, 'unified', False):
        return db.unified
    bdb = ref.db()
    notes = []
    pairs = class_renames(db, bdb)
    if pairs:
        known = words(bdb)
        pairs = [(d, c) for d, c in pairs if simple(d['n']) == simple(c['n']) or simple(d['n']) not in known]
    if pairs:
        apply_classes(db, pairs)
        notes += ['%s is the reviewed %s' % (d['n'], c['n']) for d, c in pairs]
    m = field_renames(db, bdb)
    if m:
        apply_fields(db, m)
        notes += ['%s::%s is the reviewed %s' % (c, n, o) for (c, n), o in sorted(m.items())]
    l = fn_renames(db, bdb)
    if l:
        apply_fns(db, l)
        notes += ['%s in %s is the reviewed %s' % (a, f, b) for f, a, b in l]
    if unify_bindings(db, bdb):
        notes.append('names of pattern parts were changed')
    db.unified = notes or ['no renaming']
    return db.unified
