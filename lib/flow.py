"""Value-flow engine: a forward, path-sensitive dataflow over the typed syntax tree.

Every expression gets a *value term* (value numbering: two expressions with the same term always have the same value
when no store intervenes); every program point gets the set of branch facts that hold there; calls and stores become
*events*.  Branches that complete normally are merged (gated values `cases`, alternative events `alt`); only early
exits keep separate exit states.  Loops are summarised by a fixpoint: everything the body changes is replaced by a loop
phi, the body is analysed once under the phis, and the result is a `loop` event plus `fold` values.  Repository
functions are inlined (so extracting or merging helpers changes nothing), everything else is an opaque term.
Nothing is executed and no path condition is handed to a solver.
"""
import hashlib
import hier
import re

from facts import AnalysisBroken

# ------------------------------------------------------------------------------------------------ names

_tcache = {}


UNROLL = 6


def base(n):
    """Qualified name without template arguments."""
    r = _tcache.get(n)
    if r is None:
        out, d, i = [], 0, 0
        m = re.search(r'operator(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|<|>)', n)
        tail = ''
        body = n
        if m:
            body, tail = n[:m.start()], n[m.start():]
            t2 = re.match(r'(operator(?:<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|<|>))', tail)
            tail = t2.group(1)
        for ch in body:
            if ch == '<':
                d += 1
            elif ch == '>':
                d -= 1
            elif d == 0:
                out.append(ch)
        r = ''.join(out) + tail
        r = r.replace('std::__cxx11::', 'std::').replace('std::__1::', 'std::')
        _tcache[n] = r
    return r


def last(n):
    b = base(n)
    return b.split('::')[-1]


# ------------------------------------------------------------------------------------------------ terms

class T(tuple):
    """Interned term: hash and structural digest are computed once, so shared subterms cost nothing."""

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is T:
            return self.dg == o.dg
        return tuple.__eq__(self, o)

    def __ne__(self, o):
        return not self == o


_interned = {}


def I(t):
    """Interned form of a term."""
    if type(t) is T or not isinstance(t, tuple):
        return t
    if type(t) is not tuple:
        return t
    kids = [I(x) if isinstance(x, tuple) else x for x in t]
    dg = hashlib.blake2b('\0'.join(x.dg if type(x) is T else type(x).__name__ + repr(x) for x in kids).encode(), digest_size=12).hexdigest()
    r = _interned.get(dg)
    if r is None:
        r = T(kids)
        r.h = tuple.__hash__(r)
        r.dg = dg
        _interned[dg] = r
    return r


def dkey(t):
    return I(t).dg if isinstance(t, tuple) else repr(t)


TRUE, FALSE = I(('const', True)), I(('const', False))
NULL = I(('const', None))


def const(v):
    return I(('const', v))


def is_const(t):
    return t[0] == 'const'


def numval(t):
    """The number behind a literal or an enumerator."""
    if t[0] == 'enum':
        return t[2]
    if t[0] == 'const' and isinstance(t[1], int) and not isinstance(t[1], bool):
        return t[1]
    return None


def enum_range(e):
    """x < Enumerator  as  x == E1 || x == E2 ..., over the enumerators there are."""
    if e.get('k') != 'BinaryOperator' or e.get('op') not in ('<', '>', '<=', '>='):
        return None
    for i in (0, 1):
        c = e['c'][i]
        while c.get('k') in ('ImplicitCastExpr', 'ParenExpr') and c.get('c'):
            c = c['c'][0]
        if c.get('dk') == 'EnumConstant' and c.get('ens'):
            op = e['op'] if i == 1 else {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[e['op']]
            pick = []
            for x in c['ens'].split(','):
                n, v = x.rsplit('=', 1)
                if {'<': int(v) < int(c['v']), '>': int(v) > int(c['v']), '<=': int(v) <= int(c['v']), '>=': int(v) >= int(c['v'])}[op]:
                    if v not in [p[1] for p in pick]:
                        pick.append((n, v))
            o = e['c'][1 - i]
            d = o
            while d.get('k') in ('ImplicitCastExpr', 'ParenExpr') and d.get('c'):
                d = d['c'][0]
            if d.get('dk') == 'EnumConstant' or d.get('k') not in ('DeclRefExpr', 'MemberExpr', 'CXXMemberCallExpr') or not pick:
                return None
            r = None
            for n, v in pick:
                q = dict(e, op='==', c=[o, dict(c, n=n, v=v, qn=c['qn'].rsplit('::', 1)[0] + '::' + n if '::' in c['qn'] else n)])
                r = q if r is None else dict(e, op='||', c=[r, q])
            return r
    return None


def subterms(t):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if type(x) is T:
                if id(x) in seen:
                    continue
                seen.add(id(x))
            if x and isinstance(x[0], str):
                yield x
            st.extend(y for y in x if isinstance(y, tuple))


def contains(t, pred):
    return any(pred(s) for s in subterms(t))


def subst(t, m, memo=None):
    if not isinstance(t, tuple):
        return t
    if memo is None:
        memo = {}
    if type(t) is T:
        r = memo.get(t.dg)
        if r is None:
            r = I(m[t]) if t in m else I(tuple(subst(x, m, memo) for x in t))
            memo[t.dg] = r
        return r
    if t and isinstance(t[0], str) and not any(isinstance(x, dict) for x in t) and t in m:
        return m[t]
    r = tuple(subst(x, m, memo) for x in t)
    return type(t)(r) if type(t) in (_Evs, Ev) else r


def show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if d > 9:
        return '...'
    s = lambda x: show(x, d + 1)
    if not isinstance(k, str):
        return '<' + ', '.join(s(x) if isinstance(x, tuple) else str(x) for x in t) + '>'
    if k == 'phi':
        return 'phi%s(%s)' % (t[1], s(t[2]) if isinstance(t[2], tuple) else t[2])
    if k == 'fold':
        return 'fold[%s over %s from %s: %s]' % (t[1], s(t[2]), s(t[3]), '; '.join(dnf_str(f, d + 1) + ' -> ' + s(v) for f, v in t[5]))
    if k == 'atom' and t[1] == 'none':
        return 'none[%s over %s: %s]' % (t[2][1], s(t[3]), dnf_str(t[4], d + 1))
    if k == 'const':
        return 'nullptr' if t[1] is None else repr(t[1])
    if k in ('param',):
        return t[1]
    if k == 'var':
        return str(t[2]).split('@')[0].split(':')[-1]
    if k == 'this':
        return 'this'
    if k == 'field':
        return s(t[1]) + '.' + t[2]
    if k == 'global':
        return t[1]
    if k == 'call':
        return last(t[1]) + '(' + ', '.join(s(x) for x in t[2]) + ')'
    if k == 'elem':
        return 'each(' + s(t[1]) + ')'
    if k == 'op':
        return '(' + s(t[2]) + ' ' + t[1] + ' ' + (s(t[3]) if len(t) > 3 else '') + ')'
    if k == 'atom':
        return t[1] + '(' + ', '.join(s(x) for x in t[2:]) + ')'
    if k == 'not':
        return '!' + s(t[1])
    if k == 'new':
        return 'new ' + t[1] + '(' + ', '.join(s(x) for x in t[2]) + ')'
    if k == 'obj':
        return t[2].split('::')[-1][:24] + '#' + str(t[1])
    if k == 'cases':
        return '{' + '; '.join(' & '.join(fact_str(f) for f in fs) + ' -> ' + s(v) for fs, v in t[1]) + '}'
    return k + '(' + ', '.join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ')'


def dnf_str(ds, d=0):
    return ' | '.join(' & '.join(('' if p else '!') + show(a, d) for a, p in g) or 'true' for g in ds)


def fact_str(f):
    return ('' if f[1] else '!') + show(f[0])


# ------------------------------------------------------------------------------------------------ states

NODISJ = (frozenset(),)
MAXDISJ = 120
LOST = [False]       # a disjunction was given up: what holds is known only in part


def covers_all(ds):
    """The alternatives leave nothing out, as judged at the moments their facts were established."""
    def now(a):
        while a[0] == 'past':
            a = a[1]
        return I(a)
    return any(not g for g in reduce_gates([tuple({(now(a), p) for a, p in d}) for d in ds]))


class State:
    """env: location -> value; facts: what holds here; disj: a disjunction of further fact sets, one of which holds."""
    __slots__ = ('env', 'facts', 'disj', 'events', 'dead')

    def __init__(self):
        self.env = {}
        self.facts = {}
        self.disj = NODISJ
        self.events = []
        self.dead = False

    def fork(self):
        s = State()
        s.env = dict(self.env)
        s.facts = dict(self.facts)
        s.disj = self.disj
        s.events = list(self.events)
        s.dead = self.dead
        return s

    def take(self, o):
        self.env, self.facts, self.disj, self.events, self.dead = o.env, o.facts, o.disj, o.events, o.dead

    def drop(self, pred):
        """Forget the facts selected by pred (their truth may have changed)."""
        for f in [f for f in self.facts if pred(f)]:
            del self.facts[f]
        if self.disj != NODISJ:
            self.set_disj([frozenset(x for x in d if not pred(x[0])) for d in self.disj])

    def outdate(self, pred):
        """What pred selects held so far on this path, but may hold no longer."""
        for f in [f for f in self.facts if f[0] != 'past' and pred(f)]:
            p = self.facts.pop(f)
            k = I(('past', f))
            while self.facts.get(k, p) != p:
                k = I(('past', k))
            self.facts[k] = p
        if self.disj != NODISJ:
            self.set_disj([frozenset((I(('past', x[0])), x[1]) if x[0][0] != 'past' and pred(x[0]) else x for x in d) for d in self.disj])

    def since(self, base):
        for a, p in self.facts.items():
            if base.facts.get(a) != p and not (a[0] == 'past' and base.facts.get(a[1]) == p):
                yield a, p

    def set_disj(self, ds):
        ds = [frozenset(g) for g in reduce_gates(ds)] if len(ds) > 1 else list(ds)
        if any(not d for d in ds):
            ds = [frozenset()]
        if len(ds) == 1:
            for a, p in ds[0]:
                self.facts[a] = p
            self.disj = NODISJ
            return
        common = frozenset.intersection(*ds)
        for a, p in common:
            self.facts[a] = p
        ds = [d - common for d in ds]
        if any(not d for d in ds):
            self.disj = NODISJ
        elif len(ds) > MAXDISJ:
            self.disj = NODISJ
            if not covers_all(ds):
                LOST[0] = True
        else:
            self.disj = tuple(ds)

    def delta(self, base):
        """DNF (tuple of fact tuples) of what holds here beyond what held in base."""
        d = frozenset(self.since(base))
        if self.disj is base.disj or self.disj == base.disj:
            return (tuple(sorted(d, key=dkey)),)
        return tuple(tuple(sorted(d | x, key=dkey)) for x in self.disj)


class Exit:
    def __init__(self, kind, st, val, node, fn):
        self.kind, self.st, self.val, self.node, self.fn = kind, st, val, node, fn

    @property
    def facts(self):
        return self.st.facts

    @property
    def events(self):
        return self.st.events

    @property
    def cond(self):
        """DNF of the whole exit condition."""
        d = frozenset(self.st.facts.items())
        return tuple(d | x for x in self.st.disj)


class Ctx:
    """One analysed frame."""

    def __init__(self, fn, frame, parent=None):
        self.fn = fn
        self.frame = frame
        self.parent = parent
        self.exits = []       # Exit list for return / throw
        self.loops = []       # stack of dicts {'break': [], 'continue': []}
        self.this = None
        self.depth = (parent.depth + 1) if parent else 0
        self.tries = parent.tries if parent else ()
        self.lframes = {}     # captured variable ids -> owning frame

    def chain(self):
        c = self
        while c:
            yield c
            c = c.parent


OPCODES = {          # queries about the operator of an expression: the operators they stand for
    'isLogicalOp': (('BO_LAnd', 19), ('BO_LOr', 20)), 'isEqualityOp': (('BO_EQ', 14), ('BO_NE', 15)),
    'isRelationalOp': (('BO_LT', 10), ('BO_GT', 11), ('BO_LE', 12), ('BO_GE', 13)),
    'isAdditiveOp': (('BO_Add', 5), ('BO_Sub', 6)), 'isShiftOp': (('BO_Shl', 7), ('BO_Shr', 8))}
IDENT = {'std::move', 'std::forward', 'std::addressof', 'std::as_const', 'std::ref', 'std::cref', 'llvm::ArrayRef', 'std::launder'}
SMART = ('std::unique_ptr', 'std::shared_ptr', 'llvm::IntrusiveRefCntPtr', 'std::reference_wrapper', 'std::optional', 'std::__ptr_traits')
STRSTREAM = ('std::basic_stringstream', 'std::basic_ostringstream', 'llvm::raw_string_ostream', 'llvm::raw_svector_ostream')
STRINGY = ('std::basic_string', 'std::basic_string_view', 'llvm::StringRef', 'llvm::SmallString', 'llvm::Twine', 'clang::SmallString')
CONTAINERS = ('std::vector', 'std::set', 'std::map', 'std::unordered_set', 'std::unordered_map', 'std::basic_string', 'std::multimap',
              'std::list', 'std::deque', 'std::array', 'std::multiset', 'std::basic_string_view', 'llvm::StringRef', 'llvm::SmallVector', 'llvm::ArrayRef', 'std::stack')
SIZE = {'size', 'length'}


KNOWABLE = ('std::vector', 'std::set', 'std::unordered_set', 'std::map', 'std::unordered_map', 'std::list', 'std::deque', 'std::array', 'llvm::SmallVector', 'llvm::StringSet', 'std::initializer_list', 'llvm::SmallSet', 'llvm::SmallString')


def maplike(c):
    return c.startswith(('std::map', 'std::unordered_map'))


READING = {'begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'find', 'count', 'contains', 'at', 'front', 'back', 'c_str', 'data', 'length', 'str', 'substr', 'compare', 'rbegin', 'rend'}


def only_read(body, vid, db, depth=0):
    """Nothing in the body changes the container or text vid: it is what it was initialised with."""
    ok = True

    def here(x):
        while isinstance(x, dict) and x.get('k') == 'ParenExpr':
            x = x['c'][0]
        return isinstance(x, dict) and x.get('k') == 'DeclRefExpr' and x.get('id') == vid

    def go(x):
        nonlocal ok
        if not ok:
            return
        if isinstance(x, list):
            for y in x:
                go(y)
            return
        if not isinstance(x, dict):
            return
        k = x.get('k')
        if here(x):
            ok = False          # met where no reading use was recognised
            return
        if k == 'ImplicitCastExpr' and x.get('c') and here(x['c'][0]):
            ok = ok and (x.get('ck') == 'LValueToRValue' or str(x.get('t', '')).startswith('const '))
            return
        fn = x.get('fn') if isinstance(x.get('fn'), dict) else None
        if fn and x.get('obj') is not None and here(x['obj']):
            ok = ok and (fn.get('const') or last(fn['n']) in READING)
            go(x.get('args'))
            return
        if k == 'CXXForRangeStmt' and here(x.get('range')):
            t = str((x.get('var') or {}).get('t', '&'))
            ok = ok and (not t.endswith('&') or t.startswith('const '))
            for n, y in x.items():
                if n != 'range':
                    go(y)
            return
        if fn and fn.get('key') in db.fns and depth < 2:
            f = db.fns[fn['key']]
            for i, a in enumerate(x.get('args') or ()):
                if here(a):
                    ok = ok and i < len(f['params']) and f.get('body') is not None and only_read(f['body'], f['params'][i]['id'], db, depth + 1)
                else:
                    go(a)
            go(x.get('obj'))
            return
        for y in x.values():
            if isinstance(y, (dict, list)):
                go(y)
    go(body)
    return ok


class Interp:
    tracked = False

    def __init__(self, db, inline=None, max_depth=14, opaque=(), on_site=None):
        self.db = db
        self.inline_pred = inline or (lambda fn: True)
        self.opaque = set(opaque)
        self.max_depth = max_depth
        self.counter = 0
        self.sites = {}
        self.on_site = on_site
        self.refids = set()        # variables that are references
        self.used = set()          # keys of functions analysed
        self.incomplete = []       # reasons the summary is not exact
        self.frame_no = 0
        self.loop_no = 0
        self.streams = set()       # locations of in-memory text streams
        self.branched = False      # some condition was met that goes either way
        self.needed = set()        # parameters that every call dereferences before that
        self.phis = {}             # loop-carried variable -> (loop, collection, value before, update per iteration)

    # -------------------------------------------------------------------------------------- entry points

    def run(self, fn, this=None, args=None):
        """Analyse one function from symbolic inputs.  Returns the list of Exits (return / throw)."""
        st = State()
        ctx = Ctx(fn, 0)
        self.frame_no = 0
        self.branched, self.needed = False, set()
        ctx.this = this or (('this', fn['cls']) if fn.get('cls') else None)
        for i, p in enumerate(fn['params']):
            v = (args[i] if args and i < len(args) and args[i] is not None else ('param', p['n'] or ('#%d' % i)))
            st.env[('var', 0, p['id'])] = v
        self.used.add(fn['key'])
        for ini in fn.get('inits', ()):
            if ini.get('field'):
                st.env[('field', ctx.this, ini['field'])] = self.ev(ini.get('e'), st, ctx) if ini.get('e') else ('unk', 'init')
        self.exec(fn.get('body'), st, ctx)
        if not st.dead:
            ctx.exits.append(Exit('return', st, self.fall_off(fn), fn.get('body'), fn))
        return ctx.exits

    def fall_off(self, fn):
        """The end of a function reached without a return statement."""
        if fn.get('rt') in (None, '', 'void') or fn.get('ctor') or fn.get('dtor') or fn.get('pseudo') or fn['n'] == 'main' or not fn.get('body'):
            return None
        return I(('call', 'no value', ()))

    # -------------------------------------------------------------------------------------- helpers

    def site(self, kind, term, st, node, ctx, **kw):
        if self.on_site:
            self.on_site(kind, term, st, node, ctx, kw)

    def fresh(self, tag, node, ctx):
        self.counter += 1
        return self.counter

    def emit(self, st, ev):
        if self.tracked and ev[0] not in ('call', 'store', 'mapref'):
            for k in [k for k in st.env if k[0] == 'content']:
                if contains(I(ev[2]) if len(ev) > 2 and isinstance(ev[2], tuple) else I(()), lambda z: z == k[1]):
                    st.env[k] = I(('unk', 'content'))
        st.events.append(Ev(ev))

    def info(self, node, ctx):
        return {'l': node.get('l') if isinstance(node, dict) else None, 'f': ctx.fn.get('file'), 'fn': ctx.fn.get('n'), 'chain': [(c.fn.get('n')) for c in ctx.chain()]}

    def read(self, loc, st):
        loc = I(loc)
        seen = 0
        while True:
            v = st.env.get(loc)
            if v is None:
                if loc[0] == 'index' and loc[1][0] == 'list' and is_const(loc[2]) and isinstance(loc[2][1], int) and 0 <= loc[2][1] < len(loc[1][1]):
                    return loc[1][1][loc[2][1]]
                if loc[0] == 'field' and loc[2] in ('first', 'second'):
                    return I(self.entry(loc[1], loc[2], st) or self.project(loc[1], loc[2]))
                if loc[0] == 'index':
                    return self.lookup(loc, st) or loc
                return loc
            if v[0] == 'ref':
                loc = v[1]
                seen += 1
                if seen > 50:
                    return loc
                continue
            return v

    def resolve(self, loc, st):
        seen = 0
        while True:
            v = st.env.get(loc)
            if v is not None and v[0] == 'ref' and seen < 50:
                loc = v[1]
                seen += 1
                continue
            return loc

    def store(self, loc, val, st, node=None, ctx=None):
        loc = I(self.resolve(loc, st))
        val = I(val)
        if loc[0] in ('field', 'global', 'svar'):
            # storing what is there already changes nothing
            cur = self.read(loc, st)
            items = val[1] if val[0] == 'cases' else (((), val),)
            kept = [(g, cur if v in (TRUE, FALSE) and dict(g).get(cur, st.facts.get(cur)) == v[1] else v) for g, v in items]
            if all(v == cur for _, v in kept):
                return
            if tuple(kept) != tuple(items):
                val = self.cases(kept)
        self.written_through(loc, val, st)
        if self.tracked and loc[0] in ('field', 'global', 'svar', 'index', 'deref'):
            self.escaped(val, st)
        st.env[loc] = val
        if loc[0] in ('field', 'global', 'index', 'deref', 'svar'):
            self.emit(st, ('store', loc, val, self.info(node, ctx) if ctx else {}))

    # -------------------------------------------------------------------------------------- local containers of constants

    def content(self, X, st):
        """The constants a local container holds (pairs for maps), where every element is known."""
        if X is None:
            return None
        c = st.env.get(I(('content', X)))
        if c is not None:
            return c[1] if c[0] == 'list' else None
        if X[0] in ('new', 'obj') and len(X) == 4 and X[0] == 'new':
            return self.initial(X[1], X[2])
        return None

    def initial(self, cls, args):
        cls = base(cls)
        if not cls.startswith(KNOWABLE):
            return None
        if not args:
            return ()
        if len(args) == 1 and args[0][0] == 'list':
            its = args[0][1]
            m = maplike(cls)
            its = tuple(I(pair(x)) if m and pair(x) else x for x in its)
            if all(is_const(x[0]) and is_const(x[1]) if m and not is_const(x) else is_const(x) and not m for x in its) and len(its) <= 24:
                return its
        return None

    def note_content(self, X, st):
        its = self.initial(X[2], X[3])
        if its is not None:
            self.tracked = True
            st.env[I(('content', X))] = I(('list', its))

    def escaped(self, v, st):
        """From now on the container may be filled from anywhere."""
        for k in [k for k in st.env if k[0] == 'content']:
            if contains(I(v), lambda z: z == k[1]):
                st.env[k] = I(('unk', 'content'))

    def keys_of(self, X, st):
        its = self.content(X, st)
        if its is None:
            return None
        return tuple(dict.fromkeys(x if is_const(x) else x[0] for x in its))

    def lookup(self, loc, st):
        its = self.content(loc[1], st)
        if its is None:
            return None
        if not maplike(base(loc[1][1] if loc[1][0] == 'new' else loc[1][2])):
            if is_const(loc[2]) and isinstance(loc[2][1], int) and 0 <= loc[2][1] < len(its):
                return its[loc[2][1]]
            return None
        return self.mapped(its, loc[2], loc)

    def mapped(self, its, key, other):
        if is_const(key):
            return next((v for k, v in its if k == key), None)
        eq = lambda k: self.norm(I(('op', '==', key, k)))
        items = []
        for k, v in its:
            a, p = eq(k)
            items.append((((I(a), p),), v))
        items.append((tuple((I(a), not p) for a, p in (eq(k) for k, _ in its)), other))
        return self.cases(items)

    def entry(self, b, name, st):
        """What an iterator found in a map of constants leads to."""
        it = b[1] if b[0] == 'deref' else b
        if not self.tracked or it[0] != 'call' or last(it[1]) != 'find' or len(it[2]) != 2:
            return None
        its = self.content(it[2][0], st)
        if its is None or not all(len(x) == 2 and not is_const(x) for x in its) or not its:
            return None
        return it[2][1] if name == 'first' else self.mapped(its, it[2][1], I(('field', b, name)))

    def written_through(self, loc, val, st):
        if not self.tracked or loc[0] not in ('index', 'deref', 'field'):
            return
        for k in [k for k in st.env if k[0] == 'content']:
            X = k[1]
            if not contains(loc, lambda z: z == X):
                continue
            its = st.env[k][1] if st.env[k][0] == 'list' else None
            if its is not None and loc[0] == 'index' and loc[1] == X and maplike(base(X[2])) and is_const(loc[2]) and is_const(val):
                st.env[k] = I(('list', tuple(x for x in its if x[0] != loc[2]) + (I((loc[2], val)),)))
            else:
                st.env[k] = I(('unk', 'content'))

    def content_after(self, n, ln, obj, args, refs, pt, st):
        """The known contents after a call that is not a plain query."""
        for k in [k for k in st.env if k[0] == 'content']:
            X, c = k[1], st.env[k]
            if c[0] != 'list':
                continue
            if obj is not None and obj[0] == X and n.startswith(KNOWABLE):
                m = maplike(base(X[2]))
                if ln in ('push_back', 'emplace_back', 'insert', 'emplace', 'try_emplace', 'insert_or_assign') and len(args) == 1 and is_const(args[0]) and not m and len(c[1]) < 24:
                    st.env[k] = I(('list', c[1] + (args[0],)))
                    continue
                kv = pair(args[0]) if len(args) == 1 else args if len(args) == 2 and ln in ('emplace', 'try_emplace') else None
                if m and ln in ('insert', 'emplace', 'try_emplace') and kv and is_const(kv[0]) and is_const(kv[1]) and len(c[1]) < 24:
                    if all(x[0] != kv[0] for x in c[1]):
                        st.env[k] = I(('list', c[1] + (I(kv),)))
                    continue
                if ln == 'clear' and not args:
                    st.env[k] = I(('list', ()))
                    continue
                if ln in ('reserve', 'shrink_to_fit'):
                    continue
            elif not any(contains(I(a), lambda z: z == X or z[0] == 'lambda') for a in args):
                continue
            elif all(a == X and i < len(pt) and pt[i].startswith('const') or not contains(I(a), lambda z: z == X or z[0] == 'lambda') for i, a in enumerate(args)):
                continue
            st.env[k] = I(('unk', 'content'))

    def settle(self, v, st):
        """Questions about a container of known constants, answered."""
        if not v or v[0] not in ('op', 'call', 'not', 'int2bool', 'atom'):
            return v
        a, p = self.norm(v)
        if a[0] != 'atom' or a[1] not in ('contains', 'empty'):
            return v
        ks = self.keys_of(a[2], st)
        if ks is None or a[1] == 'contains' and a[2][0] == 'new' and False:
            return v
        if a[1] == 'empty':
            return TRUE if (not ks) == p else FALSE
        r = None
        for k in ks:
            q = I(('op', '==', a[3], k))
            r = q if r is None else I(('op', '||', r, q))
        if r is None:
            r = FALSE
        return r if p else FALSE if r == TRUE else TRUE if r == FALSE else I(('not', r))

    # -------------------------------------------------------------------------------------- conditions

    def norm(self, t):
        """(atom, polarity) canonical form of a boolean-ish term."""
        pol = True
        while True:
            if t[0] == 'not':
                t, pol = t[1], not pol
                continue
            if t[0] == 'const':
                return (('const', bool(t[1])), pol)
            if t[0] == 'op':
                o, a, b = t[1], t[2], t[3] if len(t) > 3 else None
                if o == '!=':
                    t, pol = ('op', '==', a, b), not pol
                    continue
                if o == '>':
                    t = ('op', '<', b, a)
                    continue
                if o == '<=':
                    t, pol = ('op', '<', b, a), not pol
                    continue
                if o == '>=':
                    t, pol = ('op', '<', a, b), not pol
                    continue
                if o == '==':
                    for x, y in ((a, b), (b, a)):
                        if y == NULL:
                            return self.norm_null(x, pol)
                        if is_const(y) and isinstance(y[1], bool):
                            if not is_const(x):
                                t, pol = x, pol if y[1] else not pol
                                break
                        if is_const(y) and y[1] in (0, 1) and not isinstance(y[1], bool) and self.key_count(x):
                            return (('atom', 'contains', x[2][0], x[2][1]), pol if y[1] else not pol)
                        if is_const(y) and y[1] in (0, '') and y[1] is not False:
                            c = self.size_of(x)
                            if c is not None:
                                return (('atom', 'empty', c), pol)
                            if y[1] == '':
                                return (('atom', 'empty', x), pol)
                        fe = self.find_end(x, y)
                        if fe is not None:
                            return (('atom', 'contains', *fe), not pol)
                        ne = self.npos(x, y)
                        if ne is not None:
                            return (('atom', 'contains', *ne), not pol)
                    else:
                        if is_const(a) and is_const(b):
                            return (('const', a[1] == b[1]), pol)
                        if numval(a) is not None and numval(b) is not None:
                            return (('const', numval(a) == numval(b)), pol)
                        if a == b:
                            return (TRUE, pol)
                        x, y = sorted((a, b), key=dkey)
                        return (('op', '==', x, y), pol)
                    continue
                if o == '<':
                    if numval(a) is not None and numval(b) is not None and not (is_const(a) and is_const(b)):
                        return (('const', numval(a) < numval(b)), pol)
                    if is_const(a) and is_const(b):
                        try:
                            return (('const', a[1] < b[1]), pol)
                        except TypeError:
                            pass
                    # 0 < size  /  size < 1   (sizes and counts are never negative)
                    if a == const(0):
                        c = self.size_of(b)
                        if c is not None:
                            return (('atom', 'empty', c), not pol)
                        if b[0] == 'call' and last(b[1]) == 'count' and len(b[2]) == 2:
                            return (('atom', 'contains', b[2][0], b[2][1]), pol)
                    if b == const(1):
                        c = self.size_of(a)
                        if c is not None:
                            return (('atom', 'empty', c), pol)
                    # over the integers: c <= x is c-1 < x ; keep constants on strict form
                    if is_const(b) and isinstance(b[1], int) and not isinstance(b[1], bool):
                        # x < c  ==  !(c-1 < x)
                        return (('op', '<', const(b[1] - 1), a), not pol)
                    return (t, pol)
                if o in ('&&', '||') :
                    return (t, pol)
            c = self.size_of(t)
            if c is not None:
                return (('atom', 'empty', c), not pol)
            if t[0] == 'call':
                ln = last(t[1])
                if ln == 'empty' and len(t[2]) == 1:
                    return (('atom', 'empty', t[2][0]), pol)
                if ln == 'isInvalid' and len(t[2]) == 1:
                    return (I(('call', t[1][:-9] + 'isValid', t[2])), not pol)
                if ln == 'count' and len(t[2]) == 2 and base(t[1]).startswith(('std::set', 'std::map', 'std::unordered')):
                    return (('atom', 'contains', t[2][0], t[2][1]), pol)
                if ln in ('contains', 'is_contained') and len(t[2]) == 2:
                    return (('atom', 'contains', t[2][0], t[2][1]), pol)
            if t[0] == 'ptr2bool':
                return self.norm_null(t[1], not pol)
            if t[0] == 'int2bool':
                t = t[1]
                if not is_const(t) and numval(t) is not None:
                    return (('const', bool(numval(t))), pol)
                c = self.size_of(t)
                if c is None and not is_const(t) and not (t[0] == 'call' and last(t[1]) in ('count', 'contains')):
                    return (('op', '==', *sorted((t, const(0)), key=dkey)), not pol)
                continue
            return (t, pol)

    def size_of(self, x):
        if x[0] == 'cases':
            cs = {self.size_of(v) for _, v in x[1] if v != const(0)}
            return next(iter(cs)) if len(cs) == 1 else None
        if x[0] == 'call' and last(x[1]) in SIZE and len(x[2]) == 1 and base(x[1]).rsplit('::', 1)[0].startswith(CONTAINERS + ('llvm::cl::list',)):
            return x[2][0]
        return None

    def key_count(self, x):
        """`count(k)` of a container without duplicate keys."""
        return x[0] == 'call' and last(x[1]) == 'count' and len(x[2]) == 2 and base(x[1]).startswith(('std::set', 'std::map', 'std::unordered_set', 'std::unordered_map'))

    def find_end(self, x, y):
        if x[0] == 'call' and y[0] == 'call' and last(y[1]) in ('end', 'cend'):
            ln = last(x[1])
            if ln == 'find' and len(x[2]) == 2 and x[2][0] == y[2][0]:
                return (x[2][0], x[2][1])
            if base(x[1]) == 'std::find' and len(x[2]) == 3 and x[2][0][0] == 'call' and last(x[2][0][1]) in ('begin', 'cbegin') and x[2][0][2][0] == y[2][0] and x[2][1][0] == 'call' and last(x[2][1][1]) in ('end', 'cend') and x[2][1][2] == x[2][0][2]:
                return (y[2][0], x[2][2])
        return None

    def npos(self, x, y):
        if x[0] == 'call' and last(x[1]) == 'find' and base(x[1]).rsplit('::', 1)[0].startswith(STRINGY) and \
                y[0] == 'global' and y[1].endswith('npos'):
            if len(x[2]) >= 2:
                return (x[2][0], x[2][1])
        if x[0] == 'call' and last(x[1]) == 'find' and is_const(y) and y[1] in (-1, 2 ** 64 - 1):
            return (x[2][0], x[2][1])
        return None

    def norm_null(self, x, pol):
        if x == NULL:
            return (TRUE, pol)
        if x[0] in ('new', 'addr', 'this', 'lambda', 'obj', 'fnref'):
            return (FALSE, pol)
        if x[0] == 'const' and isinstance(x[1], str):
            return (FALSE, pol)
        if x[0] == 'cast' and x[1] in ('dyn_cast', 'dyn_cast_or_null', 'dyn_cast_if_present', 'getAs'):
            if x[1] == 'dyn_cast':
                return (('atom', 'isa', x[2], x[3]), not pol)
            return (('atom', 'isa?', x[2], x[3]), not pol)
        return (('atom', 'null', x), pol)

    def decide(self, atom, st):
        """Truth of an atom under the current facts, or None."""
        if atom[0] == 'const':
            return bool(atom[1])
        if atom[0] == 'atom' and atom[1] == 'empty' and is_const(atom[2]) and isinstance(atom[2][1], str):
            return not atom[2][1]
        v = st.facts.get(atom)
        if v is not None:
            return v
        if atom[0] == 'atom' and atom[1] == 'null' and atom[2] in self.needed:
            return False
        if atom[0] == 'op' and atom[1] == '==':
            for x, c in ((atom[2], atom[3]), (atom[3], atom[2])):
                if is_const(c):
                    for f, p in st.facts.items():
                        if p and f[0] == 'op' and f[1] == '==' and f != atom:
                            for u, w in ((f[2], f[3]), (f[3], f[2])):
                                if u == x and is_const(w) and w != c:
                                    return False
        if atom[0] == 'op' and atom[1] == '<' and is_const(atom[2]) and isinstance(atom[2][1], int):
            # facts on the same quantity with another constant bound
            for f, p in st.facts.items():
                if f[0] == 'op' and f[1] == '<' and f[3] == atom[3] and is_const(f[2]) and isinstance(f[2][1], int):
                    if p and f[2][1] >= atom[2][1]:
                        return True
                    if not p and f[2][1] <= atom[2][1]:
                        return False
        if atom[0] == 'atom' and atom[1] == 'null':
            x = atom[2]
            for f, p in st.facts.items():
                if p and f[0] == 'atom' and f[1] in ('isa', 'isa?') and f[3] == x:
                    return False
        if atom[0] == 'atom' and atom[1] == 'isa':
            for f, p in st.facts.items():
                if f[0] == 'atom' and f[1] in ('isa', 'isa?') and f[3] == atom[3] and f[2] == atom[2]:
                    return p
        return None

    def assume(self, t, want, st):
        """Adds t==want to st; False when contradictory."""
        atom, pol = self.norm(t)
        atom = I(atom)
        v = want if pol else (not want)
        if atom[0] == 'op' and atom[1] == '&&' and v:
            return self.assume(atom[2], True, st) and self.assume(atom[3], True, st)
        if atom[0] == 'op' and atom[1] == '||' and not v:
            return self.assume(atom[2], False, st) and self.assume(atom[3], False, st)
        d = self.decide(atom, st)
        if d is not None:
            return d == v
        self.branched = True
        st.facts[atom] = v
        if st.disj != NODISJ:
            keep = []
            for g in st.disj:
                if (atom, not v) in g:
                    continue
                if any(not self.compatible(atom, v, a, p) for a, p in g):
                    continue
                keep.append(g - {(atom, v)})
            if not keep:
                return False
            st.set_disj(keep)
        return True

    def compatible(self, a, p, b, q):
        """False when the two facts exclude each other."""
        if a == b:
            return p == q
        x = State()
        x.facts[b] = q
        d = self.decide(a, x)
        return d is None or d == p

    def split(self, val, st):
        """Forks st on the truth of a value term: (true states, false states)."""
        if val is None:
            val = ('unk', 'void')
        if val[0] == 'not':
            f, t = self.split(val[1], st)[::-1], None
            return f[0], f[1]
        if val[0] == 'cases':
            T, F = [], []
            for fs, v in val[1]:
                s = st.fork()
                ok = True
                for a, p in fs:
                    if not self.assume(a, p, s):
                        ok = False
                        break
                if not ok:
                    continue
                a, b = self.split(v, s)
                T += a
                F += b
            return T, F
        if val[0] in ('ptr2bool', 'int2bool') and val[1][0] == 'cases':
            return self.split(('cases', tuple((fs, (val[0], v)) for fs, v in val[1][1])), st)
        if val[0] in ('ptr2bool', 'int2bool') and val[1][0] in ('const', 'op', 'not') and val[0] == 'int2bool' and val[1][0] != 'op':
            val = val[1] if val[1][0] == 'not' else const(bool(val[1][1]))
        if val[0] == 'op' and len(val) == 4 and val[1] in ('==', '!=', '<', '>', '<=', '>=') :
            for i in (2, 3):
                if val[i][0] == 'cases':
                    return self.split(('cases', tuple((fs, val[:i] + (v,) + val[i + 1:]) for fs, v in val[i][1])), st)
        w = self.settle(val, st)
        if w is not val and w != val:
            return self.split(w, st)
        if val[0] == 'op' and val[1] == '&&':
            T, F = [], []
            a, b = self.split(val[2], st)
            F += b
            for s in a:
                x, y = self.split(val[3], s)
                T += x
                F += y
            return T, F
        if val[0] == 'op' and val[1] == '||':
            T, F = [], []
            a, b = self.split(val[2], st)
            T += a
            for s in b:
                x, y = self.split(val[3], s)
                T += x
                F += y
            return T, F
        T, F = [], []
        s = st.fork()
        if self.assume(val, True, s):
            T.append(s)
        s = st.fork()
        if self.assume(val, False, s):
            F.append(s)
        return T, F

    def cond(self, e, st, ctx):
        """Evaluates a condition: (true states, false states), facts added, short circuit respected."""
        e = enum_range(e) or e
        k = e['k']
        if k == 'BinaryOperator' and e['op'] in ('&&', '||'):
            a, b = self.cond(e['c'][0], st, ctx)
            go, done = (a, b) if e['op'] == '&&' else (b, a)
            T, F = [], []
            m = self.merge_many(st, go) if len(go) > 3 else None
            for s in ([m] if m else go):
                x, y = self.cond(e['c'][1], s, ctx)
                T += x
                F += y
            if e['op'] == '&&':
                F += done
            else:
                T += done
            return T, F
        if k == 'UnaryOperator' and e['op'] == '!':
            a, b = self.cond(e['c'][0], st, ctx)
            return b, a
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr') and e.get('ck') in ('NoOp', 'LValueToRValue') and e['c'][0] and e['c'][0]['k'] in ('BinaryOperator', 'UnaryOperator'):
            if e['c'][0].get('t') == 'bool':
                return self.cond(e['c'][0], st, ctx)
        s = st.fork()
        v = self.ev(e, s, ctx)
        if s.dead:
            return [], []
        T, F = self.split(v, s)
        x = peel(e)
        if x['k'] == 'DeclRefExpr' and x.get('t') == 'bool' and x.get('id') and not is_const(v):
            # a flag that was just tested
            l = self.lval(x, s, ctx)
            l = self.resolve(l, s) if l is not None else None
            if l is not None and l[0] == 'var' and l in s.env and s.env[l][0] != 'phi':
                for y in T:
                    y.env[l] = TRUE
                for y in F:
                    y.env[l] = FALSE
        return T, F

    # -------------------------------------------------------------------------------------- merging

    def merge(self, st, base_state, outs):
        """st := merge of the normally completing states in outs (all forked from base_state)."""
        outs = [o for o in outs if not o.dead]
        if not outs:
            st.dead = True
            return
        if len(outs) == 1:
            st.take(outs[0])
            return
        n0 = len(base_state.events)
        past = {a[1] for o in outs for a in o.facts if a[0] == 'past'}
        if past:
            for o in outs:
                if any(a in past for a in o.facts):
                    o.outdate(lambda f: f in past)
        common = dict(outs[0].facts)
        for o in outs[1:]:
            for a in list(common):
                if o.facts.get(a) != common[a]:
                    del common[a]
        gates = [tuple(tuple(f for f in g if common.get(f[0]) != f[1]) for g in o.delta(base_state)) for o in outs]
        new = State()
        new.facts = common
        if all(o.disj == outs[0].disj for o in outs) and all(len(o.facts) == len(common) for o in outs):
            new.disj = outs[0].disj
        else:
            ds = []
            for o in outs:
                extra = frozenset((a, p) for a, p in o.facts.items() if common.get(a) != p)
                ds += [extra | d for d in o.disj]
            new.set_disj(ds)
        evs = [tuple_events(o.events[n0:]) for o in outs]
        new.events = list(outs[0].events[:n0])
        if any(evs):
            if all(_ev_eq(e, evs[0]) for e in evs[1:]):
                new.events += list(evs[0])
            else:
                k = 0
                while all(len(e) > k for e in evs) and all(_ev_eq(e[k], evs[0][k]) for e in evs[1:]):
                    k += 1
                new.events += list(evs[0][:k])
                j = 0
                while all(len(e) > k + j for e in evs) and all(_ev_eq(e[-1 - j], evs[0][-1 - j]) for e in evs[1:]):
                    j += 1
                mid = [tuple_events(e[k:len(e) - j]) for e in evs]
                new.events.append(Ev(('alt', tuple((g, e) for g, e in zip(gates, mid)))))
                if j:
                    new.events += list(evs[0][-j:])
        keys = set()
        for o in outs:
            keys.update(o.env)
        for k in keys:
            vals = [o.env.get(k) for o in outs]
            if all(v == vals[0] for v in vals[1:]):
                if vals[0] is not None:
                    new.env[k] = vals[0]
                continue
            if k[0] in ('var', 'content') and any(v is None for v in vals):
                continue        # block-local
            vals = [k if v is None else v for v in vals]
            if any(v[0] == 'ref' for v in vals):
                vals = [self.read(v[1], o) if v[0] == 'ref' else v for v, o in zip(vals, outs)]
            new.env[k] = self.cases([(g, v) for gs, v in zip(gates, vals) for g in gs])
        st.take(new)

    def cases(self, items):
        flat = []
        for g, v in items:
            if v is not None and v[0] == 'cases' and len(v[1]) * len(items) <= 48:
                for g2, v2 in v[1]:
                    gg = dict(g)
                    if all(gg.setdefault(a, p) == p for a, p in g2):
                        flat.append((tuple(gg.items()), v2))
            else:
                flat.append((tuple(g), v))
        by = {}
        for g, v in flat:
            by.setdefault(v, [])
            if g not in by[v]:
                by[v].append(g)
        if len(by) == 1:
            return next(iter(by))
        out = []
        for v, gs in by.items():
            for g in reduce_gates(gs):
                out.append((g, v))
        return I(('cases', tuple(out)))

    def prune(self, st, n_ev):
        """Drop the alternatives of values and events that what is known by now rules out."""
        fits = lambda g, fs: all(a != b and self.compatible(a, p, b, q) or a == b and p == q for a, p in g for b, q in fs)
        for k, v in list(st.env.items()):
            if v and v[0] == 'cases':
                left = [(tuple(f for f in g if st.facts.get(f[0]) != f[1]), x) for g, x in v[1]
                        if fits(g, st.facts.items()) and any(fits(g, d) for d in st.disj or ((),))]
                if left and len(left) < len(v[1]):
                    if len({x for _, x in left}) == 1:
                        st.env[k] = left[0][1]
                    else:
                        st.env[k] = I(('cases', tuple(left)))
        for i in range(len(st.events) - 1, n_ev - 1, -1):
            ev = st.events[i]
            if ev[0] == 'alt':
                left = [(gs, evs) for gs, evs in ev[1] if not gs or any(fits(g, st.facts.items()) and any(fits(g, d) for d in st.disj or ((),)) for g in gs)]
                if len(left) == 1:
                    st.events[i:i + 1] = list(left[0][1])
                elif left and len(left) < len(ev[1]):
                    st.events[i] = Ev(('alt', tuple(left)))

    def merge_many(self, st, states):
        m = State()
        self.merge(m, st, states)
        return m

    # -------------------------------------------------------------------------------------- statements

    def exec_from(self, s, st, ctx):
        b = st.fork()
        T, F = self.split(('op', '<', s['pos'](self.read(s['loc'], st)), const(s['n'])), st.fork())
        outs = list(T)
        if F:
            x = self.merge_many(b, F)
            self.exec(s['body'], x, ctx)
            outs.append(x)
        self.merge(st, b, outs)

    def exec(self, s, st, ctx):
        if s is None or st.dead:
            return
        k = s['k']
        m = self.exec_from if k == '#from' else self.then if k == '#then' else getattr(self, 'x_' + k, None)
        if m:
            m(s, st, ctx)
        elif k.endswith('Stmt') and k not in ('GNUStmtExpr',):
            for c in s.get('c', ()):
                self.exec(c, st, ctx)
        else:
            self.ev(s, st, ctx)

    def x_CompoundStmt(self, s, st, ctx):
        for c in s['c']:
            if st.dead:
                return
            self.exec(c, st, ctx)

    def x_NullStmt(self, s, st, ctx):
        pass

    def declare(self, d, st, ctx):
        if d.get('k') != 'VarDecl':
            return
        loc = ('var', ctx.frame, d['id'])
        if d.get('static'):
            # function-local static: global state
            if d.get('init') and (d.get('const') or only_read(ctx.fn.get('body'), d['id'], self.db)):
                st.env[loc] = self.ev(d['init'], st, ctx)
            else:
                st.env[loc] = ('ref', ('svar', ctx.fn['n'] + '::' + d['n']))
            return
        ini = d.get('init')
        if d.get('bindings'):
            v = self.ev(ini, st, ctx) if ini else ('unk', d['n'])
            for i, b in enumerate(d['bindings']):
                st.env[('var', ctx.frame, b['id'])] = self.component(v, d['t'], i, st)
            st.env[loc] = v
            return
        if ini is None:
            st.env[loc] = ('uninit', d['n'], d['t'])
            return
        if d['t'].endswith('&'):
            self.refids.add(loc)
        if d['t'].endswith('&') and ini.get('lv'):
            lv = self.lval(ini, st, ctx)
            if st.dead:
                return
            st.env[loc] = ('ref', lv) if lv and lv[0] in ('var', 'field', 'global', 'svar', 'index', 'deref') else (lv or ('unk', 'ref'))
            return
        if base(strip_cv(d['t'])).startswith(STRSTREAM) or 'basic_ostringstream' in d['t'] or 'basic_stringstream' in d['t'] or strip_cv(d['t']) in ('std::ostringstream', 'std::stringstream', 'ostringstream', 'stringstream'):
            self.streams.add(I(loc))
            if ini.get('k') == 'CXXConstructExpr' and 'llvm::raw' in d['t'] and ini['args'] and ini['args'][0].get('lv'):
                lv = self.lval(ini['args'][0], st, ctx)
                if lv and lv[0] in ('var', 'field', 'global', 'svar'):
                    self.streams.add(I(lv))
                    st.env[loc] = ('ref', lv)
                    if self.read(lv, st)[0] not in ('const', 'cat'):
                        st.env[lv] = const('')
                    return
            a = [x for x in ini.get('args', ()) if x and x['k'] != 'CXXDefaultArgExpr']
            v = const('')
            if a and self.is_string_type(a[0].get('t', '')):
                v = self.ev(a[0], st, ctx)
            st.env[loc] = v
            return
        v = self.ev(ini, st, ctx)
        if st.dead:
            return
        # a fresh local container/class object has identity
        if v[0] == 'new' and v[3:] == ('val',):
            v = I(('obj', self.objid(ctx, d), v[1], v[2]))
            self.note_content(v, st)
        elif d['t'].startswith('std::vector') and v[0] == 'const':
            pass
        st.env[loc] = v

    def objid(self, ctx, d):
        return '%s@%s' % (d.get('n', 'tmp'), ctx.frame)

    def x_DeclStmt(self, s, st, ctx):
        for d in s['decls']:
            self.declare(d, st, ctx)

    def x_ReturnStmt(self, s, st, ctx):
        v = s.get('v')
        rv = None
        if v is not None:
            if v.get('lv') and ctx.fn.get('rt', '').endswith('&'):
                lv = self.lval(v, st, ctx)
                if not st.dead:
                    rv = ('ref', lv) if lv and lv[0] in ('var', 'field', 'global', 'svar', 'index', 'deref') else lv
            elif v.get('k') == 'BinaryOperator' and v.get('op') in ('&&', '||') or (v.get('t') == 'bool' and v['k'] in ('UnaryOperator', 'ConditionalOperator')):
                T, F = self.cond(v, st, ctx)
                for lst, val in ((T, TRUE), (F, FALSE)):
                    for x in lst:
                        ctx.exits.append(Exit('return', x, val, s, ctx.fn))
                st.dead = True
                return
            else:
                rv = self.ev(v, st, ctx)
        if st.dead:
            return
        ctx.exits.append(Exit('return', st.fork(), rv, s, ctx.fn))
        st.dead = True

    def x_IfStmt(self, s, st, ctx):
        if s.get('init'):
            self.exec(s['init'], st, ctx)
        if s.get('var'):
            self.declare(s['var'], st, ctx)
        if st.dead:
            return
        b = st.fork()
        T, F = self.cond(s['cond'], st, ctx)
        outs = []
        for group, br in ((T, s.get('then')), (F, s.get('else'))):
            if not group:
                continue
            g = group[0] if len(group) == 1 else self.merge_many(b, group)
            self.exec(br, g, ctx)
            if not g.dead:
                outs.append(g)
        self.merge(st, b, outs)

    def x_SwitchStmt(self, s, st, ctx):
        if s.get('init'):
            self.exec(s['init'], st, ctx)
        if s.get('var'):
            self.declare(s['var'], st, ctx)
        v = self.ev(s['cond'], st, ctx)
        if st.dead:
            return
        b = st.fork()
        body = s.get('body')
        items = []          # (labels, stmt)
        for c in (body['c'] if body and body['k'] == 'CompoundStmt' else [body]):
            labels = []
            while c is not None and c['k'] in ('CaseStmt', 'DefaultStmt'):
                if c['k'] == 'CaseStmt':
                    lv = self.ev(c['lhs'], st.fork(), ctx)
                    if c.get('rhs'):
                        self.incomplete.append('case range')
                    labels.append(lv)
                else:
                    labels.append('default')
                c = c.get('sub')
            items.append((labels, c))
        allv = [l for ls, _ in items for l in ls if l != 'default']
        outs = []
        hasdef = any('default' in ls for ls, _ in items)
        ctx.loops.append({'break': [], 'continue': None})
        for i, (ls, _) in enumerate(items):
            for l in ls:
                s2 = b.fork()
                if l == 'default':
                    ok = all(self.assume(('op', '==', v, x), False, s2) for x in allv)
                else:
                    ok = self.assume(('op', '==', v, l), True, s2)
                if not ok:
                    continue
                for _, c in items[i:]:
                    if s2.dead:
                        break
                    self.exec(c, s2, ctx)
                if not s2.dead:
                    outs.append(s2)
        if not hasdef:
            s2 = b.fork()
            if all(self.assume(('op', '==', v, x), False, s2) for x in allv):
                outs.append(s2)
        outs += ctx.loops.pop()['break']
        self.merge(st, b, outs)

    def x_BreakStmt(self, s, st, ctx):
        if ctx.loops:
            ctx.loops[-1]['break'].append(st.fork())
        st.dead = True

    def x_ContinueStmt(self, s, st, ctx):
        for l in reversed(ctx.loops):
            if l['continue'] is not None:
                l['continue'].append(st.fork())
                break
        st.dead = True

    def x_LabelStmt(self, s, st, ctx):
        self.exec(s.get('sub'), st, ctx)

    def x_GotoStmt(self, s, st, ctx):
        self.incomplete.append('goto in ' + ctx.fn['n'])
        st.dead = True

    def x_CXXTryStmt(self, s, st, ctx):
        self.branched = True
        b = st.fork()
        mark = len(ctx.exits)
        saved = ctx.tries
        tid = 'try:%s:%s' % (ctx.fn['n'], s['l'])
        ctx.tries = saved + ((tid, tuple(h['t'] for h in s['handlers'])),)
        nev = len(st.events)
        self.exec(s['body'], st, ctx)
        ctx.tries = saved
        new = ctx.exits[mark:]
        # the identity of a protected region is what it does, not where it stands
        does = set(self.called_names(st.events[nev:] if len(st.events) >= nev else st.events))
        for e in new:
            if len(e.events) > nev:
                does |= set(self.called_names(e.events[nev:]))
        tid = 'try{%s}' % ','.join(sorted(does))
        keep = []
        for e in new:
            if e.kind == 'throw' and any(self.catches(h['t'], e.val) for h in s['handlers']):
                continue
            keep.append(e)
        ctx.exits[mark:] = keep
        outs = [] if st.dead else [st.fork()]
        for x in [e.st for e in keep] + outs:
            for h in s['handlers']:
                x.facts.setdefault(I(('atom', 'caught', const(tid), const(h['t']))), False)
        bodyevents = None
        for h in s['handlers']:
            hs = b.fork()
            hs.facts[I(('atom', 'caught', const(tid), const(h['t'])))] = True
            self.emit(hs, ('caught', tid, h['t'], self.info(h, ctx)))
            if h.get('id'):
                hs.env[('var', ctx.frame, h['id'])] = ('exc', tid)
            self.exec(h['body'], hs, ctx)
            if not hs.dead:
                outs.append(hs)
        self.merge(st, b, outs)

    def called_names(self, evs):
        """Repository functions called by these events."""
        out = []
        for ev in evs:
            k = ev[0]
            if k == 'alt':
                for _, x in ev[1]:
                    out += self.called_names(x)
            elif k == 'loop':
                for _, _, x in ev[3]:
                    out += self.called_names(x)
            elif k == 'inloop':
                out += self.called_names((ev[3],)) + self.called_names(ev[4])
            elif k == 'call':
                n = last(ev[1].split('(')[0])
                if n in self.repo_names():
                    out.append(n)
        return out

    def repo_names(self):
        if not hasattr(self.db, '_rn'):
            self.db._rn = {last(f['n']) for f in self.db.fns.values()}
        return self.db._rn

    def catches(self, ht, thrown):
        if ht == '...':
            return True
        h = ht.replace('const', '').replace('&', '').strip()
        if thrown is None:
            return True
        t = thrown if isinstance(thrown, str) else ''
        if h == t:
            return True
        for c in self.db.cls_by_name.get(t, []):
            if h in self.db.base_names(c['key']):
                return True
        return h in ('std::exception',) and t.startswith('std::')

    # ---- loops

    def x_CXXForRangeStmt(self, s, st, ctx):
        if s.get('init'):
            self.exec(s['init'], st, ctx)
        coll = self.ev(s['range'], st, ctx)
        if st.dead:
            return
        lv = s['loopvar']
        items = self.literal_items(coll, st)
        if items is not None:
            def step(i):
                def go(x):
                    x.env[('var', ctx.frame, lv['id'])] = items[i]
                    for j, b in enumerate(lv.get('bindings', ())):
                        x.env[('var', ctx.frame, b['id'])] = self.component(items[i], lv.get('t', ''), j, x)
                    self.exec(s['body'], x, ctx)
                return go
            self.unrolled([step(i) for i in range(len(items))], st, ctx)
            return

        def bind(x, lid):
            x.env[('var', ctx.frame, lv['id'])] = ('elem', coll, lid)
            for i, b in enumerate(lv.get('bindings', ())):
                x.env[('var', ctx.frame, b['id'])] = self.component(('elem', coll, lid), lv.get('t', ''), i, x)
        self.loop(s, st, ctx, coll, bind, None, lambda x: self.exec(s['body'], x, ctx), None)

    def x_ForStmt(self, s, st, ctx):
        if not s.get('init') and s.get('cond') and self.emptying(s, st, ctx):
            return
        w = self.refetched(s, st, ctx)
        if w:
            s, ini = w
            if ini['k'] == 'DeclStmt':
                self.exec(dict(ini, decls=[{k: v for k, v in d.items() if k != 'init'} for d in ini['decls']]), st, ctx)
            self.genloop(s, st, ctx)
            return
        if s.get('init'):
            self.exec(s['init'], st, ctx)
        if st.dead:
            return
        if self.fixed_trips(s, st, ctx):
            return
        s = self.from_start(s, st, ctx) or s
        self.genloop(s, st, ctx)

    def refetched(self, s, st, ctx):
        """`for (x = next(); x; x = next())` as `while ((x = next()))`."""
        bare = peel
        ini, c, inc = s.get('init'), bare(s.get('cond')), bare(s.get('inc'))
        if not ini or not c or not inc or s.get('var') or inc['k'] != 'BinaryOperator' or inc.get('op') != '=':
            return None
        x = bare(inc['c'][0])
        if not x or x['k'] != 'DeclRefExpr' or 'id' not in x:
            return None
        if ini['k'] == 'DeclStmt' and len(ini.get('decls', [])) == 1 and ini['decls'][0].get('id') == x['id']:
            first = ini['decls'][0].get('init')
        elif ini['k'] == 'BinaryOperator' and ini.get('op') == '=' and (bare(ini['c'][0]) or {}).get('id') == x['id']:
            first = ini['c'][1]
        else:
            return None
        if not first or bare(first)['k'] not in ('CallExpr', 'CXXMemberCallExpr') or self.shape(first) != self.shape(inc['c'][1]):
            return None
        me = lambda e: e and e['k'] == 'DeclRefExpr' and e.get('id') == x['id']

        def test(e):
            """The condition with the variable's value replaced by the assignment."""
            if e['k'] in ('ImplicitCastExpr', 'ParenExpr') and e.get('c'):
                y = test(e['c'][0])
                return y and dict(e, c=[y] + list(e['c'][1:]))
            if me(e):
                return dict(inc)
            if e['k'] == 'BinaryOperator' and e.get('op') in ('==', '!='):
                for i in (0, 1):
                    if me(bare(e['c'][i])):
                        c2 = list(e['c'])
                        c2[i] = test(c2[i])
                        return dict(e, c=c2)
            return None
        c2 = test(s['cond'])
        if c2 is None:
            return None
        return {k: v for k, v in dict(s, k='WhileStmt', cond=c2).items() if k not in ('init', 'inc')}, ini

    def shape(self, e):
        if isinstance(e, dict):
            return tuple(sorted((k, self.shape(v)) for k, v in e.items() if k not in ('l', 'f', 'loc')))
        if isinstance(e, (list, tuple)):
            return tuple(self.shape(x) for x in e)
        return repr(e)

    def names(self, e):
        if isinstance(e, list):
            return set().union(*[self.names(x) for x in e])
        if not isinstance(e, dict):
            return set()
        r = {e.get('id')} if e.get('k') == 'DeclRefExpr' else set()
        for x in e.values():
            if isinstance(x, (dict, list)):
                r |= self.names(x)
        return r

    def flag_test(self, e):
        e = peel(e)
        if not e:
            return False
        if e['k'] == 'DeclRefExpr':
            return e.get('dk') in ('Var', 'ParmVar') and bool(e.get('id'))
        if e['k'].endswith('Literal') or e['k'] in ('CXXNullPtrLiteralExpr', 'CXXBoolLiteralExpr'):
            return True
        if e['k'] == 'UnaryOperator' and e.get('op') == '!' or e['k'] == 'BinaryOperator' and e.get('op') in ('==', '!=', '<', '>', '<=', '>=', '||'):
            return all(self.flag_test(x) for x in e['c'])
        return False

    def then(self, s, st, ctx):
        """The body of a loop, then (also after `continue`) some more."""
        l = ctx.loops[-1]
        saved, l['continue'] = l['continue'], []
        b = st.fork()
        x = st.fork()
        if s.get('body'):
            self.exec(s['body'], x, ctx)
        outs = ([x] if not x.dead else []) + l['continue']
        l['continue'] = saved
        if not outs:
            st.dead = True
            return
        self.merge(st, b, outs)
        for e in s['c']:
            if not st.dead:
                self.exec(e, st, ctx)

    def set_flags(self, cond, st, ctx):
        """Is this a test of local variables alone that certainly holds at first?"""
        used = self.names(cond)
        if not used or not self.flag_test(cond) or not all(is_const(st.env.get(('var', ctx.frame, i), ())or ('?',)) for i in used):
            return False
        x = st.fork()
        n0, inc = len(ctx.exits), len(self.incomplete)
        T, F = self.cond(cond, x, ctx)
        ok = bool(T) and not F and len(ctx.exits) == n0
        del self.incomplete[inc:]
        return ok

    def bounded(self, cond, body, st, ctx):
        """while (i < n && more) as while (i < n) with `if (!more) break` first."""
        bare = peel
        parts = []

        def flat(e):
            x = bare(e)
            if x and x['k'] == 'BinaryOperator' and x['op'] == '&&':
                flat(x['c'][0])
                flat(x['c'][1])
            else:
                parts.append(e)
        flat(cond)
        if len(parts) < 2:
            return cond, body

        def walks(e):
            x = bare(e)
            return x and x['k'] in ('BinaryOperator', 'CXXOperatorCallExpr') and x.get('op') in ('<', '!=', '<=') and any(
                (bare(y) or {}).get('k') == 'DeclRefExpr' for y in (x.get('c') or x.get('args') or []))
        i = next((i for i, e in enumerate(parts) if walks(e)), None)
        if i is None:
            return cond, body
        rest = parts[:i] + parts[i + 1:]
        brk = {'k': 'BreakStmt'}
        used = self.names(parts[i])
        if all(self.flag_test(e) and not self.names(e) & used for e in rest):
            # tests of flags the body sets: as good at the end of an iteration, once they hold at the start
            x = st.fork()
            n0 = len(ctx.exits)
            if all(len(r) == 2 and r[0] and not r[1] for r in [self.cond(e, x, ctx) for e in rest]) and len(ctx.exits) == n0:
                return parts[i], {'k': '#then', 'body': body, 'c': [{'k': 'IfStmt', 'cond': e, 'then': {'k': 'NullStmt'}, 'else': brk} for e in rest]}
        guards = [{'k': 'IfStmt', 'cond': e, 'then': {'k': 'NullStmt'}, 'else': brk} for e in rest]
        return parts[i], {'k': 'CompoundStmt', 'c': guards + ([body] if body else [])}

    def from_start(self, s, st, ctx):
        """`for (i = 2; i < n; ++i)` and `for (it = begin + 2; it != end; ++it)` as loops over everything that skip the first ones."""
        bare = peel
        ini, c, inc = s.get('init'), bare(s.get('cond')), bare(s.get('inc'))
        if not ini or ini['k'] != 'DeclStmt' or not c or not inc or s.get('var') or c.get('op') not in ('<', '!=', '<=') or inc.get('op') != '++':
            return None
        x, y = bare((c.get('c') or c.get('args') or [None])[0]), bare((inc.get('c') or inc.get('args') or [None])[0])
        if not x or not y or x['k'] != 'DeclRefExpr' or y['k'] != 'DeclRefExpr' or x.get('id') != y.get('id'):
            return None
        loc = ('var', ctx.frame, x.get('id'))
        v = st.env.get(loc)
        if v is None or x.get('id') not in [d.get('id') for d in ini.get('decls', [])] or self.written(s.get('body'), x['id']):
            return None
        if is_const(v) and isinstance(v[1], int) and not isinstance(v[1], bool) and 0 < v[1] <= 8:
            zero, n, pos = const(0), v[1], lambda z: z
        elif v[0] == 'call' and last(v[1]) == 'next' and len(v[2]) == 1 or v[0] == 'op' and v[1] == '+' and is_const(v[3]) and isinstance(v[3][1], int) and 0 < v[3][1] <= 8:
            zero = v[2][0] if v[0] == 'call' else v[2]
            n = 1 if v[0] == 'call' else v[3][1]
            pos = lambda z: ('indexof', z)
            if zero[0] != 'call' or not last(zero[1]).endswith(('begin', 'Begin')):
                return None
        else:
            return None
        st.env[loc] = zero
        return dict(s, body={'k': '#from', 'loc': loc, 'n': n, 'pos': pos, 'body': s.get('body')})

    def written(self, e, id_):
        """May the statement change the variable?"""
        if isinstance(e, list):
            return any(self.written(x, id_) for x in e)
        if not isinstance(e, dict):
            return False
        me = lambda x: isinstance(x, dict) and (x.get('k') == 'DeclRefExpr' and x.get('id') == id_ or x.get('k') == 'ParenExpr' and me(x['c'][0]))
        ops = e.get('c') or e.get('args') or []
        if e.get('k') in ('UnaryOperator', 'CXXOperatorCallExpr', 'BinaryOperator', 'CompoundAssignOperator') and ops and me(ops[0]):
            op = e.get('op') or ''
            if op in ('++', '--') or op == '&' and len(ops) == 1 or op.endswith('=') and op not in ('==', '!=', '<=', '>='):
                return True
        if e.get('k') == 'LambdaExpr':
            return True
        return any(self.written(x, id_) for k, x in e.items() if isinstance(x, (dict, list)))

    def literal_items(self, coll, st):
        """The elements of a short literal sequence."""
        if coll is None:
            return None
        if coll[0] == 'obj' and base(coll[2]).startswith(('std::vector', 'std::list', 'std::deque', 'std::array', 'llvm::SmallVector')):
            its = self.content(coll, st)
            if its and len(its) <= UNROLL:
                return its
        if coll[0] == 'new' and len(coll) == 4 and coll[3] == 'val' and coll[1].startswith(('std::vector', 'std::initializer_list', 'std::array', 'std::deque', 'std::list')) and len(coll[2]) == 1 and coll[2][0][0] == 'list' and all(is_const(x) for x in coll[2][0][1]) and len(coll[2][0][1]) > 1:
            coll = coll[2][0]
        if coll[0] == 'list' and 0 < len(coll[1]) <= UNROLL:
            return coll[1]
        return None

    def unrolled(self, runs, st, ctx):
        """A loop with a known, small number of iterations: its iterations in sequence."""
        b = st.fork()
        breaks = []
        cur = [st.fork()]
        for run in runs:
            nxt = []
            x = self.merge_many(b, cur)
            if x.dead:
                cur = []
                break
            ctx.loops.append({'break': [], 'continue': []})
            run(x)
            l = ctx.loops.pop()
            nxt = ([x] if not x.dead else []) + l['continue']
            breaks += l['break']
            cur = nxt
            if not cur:
                break
        outs = cur + breaks
        if outs:
            self.merge(st, b, outs)
        else:
            st.dead = True

    def fixed_trips(self, s, st, ctx):
        """Unrolls `for` loops over constants; False (and nothing done) when the trip count is not small and constant."""
        cond, inc, body = s.get('cond'), s.get('inc'), s.get('body')
        if cond is None or inc is None or s.get('var') or cond['k'] not in ('BinaryOperator',):
            return False
        saved = (len(ctx.exits), list(self.incomplete))
        b = st.fork()
        x, breaks, outs = st.fork(), [], None
        for n in range(UNROLL + 1):
            h = x.fork()
            T, F = self.cond(cond, h, ctx)
            if bool(T) == bool(F) or (n == 0 and F):
                break
            if F:
                outs = F + breaks
                break
            if n == UNROLL:
                break
            x = self.merge_many(b, T)
            ctx.loops.append({'break': [], 'continue': []})
            self.exec(body, x, ctx)
            l = ctx.loops.pop()
            breaks += l['break']
            conts = ([x] if not x.dead else []) + l['continue']
            if not conts:
                outs = breaks
                break
            x = self.merge_many(b, conts)
            self.ev(inc, x, ctx)
            if x.dead:
                outs = breaks
                break
        if outs is None:
            del ctx.exits[saved[0]:]
            self.incomplete = saved[1]
            return False
        if outs:
            self.merge(st, b, outs)
        else:
            st.dead = True
        return True

    def x_WhileStmt(self, s, st, ctx):
        if self.emptying(s, st, ctx):
            return
        self.genloop(s, st, ctx)

    def emptying(self, s, st, ctx):
        """while (!x.empty()) x.pop(); is x.clear()."""
        c = peel(s.get('cond')) or {}
        if c.get('k') != 'UnaryOperator' or c.get('op') != '!' or s.get('var'):
            return False
        e = peel(c['c'][0]) or {}
        body = []
        for b in (s.get('body'), s.get('inc')):
            body += flat_body(b)
        if len(body) != 1 or not isinstance(e.get('fn'), dict) or last(e['fn']['n']) != 'empty' or e.get('obj') is None:
            return False
        b = peel(body[0]) or {}
        if not isinstance(b.get('fn'), dict) or last(b['fn']['n']) not in ('pop', 'pop_back', 'pop_front') or b.get('obj') is None or b.get('args'):
            return False
        if same_place(peel(e['obj']), peel(b['obj'])) is False:
            return False
        self.ev(self.clearing(b, b['obj'], b['fn']), st, ctx)
        return True

    def clearing(self, e, obj, fn):
        n = fn['n'].rsplit('::', 1)[0] + '::clear'
        return dict(e, k='CXXMemberCallExpr', op=None, t='void', obj=obj, args=[], fn=dict(fn, n=n, key=str(fn.get('key')) + '#clear', rt='void', pt=[]))

    def x_DoStmt(self, s, st, ctx):
        self.genloop(s, st, ctx)

    def genloop(self, s, st, ctx):
        cond, inc, body = s.get('cond'), s.get('inc'), s.get('body')
        if s['k'] != 'DoStmt' and (peel(cond) or {}).get('k') in ('CXXBoolLiteralExpr', 'IntegerLiteral') and self.ev(cond, st.fork(), ctx) not in (FALSE, const(0)):
            cond = None         # for (;;)
        if cond is not None and s['k'] != 'DoStmt' and not s.get('var'):
            if self.set_flags(cond, st, ctx):
                # flags that let the loop begin: leaving it once the body has set them
                brk = {'k': 'IfStmt', 'cond': cond, 'then': {'k': 'NullStmt'}, 'else': {'k': 'BreakStmt'}}
                cond, body, inc = None, {'k': '#then', 'body': body, 'c': ([inc] if inc is not None else []) + [brk]}, None
            else:
                cond, body = self.bounded(cond, body, st, ctx)

        def step(x):
            if inc is not None and not x.dead:
                self.ev(inc, x, ctx)
        self.loop(s, st, ctx, None, None, (cond, s['k'] == 'DoStmt', s.get('var')), lambda x: self.exec(body, x, ctx), step)

    def loop(self, s, st, ctx, coll, bind, cond, run, step):
        self.loop_no += 1
        # loops are named by position in the analysis order of this run; the id only has to be unique
        lid = 'L%d' % self.loop_no
        b = st.fork()
        havoc = {}
        ex0 = len(ctx.exits)
        saved_inc = list(self.incomplete)
        guard = set()
        lost = set()
        for attempt in range(8):
            del ctx.exits[ex0:]
            self.incomplete = list(saved_inc)
            h = b.fork()
            for loc in havoc:
                h.env[loc] = havoc[loc]
            for k in lost:
                h.env[k] = I(('unk', 'content'))
            ind = self.induction(b, havoc, lid) if cond else {}
            n_ev = len(h.events)
            entry = h.fork()
            if bind:
                bind(h, lid)
            ctx.loops.append({'break': [], 'continue': []})
            exit_states = []
            if cond and cond[0] is not None and not cond[1]:
                if cond[2]:
                    self.declare(cond[2], h, ctx)
                hb = h.fork()
                T, F = self.cond(cond[0], h, ctx)
                guard = {a for x in T for g in x.delta(hb) for a, _ in g}
                exit_states += F
                go = [self.merge_many(hb, T)] if T else []
            else:
                go = [h]
                if bind:
                    exit_states.append(entry)      # collection exhausted
            ends = []
            for g in go:
                self.induct_bind(g, ind)
                run(g)
                conts = ([g] if not g.dead else []) + ctx.loops[-1]['continue']
                ctx.loops[-1]['continue'] = []
                for c in conts:
                    if step:
                        step(c)
                    if c.dead:
                        continue
                    if cond and cond[1] and cond[0] is not None:
                        T, F = self.cond(cond[0], c, ctx)
                        ends += T
                        exit_states += F
                    else:
                        ends.append(c)
            brk = ctx.loops.pop()['break']
            for e in ends + brk:
                self.prune(e, n_ev)
            if cond and cond[0] is None:
                pass
            # which locations changed?
            changed = set()
            for e in ends + exit_states:
                for k, v in list(e.env.items()):
                    if k in havoc or k in lost:
                        continue
                    if k[0] in ('field', 'index', 'deref') and contains(k, lambda z: z[0] in ('elem', 'phi') and lid in z):
                        del e.env[k]        # content of this iteration's own element
                        continue
                    if k in b.env:
                        if b.env[k] != v:
                            changed.add(k)
                    elif k[0] in ('field', 'global', 'svar', 'deref') and v != k:
                        changed.add(k)
            if not changed:
                break
            for k in sorted(changed, key=dkey):
                if k[0] == 'content':
                    lost.add(k)
                    b.env[k] = I(('unk', 'content'))
                else:
                    havoc[k] = ('phi', lid, k)
        if not ends and not havoc and not lost and not (cond and cond[1]) and (bind or cond and cond[0] is not None):
            # the body never comes round again: a test in front of it, no loop
            if bind and len(ctx.exits) == ex0 and not brk:
                self.merge(st, b, exit_states)
                return
            if bind:
                del ctx.exits[ex0:]
                self.incomplete = list(saved_inc)
                none, x = b.fork(), b.fork()
                bind(x, lid)
                first = {I(('elem', coll, lid)): I(('index', coll, const(0)))}
                x.env = {k: subst(v, first) if b.env.get(k) is not v else v for k, v in x.env.items()}
                none.facts[I(('atom', 'empty', coll))] = True
                x.facts[I(('atom', 'empty', coll))] = False
                ctx.loops.append({'break': [], 'continue': []})
                run(x)
                exit_states, brk = [none], ctx.loops.pop()['break']
            self.merge(st, b, exit_states + brk)
            return
        # ------- summary
        traces = []
        for e in ends:
            fs = e.delta(b)
            traces.append(('next', fs, tuple_events(e.events[n_ev:])))
        for e in brk:
            fs = e.delta(b)
            traces.append(('break', fs, tuple_events(e.events[n_ev:])))
        early = ctx.exits[ex0:]
        for e in early:
            fs = e.st.delta(b)
            traces.append((e.kind, fs, tuple_events(e.events[n_ev:])))
        lcoll = coll
        norm = {}
        if cond and coll is None:
            lcoll, norm = self.recognise(cond[0], b, havoc, ends, ctx, lid)
        walker = None
        if cond and lcoll is None and not norm:
            walker, lcoll, norm = self.walker(b, havoc, ends, lid)
            if walker is not None:
                guard = set()
        fixed = lambda t: subst(t, norm) if norm else t
        if norm and guard:
            # the facts that only say "the index is in range" are implied by the element form
            unguard = lambda ds: tuple(tuple(sorted(g, key=dkey)) for g in reduce_gates([[f for f in g if f[0] not in guard] for g in ds]))
            traces = [(k, unguard(fs), drop_guard(es, guard)) for k, fs, es in traces]
        else:
            unguard = lambda ds: ds
        if norm:
            traces = [fixed(t) for t in traces]
        ev = Ev(('loop', lid, lcoll, tuple(traces), self.info(s, ctx)))
        pure_walk = walker is not None and (len(havoc) == 1 or cond[0] is None and self.unread(lid, [p for l, p in havoc.items() if l != walker], ends + brk + [e.st for e in early], n_ev))
        at_stop = lambda t: t
        if pure_walk:
            # wherever the loop is left, the walker is at the first element that satisfies one of the exit conditions
            until = []
            for x in exit_states + brk + [e.st for e in early]:
                until += fixed(x.delta(b))
            stop = I(('stop', lcoll, tuple(reduce_gates(until)), lid))
            sm = _PhiMap(havoc[walker], stop, norm.elem)
            at_stop = lambda t: subst(t, sm)
        # early exits happen inside some iteration
        for e in early:
            if pure_walk:
                e.st.facts = {at_stop(a): p for a, p in e.st.facts.items()}
                e.st.disj = fixed_disj(e.st.disj, sm)
                e.val = at_stop(e.val) if e.val is not None else None
            e.st.events[:] = list(b.events) + [Ev(('inloop', lid, lcoll, ev, tuple_events(e.st.events[n_ev:])))]
            if norm:
                e.st.facts = {a: p for a, p in e.st.facts.items() if a not in guard}
                e.st.disj = tuple(frozenset(f for f in d if f[0] not in guard) for d in e.st.disj)
                e.st.events[-1] = drop_guard(e.st.events[-1], guard)
                e.st.facts = {fixed(a): p for a, p in e.st.facts.items()}
                e.st.disj = fixed_disj(e.st.disj, norm)
                e.val = fixed(e.val) if e.val is not None else None
                e.st.events[-1] = fixed_ev(e.st.events[-1], norm)
        outs = []
        # normal exhaustion
        post = b.fork()
        post.events.append(ev)
        for loc, phi in havoc.items():
            if pure_walk:
                post.env[loc] = stop
                break
            init = b.env.get(loc, loc)
            if init[0] == 'ref':
                init = self.read(init[1], b)
            upd = []
            for e in ends:
                v = e.env.get(loc)
                if v is None:
                    continue
                upd.append((fixed(unguard(e.delta(b))), fixed(drop_guard(v, guard) if norm else v)))
            if lcoll is not None:
                self.phis[I(phi)] = (lid, lcoll, init, tuple(upd))
            if upd and all(v == phi for _, v in upd):
                post.env[loc] = init        # only changed on the way out of the loop
                continue
            if upd:
                post.env[loc] = self.sticky(lid, lcoll, init, phi, upd) if not brk and not early else None
            if upd and post.env[loc] is None:
                post.env[loc] = ('fold', lid, lcoll if lcoll is not None else ('unk', 'loop'), init, phi, self.simplify_upd(upd))
            elif not upd:
                post.env[loc] = init
        if not brk and not early:
            # after exhaustion the exit condition holds
            pass
        exhausted = post
        nofail = []
        for e in early:
            nofail += fixed(unguard(e.st.delta(b)))
        for br in brk:
            nofail += fixed(unguard(br.delta(b)))
        none = None
        if nofail and not pure_walk:
            none = I(('atom', 'none', const(lid), lcoll if lcoll is not None else ('unk', 'loop'), tuple(nofail)))
            exhausted.facts[none] = True
            single = len(early) + len(brk) == 1
            for e in early:
                if single:
                    self.forget_iteration(e.st, lid)
                e.st.facts[none] = False
        can_exhaust = bool(exit_states) or bool(bind)
        if cond and cond[0] is not None:
            can_exhaust = bool(exit_states)
        if cond and cond[0] is None:
            can_exhaust = False
        if can_exhaust and pure_walk:
            for x in exit_states:
                y = post.fork()
                y.facts.update({at_stop(a): p for a, p in x.facts.items()})
                y.disj = fixed_disj(x.disj, sm)
                outs.append(y)
        elif can_exhaust:
            if cond and cond[0] is not None and not norm:
                # carry facts common to all exit states that do not mention phis
                cf = None
                for x in exit_states:
                    d = {a: p for a, p in x.facts.items()}
                    cf = d if cf is None else {a: p for a, p in cf.items() if d.get(a) == p}
                for a, p in (cf or {}).items():
                    m = {phi: post.env[loc] for loc, phi in havoc.items() if loc in post.env}
                    a2 = subst(a, m)
                    if a2 not in exhausted.facts:
                        exhausted.facts[a2] = p
            outs.append(exhausted)
        for br in brk:
            x = br.fork()
            x.events[:] = list(b.events) + [Ev(('inloop', lid, lcoll, ev, tuple_events(br.events[n_ev:])))]
            if pure_walk:
                x.facts = {at_stop(a): p for a, p in x.facts.items()}
                x.disj = fixed_disj(x.disj, sm)
                x.env = {k: at_stop(v) for k, v in x.env.items()}
            if norm:
                x.facts = {a: p for a, p in x.facts.items() if a not in guard}
                x.disj = tuple(frozenset(f for f in d if f[0] not in guard) for d in x.disj)
                x.events[-1] = fixed(drop_guard(x.events[-1], guard))
                x.facts = {fixed(a): p for a, p in x.facts.items()}
                x.disj = fixed_disj(x.disj, norm)
                x.env = {k: fixed(v) for k, v in x.env.items()}
            if none is not None:
                if single:
                    self.forget_iteration(x, lid)
                x.facts[none] = False
            outs.append(x)
        self.merge(st, b, outs)

    def unread(self, lid, phis, states, n_ev):
        """Does no iteration look at what the one before it left in these variables?"""
        phis = set(phis)
        seen = lambda x: contains(I(x), lambda z: z in phis)
        for st in states:
            if any(seen(a) for a in st.facts) or any(seen(a) for d in st.disj for a, _ in d) or any(v is not None and v not in phis and seen(v) for v in st.env.values()) \
                    or any(z[:1] == ('phi',) and z in phis for ev in st.events[n_ev:] for z in subterms_ev(ev)):
                return False
        return True

    def forget_iteration(self, st, lid):
        """The only way out of the loop body: what held for the iteration is exactly what `none` denies."""
        st.drop(lambda a: contains(a, lambda z: z[0] in ('elem', 'phi', 'indexof') and lid in z))

    def sticky(self, lid, coll, init, phi, upd):
        """A variable that only ever receives one constant: an existence test over the collection."""
        hit, vals = [], set()
        for ds, v in upd:
            if v[0] == 'op' and v[1] in ('|', '||') and phi in v[2:] and len(v) == 4 and init in (const(False), const(0)):
                # "flag |= c"
                c = v[3] if v[2] == phi else v[2]
                if contains(c, lambda z: z == phi):
                    return None
                vals.add(const(True))
                hit += [tuple(d) + ((c, True),) for d in ds]
                continue
            items = v[1] if v[0] == 'cases' else (((), v),)
            for g, x in items:
                if x == phi:
                    continue
                if not is_const(x):
                    return None
                # the flag receives the value it already has
                keep = [tuple(d) + tuple(g) for d in ds]
                keep = [d for d in keep if not (isinstance(x[1], bool) and (phi, x[1]) in d)]
                if not keep:
                    continue
                vals.add(x)
                hit += keep
        if len(vals) != 1 or not is_const(init) or coll is None:
            return None
        if any(contains(a, lambda z: z == phi) for d in hit for a, _ in d):
            # "flag = flag || c": facts about the flag itself do not matter
            hit = [tuple(f for f in d if f[0] != phi) for d in hit]
            if any(contains(a, lambda z: z == phi) for d in hit for a, _ in d):
                return None
        none = I(('atom', 'none', const(lid), coll, tuple(tuple(sorted(set(d), key=dkey)) for d in hit)))
        return self.cases([(((none, True),), init), (((none, False),), next(iter(vals)))])

    def simplify_upd(self, upd):
        return tuple(upd)

    def induction(self, b, havoc, lid):
        return {}

    def induct_bind(self, g, ind):
        pass

    def walker(self, b, havoc, ends, lid):
        """A loop that walks a chain: a variable that moves from x to f(x) in every iteration."""
        found = []
        for loc, phi in havoc.items():
            upds = {e.env.get(loc) for e in ends}
            if len(upds) != 1:
                continue
            u = next(iter(upds))
            if u is None or u == phi or not contains(u, lambda z: z == phi) or contains(u, lambda z: z[0] in ('cases', 'unk') or (z[0] in ('phi', 'elem') and lid in z and z != phi)):
                continue
            if u[0] == 'cat':
                continue
            init = b.env.get(loc, loc)
            if init[0] == 'ref':
                init = self.read(init[1], b)
            coll = I(('chain', init, subst(u, {phi: I(('self',))})))
            found.append((u[0] == 'op' and phi in u[2:] and any(is_const(x) for x in u[2:]), dkey(coll), loc, coll, phi))
        if not found:
            return None, None, {}
        # what moves along a structure rather than what counts the steps
        _, _, loc, coll, phi = min(found, key=lambda x: x[:2])
        return loc, coll, _PhiMap(phi, I(('elem', coll, lid)))

    def recognise(self, cond, b, havoc, ends, ctx, lid):
        """Index / iterator loops over a whole collection become element loops."""
        if not ends or cond is None:
            return None, {}
        for loc, phi in havoc.items():
            init = b.env.get(loc, loc)
            upds = {e.env.get(loc) for e in ends}
            if len(upds) != 1:
                continue
            u = next(iter(upds))
            inc1 = u in (('op', '+', phi, const(1)), ('op', '+', const(1), phi), ('call', 'next', (phi,)))
            if not inc1:
                continue
            # the loop condition, evaluated with the phi
            cmp_ = cond
            while cmp_ and cmp_['k'] in ('ImplicitCastExpr', 'ParenExpr') and cmp_.get('c'):
                cmp_ = cmp_['c'][0]
            neg = False
            while cmp_ and cmp_['k'] == 'UnaryOperator' and cmp_['op'] == '!':
                cmp_, neg = cmp_['c'][0], not neg
                while cmp_ and cmp_['k'] in ('ImplicitCastExpr', 'ParenExpr') and cmp_.get('c'):
                    cmp_ = cmp_['c'][0]
            if not cmp_:
                continue
            sides = cmp_['c'] if cmp_['k'] == 'BinaryOperator' else cmp_['args'] if cmp_['k'] == 'CXXOperatorCallExpr' else None
            if not sides or len(sides) != 2:
                continue
            s = b.fork()
            for l2, p2 in havoc.items():
                s.env[l2] = p2
            x, y = self.ev(sides[0], s, ctx), self.ev(sides[1], s, ctx)
            op = cmp_.get('op')
            if neg:
                op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}.get(op)
            if op in ('<', '<=', '!=') and x != phi and x[0] == 'op' and x[1] in ('+', '-') and x[2] == phi and is_const(x[3]) and not contains(y, lambda z: z[0] == 'phi' and z[1] == lid):
                # i + 1 < n
                y = self.binop('-' if x[1] == '+' else '+', y, x[3])
                x = phi
            for op, x, y in ((op, x, y), ({'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op), y, x)):
                if x != phi or contains(y, lambda z: z[0] == 'phi' and z[1] == lid):
                    continue
                coll = None
                ok = False
                if op in ('<', '!='):
                    coll, ok = y, True
                elif op == '<=' and init == const(0):
                    coll, ok = self.binop('+', y, const(1)), True
                if not ok:
                    continue
                if init == const(0):
                    # index loop 0 .. N
                    m = {}
                    c = self.size_of(coll)
                    if c is None and coll[0] == 'call' and (last(coll[1]).startswith('getNum') or last(coll[1]).startswith('numberOf') or last(coll[1]) in ('size', 'param_size', 'arg_size')):
                        c = ('counted', coll)
                    if c is None:
                        # bound is some other value; still an index loop
                        c = ('range', coll)
                    elem = ('elem', c, lid)
                    for e in ends:
                        pass
                    terms = set()
                    for e in ends + []:
                        for ev in e.events:
                            terms.update(x for x in subterms_ev(ev) if self.is_index(x, c, phi))
                        for v in e.env.values():
                            terms.update(x for x in subterms(v) if self.is_index(x, c, phi))
                        for f in e.facts:
                            terms.update(x for x in subterms(f) if self.is_index(x, c, phi))
                    for t in terms:
                        m[t] = elem
                    return c, _IndexMap(m, c, phi, elem)
                # iterator loop
                c = pair_range(init, coll)
                if c is not None:
                    return c, _IterMap(phi, ('elem', c, lid))
                if u[0] == 'call' and op == '!=' and init[0] in ('param', 'call', 'op', 'field', 'cat'):
                    c = I(('itrange', init, y))
                    return c, _IterMap(phi, ('elem', c, lid))
        return None, {}

    def is_index(self, x, c, phi):
        return False

    # -------------------------------------------------------------------------------------- expressions

    def lval(self, e, st, ctx):
        return I(self.lval0(e, st, ctx))

    def lval0(self, e, st, ctx):
        """Location (or value term standing for it) of an lvalue expression."""
        k = e['k']
        if k == 'DeclRefExpr':
            if e.get('glob'):
                if e.get('id', '').startswith('sl:'):
                    return self.resolve(self.var(e['id'], ctx, st), st)
                return ('global', e.get('qn', e['n']))
            return self.resolve(self.var(e['id'], ctx, st), st)
        if k == 'MemberExpr' and e.get('field'):
            b = self.member_base(e, st, ctx)
            if st.dead:
                return ('unk', 'dead')
            return self.resolve(('field', b, e['n']), st)
        if k == 'MemberExpr':
            if e.get('c') and not e.get('fn'):
                # static data member through an object
                self.ev(e['c'][0], st, ctx)
                return ('global', e.get('qn', e['n']))
        if k == 'UnaryOperator' and e['op'] == '*':
            v = self.ev(e['c'][0], st, ctx)
            if st.dead:
                return ('unk', 'dead')
            self.deref(v, st, e, ctx)
            return self.pointee(v, st)
        if k == 'UnaryOperator' and e['op'] in ('++', '--') and not e.get('post'):
            self.ev(e, st, ctx)
            return self.lval(e['c'][0], st, ctx)
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXConstCastExpr', 'CXXFunctionalCastExpr') and e.get('ck') in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast', 'ConstructorConversion'):
            return self.lval(e['c'][0], st, ctx)
        if k == 'ArraySubscriptExpr':
            b = self.ev(e['c'][0], st, ctx)
            i = self.ev(e['c'][1], st, ctx)
            return ('index', b, i)
        if k in ('BinaryOperator', 'CompoundAssignOperator') and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
            self.ev(e, st, ctx)
            return self.lval(e['c'][0], st, ctx)
        if k == 'BinaryOperator' and e['op'] == ',':
            self.ev(e['c'][0], st, ctx)
            return self.lval(e['c'][1], st, ctx)
        v = self.ev_raw(e, st, ctx)
        if v is not None and v[0] == 'ref':
            return self.resolve(v[1], st)
        return v

    def pointee(self, v, st):
        if v[0] == 'addr':
            return v[1]
        return v      # *p and p share a term: fields are accessed through the same base

    def var(self, id_, ctx, st):
        for c in ctx.chain():
            loc = ('var', c.frame, id_)
            if loc in st.env:
                return loc
        return ('var', ctx.frame, id_)

    def member_base(self, e, st, ctx):
        c = e['c'][0] if e.get('c') else None
        if c is None:
            return ctx.this or ('this', '?')
        if e.get('arrow'):
            v = self.ev(c, st, ctx)
            if st.dead:
                return v
            self.deref(v, st, e, ctx)
            v = self.pointee(v, st)
            if v[0] in ('var', 'field', 'global', 'svar') and v in st.env:
                v = self.read(v, st)
            return v
        if c.get('lv'):
            l = self.lval(c, st, ctx)
            v = self.read(l, st) if l[0] in ('var', 'field', 'global', 'svar', 'index', 'deref') else l
            return v
        return self.ev(c, st, ctx)

    def deref(self, v, st, node, ctx):
        if self.on_site:
            self.site('deref', v, st, node, ctx)
        if v[0] == 'param' and not self.branched and not any(c.loops or c.fn.get('n') == 'lambda' for c in ctx.chain()):
            self.needed.add(I(v))       # every call of the function dereferences this parameter: it is not null

    def ev(self, e, st, ctx):
        v = self.ev_raw(e, st, ctx)
        if v is None:
            return ('unk', 'void')
        if v[0] == 'ref':
            return self.read(v[1], st)
        return v

    def ev_raw(self, e, st, ctx):
        return I(self.ev_raw0(e, st, ctx))

    def ev_raw0(self, e, st, ctx):
        if e is None:
            return ('unk', 'none')
        if st.dead:
            return ('unk', 'dead')
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m:
            v = m(e, st, ctx)
            return self.settle(I(v), st) if v is not None and v[0] in ('op', 'call', 'not', 'int2bool') and e.get('t') == 'bool' else v
        if 'cv' in e and k not in ('CallExpr',):
            return const(int(e['cv']))
        # generic: evaluate children
        vals = []
        for c in e.get('c', ()):
            if c is not None:
                vals.append(self.ev(c, st, ctx))
        return ('call', '<' + k + '>', tuple(vals))

    # literals
    def e_IntegerLiteral(self, e, st, ctx):
        return const(int(e['v']))

    def e_CharacterLiteral(self, e, st, ctx):
        return ('const', chr(int(e['v'])))

    def e_CXXBoolLiteralExpr(self, e, st, ctx):
        return const(e['v'] == '1')

    def e_StringLiteral(self, e, st, ctx):
        return const(e['s'])

    def e_FloatingLiteral(self, e, st, ctx):
        return const(float(e['v']))

    def e_CXXNullPtrLiteralExpr(self, e, st, ctx):
        return NULL

    def e_GNUNullExpr(self, e, st, ctx):
        return NULL

    def e_ImplicitValueInitExpr(self, e, st, ctx):
        return const(0)

    def e_CXXScalarValueInitExpr(self, e, st, ctx):
        return const(0)

    def e_CXXThisExpr(self, e, st, ctx):
        return ctx.this or ('this', '?')

    def e_CXXDefaultArgExpr(self, e, st, ctx):
        return self.ev(e['e'], st, ctx)

    def e_PredefinedExpr(self, e, st, ctx):
        return const(e.get('s', ''))

    def e_DeclRefExpr(self, e, st, ctx):
        if e.get('dk') == 'EnumConstant':
            return ('const', int(e['v'])) if False else ('enum', e['qn'], int(e['v']))
        if e.get('fn'):
            return ('fnref', e['fn']['key'], e['fn']['n'])
        if e.get('glob') and not e.get('id', '').startswith('sl:'):
            loc = ('global', e.get('qn', e['n']))
            if loc[1] == 'std::nullopt':
                return ('nullopt',)
            if loc in st.env:
                return self.read(loc, st)
            g = self.db.globals.get(e.get('id'))
            if g and g.get('const') and g.get('init') and simple_const(g['init']):
                return self.ev(g['init'], st, ctx)
            if 'cv' in e:
                return const(int(e['cv']))
            return loc
        return self.read(self.var(e['id'], ctx, st), st)

    def e_MemberExpr(self, e, st, ctx):
        if e.get('field'):
            b = self.member_base(e, st, ctx)
            if st.dead:
                return ('unk', 'dead')
            return self.read(('field', b, e['n']), st) if ('field', b, e['n']) in st.env else self.entry(b, e['n'], st) or self.project(b, e['n'])
        if e.get('fn'):
            return ('fnref', e['fn']['key'], e['fn']['n'])
        return ('global', e.get('qn', e['n']))

    def component(self, v, t, i, st):
        """Part i of a pair, tuple or plain structure."""
        t = strip_cv(t).replace('const ', '').rstrip('& ').strip()
        name = None
        if v[0] == 'call' and isinstance(v[1], str) and last(base(v[1]).split('<')[0]) in ('make_tuple', 'make_pair', 'forward_as_tuple', 'tie') and len(v[2]) > i:
            return v[2][i]
        if base(t).startswith('std::pair'):
            name = ('first', 'second')[i]
        elif not t.startswith('std::'):
            c = next((c for c in self.db.classes.values() if c['n'] == t and not c.get('pattern')), None)
            if c is not None and len(c.get('fields', ())) > i:
                name = c['fields'][i]['n']
        if name is None:
            return ('call', 'std::get', (v, const(i)))
        return self.read(('field', v, name), st) if ('field', v, name) in st.env else self.entry(v, name, st) or self.project(v, name)

    def project(self, b, name):
        if name == 'second' and b[0] == 'call' and last(b[1]) in ('insert', 'emplace') and setlike(b[1]) and len(b[2]) == 2:
            k = b[2][1]
            if '_map' in base(b[1]) or base(b[1]).startswith('std::map'):
                k = pair_first(k)
            if k is not None:
                return ('not', ('past', ('atom', 'contains', b[2][0], k)))
        it = b[1] if b[0] == 'deref' else b
        if name in ('first', 'second') and it[0] == 'field' and it[2] == 'first' and it[1][0] == 'call' and last(it[1][1]) in ('insert', 'emplace') and len(it[1][2]) == 2 and pair(it[1][2][1]):
            # the entry an insertion into a map leads to
            m, (k, v) = it[1][2][0], pair(it[1][2][1])
            if name == 'first':
                return k
            was = ('past', ('atom', 'contains', m, k))
            return self.cases([(((was, True),), ('field', ('call', it[1][1].rsplit('::', 1)[0] + '::find', (m, k)), 'second')), (((was, False),), v)])
        if it[0] == 'cases' and name in ('first', 'second'):
            return self.cases([(g, self.project(v if it is b else ('deref', v), name)) for g, v in it[1]])
        if b[0] == 'cases':
            return self.cases([(g, self.project(v, name)) for g, v in b[1]])
        if b[0] in ('new', 'obj') and len(b) >= 3:
            v = self.ctor_field(b, name)
            if v is not None:
                return v
        return ('field', b, name)

    def ctor_field(self, b, name):
        """Value of a field right after construction, when the constructor is in the repository and simple."""
        ck = None
        if b[0] == 'new' and len(b) > 4:
            ck = b[4]
        return None

    # casts
    def e_ImplicitCastExpr(self, e, st, ctx):
        ck = e.get('ck')
        c = e['c'][0]
        if ck == 'NullToPointer':
            return NULL
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
            v = self.ev(c, st, ctx)
            if v[0] == 'cases':
                return ('cases', tuple((g, ('ptr2bool', x)) for g, x in v[1]))
            return ('ptr2bool', v)
        if ck == 'IntegralToBoolean':
            v = self.ev(c, st, ctx)
            if v[0] == 'cases':
                return ('cases', tuple((g, ('int2bool', x)) for g, x in v[1]))
            return ('int2bool', v)
        if ck == 'LValueToRValue':
            if c.get('lv'):
                l = self.lval(c, st, ctx)
                if st.dead or l is None:
                    return ('unk', 'dead')
                if l[0] in ('var', 'field', 'global', 'svar', 'index', 'deref'):
                    if l in st.env:
                        return self.read(l, st)
                    if l[0] in ('global',):
                        return self.ev(c, st, ctx)
                    if l[0] == 'field':
                        return self.project(l[1], l[2])
                    if l[0] == 'index':
                        return self.read(l, st)
                    return l
                return l
        return self.narrow(self.ev_raw(c, st, ctx), e['t'], ck, c.get('t'))

    NARROW = {'char': (-128, 127), 'signed char': (-128, 127), 'unsigned char': (0, 255), 'short': (-32768, 32767), 'unsigned short': (0, 65535)}

    def narrow(self, v, to, ck, frm=None):
        """A conversion that can change the value: to fewer than 32 bits, to a whole number, or to less precision."""
        if v is None or v[0] == 'unk' or to.rstrip().endswith('*'):
            return v
        if v[0] == 'call' and last(v[1]) in ('toupper', 'tolower'):
            return v
        to = strip_cv(to)
        if ck == 'FloatingToIntegral' or (ck == 'FloatingCast' and to == 'float' and v[0] != 'const'):
            return v if v[0] == 'const' and isinstance(v[1], int) else ('call', 'converted to ' + ('int' if ck == 'FloatingToIntegral' else to), (v,))
        if ck in ('IntegralCast', 'IntegralToFloating') and to in self.NARROW:
            lo, hi = self.NARROW[to]
            if v[0] == 'const' and isinstance(v[1], int) and not isinstance(v[1], bool) and lo <= v[1] <= hi:
                return v
            if frm is not None and (strip_cv(frm) == to or strip_cv(frm) in ('bool', '_Bool')):
                return v
            return ('call', 'converted to ' + to, (v,))
        return v

    def cast_generic(self, e, st, ctx):
        ck = e.get('ck')
        if ck == 'ToVoid':
            self.ev(e['c'][0], st, ctx)
            return ('unk', 'void')
        if ck in ('PointerToBoolean', 'IntegralToBoolean', 'NullToPointer', 'LValueToRValue'):
            return self.e_ImplicitCastExpr(e, st, ctx)
        return self.narrow(self.ev_raw(e['c'][0], st, ctx), e['t'], ck, e['c'][0].get('t'))

    e_CStyleCastExpr = cast_generic
    e_CXXStaticCastExpr = cast_generic
    e_CXXFunctionalCastExpr = cast_generic
    e_CXXConstCastExpr = cast_generic
    e_CXXReinterpretCastExpr = cast_generic
    e_CXXDynamicCastExpr = cast_generic

    # operators
    def e_UnaryOperator(self, e, st, ctx):
        op = e['op']
        c = e['c'][0]
        if op == '!':
            return self.bool_value(e, st, ctx)
        if op == '&':
            if c['k'] == 'DeclRefExpr' and c.get('fn'):
                return ('fnref', c['fn']['key'], c['fn']['n'])
            if c['k'] == 'MemberExpr' and c.get('fn'):
                return ('fnref', c['fn']['key'], c['fn']['n'])
            l = self.lval(c, st, ctx)
            if l is not None and self.tracked:
                self.escaped(self.read(l, st), st)
            if l is None:
                return ('unk', 'addr')
            if l[0] in ('var', 'svar', 'field', 'global', 'index'):
                v = self.read(l, st)
                if l[0] == 'var' and c['k'] == 'DeclRefExpr' and self.var(c['id'], ctx, st) in self.refids and v[0] not in ('obj', 'new', 'const', 'uninit', 'unk'):
                    return v        # the address of what the reference is bound to
                if l[0] == 'var' and v[0] in ('obj', 'elem', 'param', 'new', 'call', 'field'):
                    return ('addr', l) if v[0] not in ('elem', 'param') else v
                return ('addr', l)
            return l
        if op == '*':
            v = self.ev(c, st, ctx)
            if st.dead:
                return ('unk', 'dead')
            self.deref(v, st, e, ctx)
            if v[0] == 'addr':
                return self.read(v[1], st)
            return v
        if op in ('++', '--'):
            l = self.lval(c, st, ctx)
            if st.dead or l is None:
                return ('unk', 'dead')
            old = self.read(l, st)
            o = '+' if op == '++' else '-'
            if is_const(old) and isinstance(old[1], int):
                new = const(old[1] + (1 if op == '++' else -1))
            else:
                new = ('op', o, old, const(1))
            new = self.narrow(new, e['t'], 'IntegralCast')
            self.store(l, new, st, e, ctx)
            return old if e.get('post') else new
        v = self.ev(c, st, ctx)
        if op == '-' and is_const(v) and isinstance(v[1], (int, float)):
            return const(-v[1])
        if op == '+':
            return v
        if 'cv' in e:
            return const(int(e['cv']))
        return ('op', 'u' + op, v)

    def bool_value(self, e, st, ctx):
        b = st.fork()
        T, F = self.cond(e, st, ctx)
        items = []
        outs = []
        f0 = b.facts
        if not T and not F:
            st.dead = True
            return ('unk', 'dead')
        if T and not F or F and not T:
            st.take(self.merge_many(b, T or F))
            return const(bool(T))
        marker = ('var', ctx.frame, '#bool%d' % self.fresh('b', e, ctx))
        for lst, v in ((T, TRUE), (F, FALSE)):
            for s in lst:
                s.env[marker] = v
                outs.append(s)
        b.env[marker] = ('unk', 'bool')
        self.merge(st, b, outs)
        v = st.env.pop(marker, ('unk', 'bool'))
        # prefer a compact term when the condition is one atom
        if v[0] == 'cases' and len(v[1]) == 2 and all(len(g) == 1 for g, _ in v[1]):
            for g, x in v[1]:
                if x == TRUE:
                    a, p = g[0]
                    return a if p else ('not', a)
        return v

    def e_BinaryOperator(self, e, st, ctx):
        e = enum_range(e) or e
        op = e['op']
        if op in ('&&', '||'):
            return self.bool_value(e, st, ctx)
        a, b = e['c']
        if op == '=':
            v = self.ev(b, st, ctx)
            if st.dead:
                return v
            l = self.lval(a, st, ctx)
            if not st.dead and l is not None:
                self.store(l, v, st, e, ctx)
            return v
        if op == ',':
            self.ev(a, st, ctx)
            return self.ev(b, st, ctx)
        x = self.ev(a, st, ctx)
        if st.dead:
            return x
        y = self.ev(b, st, ctx)
        if st.dead:
            return y
        self.site('binop', ('op', op, x, y), st, e, ctx)
        return self.binop(op, x, y)

    def binop(self, op, x, y):
        if op in ('==', '!=') and x[0] == 'list' and y[0] == 'list' and len(x[1]) == len(y[1]) and x[1]:
            r = None
            for a, b in zip(x[1], y[1]):
                q = self.binop('==', a, b)
                r = q if r is None else ('op', '&&', r, q)
            return ('not', r) if op == '!=' else r
        if is_const(x) and is_const(y) and not isinstance(x[1], str) and not isinstance(y[1], str) and x[1] is not None and y[1] is not None:
            try:
                r = {'+': lambda: x[1] + y[1], '-': lambda: x[1] - y[1], '*': lambda: x[1] * y[1], '==': lambda: x[1] == y[1],
                     '!=': lambda: x[1] != y[1], '<': lambda: x[1] < y[1], '>': lambda: x[1] > y[1], '<=': lambda: x[1] <= y[1],
                     '>=': lambda: x[1] >= y[1], '|': lambda: x[1] | y[1], '&': lambda: x[1] & y[1], '<<': lambda: x[1] << y[1]}.get(op)
                if r:
                    return const(r())
            except Exception:
                pass
        if op == '+' and is_const(y) and y[1] == 0:
            return x
        if op == '+' and is_const(x) and x[1] == 0:
            return y
        if op == '*' and is_const(y) and y[1] == 1 and y[1] is not True:
            return x
        if op == '*' and is_const(x) and x[1] == 1 and x[1] is not True:
            return y
        # c + (phi + d): normalise constants to the right
        if op in ('+', '*') and is_const(x) and not is_const(y):
            x, y = y, x
        if op in ('==', '!=', '<', '>', '<=', '>='):
            for i, t in ((0, x), (1, y)):
                if t[0] == 'cases' and len(t[1]) <= 8:
                    o = y if i == 0 else x
                    return self.cases([(g, self.binop(op, v, o) if i == 0 else self.binop(op, o, v)) for g, v in t[1]])
            return self.pack_bool(('op', op, x, y))
        return ('op', op, x, y)

    def pack_bool(self, t):
        a, p = self.norm(t)
        if a[0] == 'const':
            return const(bool(a[1]) == p)
        return a if p else ('not', a)

    def e_CompoundAssignOperator(self, e, st, ctx):
        a, b = e['c']
        v = self.ev(b, st, ctx)
        if st.dead:
            return v
        l = self.lval(a, st, ctx)
        if st.dead or l is None:
            return v
        old = self.read(l, st)
        self.site('binop', ('op', e['op'][:-1], old, v), st, e, ctx)
        new = self.narrow(self.binop(e['op'][:-1], old, v), e['t'], 'IntegralCast')
        self.store(l, new, st, e, ctx)
        return new

    def e_ConditionalOperator(self, e, st, ctx):
        b = st.fork()
        T, F = self.cond(e['c'][0], st, ctx)
        marker = ('var', ctx.frame, '#cond%d' % self.fresh('c', e, ctx))
        outs = []
        for lst, br in ((T, e['c'][1]), (F, e['c'][2])):
            if not lst:
                continue
            s = self.merge_many(b, lst)
            v = self.ev(br, s, ctx)
            if not s.dead:
                s.env[marker] = v
                outs.append(s)
        b.env[marker] = ('unk', 'cond')
        self.merge(st, b, outs)
        if st.dead:
            return ('unk', 'dead')
        return st.env.pop(marker, ('unk', 'cond'))

    def e_BinaryConditionalOperator(self, e, st, ctx):
        vals = [self.ev(c, st, ctx) for c in e['c'] if c]
        return ('call', 'elvis', tuple(vals))

    def e_ArraySubscriptExpr(self, e, st, ctx):
        b = self.ev(e['c'][0], st, ctx)
        i = self.ev(e['c'][1], st, ctx)
        l = ('index', b, i)
        self.site('index', l, st, e, ctx)
        return self.read(l, st)

    def e_UnaryExprOrTypeTraitExpr(self, e, st, ctx):
        return const(int(e['cv'])) if 'cv' in e else ('unk', 'sizeof')

    def e_InitListExpr(self, e, st, ctx):
        return ('list', tuple(self.ev(c, st, ctx) for c in e.get('c', ()) if c))

    def e_CXXStdInitializerListExpr(self, e, st, ctx):
        return self.ev(e['c'][0], st, ctx)

    def e_LambdaExpr(self, e, st, ctx):
        lam = ('lambda', e['key'], ctx.frame)
        self.lambdas = getattr(self, 'lambdas', {})
        self.lambdas[lam] = (e, ctx)
        # by-value captures are snapshots
        for c in e['caps']:
            if c.get('id') and not c.get('ref'):
                loc = self.var(c['id'], ctx, st)
                if c.get('init'):
                    st.env[('var', ctx.frame, c['id'])] = self.ev(c['init'], st, ctx)
        return lam

    def e_CXXThrowExpr(self, e, st, ctx):
        v = None
        ty = None
        if e.get('c') and e['c'][0]:
            v = self.ev(e['c'][0], st, ctx)
            ty = strip_cv(e['c'][0].get('t', ''))
        if not st.dead:
            self.emit(st, ('throw', ty, v, self.info(e, ctx)))
            ctx.exits.append(Exit('throw', st.fork(), ty, e, ctx.fn))
            st.dead = True
        return ('unk', 'throw')

    def e_CXXNewExpr(self, e, st, ctx):
        if e.get('size'):
            self.ev(e['size'], st, ctx)
        i = e.get('init')
        args = ()
        ckey = None
        if i is not None:
            if i['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                args = tuple(self.ev(a, st, ctx) for a in i['args'])
                ckey = i['fn']['key']
            else:
                args = (self.ev(i, st, ctx),)
        if st.dead:
            return ('unk', 'dead')
        t = ('new', e['alloc'], args, 'heap')
        self.emit(st, ('new', e['alloc'], args, dict(self.info(e, ctx), ctor=ckey)))
        if ckey:
            self.run_ctor(ckey, args, t, st, ctx, e)
        return t

    def e_CXXDeleteExpr(self, e, st, ctx):
        v = self.ev(e['c'][0], st, ctx)
        self.emit(st, ('delete', v, self.info(e, ctx)))
        return ('unk', 'void')

    def run_ctor(self, ckey, args, obj, st, ctx, node):
        """Record constructor's member initialisation as heap stores (repository classes)."""
        f = self.db.fns.get(ckey)
        if not f or not f.get('ctor') or not self.can_inline(f, ctx):
            return
        c2 = self.new_frame(f, ctx, obj)
        for i, p in enumerate(f['params']):
            st.env[('var', c2.frame, p['id'])] = args[i] if i < len(args) else ('unk', p['n'])
        for ini in f.get('inits', ()):
            if ini.get('field') and ini.get('e'):
                v = self.ev(ini['e'], st, c2)
                if v[0] == 'new' and v[3:] == ('val',):
                    v = ('obj', '%s.%s' % (ini['field'], c2.frame), v[1], v[2])
                if self.tracked:
                    self.escaped(self.read(v[1], st) if v[0] == 'ref' else v, st)
                st.env[('field', obj, ini['field'])] = v
            elif ini.get('base') and ini.get('e') and ini['e']['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                ba = tuple(self.ev(a, st, c2) for a in ini['e']['args'])
                self.run_ctor(ini['e']['fn']['key'], ba, obj, st, c2, ini['e'])
        if f.get('body'):
            self.exec(f['body'], st, c2)

    def construct(self, e, st, ctx):
        fn = e['fn']
        cls = base(fn['cls'])
        raw = e['args']
        args = []
        for a in raw:
            if a is None:
                continue
            args.append(self.ev(a, st, ctx))
            if st.dead:
                return ('unk', 'dead')
        real = [a for a, r in zip(args, raw) if r and r['k'] != 'CXXDefaultArgExpr']
        if (e.get('copy') or e.get('move')) and args:
            v = args[0]
            return v
        if cls.startswith('std::pair') and len(real) == 1:
            return real[0]
        if cls.startswith(STRINGY):
            if not real:
                return const('')
            if len(real) == 1:
                return real[0]
            if len(real) == 2 and real[0][0] == 'call' and last(real[0][1]) in ('begin', 'cbegin') and real[1][0] == 'call' and last(real[1][1]) in ('end', 'cend') and real[1][2] == real[0][2]:
                return real[0][2][0]
        if cls.startswith(SMART):
            if not real:
                return NULL if not cls.startswith('std::optional') else ('nullopt',)
            if real[0][0] == 'nullopt':
                return real[0]
            if cls.startswith('std::optional'):
                return ('some', real[0])
            return real[0]
        if cls.startswith('std::nullopt'):
            return ('nullopt',)
        if cls.startswith(('__gnu_cxx::__normal_iterator', 'std::_Rb_tree_const_iterator', 'std::__detail', 'std::reverse_iterator', 'std::move_iterator')) and len(real) == 1:
            return real[0]
        if cls.startswith(('llvm::ArrayRef', 'std::function', 'std::initializer_list')) and len(real) == 1:
            return real[0]
        if cls.startswith(CONTAINERS) and len(real) == 1 and real[0][0] == 'list':
            return ('new', cls, (real[0],), 'val')
        t = ('new', cls, tuple(real if cls.startswith('std::') else args), 'val')
        f = self.db.fns.get(fn['key'])
        if f and f.get('ctor') and not cls.startswith('std::'):
            self.emit(st, ('construct', cls, tuple(args), dict(self.info(e, ctx), ctor=fn['key'])))
            if self.can_inline(f, ctx):
                obj = ('new', cls, tuple(args), 'tmp%d' % self.fresh('t', e, ctx))
                self.run_ctor(fn['key'], tuple(args), obj, st, ctx, e)
                return obj
        return t

    e_CXXConstructExpr = construct
    e_CXXTemporaryObjectExpr = construct

    # ---- calls

    def can_inline(self, f, ctx):
        if not f.get('body') or f.get('pattern'):
            return False
        if f['n'] in self.opaque or base(f['n']) in self.opaque:
            return False
        if ctx.depth >= self.max_depth:
            self.incomplete.append('depth at ' + f['n'])
            return False
        if any(c.fn['key'] == f['key'] for c in ctx.chain()):
            return False
        return self.inline_pred(f)

    def new_frame(self, f, ctx, this):
        self.frame_no += 1
        c2 = Ctx(f, self.frame_no, ctx)
        c2.this = this
        self.used.add(f['key'])
        return c2

    def inline(self, f, this, args, st, ctx, node, byref=None, lam=None):
        c2 = self.new_frame(f, ctx if lam is None else lam, this)
        if lam is not None:
            c2.parent = _Both(lam, ctx)
            c2.depth = ctx.depth + 1
            c2.tries = ctx.tries
        b = st.fork()
        for i, p in enumerate(f['params']):
            loc = ('var', c2.frame, p['id'])
            if p['t'].endswith('&'):
                self.refids.add(loc)
            if i < len(args):
                v = args[i]
                if byref and byref[i] is not None and p['t'].endswith('&'):
                    l = byref[i]
                    v = ('ref', l) if l[0] in ('var', 'field', 'global', 'svar', 'index', 'deref') else l
                elif v[0] == 'new' and v[3:] == ('val',):
                    v = ('obj', '%s@%s' % (p['n'], c2.frame), v[1], v[2])
                st.env[loc] = v
            else:
                st.env[loc] = ('unk', p['n'])
        self.exec(f['body'], st, c2)
        rets = []
        if not st.dead:
            rets.append((st.fork(), self.fall_off(f) or ('unk', 'void')))
        for x in c2.exits:
            if x.kind == 'return':
                rets.append((x.st, x.val if x.val is not None else ('unk', 'void')))
            else:
                ctx.exits.append(x)
        if not rets:
            st.dead = True
            return ('unk', 'dead')
        if len(rets) == 1:
            st.take(rets[0][0])
            return rets[0][1]
        marker = ('var', ctx.frame, '#ret%d' % self.fresh('r', node, ctx))
        b.env[marker] = ('unk', 'ret')
        outs = []
        for s, v in rets:
            # a reference result is kept as such only when every return agrees
            if v[0] == 'ref':
                vv = v if all(r[1] == v for r in rets) else self.read(v[1], s)
            else:
                vv = v
            if vv[0] == 'ref':
                s.env[marker] = ('refval', vv[1])
            else:
                s.env[marker] = vv
            outs.append(s)
        self.merge(st, b, outs)
        v = st.env.pop(marker, ('unk', 'ret'))
        if v[0] == 'refval':
            return ('ref', v[1])
        return v

    def call_lambda(self, lam, args, st, ctx, node):
        if lam[0] == 'lambda':
            e, lctx = self.lambdas[lam]
            f = dict(key=lam[1], n='lambda', params=e['params'], body=e['body'], rt=e.get('rt', ''), file=lctx.fn.get('file'), cls=None)
            if any(c.fn['key'] == f['key'] for c in ctx.chain()) or ctx.depth >= self.max_depth:
                return ('call', 'lambda', tuple(args))
            return self.inline(f, lctx.this, args, st, ctx, node, lam=lctx)
        if lam[0] == 'fnref':
            f = self.db.fns.get(lam[1])
            if f and self.can_inline(f, ctx):
                return self.inline(f, None, args, st, ctx, node)
            return ('call', lam[2], tuple(args))
        if lam[0] in ('new', 'obj'):
            # functor object
            for c in self.db.cls_by_name.get(lam[1] if lam[0] == 'new' else lam[2], []):
                for m in c['methods']:
                    if m['n'] == 'operator()':
                        f = self.db.fns.get(m['key'])
                        if f and self.can_inline(f, ctx):
                            return self.inline(f, lam, args, st, ctx, node)
        return ('call', 'apply', (lam,) + tuple(args))

    def e_CallExpr(self, e, st, ctx):
        return self.call(e, st, ctx, None)

    def e_CXXMemberCallExpr(self, e, st, ctx):
        obj = e.get('obj')
        if obj is None:
            return self.call(e, st, ctx, None)
        if e.get('arrow'):
            v = self.ev(obj, st, ctx)
            if st.dead:
                return ('unk', 'dead')
            self.deref(v, st, e, ctx)
            loc = v[1] if v[0] == 'addr' else None
            if loc is not None:
                v = self.read(loc, st)
            elif v[0] in ('var', 'field', 'global', 'svar') and v in st.env:
                v = self.read(v, st)
        else:
            loc = None
            if obj.get('lv'):
                loc = self.lval(obj, st, ctx)
                if st.dead:
                    return ('unk', 'dead')
                if loc[0] in ('var', 'field', 'global', 'svar', 'index', 'deref'):
                    v = self.read(loc, st)
                    if v == loc and loc[0] == 'field':
                        v = self.project(loc[1], loc[2])
                else:
                    v, loc = loc, None
            else:
                v = self.ev(obj, st, ctx)
                if st.dead:
                    return ('unk', 'dead')
        return self.call(e, st, ctx, (v, loc))

    def call(self, e, st, ctx, obj):
        if 'cv' in e and not e.get('args') and str((e.get('fn') or {}).get('n')).startswith('std::numeric_limits'):
            return const(int(e['cv']))
        fn = e.get('fn')
        if fn is None:
            callee = self.ev(e['calleeExpr'], st, ctx) if e.get('calleeExpr') else ('unk', 'callee')
            args = [self.ev(a, st, ctx) for a in e['args']]
            if st.dead:
                return ('unk', 'dead')
            self.deref(callee, st, e, ctx)
            if callee[0] in ('lambda', 'fnref'):
                return self.call_lambda(callee, args, st, ctx, e)
            self.emit(st, ('call', '*indirect', (callee,) + tuple(args), self.info(e, ctx)))
            if self.tracked:
                self.content_after('*indirect', '*indirect', None, (callee,) + tuple(args), (), (), st)
            return ('call', '*indirect', (callee,) + tuple(args))
        n = base(fn['n'])
        pt = fn.get('pt', [])
        if e.get('op') == '=' and len(e['args']) == 2 and empty_container(e['args'][1]) and (peel(e['args'][0]) or {}).get('k') == 'MemberExpr':
            return self.ev(self.clearing(e, e['args'][0], fn), st, ctx)
        if e.get('op') == '=' and len(e['args']) == 2 and base(str(fn.get('cls'))).startswith('std::tuple'):
            tied = unwrapped(e['args'][0])
            if isinstance(tied.get('fn'), dict) and base(tied['fn']['n']).split('<')[0] == 'std::tie':
                # each named object gets its part
                v = self.ev(e['args'][1], st, ctx)
                parts = [(a, self.component(v, e['args'][1].get('t', ''), i, st)) for i, a in enumerate(tied['args'])]
                for a, x in parts:
                    if st.dead:
                        return ('unk', 'dead')
                    l = self.lval(a, st, ctx)
                    if l is not None and not (l[0] == 'global' and str(l[1]).endswith('ignore')):
                        self.store(l, x, st, e, ctx)
                return ('unk', 'tie')
        if obj is None and e.get('op') and fn.get('cls') and len(pt) == len(e['args']) - 1:
            pt = ['%s &' % fn['cls']] + list(pt)      # member operator: the first argument is the object
        args, refs = [], []
        for i, a in enumerate(e['args']):
            isref = i < len(pt) and pt[i].endswith('&') and not pt[i].endswith('&&')
            if a.get('lv') and isref:
                l = self.lval(a, st, ctx)
                if st.dead:
                    return ('unk', 'dead')
                if l is not None and l[0] in ('var', 'field', 'global', 'svar', 'index', 'deref'):
                    refs.append(l)
                    v = self.read(l, st)
                    if v == l and l[0] == 'field':
                        v = self.project(l[1], l[2])
                    args.append(v)
                else:
                    refs.append(None)
                    args.append(l if l is not None else ('unk', 'arg'))
            else:
                refs.append(None)
                args.append(self.ev(a, st, ctx))
            if st.dead:
                return ('unk', 'dead')
        self.site('call', n, st, e, ctx, obj=obj, args=args, fn=fn)
        if n.split('<')[0] == 'std::get' and len(args) == 1 and fn.get('targs') and str(fn['targs'][0]).isdigit() and pt and 'std::pair' in pt[0]:
            return self.component(args[0], pt[0], int(fn['targs'][0]), st)
        r = self.model(n, fn, e, obj, args, refs, st, ctx)
        if r is not NotImplemented:
            return r
        # repository function?
        target = self.target(fn, e, obj)
        if target is not None and self.can_inline(target, ctx):
            this = obj[0] if obj is not None else None
            return self.inline(target, this, args, st, ctx, e, byref=refs)
        return self.opaque_call(n, fn, e, obj, args, refs, st, ctx)

    def target(self, fn, e, obj):
        f = self.db.fns.get(fn['key'])
        if not e.get('vcall'):
            return f
        # dynamic type known?
        if obj is not None and obj[0][0] in ('new', 'obj'):
            cls = obj[0][1] if obj[0][0] == 'new' else obj[0][2]
            m = self.method_of(cls, fn)
            if m is not None:
                return m
        cand = [self.db.fns[k] for k in self.db.overriders(fn['key']) if k in self.db.fns and self.db.fns[k].get('body')]
        if f and f.get('body'):
            cand.append(f)
        uniq = {c['key']: c for c in cand}
        declared = self.db.overriders(fn['key'])
        if len(uniq) == 1 and len([k for k in declared]) <= 1 + 0 and (not f or not declared):
            return next(iter(uniq.values()))
        if len(uniq) == 1:
            return next(iter(uniq.values()))
        if obj is not None and obj[0] == ('this', ctx_cls(obj[0])) and f is not None:
            pass
        return None

    def method_of(self, cls, fn):
        ln = last(fn['n'])
        for c in self.db.cls_by_name.get(cls, []):
            order = [c['key']] + self.db.bases(c['key'])
            for k in order:
                cc = self.db.classes.get(k)
                if not cc:
                    continue
                for m in cc['methods']:
                    if m['n'] == ln and not m.get('pure') and [x for x in m.get('pt', ())] == list(fn.get('pt', ())):
                        f = self.db.fns.get(m['key'])
                        if f:
                            return f
        return None

    def opaque_call(self, n, fn, e, obj, args, refs, st, ctx):
        all_args = ((obj[0],) if obj is not None else ()) + tuple(args)
        ov = self.overloads().get(n)
        if ov and len(ov) > 1:
            n = n + '(' + ','.join(short_type(x) for x in fn.get('pt', ())) + ')'
        t = ('call', n, all_args)
        if fn.get('targs') and n.split('::')[-1] in ('dyn_cast', 'isa', 'cast', 'getAs', 'get', 'getAttr', 'hasAttr', 'getAsSugar', 'castAs', 'specific_attr_begin', 'specific_attr_end', 'specific_attrs', 'specific_decls'):
            t = ('call', n + '<' + fn['targs'][0] + '>', all_args)
        if fn.get('noret') or n in ('abort', 'exit', '__assert_fail', 'std::terminate', 'llvm::llvm_unreachable_internal', '_exit'):
            self.emit(st, ('noreturn', n, all_args, self.info(e, ctx)))
            st.dead = True
            return t
        pure = fn.get('const') or self.pure(n) or self.accessor(n, obj, args)
        if pure:
            # a query that writes its result through an out-parameter
            pt = fn.get('pt', [])
            for i, r in enumerate(refs):
                if r is not None and i < len(pt) and pt[i].endswith('&') and not pt[i].startswith('const') and r[0] in ('var', 'svar'):
                    cur = self.read(r, st)
                    if cur[0] == 'obj' or cur[0] == 'outarg' and '::' in pt[i]:
                        # an object of the function that the query fills
                        st.env[self.resolve(r, st)] = I(('outarg', ('call', n, all_args), i))
                    elif cur[0] in ('const', 'uninit', 'op', 'cases', 'phi', 'cat', 'outarg'):
                        st.env[self.resolve(r, st)] = I(('outarg', ('call', n, tuple(const('') if (j == i + (1 if obj is not None else 0)) else a for j, a in enumerate(all_args))), i))
            for i, v in enumerate(args):
                # ... or through a pointer to a variable
                if v[0] == 'addr' and i < len(pt) and pt[i].endswith('*') and not pt[i].startswith('const') and v[1][0] in ('var', 'svar'):
                    cur = self.read(v[1], st)
                    if cur[0] in ('const', 'uninit', 'op', 'cases', 'phi', 'cat', 'outarg'):
                        st.env[self.resolve(v[1], st)] = I(('outarg', ('call', n, tuple(const('') if (j == i + (1 if obj is not None else 0)) else a for j, a in enumerate(all_args))), i))
        if not pure:
            self.emit(st, ('call', n, all_args, dict(self.info(e, ctx), loc=obj[1] if obj else None, virt=bool(e.get('vcall')))))
            if self.tracked:
                self.content_after(n, n.split('(')[0].split('::')[-1], obj, args, refs, fn.get('pt', []), st)
            # mutation invalidates facts about the object's content
            tgt = set()
            for v, ty in zip(args, fn.get('pt', [])):
                if ty.endswith('*') and not ty.startswith('const') and v[0] in ('addr', 'obj', 'this', 'new'):
                    tgt.add(v[1] if v[0] == 'addr' else v)
                    if v[0] == 'addr':
                        tgt.add(self.read(v[1], st))
            if obj is not None and not fn.get('static'):
                tgt.add(obj[0])
            for i, r in enumerate(refs):
                pt = fn.get('pt', [])
                if r is not None and i < len(pt) and not pt[i].startswith('const'):
                    tgt.add(self.read(r, st))
                    if r[0] in ('var', 'svar'):
                        cur = self.read(r, st)
                        if not isinstance(cur, tuple) or cur[0] in ('const', 'uninit', 'op', 'cases', 'phi'):
                            st.env[self.resolve(r, st)] = I(('outarg', t, i))
            for i, v in enumerate(args):
                pt = fn.get('pt', [])
                if v[0] == 'addr' and i < len(pt) and pt[i].endswith('*') and not pt[i].startswith('const') and v[1][0] in ('var', 'svar'):
                    cur = self.read(v[1], st)
                    if not isinstance(cur, tuple) or cur[0] in ('const', 'uninit', 'op', 'cases', 'phi', 'cat'):
                        st.env[self.resolve(v[1], st)] = I(('outarg', t, i))
            if tgt:
                for k in [k for k in st.env if k[0] == 'field' and root_in(k[1], tgt)]:
                    if not (fn['key'] not in self.db.fns and self.db.written_only_in(k[2], {c.fn['key'] for c in ctx.chain()}, cls_of(k[1]))):
                        st.env[k] = I(('after', t, k))
                st.outdate(lambda f: (f[0] == 'atom' and f[1] in ('empty', 'contains') or f[0] in ('op', 'call')) and
                        any(x in tgt for x in subterms(f) if x[0] in ('obj', 'global', 'field', 'svar', 'phi')))
        return t

    def overloads(self):
        r = getattr(self.db, '_overloads', None)
        if r is None:
            r = {}
            for f in self.db.fns.values():
                if not f.get('pattern') and not f['n'].startswith('operator'):
                    r.setdefault(base(f['n']), set()).add(tuple(short_type(p['t']) for p in f['params']))
            self.db._overloads = r
        return r

    def accessor(self, n, obj, args):
        """Members of the syntax tree without arguments only read it."""
        if obj is None or args or not n.startswith('clang::'):
            return False
        c, ln = base(n).rsplit('::', 1)[0].split('::')[-1], last(n)
        return c.endswith(('Stmt', 'Decl', 'Expr', 'Type', 'Operator', 'Literal', 'QualType', 'DeclContext', 'Attr', 'SourceManager', 'LangOptions', 'Selector', 'SwitchCase')) \
            and not ln.startswith(('Traverse', 'set', 'add', 'remove', 'create', 'clear', 'drop', 'reset', 'Visit', 'operator', '~'))

    def pure(self, n):
        n = n.split('(')[0]
        ln = n.split('::')[-1]
        return ln.endswith(('_begin', '_end', 'Begin', 'End')) or ln.startswith(('get', 'is', 'has', 'size', 'begin', 'end', 'empty', 'length', 'c_str', 'data', 'count', 'find', 'str', 'at', 'front', 'back', 'second', 'operator==', 'operator!=', 'operator<', 'operator+', 'operator[]', 'operator-', 'operator bool', 'operator!')) and ln != 'operator<<' \
            or n in ('toupper', 'tolower', 'isalpha', 'isdigit', 'islower', 'isupper', 'atoi', 'atof', 'strcmp', 'strlen', 'std::make_pair', 'std::to_string', 'time', 'ctime', 'gmtime', 'std::distance', 'getenv', 'std::equal', 'std::includes', 'llvm::is_contained', 'llvm::sys::path::filename', 'llvm::sys::path::parent_path', 'llvm::sys::path::extension', 'llvm::sys::path::stem') \
            or ln in ('body_back', 'body_front', 'body_rbegin', 'body_rend', 'decl_rbegin', 'decl_rend', 'top', 'vector &', 'operator Matcher', 'starts_with', 'ends_with', 'startswith', 'endswith', 'rbegin', 'rend', 'name', 'value', 'capacity', 'compare', 'substr', 'equals')

    def model(self, n, fn, e, obj, args, refs, st, ctx):
        ln = n.split('::')[-1]
        cls = n.rsplit('::', 1)[0] if '::' in n else ''
        if n.split('(')[0] == 'std::to_string' and len(args) == 1 and not any(x in str((fn.get('params') or [{}])[0]) + n for x in ('double', 'float')):
            return const(str(args[0][1])) if is_const(args[0]) and isinstance(args[0][1], int) else ('cat', const(''), args[0])
        if n in IDENT and len(args) == 1:
            return ('ref', refs[0]) if refs[0] is not None and n == 'std::move' and False else args[0]
        if ln in ('dyn_cast', 'dyn_cast_or_null', 'cast', 'cast_or_null', 'isa', 'isa_and_nonnull', 'isa_and_present', 'dyn_cast_if_present', 'cast_if_present') and cls in ('llvm', 'clang', '') and len(args) == 1 and fn.get('targs'):
            T = [strip_cv(t) for t in fn['targs']]
            # the last template argument is the deduced operand type
            X = args[0]
            if X[0] == 'addr':
                X = X[1]
            own = strip_cv(T[1].rstrip('*& ')) if len(T) == 2 else None
            if own is not None and ln in ('isa', 'dyn_cast') and (T[0] == own or hier.relation(own, T[0]) == 'sub'):
                # the operand already has that type
                self.deref(X, st, e, ctx)
                return TRUE if ln == 'isa' else X
            if ln.startswith('isa'):
                names = [t for t in T[:-1]] or T
                kind = 'isa' if ln == 'isa' else 'isa?'
                if ln == 'isa':
                    self.deref(X, st, e, ctx)
                if len(names) == 1:
                    return ('atom', kind, names[0], X)
                r = ('atom', kind, names[0], X)
                for nm in names[1:]:
                    r = ('op', '||', r, ('atom', kind, nm, X))
                return r
            if ln == 'cast' or ln == 'cast_or_null':
                self.deref(X, st, e, ctx) if ln == 'cast' else None
                return X
            if ln == 'dyn_cast':
                self.deref(X, st, e, ctx)
            return ('cast', ln, T[0], X)
        if obj is not None:
            o, loc = obj
            if cls.startswith(SMART):
                if cls.startswith('std::optional'):
                    if ln in ('has_value', 'operator bool'):
                        return self.opt_has(o)
                    if ln in ('value', 'operator*', 'operator->'):
                        self.site('optvalue', o, st, e, ctx)
                        return self.opt_val(o)
                    if ln == 'value_or':
                        return self.cases([(((('atom', 'has', o)), True),) and ((('atom', 'has', o), True),), self.opt_val(o)] and [(((('atom', 'has', o), True),), self.opt_val(o)), (((('atom', 'has', o), False),), args[0])])
                if ln in ('get', 'operator->', 'operator*'):
                    if ln != 'get':
                        self.deref(o, st, e, ctx)
                    return o
                if ln in ('operator bool',):
                    return ('ptr2bool', o)
                if ln == 'reset':
                    v = args[0] if args and args[0] != ('const', 0) else NULL
                    if loc is not None:
                        self.store(loc, v, st, e, ctx)
                    return ('unk', 'void')
                if ln == 'release':
                    return o
            if cls.startswith(STRINGY):
                if ln in ('operator=', 'assign') and loc is not None and len(args) == 1:
                    self.store(loc, args[0], st, e, ctx)
                    return ('ref', loc)
                if ln in ('operator+=', 'append', 'push_back') and loc is not None and len(args) == 1:
                    cur = self.read(loc, st)
                    self.store(loc, ('cat', cur, args[0]), st, e, ctx)
                    return ('ref', loc)
                if ln == 'erase' and loc is not None and loc[0] == 'var' and len(args) == 2 and args[0][0] == 'call' and args[0][1] == 'remove_if' and args[0][2][2][0] == 'pred':
                    # what is left is built character by character
                    cur = self.read(loc, st)
                    (b0, e0, pred) = args[0][2]
                    if all(x[0] == 'call' and last(x[1]) == w and x[2] == (cur,) for x, w in ((b0, 'begin'), (e0, 'end'), (args[1], 'end'))) and pred[2][0] == 'elem' and pred[2][1] == cur and cur[0] != 'obj':
                        lid = pred[2][2]
                        phi = ('phi', lid, loc)
                        gone = pred[1]
                        kept = ((),)
                        for d in gone:
                            kept = tuple(k + ((a, not p),) for k in kept for a, p in d)
                        if len(gone) <= 3 and len(kept) <= 8:
                            self.store(loc, I(('fold', lid, cur, const(''), phi, ((gone, phi), (kept, ('cat', phi, pred[2]))))), st, e, ctx)
                            return ('unk', 'it')
                if ln in ('reserve', 'shrink_to_fit'):
                    return ('unk', 'void')
                if ln == 'clear' and loc is not None:
                    self.store(loc, const(''), st, e, ctx)
                    return ('unk', 'void')
                if ln in ('c_str', 'data', 'str', 'operator basic_string', 'operator std::string', 'string', 'operator basic_string_view', 'operator StringRef', 'operator std::string_view'):
                    return o
            if ln == 'operator=' and len(args) == 1 and loc is not None and not (self.db.fns.get(fn['key'])):
                self.store(loc, args[0], st, e, ctx)
                return ('ref', loc)
            if fn.get('conv') and cls.startswith('llvm::cl::opt'):
                return o
            if ln == 'getValue' and cls.startswith('llvm::cl::opt'):
                return o
        # operators written as free or member operators (args[0] is the object)
        op = e.get('op')
        if op and obj is None:
            if op in ('==', '!=') and len(args) == 2 and fn['key'] not in self.db.fns:
                return self.binop(op, args[0], args[1])
            if op == '!=' and len(args) == 2:
                pass
            if op in ('<', '>', '<=', '>=') and len(args) == 2 and fn['key'] not in self.db.fns:
                return self.binop(op, args[0], args[1])
            if op == '+' and len(args) == 2 and self.is_string_type(e.get('t', '')):
                if '__normal_iterator' in e.get('t', ''):
                    return self.binop('+', args[0], args[1])
                return ('cat', args[0], args[1])
            if op in ('+', '-') and len(args) == 2 and cls and 'iterator' in cls:
                return ('op', op, args[0], args[1])
            if op == '=' and len(args) == 2 and refs[0] is None and e['args'][0].get('lv'):
                l = self.lval(e['args'][0], st, ctx)
                if l is not None and l[0] in ('var', 'field', 'global', 'svar', 'index', 'deref') and fn['key'] not in self.db.fns:
                    self.store(l, args[1], st, e, ctx)
                    return ('ref', l)
            if op == '=' and len(args) == 2 and fn['key'] not in self.db.fns:
                l = refs[0] or (self.lval(e['args'][0], st, ctx) if e['args'][0].get('lv') else None)
                if l is not None and l[0] in ('var', 'field', 'global', 'svar', 'index', 'deref'):
                    self.store(l, args[1], st, e, ctx)
                    return ('ref', l)
                self.emit(st, ('assign', args[0], args[1], self.info(e, ctx)))
                return args[0]
            if op == '+=' and cls.startswith(STRINGY) and len(args) == 2:
                l = refs[0] or (self.lval(e['args'][0], st, ctx) if e['args'][0].get('lv') else None)
                if l is not None and l[0] in ('var', 'field', 'global', 'svar', 'index', 'deref'):
                    self.store(l, ('cat', self.read(l, st), args[1]), st, e, ctx)
                    return ('ref', l)
            if op in ('*', '->') and len(args) == 1:
                a = args[0]
                if cls.startswith(SMART) and cls.startswith('std::optional'):
                    self.site('optvalue', a, st, e, ctx)
                    return self.opt_val(a)
                self.deref(a, st, e, ctx) if cls.startswith(SMART) else None
                if cls.startswith(SMART):
                    return a
                return ('deref', a)
            if op in ('++', '--') and len(args) >= 1 and fn['key'] not in self.db.fns:
                l = self.lval(e['args'][0], st, ctx)
                if l is not None and l[0] in ('var', 'field', 'global', 'svar'):
                    old = self.read(l, st)
                    new = ('call', 'next', (old,)) if op == '++' else ('call', 'prev', (old,))
                    self.store(l, new, st, e, ctx)
                    return old if len(args) == 2 else new
            if op == '[]' and len(args) == 2:
                b = base(fn['n'])
                self.site('index', ('index', args[0], args[1]), st, e, ctx)
                loc = ('index', args[0], args[1])
                if b.startswith(('std::map', 'std::unordered_map')):
                    self.emit(st, ('mapref', args[0], args[1], self.info(e, ctx)))
                return ('ref', loc) if loc in st.env else ('ref', loc)
            if op == '()' and args and args[0][0] in ('lambda', 'fnref', 'new', 'obj'):
                f = self.db.fns.get(fn['key'])
                if args[0][0] in ('lambda', 'fnref'):
                    return self.call_lambda(args[0], args[1:], st, ctx, e)
                if f and self.can_inline(f, ctx):
                    return self.inline(f, args[0], args[1:], st, ctx, e)
            if op and fn['key'] in self.db.fns and fn.get('cls'):
                f = self.db.fns[fn['key']]
                if self.can_inline(f, ctx):
                    return self.inline(f, args[0], args[1:], st, ctx, e, byref=refs[1:])
            if op == '<<' and refs[0] is not None and I(self.resolve(refs[0], st)) in self.streams:
                l = self.resolve(refs[0], st)
                self.store(l, ('cat', self.read(l, st), self.stream_text(args[1])), st, e, ctx)
                return ('ref', l)
            if op == '<<':
                self.emit(st, ('call', 'operator<<', (args[0], args[1]), self.info(e, ctx)))
                return args[0]
        if ln in ('operator<<', 'put', 'write') and obj is not None and obj[1] is not None and len(args) >= 1 and I(self.resolve(obj[1], st)) in self.streams:
            l = self.resolve(obj[1], st)
            self.store(l, ('cat', self.read(l, st), self.stream_text(args[0])), st, e, ctx)
            return ('ref', l)
        if ln in ('str', 'flush', 'view') and obj is not None and obj[1] is not None and I(self.resolve(obj[1], st)) in self.streams:
            if args and ln == 'str':
                self.store(self.resolve(obj[1], st), args[0], st, e, ctx)
            return self.read(obj[1], st)
        if ln == 'operator<<' and obj is not None and len(args) == 1:
            self.emit(st, ('call', 'operator<<', (obj[0], args[0]), self.info(e, ctx)))
            return obj[0]
        if n in ('std::basic_ostream::put', 'std::basic_ostream::write', 'llvm::raw_ostream::write') and obj is not None:
            self.emit(st, ('call', 'operator<<', (obj[0], args[0]), self.info(e, ctx)))
            return obj[0]
        if n in ('std::max', 'std::min') and len(args) == 2:
            x, y = args if n == 'std::max' else args[::-1]
            T, F = self.split(I(('op', '<', x, y)), st.fork())
            hi, lo = args[1] if n == 'std::max' else args[1], args[0]
            return self.cases([(g, hi) for t in T for g in t.delta(st)] + [(g, lo) for t in F for g in t.delta(st)])
        if n in ('std::tie', 'std::make_tuple', 'std::forward_as_tuple') and obj is None:
            return ('list', tuple(args))
        if obj is not None and cls.startswith(('clang::BinaryOperator', 'clang::UnaryOperator')) and not args and ln in OPCODES:
            c = ('call', 'clang::BinaryOperator::getOpcode', (obj[0],))
            r = None
            for o in OPCODES[ln]:
                q = ('op', '==', c, ('enum', 'clang::' + o[0], o[1]))
                r = q if r is None else ('op', '||', r, q)
            return r
        if n in ('std::make_unique', 'std::make_shared') and fn.get('targs'):
            t = ('new', strip_cv(fn['targs'][0]), tuple(args), 'heap')
            self.emit(st, ('new', strip_cv(fn['targs'][0]), tuple(args), self.info(e, ctx)))
            return t
        if n == 'std::make_optional' and len(args) == 1:
            return ('some', args[0])
        # element access normal forms
        if obj is not None and ln in ('at', 'operator[]') and len(args) == 1 and cls.startswith(CONTAINERS + ('llvm::',)):
            loc = ('index', obj[0], args[0])
            self.site('index', loc, st, e, ctx)
            if ln == 'at':
                self.emit(st, ('mayThrow', 'std::out_of_range', loc, self.info(e, ctx)))
            return ('ref', loc) if e.get('lv') else self.read(loc, st)
        if obj is not None and ln == 'front' and not args and cls.startswith(CONTAINERS):
            loc = ('index', obj[0], const(0))
            self.site('index', loc, st, e, ctx)
            return ('ref', loc) if e.get('lv') else self.read(loc, st)
        if n in ('std::for_each', 'std::remove_if', 'llvm::remove_if', 'std::any_of', 'std::all_of', 'std::none_of', 'std::find_if', 'std::count_if', 'std::transform', 'std::copy_if', 'std::copy', 'std::accumulate', 'llvm::any_of', 'llvm::all_of', 'llvm::none_of', 'llvm::for_each', 'llvm::count_if', 'std::count'):
            r = self.algorithm(ln, args, st, ctx, e)
            if r is not NotImplemented:
                return r
        if cls.startswith(CONTAINERS) and obj is not None and ln in ('reserve', 'shrink_to_fit'):
            return ('unk', 'void')
        if obj is not None and ln in ('emplace', 'try_emplace') and len(args) == 2 and 'map' in cls.split('<')[0].split('::')[-1]:
            args, ln, n = [('call', 'std::make_pair', tuple(args))], 'emplace', n.replace('try_emplace', 'emplace')
        if obj is not None and ln == 'emplace' and len(args) > 1 and setlike(n):
            el = element_type(fn.get('cls') or '', e)
            args = [('call', 'std::make_pair', tuple(args))] if el.startswith('std::pair') and len(args) == 2 else [('new', el, tuple(args), 'val')]
        if cls.startswith('std::vector') and ln == 'emplace_back' and len(args) > 1 and obj is not None:
            el = element_type(fn.get('cls') or '', e)
            args = [('call', 'std::make_pair', tuple(args))] if el.startswith('std::pair') and len(args) == 2 else [('new', el, tuple(args), 'val')]
        if cls.startswith(CONTAINERS) and obj is not None and ln in ('insert', 'push_back', 'emplace_back', 'emplace'):
            # whole-range insert
            self.emit(st, ('call', n, (obj[0],) + tuple(args), dict(self.info(e, ctx), loc=obj[1])))
            if self.tracked:
                self.content_after(n, ln, obj, args, refs, fn.get('pt', []), st)
            self.drop_content(obj[0], st)
            return ('call', n, (obj[0],) + tuple(args))
        return NotImplemented

    def stream_text(self, v):
        if v[0] == 'fnref' and last(v[2]) == 'endl':
            return const('\n')
        if v[0] == 'fnref' and last(v[2]) in ('flush', 'ends'):
            return const('')
        if is_const(v) and isinstance(v[1], int) and not isinstance(v[1], bool):
            return const(str(v[1]))
        return v

    def drop_content(self, o, st):
        st.outdate(lambda f: f[0] == 'atom' and f[1] in ('empty', 'contains') and f[2] == o)

    def opt_has(self, o):
        if o[0] == 'nullopt':
            return FALSE
        if o[0] == 'some':
            return TRUE
        if o[0] == 'cases':
            return self.cases([(g, self.opt_has(v)) for g, v in o[1]])
        return ('atom', 'has', o)

    def opt_val(self, o):
        if o[0] == 'some':
            return o[1]
        if o[0] == 'cases':
            return self.cases([(g, self.opt_val(v)) for g, v in o[1]])
        return ('optval', o)

    def is_string_type(self, t):
        t = strip_cv(t)
        return base(t).startswith(STRINGY) or 'basic_string' in t

    def algorithm(self, ln, args, st, ctx, e):
        # (begin, end, ...) -> collection
        i = 0
        a = args
        if len(a) >= 2 and pair_range(a[0], a[1]) is not None:
            coll, rest = I(pair_range(a[0], a[1])), a[2:]
        elif len(a) >= 2 and last(e['fn']['n']) and base(e['fn']['n']).startswith('llvm::'):
            coll, rest = a[0], a[1:]
        elif len(a) >= 3:
            coll, rest = I(('itrange', a[0], a[1])), a[2:]
        else:
            return NotImplemented
        if not rest:
            return NotImplemented
        self.loop_no += 1
        lid = 'L%d' % self.loop_no
        el = ('elem', coll, lid)
        fn = rest[-1]
        if ln == 'count':
            return ('fold', lid, coll, const(0), ('phi', lid, 'count'), (((((('op', '==', *sorted((el, rest[0]), key=dkey)), True),),), ('op', '+', ('phi', lid, 'count'), const(1))),))
        if ln in ('copy', 'copy_if', 'transform'):
            for k in [k for k in st.env if k[0] == 'content']:
                if any(contains(x, lambda z: z == k[1]) for x in rest):
                    st.env[k] = I(('unk', 'content'))
        if ln == 'copy':
            ev = ('loop', lid, coll, (('next', ((),), (('call', 'push_back', (rest[0], el), self.info(e, ctx)),)),), self.info(e, ctx))
            st.events.append(ev)
            return ('unk', 'it')
        if fn[0] not in ('lambda', 'fnref', 'new', 'obj'):
            return NotImplemented
        if ln == 'transform' and coll[0] == 'itrange' and rest[0] == coll[1] and last(coll[1][1] if coll[1][0] == 'call' else '') == 'begin' and coll[2] in (('op', '+', coll[1], const(1)), ('op', '+', const(1), coll[1]), ('call', 'next', (coll[1],))):
            # the first element alone, in place
            l = I(('index', coll[1][2][0], const(0)))
            self.store(l, self.call_lambda(fn, [l], st, ctx, e), st, e, ctx)
            return ('unk', 'it')
        b = st.fork()
        s = st.fork()
        n0 = len(s.events)
        if ln == 'accumulate':
            return NotImplemented
        v = self.call_lambda(fn, [el], s, ctx, e)
        if ln in ('for_each', 'transform'):
            changed = {k: x for k, x in s.env.items() if k in b.env and b.env[k] != x}
            if s.dead:
                return ('unk', 'dead')
            evs = tuple_events(s.events[n0:])
            if ln == 'transform':
                dest = self.presized(rest[0], coll, n0, st)
                evs = evs + (('call', 'push_back', (dest, v), self.info(e, ctx)),)
            fs = s.delta(b)
            if changed:
                # iterate to havoc the captured state
                for k in changed:
                    st.env[k] = ('phi', lid, k)
                s2 = st.fork()
                self.call_lambda(fn, [el], s2, ctx, e)
                for k in changed:
                    st.env[k] = ('fold', lid, coll, b.env[k], ('phi', lid, k), ((fs, s2.env.get(k)),))
            st.events.append(('loop', lid, coll, (('next', fs, evs),), self.info(e, ctx)))
            return ('unk', 'it')
        T, F = self.split(v, s)
        g = lambda x: x.delta(b)
        if ln == 'remove_if':
            pred = I(('pred', tuple(y for x in T for y in g(x)), el))
            return ('call', 'remove_if', (a[0], a[1], pred))
        if ln in ('any_of', 'none_of', 'all_of') and any(len(x.events) > n0 for x in T + F):
            # the predicate does something: a loop that stops at the first hit
            found = I(('var', ctx.frame, '#found' + lid))
            st.env[found] = FALSE
            item = []

            def run(x):
                v = self.call_lambda(fn, [item[-1]], x, ctx, e)
                if x.dead:
                    return
                T, F = self.split(v, x.fork())
                if ln == 'all_of':
                    T, F = F, T
                for y in T:
                    y.env[found] = TRUE
                ctx.loops[-1]['break'] += T
                if F:
                    self.merge(x, x.fork(), F)
                else:
                    x.dead = True
            self.loop(e, st, ctx, coll, lambda x, l: item.append(I(('elem', coll, l))), None, run, None)
            r = st.env.get(found, FALSE)
            return r if ln == 'any_of' else I(('not', r))
        hit = tuple(y for x in T for y in g(x))
        if ln in ('any_of', 'none_of', 'find_if'):
            none = ('atom', 'none', const(lid), coll, hit)
            if ln == 'none_of':
                return none
            if ln == 'any_of':
                return ('not', none)
            return ('findif', coll, none)
        if ln == 'all_of':
            miss = tuple(y for x in F for y in g(x))
            return ('atom', 'none', const(lid), coll, miss)
        if ln == 'count_if':
            phi = ('phi', lid, 'count')
            return ('fold', lid, coll, const(0), phi, ((hit, ('op', '+', phi, const(1))),) + tuple((g(x), phi) for x in F))
        if ln == 'copy_if':
            tr = tuple(('next', g(x), (('call', 'push_back', (rest[0], el), self.info(e, ctx)),)) for x in T) + tuple(('next', g(x), ()) for x in F)
            st.events.append(('loop', lid, coll, tr, self.info(e, ctx)))
            return ('unk', 'it')
        return NotImplemented

    def presized(self, dest, coll, n0, st):
        """Filling a fresh vector of the right size from its beginning is appending to an empty one."""
        if dest[0] != 'call' or last(dest[1]) not in ('begin',) or len(dest[2]) != 1:
            return dest
        X = dest[2][0]
        if X[0] != 'obj' or not X[2].startswith('std::vector') or len(X[3]) != 1:
            return dest
        n = X[3][0]
        if n[0] != 'call' or last(n[1]) != 'size' or tuple(n[2]) != (coll,) or any(contains(I(x) if isinstance(x, tuple) else x, lambda z: z == X) for ev in st.events[n0:] for x in ev if isinstance(x, tuple)):
            return dest
        new = I(X[:3] + ((),) + X[4:])
        m = {I(X): new}
        for k, x in list(st.env.items()):
            if contains(x, lambda z: z == X):
                st.env[k] = subst(I(x), m)
        return new

    def e_CXXOperatorCallExpr(self, e, st, ctx):
        return self.call(e, st, ctx, None)

    def e_CXXInheritedCtorInitExpr(self, e, st, ctx):
        return ('unk', 'inhctor')

    def e_RecoveryExpr(self, e, st, ctx):
        vals = tuple(self.ev(c, st, ctx) for c in e.get('c', ()) if c)
        self.incomplete.append('unresolved expression at %s:%s' % (ctx.fn.get('file'), e.get('l')))
        return ('call', '<recovery>', vals)

    def e_VarDecl(self, e, st, ctx):
        self.declare(e, st, ctx)
        return ('unk', 'decl')

    def e_StmtExpr(self, e, st, ctx):
        for c in e.get('c', ()):
            self.exec(c, st, ctx)
        return ('unk', 'stmtexpr')


def flat_body(b):
    if b is None or b.get('k') == 'NullStmt':
        return []
    if b.get('k') == 'CompoundStmt':
        return [y for x in b.get('c', ()) if x for y in flat_body(x)]
    return [b]


def same_place(a, b):
    if a is None or b is None or a.get('k') != b.get('k'):
        return False
    if a['k'] == 'DeclRefExpr':
        return a.get('id') == b.get('id')
    if a['k'] == 'MemberExpr':
        return a.get('id') == b.get('id') and bool(a.get('c')) and bool(b.get('c')) and same_place(peel(a['c'][0]), peel(b['c'][0]))
    return a['k'] == 'CXXThisExpr'


CONTAINER = re.compile(r'^std::(stack|queue|vector|deque|list|set|map|multiset|multimap|unordered_set|unordered_map)<')


def empty_container(x):
    """A default-constructed container."""
    x = unwrapped(x)
    while x.get('k') in ('CXXFunctionalCastExpr', 'CXXTemporaryObjectExpr') and x.get('c'):
        x = unwrapped(x['c'][0])
    t = strip_cv(x.get('t', ''))
    if not CONTAINER.match(t):
        return False
    return x.get('k') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr', 'CXXScalarValueInitExpr') and not [a for a in (x.get('args') or x.get('c') or []) if a and a.get('k') != 'CXXDefaultArgExpr']


def unwrapped(x):
    while x.get('k') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr') and x.get('c'):
        x = x['c'][0]
    return x


def element_type(cls, e):
    pat = r'(?:vector|deque|list|set|multiset|unordered_set)<(.*)>'
    m = re.search(pat, cls) or re.search(pat, e.get('obj', {}).get('t', '') if isinstance(e.get('obj'), dict) else '')
    if not m:
        return '?'
    d, out = 0, ''
    for ch in m.group(1):
        d += ch == '<'
        d -= ch == '>'
        if ch == ',' and d == 0:
            break
        out += ch
    return out.strip()


def short_type(t):
    return base(strip_cv(t).replace('const ', '')).split('::')[-1].replace('&', '').replace(' ', '')


class _Both:
    """Chain for lambda frames: lexical frame first, then the caller."""

    def __init__(self, lex, caller):
        self.lex, self.caller = lex, caller
        self.fn = lex.fn
        self.frame = lex.frame
        self.parent = _Join(lex.parent, caller)
        self.depth = caller.depth
        self.tries = caller.tries
        self.exits = lex.exits
        self.loops = lex.loops
        self.this = lex.this

    def chain(self):
        c = self
        while c:
            yield c
            c = c.parent


class _Join:
    def __new__(cls, a, b):
        if a is None:
            return b
        o = object.__new__(cls)
        o.a, o.b = a, b
        o.fn, o.frame = a.fn, a.frame
        o.parent = _Join(a.parent, b)
        o.depth, o.tries = a.depth, a.tries
        o.exits, o.loops, o.this = a.exits, a.loops, a.this
        return o


class _IndexMap(dict):
    def __init__(self, m, c, phi, elem):
        super().__init__(m)
        self.c, self.phi, self.elem = c, phi, elem

    def __bool__(self):
        return True

    def __contains__(self, t):
        if not isinstance(t, tuple) or not t:
            return False
        if t == self.phi:
            return True
        if t[0] == 'index' and len(t) == 3 and t[2] == self.phi and self.same(t[1]):
            return True
        if t[0] == 'call' and len(t) == 3 and t[2] and t[2][-1] == self.phi and len(t[2]) in (1, 2):
            return True
        return False

    def same(self, x):
        return x == self.c

    def __getitem__(self, t):
        if t == self.phi:
            return ('indexof', self.elem)
        if t[0] == 'index':
            return self.elem
        # accessor by index: f(obj, i)
        if len(t[2]) == 2:
            return ('elem', ('call', t[1], (t[2][0],)), self.elem[2])
        return ('elem', ('call', t[1], ()), self.elem[2])


class _PhiMap(dict):
    def __init__(self, phi, to, also=None):
        super().__init__()
        self.phi, self.elem, self.also = phi, to, also

    def __bool__(self):
        return True

    def __contains__(self, t):
        return isinstance(t, tuple) and bool(t) and (t == self.phi or t == self.also)

    def __getitem__(self, t):
        return self.elem


def pair_range(init, end):
    """The collection between two iterators x_begin(c) and x_end(c)."""
    if init[0] == 'call' and last(init[1]).endswith(('begin', 'Begin')) and end[0] == 'call' and last(end[1]).endswith(('end', 'End')):
        bi, en = last(init[1]), last(end[1])
        if init[2] and end[2] and init[2][0] == end[2][0] and bi.replace('begin', '').replace('Begin', '') == en.replace('end', '').replace('End', ''):
            pre = bi.replace('begin', '').rstrip('_')
            if '<' in init[1]:
                pre += init[1][init[1].index('<'):]
            return init[2][0] if pre in ('', 'c') else ('call', pre, (init[2][0],))
    return None


class _IterMap(dict):
    def __init__(self, phi, elem):
        super().__init__()
        self.phi, self.elem = phi, elem

    def near(self, t):
        """A neighbour of the element: it - 1, it + 1."""
        return len(t) == 4 and t[0] == 'op' and t[1] in ('+', '-') and t[2] == self.phi and is_const(t[3]) and isinstance(t[3][1], int) and self.elem[1][0] != 'itrange'

    def __bool__(self):
        return True

    def __contains__(self, t):
        return isinstance(t, tuple) and bool(t) and (t == ('deref', self.phi) or t == self.phi or self.near(t))

    def __getitem__(self, t):
        if self.near(t):
            return ('index', self.elem[1], ('op', t[1], ('indexof', self.elem), t[3]))
        return self.elem


def drop_guard(t, guard):
    """Removes the facts on `guard` atoms from every gate inside a term or event."""
    if not isinstance(t, tuple):
        return t
    if type(t) is T and not contains(t, lambda z: z[0] == 'cases'):
        return t
    if len(t) == 2 and t[0] == 'alt' or len(t) == 2 and t[0] == 'cases':
        out = []
        for g, e in t[1]:
            if t[0] == 'alt':
                g = tuple(tuple(sorted(x, key=dkey)) for x in reduce_gates([[f for f in x if f[0] not in guard] for x in g]))
            else:
                g = tuple(f for f in g if f[0] not in guard)
            out.append((g, drop_guard(e, guard)))
        return Ev((t[0], tuple(out))) if type(t) is not T else I((t[0], tuple(out)))
    r = tuple(drop_guard(x, guard) for x in t)
    return I(r) if type(t) is T else type(t)(r) if type(t) in (_Evs, Ev) else r


SETS = ('std::set<', 'std::set::', 'std::map<', 'std::map::', 'std::unordered_set<', 'std::unordered_set::', 'std::unordered_map<', 'std::unordered_map::')


def peel(e):
    """An expression without casts, parentheses and copies."""
    while e:
        if e['k'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr') and e.get('c'):
            e = e['c'][0]
        elif e['k'] == 'CXXConstructExpr' and e.get('copy') and len(e.get('args', ())) == 1:
            e = e['args'][0]
        else:
            break
    return e


def setlike(n):
    return n.startswith(SETS)


def pair_first(t):
    return pair(t)[0] if pair(t) else None


def pair(t):
    """(first, second) of a freshly made pair."""
    if t[0] == 'call' and last(t[1]) == 'make_pair' and len(t[2]) == 2:
        return t[2]
    if t[0] == 'new' and base(t[1]).startswith('std::pair') and len(t[2]) == 2:
        return t[2]
    if t[0] == 'list' and len(t[1]) == 2:
        return t[1]
    return None


def fixed_disj(ds, m):
    return ds if ds == NODISJ else tuple(frozenset(subst(tuple(x), m) for x in d) for d in ds)


def fixed_ev(ev, m):
    return subst(ev, m)


def subterms_ev(ev):
    return subterms(ev)


def root_in(t, tgt):
    while True:
        if t in tgt:
            return True
        if t[0] in ('field', 'deref', 'addr') and isinstance(t[1], tuple):
            t = t[1]
            continue
        return False


def cls_of(t):
    """The class of a described object, where it is written in the description."""
    return t[2] if t[0] == 'obj' else t[1] if t[0] in ('this', 'new') and len(t) > 1 and isinstance(t[1], str) else None


def ctx_cls(t):
    return t[1] if len(t) > 1 else None


def strip_cv(t):
    t = t.strip()
    while True:
        n = t
        if n.startswith('const '):
            n = n[6:]
        n = n.rstrip()
        if n.endswith(('&', '*')):
            n = n[:-1].rstrip()
        if n.endswith(' const'):
            n = n[:-6]
        if n.endswith('*const'):
            n = n[:-6]
        if n == t:
            return n
        t = n


def simple_const(e):
    if e is None:
        return False
    if e['k'] in ('IntegerLiteral', 'StringLiteral', 'CXXBoolLiteralExpr', 'CharacterLiteral', 'FloatingLiteral', 'CXXNullPtrLiteralExpr'):
        return True
    if e['k'] in ('ImplicitCastExpr', 'UnaryOperator', 'BinaryOperator', 'CStyleCastExpr'):
        return all(simple_const(c) for c in e['c'])
    if e['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and 'basic_string' in e.get('t', ''):
        return all(simple_const(a) or a['k'] == 'CXXDefaultArgExpr' or a['k'].startswith('CXX') for a in e['args'])
    if e['k'] == 'CXXDefaultArgExpr':
        return True
    return False


def tuple_events(evs):
    return _Evs(evs)


class _Evs(tuple):
    pass


class Ev(tuple):
    pass


def dgx(x):
    """Structural digest of events and terms, ignoring positions."""
    c = type(x)
    if c is T:
        return x.dg
    if c is dict:
        return ''
    if isinstance(x, tuple):
        if c is not tuple:
            d = x.__dict__.get('dg')
            if d is not None:
                return d
        d = hashlib.blake2b('\0'.join(dgx(y) for y in x).encode(), digest_size=12).hexdigest()
        if c is not tuple:
            x.dg = d
        return d
    return c.__name__ + repr(x)


def _ev_eq(a, b):
    return dgx(a) == dgx(b)


def reduce_gates(gs):
    """Merge gates that differ only in the polarity of one fact (A&B | A&!B = A), and absorb weaker ones."""
    idx, names = {}, []
    ms = []
    for g in gs:
        p = n = 0
        for a, v in g:
            d = dkey(a)
            i = idx.get(d)
            if i is None:
                i = idx[d] = len(names)
                names.append(a)
            if v:
                p |= 1 << i
            else:
                n |= 1 << i
        if p & n:
            continue
        if (p, n) not in ms:
            ms.append((p, n))
    changed = True
    while changed:
        changed = False
        ms.sort(key=lambda x: bin(x[0]).count('1') + bin(x[1]).count('1'))
        keep = []
        for p, n in ms:
            if not any(q & p == q and m & n == m for q, m in keep):
                keep.append((p, n))
        ms = keep
        for i in range(len(ms)):
            p, n = ms[i]
            for j in range(len(ms)):
                if i == j:
                    continue
                q, m = ms[j]
                # some literal of i occurs negated in j and the rest of i is contained in j: drop it from j
                c = (p & m) | (n & q)
                if c and c & (c - 1) == 0 and (p & ~c) & q == p & ~c and (n & ~c) & m == n & ~c:
                    ms[j] = (q & ~c, m & ~c)
                    changed = True
        if changed:
            ms = list(dict.fromkeys(ms))
    out = []
    for p, n in ms:
        g = [(names[i], True) for i in range(len(names)) if p >> i & 1] + [(names[i], False) for i in range(len(names)) if n >> i & 1]
        out.append(tuple(sorted(g, key=dkey)))
    return out


def walk_events(evs, path=()):
    """Yields (event, path) for every event, descending into alternatives and loops; path lists enclosing gates."""
    for ev in evs:
        yield ev, path
        if ev[0] == 'alt':
            for g, es in ev[1]:
                yield from walk_events(es, path + (('gate', g),))
        elif ev[0] == 'loop':
            for kind, fs, es in ev[3]:
                yield from walk_events(es, path + (('loop', ev[1], ev[2], kind, fs),))
        elif ev[0] == 'inloop':
            yield from walk_events(ev[3][3] and (), path)
            yield from walk_events(ev[4], path + (('loop', ev[1], ev[2], 'early', ()),))


def show_events(evs, ind=0):
    out = []
    p = '  ' * ind
    for ev in evs:
        if ev[0] == 'alt':
            out.append(p + 'alt:')
            for g, es in ev[1]:
                out.append(p + ' [' + dnf_str(g) + ']')
                out += show_events(es, ind + 1)
        elif ev[0] == 'loop':
            out.append(p + 'loop %s over %s' % (ev[1], show(ev[2]) if ev[2] else '?'))
            for kind, fs, es in ev[3]:
                out.append(p + ' %s [%s]' % (kind, dnf_str(fs)))
                out += show_events(es, ind + 1)
        elif ev[0] == 'inloop':
            out.append(p + 'inloop %s over %s' % (ev[1], show(ev[2]) if ev[2] else '?'))
            out += show_events(ev[4], ind + 1)
        else:
            out.append(p + ev[0] + ' ' + ' '.join(show(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else (('(' + ', '.join(show(y) for y in x) + ')') if isinstance(x, tuple) else str(x)) for x in ev[1:] if not isinstance(x, dict)))
    return out


def dump_exits(exits):
    for e in exits:
        print('---', e.kind, show(e.val) if isinstance(e.val, tuple) else e.val, 'line', e.node.get('l') if e.node else None)
        print('  facts:', '; '.join(fact_str(f) for f in e.facts.items()), '' if e.st.disj == NODISJ else ' AND (' + dnf_str(e.st.disj) + ')')
        for l in show_events(e.events):
            print('   ', l)
