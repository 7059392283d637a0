"""Behaviour summaries: the observable effects of a function, each with the exact condition under which it happens.

A summary is a set of guarded effects (calls out of the analysed code, final values of fields and globals, returned
values, thrown exceptions), independent of how the function is written: local variables, helper functions, the order of
independent statements, the shape of branches and the flavour of a loop do not appear in it.  Conditions are boolean
functions over canonical atoms; two conditions are compared as boolean functions (by truth table), not as text.
"""
import itertools

import hier
from facts import AnalysisBroken
from flow import pair_range, setlike, pair, numval, I, T, TRUE, FALSE, NULL, const, is_const, subterms, contains, base, last, show, dkey, reduce_gates, Interp, NODISJ, subst, Ev, Exit, tuple_events

MAXATOMS = 14

# ------------------------------------------------------------------------------------------------ canonical terms

COLL = {  # accessor / iterator family -> collection name
    'param': 'params', 'parameters': 'params', 'getParamDecl': 'params', 'getNumParams': 'params', 'params': 'params', 'param_size': 'params',
    'arg': 'args', 'arguments': 'args', 'getArg': 'args', 'getNumArgs': 'args', 'arg_size': 'args',
    'child': 'children', 'children': 'children',
    'body': 'body', 'decls': 'decls', 'decl': 'decls', 'method': 'methods', 'meth': 'methods', 'methods': 'methods', 'ivar': 'ivars', 'ivars': 'ivars',
    'field': 'fields', 'fields': 'fields', 'attr': 'attrs', 'attrs': 'attrs', 'base': 'bases', 'bases': 'bases', 'bases_': 'bases',
    'prop': 'properties', 'properties': 'properties', 'protocol': 'protocols', 'protocols': 'protocols',
    'redecls': 'redecls', 'ctor': 'ctors', 'ctors': 'ctors', 'getHandler': 'handlers', 'getNumHandlers': 'handlers',
    'getCatchStmt': 'catches', 'getNumCatchStmts': 'catches', 'catch_stmts': 'catches', 'visible_categories': 'categories', 'known_categories': 'known categories',
    'overridden_methods': 'overridden', 'ranges': 'ranges', 'specific_attr': 'specific_attrs', 'specific_attrs': 'specific_attrs',
    'init': 'inits', 'inits': 'inits', 'enumerator': 'enumerators', 'enumerators': 'enumerators', 'vbase': 'vbases', 'vbases': 'vbases',
    'capture': 'captures', 'captures': 'captures', 'instmeth': 'instance methods', 'instance_methods': 'instance methods',
    'classmeth': 'class methods', 'class_methods': 'class methods', 'propimpl': 'property impls', 'property_impls': 'property impls',
    'all_referenced_protocol': 'all protocols', 'all_referenced_protocols': 'all protocols', 'ivars_': 'ivars',
}


def coll_name(n):
    ln = last(n)
    return COLL.get(ln, ln) + (n[n.index('<'):] if ln.startswith('specific_') and '<' in n else '')


def never_null(x):
    """Elements of these collections are never null."""
    return x[0] == 'elem' and x[1][0] == 'coll' and x[1][1].split('<')[0] in ('specific_attrs', 'attrs', 'decls', 'methods', 'ivars', 'fields', 'protocols', 'categories')


IDENT_CALLS = {'getTypePtr', 'getTypePtrOrNull', 'operator->', 'operator*', 'data', 'c_str', 'str'}


def canon(t, env=None, memo=None):
    """Canonical form: no frame numbers, source positions, loop numbers or local names."""
    if memo is None:
        memo = {}
    return _c(I(t), memo)


def _c(t, memo):
    if not isinstance(t, tuple):
        return t
    t = I(t)
    r = memo.get(t.dg)
    if r is not None:
        return r
    r = I(_c1(t, memo))
    memo[t.dg] = r
    return r


MATCHERS = tuple('clang::ast_matchers::internal::' + x for x in ('Matcher', 'BindableMatcher', 'DynTypedMatcher'))
STARTS = {'body_begin': ('body_end', ('size', 'body_size'))}


def backwards(t):
    """(X, k) when t is the k-th statement from the end of X, met through its reverse iterators."""
    if t[0] == 'call' and last(base(t[1])) == 'body_rbegin' and len(t[2]) == 1:
        return t[2][0], 0
    if t[0] == 'call' and last(base(t[1])) == 'next' and len(t[2]) in (1, 2):
        r = backwards(t[2][0])
        n = 1 if len(t[2]) == 1 else t[2][1][1] if is_const(t[2][1]) else None
        return (r[0], r[1] + n) if r and isinstance(n, int) else None
    if t[0] == 'op' and t[1] == '+' and len(t) == 4 and is_const(t[3]) and isinstance(t[3][1], int):
        r = backwards(t[2])
        return (r[0], r[1] + t[3][1]) if r else None
    return None


def placed(b, i):
    """Element i counted from the position b, as a position."""
    end, sizes = STARTS[b[1]]
    for f in sizes:
        n = I(('call', f, b[2]))
        co, _ = terms_of(i)
        if co.get(n) == 1:
            return linear(('op', '+', I(('call', end, b[2])), I(linear(('op', '-', i, n)))))
    return linear(('op', '+', b, i))


def either(xs):
    """Alternatives of a pattern, in any order."""
    flat = []
    for x in xs:
        flat += list(x[2]) if x[0] == 'call' and x[1] == 'either' else [x]
    return ('call', 'either', tuple(sorted({I(x) for x in flat}, key=dkey)))


def pattern(t, c):
    """Patterns over the tree that say the same in different words."""
    args = t[2]
    n = last(t[1])
    if n.startswith('operator()') and args and args[0][0] in ('global', 'gvar', 'svar', 'var', 'fnref', 'ref') :
        n, args = last(str(args[0][-1] if args[0][0] != 'global' else args[0][1])), args[1:]
    if n == 'anyOf' and args:
        return either([c(x) for x in args])
    if n == 'hasAnyOperatorName' and args:
        return either([I(('call', 'hasOperatorName', (c(x),))) for x in args])
    if t[2] and args is not t[2] and n[:1].islower() and last(t[1]).startswith('operator()') and args:
        # all of them, in any order
        flat = []
        for x in args:
            x = c(x)
            flat += list(x[2][1:]) if x[0] == 'call' and x[2] and x[2][0] == ('global', 'clang::ast_matchers::allOf') else [x]
        return ('call', 'operator()', (t[2][0],) + tuple(sorted({I(x) for x in flat}, key=dkey)))
    if n == 'hasCondition' and len(args) == 1:
        x = c(args[0])
        if x[0] == 'call' and len(x[2]) == 2 and x[2][0] == ('global', 'clang::ast_matchers::expr'):
            x = x[2][1]
        if x[0] == 'call' and x[1] == 'either':
            return either([I(('call', 'hasCondition', (y,))) for y in x[2]])
        return ('call', 'hasCondition', (x,))
    return None


def _c1(t, memo):
    c = lambda x: _c(x, memo)
    k = t[0] if t else None
    if not isinstance(k, str):
        return tuple(c(x) for x in t)
    # a pattern by another of its types
    if k == 'obj' and len(t) == 4 and t[2] in MATCHERS and t[3] and all(x == NULL for x in t[3][1:]):
        return c(t[3][0])
    if k == 'new' and len(t) > 2 and t[1] in MATCHERS and t[2] and all(x == NULL for x in t[2][1:]):
        return c(t[2][0])
    if k == 'call' and isinstance(t[1], str) and 'ast_matchers' in t[1] or k == 'call' and t[1:2] and last(t[1]).startswith('operator()') and t[2] and 'ast_matchers' in str(t[2][0])[:80]:
        p = pattern(t, c)
        if p is not None:
            return p
    if k == 'call' and len(t[2]) == 1 and last(t[1]) in ('operator Matcher', 'operator BindableMatcher'):
        return c(t[2][0])
    if k == 'field' and len(t) == 3 and t[2] == 'second':
        x = c(t[1])
        if x[0] == 'call' and x[1] == 'find' and len(x[2]) == 2:
            return ('index', x[2][0], x[2][1])      # the value found under a key is the value at that key
        return (k, x, t[2])
    if k == 'call' or k == 'op':
        back = backwards(t)
        if back is not None:
            return linear(('op', '+', I(('call', 'body_end', (c(back[0]),))), const(-1 - back[1])))
    if k == 'index' and len(t) == 3:
        b, i = c(t[1]), c(t[2])
        if b[0] == 'call' and b[1] in STARTS and len(b[2]) == 1:
            return placed(b, i)
        return (k, b, i)
    if k == 'call' and last(base(t[1])) in ('next', 'prev') and len(t[2]) == 1 and t[2][0][0] in ('call', 'op'):
        a = c(t[2][0])
        if any(x[0] == 'call' and x[1] in ('body_begin', 'body_end') for x in terms_of(a)[0]):
            return linear(('op', '+', a, const(1 if last(base(t[1])) == 'next' else -1)))
    if k == 'const':
        if isinstance(t[1], float) and t[1] == int(t[1]):
            return ('const', int(t[1]))
        return t
    if k == 'obj':
        return ('obj', t[2], tuple(c(x) for x in t[3]))
    if k == 'new':
        if len(t) > 3 and t[3] != 'heap':
            return ('obj', t[1], tuple(c(x) for x in t[2]))
        return ('new', t[1], tuple(c(x) for x in t[2]))
    if k == 'uninit':
        return ('uninit', t[2])
    if k == 'unk':
        return ('unk',)
    if k == 'var':
        return ('local',)
    if k == 'lambda':
        return ('lambda',)
    if k == 'cast':
        if t[1] in ('getAs', 'castAs'):
            return ('cast', t[1], t[2], c(t[3]))
        return c(t[3])
    if k == 'addr' or k == 'deref':
        return c(t[1])
    if k == 'ptr2bool':
        x = c(t[1])
        return ('not', ('atom', 'null', x)) if x != NULL else FALSE
    if k == 'int2bool':
        return ('not', ('op', '==', *sorted((c(t[1]), const(0)), key=dkey)))
    if k == 'not':
        x = c(t[1])
        if x[0] == 'not':
            return x[1]
        return ('not', x)
    if k == 'elem':
        return ('elem', ccoll(t[1], memo))
    if k == 'indexof':
        return ('indexof', c(t[1]))
    if k == 'atom':
        if t[1] == 'none':
            return ('none', ccoll(t[3], memo), cdnf(t[4], memo))
        if t[1] in ('isa', 'isa?'):
            return ('atom', t[1], t[2], c(t[3]))
        if t[1] == 'null':
            x = t[2]
            return ('atom', 'null', c(x))
        return ('atom', t[1]) + tuple(c(x) for x in t[2:])
    if k == 'phi':
        return carried(t, memo) if len(t) < 4 else ('acc', c(t[3]))
    if k == 'fold':
        _, lid, coll, init, phi, upd = t
        own = I(('own', fold_height(upd)))
        upd = subst(I(upd), {I(phi): own})
        items = []
        for ds, v in upd:
            for g, v2 in (v[1] if v is not None and v[0] == 'cases' else (((), v),)):
                items.append((cdnf(tuple(tuple(d) + tuple(g) for d in ds), memo), c(v2)))
        return additive('fold', ccoll(coll, memo), c(init), gated(decided(items)), own)
    if k == 'cases':
        r = gated((cdnf((g,), memo), c(v)) for g, v in t[1])
        return r[0][1] if len(r) == 1 else ('cases', r)
    if k == 'stop':
        return ('stop', ccoll(t[1], memo), cdnf(t[2], memo))
    if k == 'self':
        return t
    if k == 'pred':
        el = I(_c(t[2], memo))
        return ('pred', frozen(tuple(sorted({I((subst(a, {el: I(('self',))}), p)) for a, p in g}, key=dkey)) for g in cdnf(t[1], memo)))
    if k == 'findif':
        return ('findif', ccoll(t[1], memo), c(t[2]))
    if k == 'fnref':
        return ('fnref', t[2])
    if k == 'exc':
        return ('exc',)
    if k == 'global':
        return t
    if k == 'enum':
        return t
    if k == 'after':
        return ('after', c(t[1]), t[2][2])
    if k == 'outarg':
        return ('outarg', c(t[1]), t[2])
    if k == 'cat':
        parts = []
        for x in flat_cat(t):
            y = c(x)
            for z in flat_cat(y):
                if z == const(''):
                    continue
                if parts and is_const(parts[-1]) and is_const(z) and isinstance(parts[-1][1], str) and isinstance(z[1], str):
                    parts[-1] = const(parts[-1][1] + z[1])
                else:
                    parts.append(z)
        if not parts:
            return const('')
        if len(parts) == 1:
            return parts[0]
        return ('cat*', tuple(parts))
    if k == 'call':
        if base(t[1]) == 'std::distance' and len(t[2]) == 2 and pair_range(*t[2]) is not None:
            return number_of(ccoll(pair_range(*t[2]), memo))
        n = base(t[1]) if not t[1].endswith('>') or '<' not in t[1] else t[1]
        args = tuple(c(x) for x in t[2])
        if last(n) in IDENT_CALLS and len(args) == 1:
            return args[0]
        if last(n) == 'size' and len(args) == 1 and n.startswith(('std::basic_string', 'std::__cxx11::basic_string', 'llvm::StringRef')):
            n = n[:-4] + 'length'
        ln = last(n) if '<' not in n else last(n[:n.index('<')]) + n[n.index('<'):].replace('clang::', '')
        if ln in ('find', 'rfind', 'find_first_of', 'find_last_of', 'substr') and len(args) in (2, 3) and 'std::find' not in n:
            one = len(args) > 1 and is_const(args[1]) and (isinstance(args[1][1], int) or (isinstance(args[1][1], str) and len(args[1][1]) == 1))
            ln = {'find_first_of': 'find', 'find_last_of': 'rfind'}.get(ln, ln) if one else ln
            if len(args) == 3:
                z = args[2]
                whole = lambda v: (v[0] == 'global' and str(v[1]).endswith('npos')) or v in (const(-1), const(2 ** 64 - 1))
                if ln in ('find', 'find_first_of') and z == const(0) or ln in ('rfind', 'find_last_of', 'substr') and whole(z):
                    args = args[:2]
                elif ln == 'substr' and z in (('call', 'length', (args[0],)), ('call', 'size', (args[0],))):
                    args = args[:2]     # as many as there are, or fewer
                elif ln == 'substr' and I(z) in (I(linear(('op', '-', ('call', f, (args[0],)), args[1]))) for f in ('size', 'length')):
                    args = args[:2]
        if ln in ('take_front', 'drop_front') and len(args) == 2:
            ln, args = 'substr', (args[0], const(0), args[1]) if ln == 'take_front' else args
        if ln == 'substr' and len(args) == 3 and args[1] == const(0) and args[2][0] == 'call' and args[2][1] == 'find' and args[2][2][:1] == args[:1] and len(args[2][2]) == 2:
            return ('field', I(('call', 'split', args[2][2])), 'first')
        if ln == 'body_empty' and len(args) == 1:
            return ('op', '==', I(('call', 'size', args)), const(0))
        if ln == 'body_front' and len(args) == 1:
            ln = 'body_begin'
        if ln == 'body_back' and len(args) == 1:
            return linear(('op', '+', I(('call', 'body_end', args)), const(-1)))
        if ln in ('starts_with', 'startswith', 'starts_with_insensitive') and len(args) == 2 and 'insens' not in ln:
            ln = 'starts_with'
        return ('call', ln, args)
    if k == 'op' and len(t) == 4 and t[1] in ('+', '-') and not any(is_const(x) and isinstance(x[1], str) for x in t[2:]):
        return linear(('op', t[1], c(t[2]), c(t[3])))
    if k == 'op' and len(t) == 4 and t[1] in ('+', '*', '==', '&', '|'):
        a, b = c(t[2]), c(t[3])
        a, b = sorted((a, b), key=lambda x: (is_const(x), dkey(x)))
        if t[1] == '==':
            r = prefix_test(a, b)
            if r is not None:
                return r
        return ('op', t[1], a, b)
    if k == 'op' and t[1] == '<' and len(t) == 4:
        # comparisons of whole numbers with a constant have one form: x < c, or x == 0 for counts
        a, b = c(t[2]), c(t[3])
        whole = lambda x: is_const(x) and isinstance(x[1], int) and not isinstance(x[1], bool)
        if whole(a) and not is_const(b):
            if counts(b) and a[1] == 0:
                return ('not', I(('op', '==', b, const(0))))
            return ('not', I(('op', '<', b, const(a[1] + 1)))) if not (counts(b) and a[1] < 0) else TRUE
        if whole(b) and counts(a) and b[1] <= 1:
            return ('op', '==', a, const(0)) if b[1] == 1 else FALSE
        return ('op', '<', a, b)
    return (k,) + tuple(c(x) if isinstance(x, tuple) else x for x in t[1:])


def prefix_test(a, b):
    """The ways to ask whether a string starts with another one."""
    def length_of(n, s):
        return is_const(s) and isinstance(s[1], str) and n == const(len(s[1].encode())) or n in (('call', f, (s,)) for f in ('length', 'size', 'strlen'))
    if b == const(0) and a[0] == 'call':
        f, x = a[1], a[2]
        if f == 'compare' and len(x) == 4 and x[1] == const(0) and length_of(x[2], x[3]):
            return ('call', 'starts_with', (x[0], x[3]))
        if f == 'strncmp' and len(x) == 3 and length_of(x[2], x[1]):
            return ('call', 'starts_with', (x[0], x[1]))
        if f == 'rfind' and len(x) == 3 and x[2] == const(0) or f == 'find' and len(x) == 2 and not x[0][0] == 'coll':
            s = x[1]
            if not (is_const(s) and not isinstance(s[1], str)):
                return ('call', 'starts_with', (x[0], s))
    for x, y in ((a, b), (b, a)):
        if x[0] == 'call' and x[1] == 'substr' and len(x[2]) == 3 and x[2][1] == const(0) and length_of(x[2][2], y):
            return ('call', 'starts_with', (x[2][0], y))
    return None


def counts(t):
    """A number that is never negative."""
    if t[0] in ('fold', 'sofar') and len(t) == 4:
        return nonneg(t[2]) and all(nonneg(v) for _, v in t[3])
    return t[0] == 'indexof' or (t[0] == 'call' and t[1].split('(')[0] in COUNTING) or (t[0] == 'call' and t[1] in ('size', 'length', 'count', 'getNumArgs', 'getNumParams', 'param_size', 'getNumSelectorArgs') and len(t[2]) == 1)


# functions of the tree that return counts (their own contracts show it)
COUNTING = ('depth',)


def nonneg(t):
    if is_const(t):
        return isinstance(t[1], int) and t[1] >= 0
    return t[0] == 'own' or counts(t)


def fold_height(t):
    return max([fold_height(x) for x in t if isinstance(x, tuple)], default=0) + (1 if t and t[0] == 'fold' else 0) if isinstance(t, tuple) else 0


def carried(phi, memo):
    """The value a loop-carried variable has at the start of an iteration."""
    r = memo.get('phis', {}).get(phi)
    busy = memo.get('busy', frozenset())
    if r is None or phi in busy:
        return ('acc',)
    memo = {'phis': memo['phis'], 'busy': busy | {phi}}
    lid, coll, init, upd = r
    if not upd or all(v == phi for _, v in upd):
        return _c(I(init), memo)
    first = I(('op', '==', ('indexof', ('elem', ccoll(coll, memo))), const(0)))
    hit, vals = [], set()
    for ds, v in upd:
        for g, x in (v[1] if v[0] == 'cases' else (((), v),)):
            if x != phi:
                vals.add(x)
                hit += [tuple(f for f in tuple(d) + tuple(g) if f[0] != phi) for d in ds]
    if len(vals) == 1 and is_const(next(iter(vals))) and not contains(I(tuple(tuple(x) for x in hit)), lambda z: z == phi):
        # set once and for all: has an earlier element done it?
        cs = cdnf(tuple(tuple(x) for x in hit), memo)
        seen = I(('not', first)) if ((),) == tuple(cs) else I(('seen', ccoll(coll, memo), cs))
        neg = seen[1] if seen[0] == 'not' else I(('not', seen))
        a, z = _c(I(init), memo), _c(I(next(iter(vals))), memo)
        if z == TRUE and a == FALSE:
            return seen
        if z == FALSE and a == TRUE:
            return neg
        return ('cases', gated([(cdnf((((seen, True),),), memo), z), (cdnf((((seen, False),),), memo), a)]))
    own = I(('own', fold_height(upd)))
    items = []
    for ds, v in subst(I(upd), {phi: own}):
        for g, v2 in (v[1] if v is not None and v[0] == 'cases' else (((), v),)):
            items.append((cdnf(tuple(tuple(d) + tuple(g) for d in ds), memo), _c(v2, memo)))
    return additive('sofar', ccoll(coll, memo), _c(I(init), memo), gated(decided(items)), own)


def decided(items):
    """Truth values as cases of true and false."""
    out = []
    for ds, v in items:
        if v is not None and (v[0] in ('atom', 'none', 'not', 'seen') or v[0] == 'op' and v[1] in ('==', '<') and len(v) == 4):
            n = len(out)
            for val in (True, False):
                x = [list(g) + list(h) for g in ds for h in lit_dnf(v, val)]
                x = [y for g in x for y in [conjoin([], g)] if y is not None]
                if x:
                    out.append((blake(x), const(val)))
        else:
            out.append((ds, v))
    return out


def equals_under(ds, v, k):
    """The conditions say that v is k."""
    same = (I(('op', '==', v, k)), I(('op', '==', k, v)))
    return bool(ds) and all(any(p and a in same for a, p in g) for g in ds)


def additive(kind, coll, init, items, own):
    """A running sum: what it starts from is added to the sum that starts from nothing."""
    if items and all(v in (init, own) or fixed(init) and equals_under(ds, v, init) for ds, v in items):
        return init
    if kind == 'fold' and init == const(0) and len(items) == 1 and items[0][1] == ('op', '+', own, const(1)) and tuple(tuple(d) for d in items[0][0]) == ((),):
        return number_of(coll)
    if init == const(0) or init[0] in ('cat', 'cat*') or (is_const(init) and not (isinstance(init[1], int) and not isinstance(init[1], bool))):
        return (kind, coll, init, items)
    for ds, v in items:
        co, k = terms_of(v)
        if co.get(own) != 1 or contains(I((ds,) + tuple(x for x in co if x != own)), lambda z: z == own):
            return (kind, coll, init, items)
    return linear(('op', '+', init, I((kind, coll, const(0), items))))


def number_of(coll):
    """The number of elements of a collection."""
    if coll[0] == 'coll' and coll[1] == 'body':
        return ('call', 'size', (coll[2],))
    return ('call', 'size', (coll,))


def terms_of(t, co=None, sign=1):
    """An integer sum as coefficients of its terms and a constant."""
    top = co is None
    if top:
        co, k = {}, 0
    k = 0
    if is_const(t) and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        k = sign * t[1]
    elif t[0] == 'op' and len(t) == 4 and t[1] in ('+', '-'):
        k = terms_of(t[2], co, sign) + terms_of(t[3], co, sign if t[1] == '+' else -sign)
    elif t[0] == 'op' and len(t) == 4 and t[1] == '*' and is_const(t[3]) and isinstance(t[3][1], int) and not isinstance(t[3][1], bool) and t[3][1] != 0:
        k = terms_of(t[2], co, sign * t[3][1])
    else:
        t = I(t)
        co[t] = co.get(t, 0) + sign
    return (co, k) if top else k


def linear(t):
    co, k = terms_of(t)
    pos, neg = [], []
    for x, n in sorted(co.items(), key=lambda y: dkey(y[0])):
        if n:
            y = x if abs(n) == 1 else I(('op', '*', x, const(abs(n))))
            (pos if n > 0 else neg).append(y)
    def total(xs):
        r = xs[0]
        for x in xs[1:]:
            r = I(('op', '+', r, x))
        return r
    if not pos and not neg:
        return const(k)
    if not pos:
        return ('op', '-', const(k), total(neg))
    r = total(pos)
    if neg:
        r = I(('op', '-', r, total(neg)))
    return ('op', '+', r, const(k)) if k else r


_rl = {}


def relinear(t):
    """Sums brought back to normal form after a part was replaced."""
    if not isinstance(t, tuple):
        return t
    t = I(t)
    r = _rl.get(t.dg)
    if r is None:
        r = I(tuple(relinear(x) for x in t))
        if r and r[0] == 'op' and len(r) == 4 and r[1] in ('+', '-') and not any(is_const(x) and isinstance(x[1], str) for x in r[2:]):
            r = I(linear(r))
        elif r and r[0] == 'cat*' and len(r) == 2:
            r = joined(r)
        _rl[t.dg] = r
        if len(_rl) > 200000:
            _rl.clear()
    return r


def joined(t):
    """A concatenation with neighbouring literals merged."""
    parts = []
    for x in t[1]:
        for y in (x[1] if x[0] == 'cat*' else (x,)):
            if is_const(y) and isinstance(y[1], str) and parts and is_const(parts[-1]) and isinstance(parts[-1][1], str):
                parts[-1] = const(parts[-1][1] + y[1])
            elif y != const(''):
                parts.append(y)
    return I(('cat*', tuple(parts))) if len(parts) > 1 else parts[0] if parts else const('')


def less(a, b):
    """The literal for a < b."""
    whole = lambda x: is_const(x) and isinstance(x[1], int) and not isinstance(x[1], bool)
    if whole(a) and not is_const(b):
        if counts(b) and a[1] == 0:
            return I(('op', '==', b, const(0))), False
        return I(('op', '<', b, const(a[1] + 1))), False
    if whole(b) and counts(a) and b[1] == 1:
        return I(('op', '==', a, const(0))), True
    return I(('op', '<', a, b)), True


def summands(t):
    """The terms of a sum, in no particular order."""
    if t[0] == 'op' and t[1] == '+' and len(t) == 4:
        return sorted(summands(t[2]) + summands(t[3]))
    return [I(relinear(t)).dg]


def at_limit(items):
    """Where one alternative is a constant and another a value compared with it, the constant takes the case that both
    are equal: `x < C ? x : C` and `x <= C ? x : C` are one form.  items: [conjunctions, term] lists, changed in place."""
    value = lambda t: t[-1] if isinstance(t[0], tuple) else t        # effects come with the place they set
    for ci, c in items:
        c = value(c)
        if not is_const(c) or type(c[1]) is not int:
            continue
        for it in items:
            t = value(it[1])
            if is_const(t):
                continue
            bounds = {a[2] for d in ci + it[0] for a, p in d if a[0] == 'op' and a[1] == '<' and len(a) == 4 and is_const(a[3]) and a[3][1] in (c[1], c[1] + 1)}
            for x in sorted(bounds, key=dkey):
                if summands(x) != summands(t):
                    continue
                lt, le = less(x, c), less(x, const(c[1] + 1))
                if lt[0][0] == 'const' or le[0][0] == 'const':
                    continue
                f = lambda l, p: (l[0], l[1] == p)
                eq = [conjoin(list(d), [f(lt, False), f(le, True)]) for d in it[0]]
                if not any(eq):
                    continue
                it[0][:] = blake([d for d in ([conjoin(list(d), [f(lt, True)]) for d in it[0]] + [conjoin(list(d), [f(le, False)]) for d in it[0]]) if d is not None])
                ci[:] = blake(list(ci) + [d for d in eq if d is not None])


def extremes(items):
    """Where two alternatives agree when x equals y, it does not matter which of them takes the equality: one form for
    'the larger of two' and its kin.  items: [conjunctions, term] lists, changed in place."""
    if len(items) < 2 or len(items) > 12:
        return
    at_limit(items)
    weak, touched = {}, set()
    todo = set()
    for ds, t in items:
        for d in ds:
            for a, p in d:
                if a[0] == 'op' and a[1] == '<' and len(a) == 4:
                    x, y = a[2], a[3]
                    todo.add((I(x), I(y)))
                    if is_const(y) and isinstance(y[1], int):
                        todo.add((const(y[1] - 1), I(x)))
    for x, y in sorted(todo, key=lambda q: (dkey(q[0]), dkey(q[1]))):
        if is_const(x) and is_const(y):
            continue
        lt, gt = less(x, y), less(y, x)
        m = {I(y): I(x)} if is_const(x) or not is_const(y) else {I(x): I(y)}
        if not is_const(x) and not is_const(y) and dkey(x) < dkey(y):
            continue        # already the form to keep
        if is_const(y):
            continue        # a constant stays on the left
        for i in range(len(items)):
            for j in range(len(items)):
                if i == j:
                    continue
                lo, hi = items[i], items[j]      # hi applies when x < y, lo otherwise
                if relinear(subst(I(lo[1]), m)) != relinear(subst(I(hi[1]), m)):
                    continue
                for n, d in enumerate(hi[0]):
                    f = frozenset(d)
                    if lt not in f:
                        continue
                    other = f - {lt} | {(lt[0], not lt[1])}
                    for q, e in enumerate(lo[0]):
                        if frozenset(e) == other:
                            hi[0][n] = tuple(f - {lt} | {(gt[0], not gt[1])})
                            lo[0][q] = tuple(f - {lt} | {gt})
                            weak[lt] = (gt[0], not gt[1])
                            touched |= {i, j}
                            break
    for i in touched:
        # conjunctions that follow from the relaxed ones
        ds = [frozenset(d) for d in items[i][0]]
        keep = []
        for d in ds:
            w = frozenset(weak.get(f, f) for f in d)
            if w != d and any(frozenset(o) <= w for o in blake([list(o) for o in ds if not (set(o) & weak.keys())])):
                continue
            keep.append(tuple(d))
        items[i][0][:] = keep


def flat_cat(t):
    if t[0] == 'cat':
        yield from flat_cat(t[1])
        yield from flat_cat(t[2])
    elif t[0] == 'cat*':
        yield from t[1]
    else:
        yield t


def gated(items):
    """Guarded alternatives with impossible guards dropped and equal values joined under one guard."""
    by = {}
    for ds, v in items:
        if ds:
            by.setdefault(I(v), []).extend(ds)
    if len(by) > 1:
        its = [[list(blake(ds)), v] for v, ds in sorted(by.items(), key=lambda q: dkey(q[0]))]
        extremes(its)
        by = {v: ds for ds, v in its}
    return frozen((frozen(tuple(sorted({I((a, p)) for a, p in g}, key=dkey)) for g in blake(ds)), v) for v, ds in by.items())


def frozen(it):
    return tuple(sorted({I(x) for x in it}, key=dkey))


def ccoll(t, memo):
    if t is None:
        return ('unk',)
    if t[0] in ('counted', 'range') and t[1][0] == 'call':
        t = t[1]
    if t[0] == 'call' and len(t[2]) == 1:
        return I(('coll', coll_name(t[1]), _c(t[2][0], memo)))
    x = _c(t, memo)
    return x


def cdnf(ds, memo):
    out = []
    for d in ds:
        out += expand([(_c(a, memo), p) for a, p in d])
    return frozen(tuple(sorted({I((a, p)) for a, p in g}, key=dkey)) for g in blake(out)) if out else frozen([])


def conjoin(c, x):
    """c + x as one consistent conjunction (list of literals), or None."""
    d = dict(c)
    n = len(d)
    for a, p in x:
        a = I(a)
        if d.get(a, p) != p:
            return None
        d[a] = p
    if len(d) == n:
        return c
    if not consistent(d):
        return None
    return list(d.items())


def expand(lits):
    """One conjunction of canonical literals -> DNF with composite atoms expanded."""
    conjs = [[]]
    work = []
    for a, p in lits:
        while a[0] == 'not':
            a, p = a[1], not p
        if a[0] == 'const':
            if bool(a[1]) != p:
                return []
            continue
        if a[0] == 'past':
            n, x = 1, a[1]
            while x[0] == 'past':
                n, x = n + 1, x[1]
            alts = lit_dnf(x, p)
            for _ in range(n):
                alts = [[(I(('past', y)), q) for y, q in g] for g in alts]
            work.append(alts)
            continue
        work.append(atom_dnf(a, p))
    work.sort(key=len)
    for alts in work:
        conjs = [y for y in (conjoin(c, x) for c in conjs for x in alts) if y is not None]
        if len(conjs) > 24:
            conjs = [list(g) for g in reduce_gates(conjs)]
        if len(conjs) > 3000:
            raise AnalysisBroken('condition too large')
    return conjs


def simple(a):
    """Constant value of an atom, or None."""
    if a[0] == 'const':
        return bool(a[1])
    if a[0] == 'atom':
        if a[1] == 'null':
            if a[2] == NULL:
                return True
            if a[2][0] in ('new', 'obj', 'this') or never_null(a[2]):
                return False
        if a[1] in ('isa', 'isa?') and a[3] == NULL:
            return False
        if a[1] == 'empty' and is_const(a[2]) and isinstance(a[2][1], str):
            return not a[2][1]
    if a[0] == 'op' and len(a) == 4:
        if is_const(a[2]) and is_const(a[3]):
            if a[1] == '==':
                return a[2][1] == a[3][1]
            try:
                if a[1] == '<':
                    return a[2][1] < a[3][1]
            except TypeError:
                return None
        if a[1] in ('==', '<') and numval(a[2]) is not None and numval(a[3]) is not None:
            return numval(a[2]) == numval(a[3]) if a[1] == '==' else numval(a[2]) < numval(a[3])
        if a[1] == '==' and a[2] == a[3]:
            return True
        if a[1] == '==' and a[2][0] == 'enum' and a[3][0] == 'enum' and len(a[2]) > 2 and len(a[3]) > 2:
            return a[2][2] == a[3][2]
    return None


def uncase(a, p):
    """A literal with a gated value somewhere inside: one alternative per case."""
    todo, out = [([], a)], []
    while todo:
        c, x = todo.pop()
        f = find_case(x)
        if f is None:
            v = simple(x)
            if v is None:
                y = conjoin(c, [(x, p)])
                if y is not None:
                    out.append(y)
            elif v == p:
                out.append(c)
            continue
        for ds, v in f[1]:
            y = I(subst(x, {f: v}))
            for d in ds:
                c2 = conjoin(c, [(g[0], g[1]) for g in d])
                if c2 is not None:
                    todo.append((c2, y))
        if len(todo) + len(out) > 4000:
            raise AnalysisBroken('value with too many cases')
    return out


def atom_dnf(a, p):
    a = I(a)
    if a[0] == 'atom' and a[1] == 'isa?':
        x = a[3]
        if find_case(x) is not None:
            if p:
                out = []
                for c in atom_dnf(I(('atom', 'null', x)), False):
                    out += [z for z in (conjoin(c, y) for y in atom_dnf(I(('atom', 'isa', a[2], x)), True)) if z is not None]
                return out
            return atom_dnf(I(('atom', 'null', x)), True) + atom_dnf(I(('atom', 'isa', a[2], x)), False)
        if p:
            return [[(I(('atom', 'null', x)), False), (I(('atom', 'isa', a[2], x)), True)]]
        return [[(I(('atom', 'null', x)), True)], [(I(('atom', 'isa', a[2], x)), False)]]
    if a[0] == 'none':
        ds = a[2]
        if any(not d for d in ds):
            return [[(I(('atom', 'empty', a[1])), p)]]
        if not ds:
            return [[]] if p else []
        return none_dnf(a[1], ds, p)
    if a[0] == 'call' and a[1] == 'starts_with' and not is_const(a[2][1]):
        # long enough, and the same characters
        x, y = a[2]
        short = I(('op', '<', ('call', 'length', (x,)), ('call', 'length', (y,))))
        same = I(('call', 'equal', (('call', 'begin', (y,)), ('call', 'end', (y,)), ('call', 'begin', (x,)))))
        return [[(short, False), (same, True)]] if p else [[(short, True)], [(same, False)]]
    if a[0] == 'op' and a[1] == '&&':
        A, B = lit_dnf(a[2], True), lit_dnf(a[3], True)
        if p:
            return [z for z in (conjoin(x, y) for x in A for y in B) if z is not None]
        return lit_dnf(a[2], False) + lit_dnf(a[3], False)
    if a[0] == 'op' and a[1] == '||':
        if p:
            return lit_dnf(a[2], True) + lit_dnf(a[3], True)
        return [z for z in (conjoin(x, y) for x in lit_dnf(a[2], False) for y in lit_dnf(a[3], False)) if z is not None]
    if a[0] == 'cases':
        out = []
        for ds, v in a[1]:
            for y in lit_dnf(v, p):
                for d in ds:
                    z = conjoin([(f[0], f[1]) for f in d], y)
                    if z is not None:
                        out.append(z)
        return out
    v = simple(a)
    if v is not None:
        return [[]] if v == p else []
    if find_case(a) is not None:
        out = []
        for c in uncase(a, p):
            ls = [[]]
            for x, q in c:
                if find_case(x) is not None or x[0] == 'none' or (x[0] == 'op' and x[1] in ('&&', '||')) or (x[0] == 'atom' and x[1] == 'isa?'):
                    ls = [z for z in (conjoin(l, y) for l in ls for y in atom_dnf(x, q)) if z is not None]
                else:
                    ls = [z for z in (conjoin(l, [(x, q)]) for l in ls) if z is not None]
            out += ls
        return out
    return [[(a, p)]]


def varies(a, coll):
    el = I(('elem', coll))
    return contains(a, lambda z: z == el or z[0] in ('acc', 'indexof', 'unk', 'sofar', 'seen'))


def member_of(coll, es):
    """The quantifier only looks for an element equal to a given value."""
    if len(es) != 1 or len(es[0]) != 1 or coll[0] in ('range', 'body'):
        return None
    a, p = es[0][0]
    if not p or a[0] != 'op' or a[1] != '==':
        return None
    el = I(('elem', coll))
    for x, y in ((a[2], a[3]), (a[3], a[2])):
        if x == el and not varies(y, coll) and y != NULL:
            return I(('atom', 'contains', coll, y))
    return None


def none_dnf(coll, ds, p):
    """Literals that do not depend on the element move out of the quantifier."""
    by = {}
    if 1 < len(ds) <= 12:
        # what follows from the rest says nothing more
        keep = sorted([tuple(d) for d in ds], key=lambda d: (-len(d), dkey(I(d))))
        for d in list(keep):
            rest = [x for x in keep if x is not d]
            if rest and any(x for x in d) and equivalent([list(x) for x in rest], [list(x) for x in keep]) is True:
                keep = rest
        ds = keep
    for d in ds:
        R = frozenset((I(a), q) for a, q in d if not varies(a, coll))
        by.setdefault(R, []).append([(a, q) for a, q in d if varies(a, coll)])
    parts = []
    for R, es in by.items():
        es = blake(es)
        mem = member_of(coll, es)
        if mem is not None:
            parts.append((list(R), mem, False))
            continue
        at = I(('atom', 'empty', coll)) if any(not d for d in es) else I(('none', coll, frozen(tuple(sorted({I((x, q)) for x, q in d}, key=dkey)) for d in es)))
        parts.append((list(R), at, True))
    if p:
        out = [[]]
        for R, at, w in parts:
            out = [c + x for c in out for x in [[(a, not q)] for a, q in R] + [[(at, w)]]]
            if len(out) > 200:
                return [[(I(('none', coll, frozen(tuple(sorted({I((x, q)) for x, q in d}, key=dkey)) for d in ds))), p)]]
        return out
    return [list(R) + [(at, not w)] for R, at, w in parts]


def lit_dnf(t, p):
    while t[0] == 'not':
        t, p = t[1], not p
    if t[0] == 'const':
        return [[]] if bool(t[1]) == p else []
    return atom_dnf(t, p)


# ------------------------------------------------------------------------------------------------ boolean normal form

CAP = 48
_bl = {}


def blake(ds):
    """All prime implicants of a DNF (Blake canonical form) modulo the domain knowledge of `consistent`; falls back to
    plain absorption when there are too many terms."""
    terms = [frozenset((I(a), p) for a, p in g) for g in ds]
    key = frozenset(frozenset((a.dg, p) for a, p in t) for t in terms)
    r = _bl.get(key)
    if r is None:
        r = _bl[key] = _blake(terms)
    return r


def _blake(terms):
    def norm(t):
        d = {}
        for a, p in t:
            if d.get(a, p) != p:
                return None
            d[a] = p
        if not consistent(d):
            return None
        for a in sorted(d, key=lambda x: x.dg):
            if True:
                e = dict(d)
                e[a] = not d[a]
                if not consistent(e):
                    # the rest already implies this literal
                    rest = {k: v for k, v in d.items() if k != a}
                    d = rest
        return frozenset(d.items())

    def absorb(ts):
        ts = sorted(set(ts), key=len)
        keep = []
        for t in ts:
            if not any(k <= t for k in keep):
                keep.append(t)
        return keep
    ts = absorb([x for x in (norm(t) for t in terms) if x is not None])
    if any(not t for t in ts):
        return [()]
    if len(ts) <= CAP:
        work = list(ts)
        cur = set(ts)
        bad = False
        while work and not bad:
            t = work.pop(0)
            if t not in cur:
                continue
            for u in list(cur):
                opp = [a for a, p in t if (a, not p) in u]
                if len(opp) != 1:
                    continue
                a = opp[0]
                c = norm(frozenset(x for x in t | u if x[0] != a))
                if c is None or any(k <= c for k in cur):
                    continue
                if not c:
                    return [()]
                cur = {k for k in cur if not c <= k}
                cur.add(c)
                work.append(c)
                if len(cur) > CAP:
                    bad = True
                    break
                if t not in cur:
                    break
        if not bad:
            ts = list(cur)
        else:
            return [tuple(sorted(g, key=dkey)) for g in reduce_gates([tuple(t) for t in ts])]
    else:
        return [tuple(sorted(g, key=dkey)) for g in reduce_gates([tuple(t) for t in ts])]
    out = [tuple(sorted(t, key=lambda f: (f[0].dg, f[1]))) for t in ts]
    out.sort(key=lambda g: [(a.dg, p) for a, p in g])
    return out


# ------------------------------------------------------------------------------------------------ boolean comparison

_stops = {}


def stops_of(a):
    r = _stops.get(a.dg)
    if r is None:
        r = []
        for z in subterms(a):
            if z and z[0] == 'stop':
                el = I(('elem', z[1]))
                r.append([[(I(subst(x, {el: z})), p) for x, p in g] for g in z[2]])
        _stops[a.dg] = r
    return r


def clash(x, p, asg):
    if p and x[0] == 'atom' and x[1] == 'null':
        return any(w and b[0] == 'atom' and b[1] == 'isa' and b[3] == x[2] for b, w in asg.items())
    if p and x[0] == 'atom' and x[1] == 'isa':
        return asg.get(I(('atom', 'null', x[3]))) is True
    return False


def stops_ok(a, asg):
    """The element a walk stopped at satisfies one of the conditions the walk stops on."""
    for until in stops_of(a):
        if until and not any(all(asg.get(x, p) == p and not clash(x, p, asg) for x, p in g) for g in until):
            return False
    return True


def fixed(x):
    return is_const(x) or x[0] == 'enum'


def consistent(asg):
    """Domain knowledge relating atoms; asg: atom -> bool."""
    eqs = {}
    lows, highs, nots = {}, {}, {}
    isas = []
    same, differ = [], []
    for a, v in asg.items():
        if a[0] == 'op' and a[1] == '==':
            (same if v else differ).append((I(a[2]), I(a[3])))
        if a[0] == 'op' and a[1] == '==' and v:
            for x, y in ((a[2], a[3]), (a[3], a[2])):
                if is_const(y) or y[0] == 'enum':
                    k = (x.dg)
                    val = y[2] if y[0] == 'enum' else y[1]
                    if k in eqs and eqs[k] != val:
                        return False
                    eqs[k] = val
        if a[0] == 'op' and a[1] == '==' and not v and is_const(a[3]) and isinstance(a[3][1], int):
            nots.setdefault(a[2].dg, set()).add(a[3][1])
        if a[0] == 'op' and a[1] == '<' and is_const(a[2]) and isinstance(a[2][1], (int, float)):
            lows.setdefault(a[3].dg, []).append((a[2][1], v))
        if a[0] == 'op' and a[1] == '<' and is_const(a[3]) and isinstance(a[3][1], (int, float)):
            highs.setdefault(a[2].dg, []).append((a[3][1], v, a[2]))
        if a[0] == 'atom' and a[1] == 'isa':
            isas.append((a[3].dg, a[2], v))
        if a[0] == 'atom' and a[1] in ('isa', 'null'):
            # the statements of a body: the last one is there unless there are none
            x = a[3] if a[1] == 'isa' else a[2]
            if x[0] == 'op' and x[1] == '+' and x[2][0] == 'call' and x[2][1] == 'body_end' and is_const(x[3]):
                none = asg.get(I(('op', '==', I(('call', 'size', x[2][2])), const(0))))
                if none is True and v == (a[1] == 'isa'):
                    return False
                if none is False and v and a[1] == 'null' and x[3][1] == -1:
                    return False
        if not stops_ok(a, asg):
            return False
        if a[0] == 'atom' and a[1] == 'null' and v:
            for b, w in asg.items():
                if w and b[0] == 'atom' and b[1] == 'isa' and b[3] == a[2]:
                    return False
    nulls = [(I(a[2]), v) for a, v in asg.items() if a[0] == 'atom' and a[1] == 'null'] if same else []
    if same and (len(same) + len(differ) > 1 or nulls):
        rep = {}

        def find(x):
            while x in rep:
                x = rep[x]
            return x
        for x, y in same:
            a, b = find(x), find(y)
            if a is not b:
                if fixed(a) and fixed(b):
                    return False
                if fixed(a):
                    a, b = b, a
                rep[a] = b
        for x, y in differ:
            a, b = find(x), find(y)
            if a is b:
                return False
        if nulls:
            # equal pointers are both null or both not
            gone = {find(x) for x, v in nulls if v}
            if gone and any(not v and find(x) in gone for x, v in nulls) or any(v and a[0] == 'atom' and a[1] == 'isa' and find(I(a[3])) in gone for a, v in asg.items()):
                return False
    if len(isas) > 1:
        by = {}
        for x, c, v in isas:
            by.setdefault(x, []).append((c, v))
        for l in by.values():
            pos = [c for c, v in l if v]
            for i, c in enumerate(pos):
                for c2, v2 in l:
                    if c2 == c:
                        continue
                    r = hier.relation(c, c2)
                    if r == 'disjoint' and v2 or r == 'sub' and not v2:
                        return False
    for k, l in highs.items():
        hi = min([c for c, v, _ in l if v], default=None)
        lo = max([c for c, v, _ in l if not v] + ([0] if counts(l[0][2]) else []), default=None)
        if hi is not None and lo is not None:
            if lo >= hi:
                return False
            if isinstance(hi, int) and isinstance(lo, int) and hi - lo <= 4 and all(x in nots.get(k, ()) for x in range(lo, hi)):
                return False
        if k in eqs and isinstance(eqs[k], (int, float)):
            if any((eqs[k] < c) != v for c, v, _ in l):
                return False
    for k, l in lows.items():
        for c1, v1 in l:
            for c2, v2 in l:
                if v1 and not v2 and c1 >= c2:
                    return False
        if k in eqs and isinstance(eqs[k], (int, float)):
            if any((c < eqs[k]) != v for c, v in l):
                return False
    return True


def atoms_of(*dnfs):
    s = {}
    for d in dnfs:
        for g in d:
            for a, _ in g:
                s[I(a).dg] = I(a)
    return [s[k] for k in sorted(s)]


def ev_dnf(d, asg):
    return any(all(asg[I(a)] == p for a, p in g) for g in d)


def equivalent(d1, d2):
    """True / False / None (too many atoms to decide)."""
    if d1 == d2:
        return True
    at = atoms_of(d1, d2)
    if len(at) > MAXATOMS:
        r1 = {frozenset((I(a).dg, p) for a, p in g) for g in reduce_gates(d1)}
        r2 = {frozenset((I(a).dg, p) for a, p in g) for g in reduce_gates(d2)}
        if r1 == r2:
            return True
        return equivalent_split(d1, d2, at)
    for bits in itertools.product((False, True), repeat=len(at)):
        asg = dict(zip(at, bits))
        if ev_dnf(d1, asg) != ev_dnf(d2, asg) and consistent(asg):
            return False
    return True


def restrict(d, a, v):
    out = []
    for g in d:
        if any(I(x) == a and p != v for x, p in g):
            continue
        out.append(tuple(f for f in g if I(f[0]) != a))
    return out


def equivalent_split(d1, d2, at, budget=None):
    """Shannon expansion, for conditions over many atoms."""
    budget = budget or [20000]

    def go(x, y, asg):
        budget[0] -= 1
        if budget[0] < 0:
            raise OverflowError
        if any(not g for g in x) and any(not g for g in y):
            return True
        if not x and not y:
            return True
        if not consistent(asg):
            return True
        s = atoms_of(x, y)
        if not s:
            return bool(x) == bool(y)
        cnt = {}
        for g in list(x) + list(y):
            for a, _ in g:
                cnt[I(a)] = cnt.get(I(a), 0) + 1
        a = max(s, key=lambda z: cnt.get(z, 0))
        return all(go(restrict(x, a, v), restrict(y, a, v), dict(asg, **{}) if False else {**asg, a: v}) for v in (True, False))
    try:
        return go(list(d1), list(d2), {})
    except OverflowError:
        return None


def under(asg):
    """What an assignment of the conditions says about terms: a substitution."""
    rep = {}

    def find(x):
        while x in rep:
            x = rep[x]
        return x
    for a, v in asg.items():
        if v and a[0] == 'op' and a[1] == '==':
            x, y = find(I(a[2])), find(I(a[3]))
            if x is not y:
                if fixed(x) or (not fixed(y) and dkey(x) < dkey(y)):
                    x, y = y, x
                rep[x] = y
        elif v and a[0] == 'atom' and a[1] == 'null':
            rep.setdefault(I(a[2]), NULL)
    return {x: find(x) for x in rep}


def agree(d, t, others, budget=3000):
    """Wherever `d` holds, does one of `others` (condition, term) hold with a term that is equal there?  True/False/None."""
    left = [budget]
    eqs = {}

    def equal(x, asg):
        if x == t:
            return True
        m = under(asg)
        return bool(m) and I(relinear(subst(t, m))) == I(relinear(subst(x, m)))

    def go(d, os, asg):
        left[0] -= 1
        if left[0] < 0:
            raise OverflowError
        if not d or not consistent(asg):
            return True
        os = [(c, x) for c, x in os if c]
        if not os:
            # `d` may still be unsatisfiable
            if any(not g for g in d):
                return False
        if any(not g for g in d) and any(any(not g for g in c) and equal(x, asg) for c, x in os):
            return True
        at = atoms_of(d) or atoms_of(*[c for c, x in os])
        if not at:
            return False
        cnt = {}
        for g in d:
            for a, _ in g:
                cnt[I(a)] = cnt.get(I(a), 0) + 1
        a = max(at, key=lambda z: cnt.get(z, 0))
        return all(go(restrict(d, a, v), [(restrict(c, a, v), x) for c, x in os], {**asg, a: v}) for v in (True, False))
    try:
        return go([tuple(g) for g in d], [([tuple(g) for g in c], x) for c, x in others], {})
    except OverflowError:
        return None


def satisfiable(d):
    for g in d:
        asg = {}
        ok = True
        for a, p in g:
            if asg.get(I(a), p) != p:
                ok = False
                break
            asg[I(a)] = p
        if ok and consistent(asg):
            return True
    return False


# ------------------------------------------------------------------------------------------------ summaries

IGNORE_CALLS = {'llvm::outs', 'llvm::nulls', 'llvm::errs'}
STREAMS = ('operator<<',)


class Effect:
    __slots__ = ('kind', 'term', 'cond', 'loops', 'where', 'path', 'ev')

    def __init__(self, kind, term, cond, loops, where, path=0, ev=None):
        self.kind, self.term, self.cond, self.loops, self.where, self.path, self.ev = kind, term, cond, loops, where, path, ev

    def key(self):
        return (self.kind, I(self.term).dg, tuple((I(c).dg) for c, _ in self.loops))


class Summary:
    def __init__(self, fn):
        self.fn = fn
        self.effects = []
        self.incomplete = []
        self.used = set()


def root(t):
    while t and t[0] in ('field', 'index', 'deref', 'addr', 'elem', 'cast') and isinstance(t[1], tuple):
        t = t[1]
    return t


def is_debug(t):
    """Output to the process's own diagnostic stream."""
    def leaf(x):
        if x[0] == 'cases':
            return all(leaf(v) for _, v in x[1])
        if x[0] == 'call' and x[1] in IGNORE_CALLS:
            return True
        if x[0] == 'call' and x[1] == 'operator<<':
            return leaf(x[2][0])
        return False
    return leaf(t)


def join(q, items):
    q = list(q)
    for t in items:
        for x in flat_cat(t):
            if x == const(''):
                continue
            if is_const(x) and not isinstance(x[1], str):
                x = const(str(x[1]))
            if q and is_const(q[-1]) and is_const(x):
                q[-1] = const(q[-1][1] + x[1])
            else:
                q.append(x)
    return q


def isolated(o):
    """A local object of a repository class that holds no reference to anything outside."""
    if o[0] not in ('obj', 'new'):
        return False
    cls, args = (o[2], o[3]) if o[0] == 'obj' else (o[1], o[2])
    if cls.startswith(('std::', 'llvm::', 'clang::')):
        return False
    return not any(contains(I(a), lambda z: z[0] in ('this', 'addr', 'lambda', 'obj')) for a in args)


PUSH = ('push_back', 'emplace_back')


def outside_elem(t, X):
    """Is X mentioned other than through its elements?"""
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple):
            continue
        if x == X:
            return True
        if x and x[0] == 'elem' and len(x) > 1 and x[1] == X:
            continue
        st.extend(y for y in x if isinstance(y, tuple))
    return False


def changes(ev, X):
    """Could this event change X itself?"""
    k = ev[0]
    if k == 'alt':
        return any(changes(y, X) for _, es in ev[1] for y in es)
    if k == 'loop':
        return any(changes(y, X) for _, _, es in ev[3] for y in es)
    if k == 'inloop':
        return changes(ev[3], X) or any(changes(y, X) for y in ev[4])
    if k in ('call', 'construct'):
        args = ev[2]
        if k == 'call' and not ev[1].startswith('std::'):
            # a function that is given a range reads it
            args = tuple(a for a in args if not (a[0] == 'call' and last(a[1]) in ('begin', 'end', 'cbegin', 'cend') and a[2] == (X,)))
        return outside_elem(args, X)
    if k in ('store', 'assign'):
        return contains(I(ev[1]), lambda z: z == X) or ev[2] == X
    return any(isinstance(y, tuple) and outside_elem(y, X) for y in ev[1:])


def sequences(evs):
    yield evs
    for ev in evs:
        if ev[0] == 'alt':
            for _, es in ev[1]:
                yield from sequences(es)
        elif ev[0] == 'loop':
            for _, _, es in ev[3]:
                yield from sequences(es)
        elif ev[0] == 'inloop':
            for _, _, es in ev[3][3]:
                yield from sequences(es)
            yield from sequences(ev[4])


def local_vector(x):
    return x[0] == 'obj' and len(x) == 4 and x[2].startswith('std::vector')


def same_range(x, y):
    return x[0] == 'call' and y[0] == 'call' and last(x[1]) in ('begin', 'cbegin') and last(y[1]) in ('end', 'cend') and x[2] == y[2] and len(x[2]) == 1


def copied(evs):
    """(vector, what it is a copy of, the filling loop or None) for a local vector that only ever holds another sequence."""
    for seq in sequences(evs):
        for i, ev in enumerate(seq):
            if ev[0] == 'loop' and len(ev[3]) == 1 and ev[3][0][0] == 'next' and not any(ev[3][0][1]) and len(ev[3][0][2]) == 1:
                c = ev[3][0][2][0]
                if c[0] == 'call' and last(c[1]) in PUSH and len(c[2]) == 2 and local_vector(c[2][0]) and not c[2][0][3] \
                        and c[2][1] == ('elem', ev[2], ev[1]) and ev[2] is not None and ev[2][0] not in ('unk', 'chain', 'counted', 'range'):
                    X = c[2][0]
                    if any(contains(y, lambda z: z == X) for y in seq[:i]) or any(changes(y, X) for y in seq[i + 1:]):
                        continue
                    yield X, ev[2], ev, seq


def replace_events(evs, old, m):
    out = []
    for ev in evs:
        if ev is old:
            continue
        if ev[0] == 'alt':
            ev = Ev(('alt', tuple((subst(g, m), replace_events(es, old, m)) for g, es in ev[1])))
        elif ev[0] == 'loop':
            ev = Ev(('loop', ev[1], subst(ev[2], m), tuple((k, subst(fs, m), replace_events(es, old, m)) for k, fs, es in ev[3])) + tuple(ev[4:]))
        elif ev[0] == 'inloop':
            ev = Ev(('inloop', ev[1], subst(ev[2], m), replace_events((ev[3],), old, m)[0], replace_events(ev[4], old, m)))
        else:
            ev = subst(ev, m)
        out.append(ev)
    return tuple_events(out)


def walks_of(evs):
    """Local visitors and what they walk over."""
    w = {}
    for ev in evs:
        for x in subterms_all(ev):
            if x and x[0] == 'call' and len(x) > 2 and isinstance(x[1], str) and last(x[1].split('(')[0]).startswith('Traverse') and x[2] and (x[2][0][0] == 'obj' or x[2][0][0] == 'new' and x[2][0][-1] == 'val'):
                w.setdefault(I(x[2][0]), set()).add(I(x[2][1]) if len(x[2]) > 1 else ())
    return w


def found(e):
    """What a local visitor collects is named after the visitor, its member and what it walks over, wherever it is kept."""
    evs = tuple_events(e.st.events)
    walks = walks_of(evs)
    if not walks:
        return e
    def name(X, F):
        over = walks[X]
        return I(('found', X[2] if X[0] == 'obj' else X[1], F) + (tuple(over) if len(over) == 1 else ()))
    m = {}
    parts = list(evs) + [e.val or ()] + [y for k, v in e.st.env.items() if k[0] not in ('var', 'content') for y in (k, v)] + list(e.st.facts) + [a for d in e.st.disj for a, _ in d]
    for p in parts:
        for x in subterms_all(p):
            if x and x[0] == 'after' and len(x) == 3 and isinstance(x[2], tuple) and x[2][0] == 'field' and I(x[2][1]) in walks:
                m[I(x)] = name(I(x[2][1]), x[2][2])
            elif x and x[0] == 'field' and len(x) == 3 and isinstance(x[1], tuple) and I(x[1]) in walks:
                m[I(x)] = name(I(x[1]), x[2])
    for k, v in e.st.env.items():
        if k[0] == 'field' and I(k[1]) in walks and v[0] == 'addr':
            L = e.st.env.get(v[1]) if v[1][0] in ('var', 'svar') else v[1]
            if L is not None and L[0] == 'obj' and L[2].startswith('std::'):
                m[I(L)] = name(I(k[1]), k[2])
    if not m:
        return e
    mine = set(m.values())
    evs = replace_events(evs, None, m)
    # the containers of a visitor start empty
    kept = []
    touched = set()
    for ev in evs:
        if ev[0] == 'call' and last(ev[1]).split('(')[0] == 'clear' and ev[2] and ev[2][0] in mine and ev[2][0] not in touched:
            continue
        xs = {I(x) for x in subterms_all(ev) if x and x[0] in ('found', 'obj', 'new', 'field')}
        touched |= xs & mine
        touched |= {c for o, c in m.items() if o[0] == 'field' and o[1] in xs}
        kept.append(ev)
    evs = tuple_events(kept)
    e2 = Exit(e.kind, e.st.fork(), subst(I(e.val), m) if e.val is not None else None, e.node, e.fn)
    e2.st.events = list(evs)
    e2.st.facts = {subst(I(a), m): p for a, p in e.st.facts.items()}
    e2.st.disj = tuple(frozenset((subst(I(a), m), p) for a, p in d) for d in e.st.disj)
    e2.st.env = {(k if k[0] in ('field', 'var') else subst(I(k), m)): (v if k[0] == 'field' and I(k) in m else subst(I(v), m)) for k, v in e.st.env.items()}
    return e2


def tidy(e, phis):
    """Local copies of sequences are the sequences; a vector that starts with given elements is one they were put into."""
    evs = tuple_events(e.st.events)
    m = {}
    for x in {x for ev in evs for x in subterms(ev) if local_vector(x) and x[3]}:
        if len(x[3]) == 2 and same_range(x[3][0], x[3][1]) and not any(changes(ev, x) for ev in evs):
            m[I(x)] = x[3][0][2][0]
        elif len(x[3]) == 1 and x[3][0][0] == 'list' and any(changes(ev, x) for ev in evs):
            m[I(x)] = I(('obj', x[1], x[2], ()))
            evs = opened(evs, x)
    if m:
        evs = replace_events(evs, None, m)
    for _ in range(8):
        for X, C, loop, seq in copied(evs):
            total = sum(1 for ev in evs for z in subterms_all(ev) if z == X)
            here = sum(1 for ev in seq for z in subterms_all(ev) if z == X)
            out = [e.val or ()] + [y for k, v in e.st.env.items() if k[0] not in ('var', 'content') for y in (k, v)] + list(e.st.facts)
            if seq is not evs and (total != here or any(contains(I(y), lambda z: z == X) for y in out)):
                continue
            one = {I(X): I(C)}
            evs = replace_events(evs, loop, one)
            m = {k: subst(v, one) for k, v in m.items()}
            m.update(one)
            break
        else:
            break
    left = unread(e, evs)
    if not m and left is evs:
        return e
    evs = left
    e2 = Exit(e.kind, e.st.fork(), subst(I(e.val), m) if e.val is not None else None, e.node, e.fn)
    e2.st.events = list(evs)
    e2.st.facts = {subst(I(a), m): p for a, p in e.st.facts.items()}
    e2.st.disj = tuple(frozenset((subst(I(a), m), p) for a, p in d) for d in e.st.disj)
    e2.st.env = {subst(I(k), m): subst(I(v), m) for k, v in e.st.env.items()}
    return e2


FILL = ('push_back', 'emplace_back', 'insert', 'emplace', 'try_emplace', 'insert_or_assign', 'clear', 'push_front')


def fills(ev, X):
    """An event that only changes the contents of X."""
    me = lambda z: z == X
    if ev[0] == 'call':
        return last(ev[1]) in FILL and ev[2] and ev[2][0] == X and not any(contains(I(y), me) for y in ev[2][1:])
    if ev[0] == 'store':
        return ev[1][0] == 'index' and ev[1][1] == X and not contains(ev[1][2], me) and not contains(ev[2], me)
    return ev[0] == 'mapref' and ev[1] == X and not contains(ev[2], me)


def unread(e, evs):
    """Local containers that are filled and never looked at: filling them has no effect."""
    cand = {}
    for seq in sequences(evs):
        for ev in seq:
            x = ev[2][0] if ev[0] == 'call' and ev[2] else ev[1][1] if ev[0] == 'store' and ev[1][0] == 'index' else ev[1] if ev[0] == 'mapref' else None
            if x is not None and x[0] == 'obj' and len(x) == 4 and x[2].startswith('std::') and fills(ev, x):
                cand[x] = cand.get(x, 0) + 1
    if not cand:
        return evs
    uses = dict.fromkeys(cand, 0)
    own = dict.fromkeys(cand, 0)
    for ev in evs:
        for z in subterms_all(ev):
            if z and z[0] == 'obj' and len(z) == 4 and z in uses:
                uses[z] += 1
    for seq in sequences(evs):
        for ev in seq:
            for x in cand:
                if ev[0] in ('call', 'store', 'mapref') and fills(ev, x):
                    own[x] += sum(1 for z in subterms_all(ev) if z == x)
    rest = [e.val or ()] + [y for k, v in e.st.env.items() if k[0] not in ('var', 'content') and not (k[0] == 'index' and k[1] in cand) for y in (k, v)] + list(e.st.facts) + [a for d in e.st.disj for a, _ in d]
    dead = {x for x in cand if uses[x] == own[x] and not any(contains(I(y), lambda z: z == x) for y in rest)}
    return without(evs, dead) if dead else evs


def without(evs, dead):
    out = []
    for ev in evs:
        if ev[0] in ('call', 'store', 'mapref') and any(fills(ev, x) for x in dead):
            continue
        if ev[0] == 'alt':
            ev = Ev(('alt', tuple((g, without(es, dead)) for g, es in ev[1])))
        elif ev[0] == 'loop':
            ev = Ev(('loop', ev[1], ev[2], tuple((k, fs, without(es, dead)) for k, fs, es in ev[3])) + tuple(ev[4:]))
        elif ev[0] == 'inloop':
            ev = Ev(('inloop', ev[1], ev[2], without((ev[3],), dead)[0], without(ev[4], dead)))
        out.append(ev)
    return tuple_events(out)


def opened(evs, x):
    """The elements a vector starts with, put in before it is first used."""
    out, done = [], False
    for ev in evs:
        if not done and contains(ev, lambda z: z == x):
            done = True
            out += [Ev(('call', 'std::vector::push_back', (x, y), {})) for y in x[3][0][1]]
        out.append(ev)
    return tuple_events(out)


def subterms_all(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(y for y in x if isinstance(y, tuple))


class Summariser:
    def __init__(self, db, opaque=(), inline=None, ignore=()):
        self.db = db
        self.opaque = opaque
        self.inline = inline
        self.ignore = set(ignore)

    def run(self, fn, sink=None):
        it = Interp(self.db, opaque=self.opaque, inline=self.inline)
        args = [I(('param', '#%d' % i)) for i, _ in enumerate(fn['params'])]
        exits = it.run(fn, args=args)
        if sink is not None:
            sink.extend(exits)
        S = Summary(fn)
        S.incomplete = list(dict.fromkeys(it.incomplete))
        S.used = it.used
        self.memo = {'phis': it.phis}
        raw = []
        for no, e in enumerate(exits):
            e = tidy(found(e), it.phis)
            pre = self.dnf(e.cond)
            self.path = no
            self.streams = self.find_streams(e.events)
            for sm in sorted(self.streams, key=dkey):
                for c, seq in self.expand_seq(self.outtree(e.events, sm)):
                    c2 = self.conj(pre, c)
                    if c2 and seq:
                        raw.append(Effect('write', I((sm, ("cat*", tuple(seq)))), c2, (), (fn['file'], fn.get('l')), no))
            self.events(e.events, pre, (), raw, None)
            # final values
            for loc, v in e.st.env.items():
                if loc[0] in ('field', 'global', 'svar') and self.visible(loc) and v[0] != 'ref' and v != loc and not contains(loc, lambda z: z[0] == 'elem'):
                    self.add(raw, 'set', (canon(loc, memo=self.memo), v), pre, (), (fn['file'], fn.get('l')))
            if e.kind == 'throw':
                self.add(raw, 'throw', (I(('const', str(e.val))),), pre, (), e.node and (e.fn.get('file') or '', e.node.get('l') or 0))
            elif e.val is not None and e.val != ('unk', 'void'):
                v = e.val
                if v[0] == 'ref':
                    v = it.read(v[1], e.st)
                self.add(raw, 'return', (v,), pre, (), e.node and (e.fn.get('file') or '', e.node.get('l') or 0), boolean=strip(fn.get('rt', '')) == 'bool')
        S.effects = self.group(raw)
        return S

    # ---- text written to streams: the sequence matters

    def find_streams(self, evs):
        out = set()

        def walk(es):
            for ev in es:
                if ev[0] == 'alt':
                    for _, x in ev[1]:
                        walk(x)
                elif ev[0] == 'loop':
                    for _, _, x in ev[3]:
                        walk(x)
                elif ev[0] == 'inloop':
                    walk((ev[3],))
                    walk(ev[4])
                elif ev[0] == 'call' and ev[1] == 'operator<<' and not is_debug(ev[2][0]):
                    S = canon(ev[2][0], memo=self.memo)
                    if S[0] != 'const' and S[0] != 'cases':
                        out.add(I(S))
        walk(evs)
        return out

    def outtree(self, evs, S):
        seq = []
        for ev in evs:
            k = ev[0]
            if k == 'alt':
                br = [(self.dnf(g), self.outtree(es, S)) for g, es in ev[1]]
                if any(x for _, x in br):
                    seq.append(('alt', br))
            elif k in ('loop', 'inloop'):
                lev = ev if k == 'loop' else ev[3]
                coll = ccoll(lev[2], self.memo)
                stops = self.reduce([g for kind, fs, es in lev[3] if kind != 'next' for g in self.dnf(fs)])
                body = {}
                for kind, fs, es in lev[3]:
                    if kind == 'next':
                        d = self.dnf(fs)
                        for c, q in self.expand_seq(self.outtree(es, S)):
                            c2 = self.conj(d, c)
                            if c2 and q:
                                body.setdefault(I(tuple(q)), []).extend(c2)
                if body:
                    seq.append(I(('rep', coll, frozen((frozen(tuple(sorted({I((a, p)) for a, p in g}, key=dkey)) for g in self.reduce(c)), q) for q, c in body.items()), frozen(tuple(sorted({I((a, p)) for a, p in g}, key=dkey)) for g in stops))))
                if k == 'inloop':
                    seq += self.outtree(ev[4], S)
            elif k == 'call' and ev[1] == 'operator<<' and canon(ev[2][0], memo=self.memo) == S:
                x = ev[2][1]
                if x[0] == 'fnref':
                    x = const('\n') if last(x[2]) == 'endl' else const('')
                seq.append(canon(x, memo=self.memo))
            elif k == 'call' and ev[1] not in IGNORE_CALLS and any(canon(a, memo=self.memo) == S for a in ev[2]):
                ln = last(ev[1])
                if ln in ('flush', 'endl'):
                    continue
                seq.append(I(('call', ln, tuple(canon(a, memo=self.memo) for a in ev[2]))))
        return seq

    def expand_seq(self, seq, limit=512):
        """[(condition, flat item list)]"""
        paths = [([()], [])]
        for x in seq:
            if x[0] == 'alt':
                new = []
                subs = [(g, self.expand_seq(es)) for g, es in x[1]]
                for c, q in paths:
                    for g, alts in subs:
                        cg = self.conj(c, g)
                        if not cg:
                            continue
                        for c3, q3 in alts:
                            c4 = self.conj(cg, c3)
                            if c4:
                                new.append((c4, join(q, q3)))
                paths = self.join_paths(new)
            else:
                new = []
                for g, t in explode(x):
                    d = self.reduce([list(z) for z in expand_all(g)]) if g else [()]
                    for c, q in paths:
                        c2 = self.conj(c, d) if g else c
                        if c2:
                            new.append((c2, join(q, [t])))
                paths = self.join_paths(new)
            if len(paths) > limit:
                raise AnalysisBroken('too many output alternatives')
        return paths

    def join_paths(self, paths):
        by = {}
        for c, q in paths:
            by.setdefault(I(tuple(q)), []).extend(c)
        return [(self.reduce(c), list(q)) for q, c in by.items()]

    def visible(self, loc):
        r = root(loc)
        if contains(loc, lambda z: z[0] in ('new', 'obj') ) and not contains(loc, lambda z: z[0] in ('this', 'param', 'global', 'svar') and False):
            r2 = loc
            while r2[0] in ('field', 'index', 'deref', 'addr', 'cast'):
                r2 = r2[1] if r2[0] != 'cast' else r2[3]
            if r2[0] in ('new', 'obj'):
                return False
        return r[0] in ('this', 'param', 'global', 'svar', 'elem', 'call', 'field', 'optval')

    def dnf(self, cond):
        out = []
        for g in cond:
            out += expand([(canon(a, memo=self.memo), p) for a, p in g])
        return self.reduce(out)

    def reduce(self, ds):
        ds = strip_hits(ds)
        return [tuple(g) for g in blake(ds)]

    def present(self, ds):
        """Conditions that held earlier on the path, told apart from the present ones only where both matter."""
        if not any(a[0] in ('past', 'caught') or a[:2] == ('atom', 'caught') for g in ds for a, _ in g):
            return ds
        out = []
        for g in ds:
            g = [f for f in g if f[1] or f[0][:2] != ('atom', 'caught')]      # that nothing was caught goes without saying
            cur = [f for f in g if f[0][0] != 'past']
            for a, p in sorted((f for f in g if f[0][0] == 'past'), key=dkey):
                x = a[1]
                n = conjoin(cur, [(x, p)])
                cur = n if n is not None else cur + [(a, p)]
            out.append(tuple(cur))
        return self.reduce(out)

    def strictly(self, ds):
        if not any(a[0] == 'past' for g in ds for a, _ in g):
            return ds
        def now(a):
            while a[0] == 'past':
                a = a[1]
            return a
        return [tuple(c) for c in (conjoin([], [(now(a), p) for a, p in g]) for g in ds) if c is not None]

    def conj(self, a, b):
        if a == [()]:
            return b
        if b == [()]:
            return a
        out = []
        for x in a:
            for y in b:
                d = dict()
                ok = True
                for f, p in tuple(x) + tuple(y):
                    f = I(f)
                    if d.get(f, p) != p:
                        ok = False
                        break
                    d[f] = p
                if ok and consistent(d):
                    out.append(tuple(d.items()))
        return self.reduce(out)

    def events(self, evs, cond, loops, raw, until, held=None):
        held = dict(held or {})     # fields of objects stored so far on this path
        for ev in evs:
            k = ev[0]
            if k == 'store':
                if ev[1][0] == 'field':
                    held[ev[1]] = ev[2]
                    if contains(ev[1], lambda z: z[0] == 'elem'):
                        self.add(raw, 'set', (ev[1], ev[2]), cond, loops, self.where(ev))
                elif ev[1][0] in ('index', 'deref', 'elem'):
                    self.add(raw, 'assign', (ev[1], ev[2]), cond, loops, self.where(ev))
                continue
            if k == 'alt':
                for g, es in ev[1]:
                    if es:
                        c = self.conj(cond, self.dnf(g))
                        if c:
                            self.events(es, c, loops, raw, until, held)
            elif k == 'loop':
                coll = ccoll(ev[2], self.memo)
                stops = [g for kind, fs, es in ev[3] if kind != 'next' for g in self.dnf(fs)]
                for kind, fs, es in ev[3]:
                    if es and kind == 'next':
                        # conditions inside the loop are relative to one iteration
                        self.events(es, self.dnf(fs), loops + ((coll, (self.unempty(cond, coll), self.reduce(stops))),), raw, until, held)
            elif k == 'inloop':
                coll = ccoll(ev[2], self.memo)
                lev = ev[3]
                stops = [g for kind, fs, es in lev[3] if kind != 'next' for g in self.dnf(fs)]
                for kind, fs, es in lev[3]:
                    if kind == 'next' and es:
                        self.events(es, self.dnf(fs), loops + ((coll, (self.unempty(cond, coll), self.reduce(stops))),), raw, until, held)
                if ev[4]:
                    self.events(ev[4], cond, loops, raw, until, held)
            elif k == 'call':
                n = ev[1]
                if n in IGNORE_CALLS or n in self.ignore:
                    continue
                if n == 'operator<<' and is_debug(ev[2][0]):
                    continue
                if self.streams and any(canon(a, memo=self.memo) in self.streams for a in ev[2]):
                    continue        # part of the text written to that stream
                if ev[2] and isolated(ev[2][0]) and not last(n).startswith('Traverse'):
                    continue        # only changes a local helper object; what is read back from it shows in the values
                ln = {'push_back': 'put in', 'emplace_back': 'put in', 'insert': 'put in', 'emplace': 'put in'}.get(last(n), n if last(n) == n else last(n))
                args = ev[2]
                if ln == 'put in' and setlike(n):
                    ln = 'add to'
                if ln == 'put in' and len(args) == 4 and self.range_of(args[2], args[3]) is not None and self.is_end(args[1], args[0]):
                    # a whole sequence appended
                    X = self.range_of(args[2], args[3])
                    self.add(raw, 'call', (const(ln), args[0], ('elem', X, 'L')), [()], loops + ((ccoll(X, self.memo), (self.unempty(cond, ccoll(X, self.memo)), [])),), self.where(ev))
                    continue
                if ln in ('put in', 'add to') and len(args) == 3:
                    args = (args[0], args[2])
                if ln == 'add to' and len(args) == 2 and pair(args[1]) and 'map' in n.split('<')[0]:
                    mk = I(canon(('atom', 'contains', args[0], pair(args[1])[0]), memo=self.memo))
                    if cond and all(any(a in (mk, I(('past', mk))) and not p for a, p in g) for g in cond):
                        self.add(raw, 'assign', (('index', args[0], pair(args[1])[0]), pair(args[1])[1]), cond, loops, self.where(ev))
                        continue
                if ln == 'erase' and len(args) == 2 and setlike(n) and args[1][0] == 'call' and last(args[1][1]) == 'find' and args[1][2][0] == args[0]:
                    args = (args[0], args[1][2][1])
                if ln == 'erase' and len(args) == 2 and setlike(n):
                    ln = 'take from'
                if args and args[0][0] == 'call' and last(args[0][1]) == 'back_inserter':
                    args = (args[0][2][0],) + tuple(args[1:])
                extra = ()
                if args and ln not in ('put in', 'add to'):
                    pre = [(l, v) for l, v in held.items() if l[1] == args[0] and args[0][0] not in ('obj', 'new')]
                    if pre:
                        extra = (I(('with', tuple((const(l[2]), v) for l, v in sorted(pre, key=lambda x: x[0][2])))),)
                self.add(raw, 'call', (const(ln),) + tuple(args) + extra, cond, loops, self.where(ev))
            elif k in ('delete', 'noreturn', 'throw', 'mapref', 'caught'):
                if k in ('caught', 'throw'):
                    continue
                self.add(raw, k, tuple(x for x in ev[1:] if not isinstance(x, dict)), cond, loops, self.where(ev))
            elif k == 'assign':
                self.add(raw, 'assign', (ev[1], ev[2]), cond, loops, self.where(ev))

    def unempty(self, cond, coll):
        """Whether a collection is empty need not be asked before walking through it."""
        e = I(('atom', 'empty', coll[2] if coll[0] == 'coll' and False else coll))
        if not any(a == e and not p for g in cond for a, p in g):
            return cond
        return self.reduce([tuple((a, p) for a, p in g if not (I(a) == e and not p)) for g in cond])

    def range_of(self, x, y):
        if x[0] == 'call' and y[0] == 'call' and last(x[1]) in ('begin', 'cbegin') and last(y[1]) in ('end', 'cend') and x[2] == y[2]:
            return x[2][0]
        return None

    def is_end(self, x, c):
        return x[0] == 'call' and last(x[1]) in ('end', 'cend') and x[2] and x[2][0] == c

    def where(self, ev):
        d = ev[-1]
        return (d.get('f') or '', d.get('l') or 0) if isinstance(d, dict) else None

    def add(self, raw, kind, terms, cond, loops, where, boolean=False):
        """Explodes gated values so that every effect carries ungated terms."""
        ev = object()
        terms = [const(x) if isinstance(x, str) else x for x in terms]
        ct = I(tuple(canon(x, memo=self.memo) for x in terms))
        for g, t in explode(ct):
            if kind == 'set' and len(t) == 2 and t[0] == t[1]:
                continue
            c = cond if not g else self.conj(cond, self.reduce([list(x) for x in expand_all(g)]))
            if not c:
                continue
            if boolean and len(t) == 1 and not is_const(t[0]):
                for v in (True, False):
                    d = lit_dnf(t[0], v)
                    c2 = self.conj(c, self.reduce(d)) if d else []
                    if c2:
                        raw.append(Effect(kind, I((const(v),)), c2, loops, where, self.path, ev))
                continue
            if boolean and len(t) == 1 and not isinstance(t[0][1], bool):
                t = I((const(bool(t[0][1])),))
            raw.append(Effect(kind, t, c, loops, where, self.path, ev))

    def group(self, raw):
        groups = {}
        for e in raw:
            e.loops = tuple((c, (self.present(cc[0]), self.present(cc[1]))) for c, cc in e.loops)
            lk = tuple((c, tuple(sorted((tuple(sorted(((I(a).dg, p) for a, p in g))) for g in cc[0]))) if False else None) for c, cc in e.loops)
            k = e.key()
            groups.setdefault(k, []).append(e)
        alike, gone = {}, set()
        for e in raw:
            if e.kind in ('return', 'set'):
                alike.setdefault((e.kind, I(e.term[:-1]), tuple((c, dkey_dnf(x[0]), dkey_dnf(x[1])) for c, x in e.loops), e.path if e.kind == 'set' else 0), []).append(e)
        for es in alike.values():
            if not any(a[0] == 'op' and a[1] == '<' for e in es for g in e.cond for a, p in g):
                continue
            by = {}
            for e in es:
                by.setdefault(I(e.term), []).append(e)
            if 1 < len(by) <= 12:
                its = [[[d for e in xs for d in e.cond], t] for t, xs in by.items()]
                extremes(its)
                for xs, (ds, _) in zip(by.values(), its):
                    xs[0].cond = self.reduce(ds)
                    gone.update(id(x) for x in xs[1:])
        raw = [e for e in raw if id(e) not in gone]
        groups = {}
        for e in raw:
            groups.setdefault(e.key(), []).append(e)
        out = []
        for k, es in groups.items():
            merged = []
            for e in es:
                for m in merged:
                    # the same effect on several paths: one effect under the disjunction
                    if self.loops_eq(m.loops, e.loops):
                        m.cond = self.reduce(list(m.cond) + list(e.cond))
                        break
                else:
                    for m in merged:
                        if len(m.loops) and self.same_iter(m, e):
                            m.loops = tuple((c, (self.reduce(list(a[0]) + list(b[0])), a[1])) for (c, a), (_, b) in zip(m.loops, e.loops))
                            break
                    else:
                        merged.append(Effect(e.kind, e.term, list(e.cond), e.loops, e.where))
            out += merged
            if es[0].kind in ('call', 'write') and len(es) > 1:
                twice = []
                for i in range(len(es)):
                    for j in range(i):
                        if es[i].path == es[j].path and (es[i].ev is None or es[i].ev is not es[j].ev) and (not es[i].loops or self.loops_eq(es[i].loops, es[j].loops)) and len(twice) < 200:
                            twice += self.conj(self.strictly(es[i].cond), self.strictly(es[j].cond))
                if twice:
                    out.append(Effect(es[0].kind + ' again', es[0].term, self.reduce(twice), es[0].loops, es[-1].where))
        for e in out:
            e.cond = self.present(e.cond)
            self.without_noops(e)
            e.cond = [tuple((timeless(a) if a[0] != 'past' else a, p) for a, p in g) for g in e.cond]
            e.term = timeless(e.term)
            e.loops = tuple((timeless(c), tuple([tuple((timeless(a) if a[0] != 'past' else a, p) for a, p in g) for g in x] for x in cc)) for c, cc in e.loops)
        return self.regroup(out)

    def regroup(self, out):
        """What became the same effect in its final form."""
        by, res = {}, []
        for e in out:
            ms = by.setdefault(e.key(), [])
            for m in ms:
                if m.kind.endswith('again'):
                    continue
                if self.loops_eq(m.loops, e.loops):
                    m.cond = self.present(self.reduce(list(m.cond) + list(e.cond)))
                    break
                if m.loops and self.same_iter(m, e):
                    m.loops = tuple((c, (self.present(self.reduce(list(a[0]) + list(b[0]))), a[1])) for (c, a), (_, b) in zip(m.loops, e.loops))
                    break
            else:
                ms.append(e)
                res.append(e)
        return res

    def without_noops(self, e):
        """A guard that only skips a repetition without effect (adding what is there, removing what is not, setting what is
        set) says nothing."""
        drop = set()
        if e.kind == 'call' and e.term[0] in (const('add to'), const('take from')) and len(e.term) == 3:
            drop = {(I(('atom', 'contains', e.term[1], e.term[2])), e.term[0] == const('take from'))}
        elif e.kind == 'set' and len(e.term) == 2:
            l, v = e.term
            drop = {(I(('op', '==', *sorted((l, v), key=dkey))), False)}
            if v == NULL:
                drop = {(I(('atom', 'null', l)), False)}
            elif v in (TRUE, FALSE):
                drop = {(I(l), v == FALSE)}
        if drop and any((I(a), p) in drop for g in e.cond for a, p in g):
            e.cond = self.reduce([tuple((a, p) for a, p in g if (I(a), p) not in drop) for g in e.cond])

    def loops_eq(self, a, b):
        return len(a) == len(b) and all(dkey_dnf(x[1][0]) == dkey_dnf(y[1][0]) and dkey_dnf(x[1][1]) == dkey_dnf(y[1][1]) for x, y in zip(a, b))

    def same_iter(self, m, e):
        return dkey_dnf(m.cond) == dkey_dnf(e.cond) and all(dkey_dnf(x[1][1]) == dkey_dnf(y[1][1]) for x, y in zip(m.loops, e.loops))


_tl = {}


def timeless(t):
    """A term without the distinction between what held earlier and what holds now."""
    if not isinstance(t, tuple):
        return t
    t = I(t)
    r = _tl.get(t.dg)
    if r is None:
        if not contains(t, lambda z: z and z[0] == 'past'):
            r = t
        else:
            x = t
            while x and x[0] == 'past':
                x = x[1]
            r = I(tuple(timeless(y) for y in x))
        _tl[t.dg] = r
    return r


def dkey_dnf(d):
    return tuple(sorted(tuple(sorted((I(a).dg, p) for a, p in g)) for g in d))


def strip(t):
    return t.replace('const ', '').strip()


def strip_hits(ds):
    """A hit (`none` is false) together with the facts of the witnessing element: when the alternatives cover everything the
    quantifier talks about, the existence literal alone is the condition."""
    ds = [tuple((I(a), p) for a, p in g) for g in ds]
    while True:
        groups = {}
        for g in ds:
            for a, p in g:
                if a[0] == 'none' and not p:
                    E = frozenset(f for f in g if f[0] is not a and varies(f[0], a[1]) and f[0][0] != 'none')
                    if E:
                        R = frozenset(f for f in g if f not in E)
                        groups.setdefault((a, R), []).append((g, E))
        done = False
        for (a, R), l in groups.items():
            if covers([E for _, E in l], a[2]):
                drop = {id(g) for g, _ in l}
                ds = [g for g in ds if id(g) not in drop] + [tuple(R)]
                done = True
                break
        if not done:
            return ds


def covers(es, ds):
    """Does the disjunction of `es` hold whenever `ds` does (on the literals that mention the element)?"""
    return all(any(all((I(a), p) in d for a, p in e) for e in es) for d in [frozenset((I(a), p) for a, p in x) for x in ds]) or \
        equivalent([tuple(e) for e in es] + [tuple(d) for d in ds], [tuple(e) for e in es]) is True


def expand_all(conj):
    return expand(list(conj))


def explode(t, limit=64):
    """(conjunction of literals, term without cases at the top levels) pairs."""
    todo = [((), t)]
    out = []
    while todo:
        g, x = todo.pop()
        c = find_case(x)
        if c is None or len(out) + len(todo) > limit:
            out.append((g, x))
            continue
        for ds, v in c[1]:
            y = relinear(subst(x, {c: v}))
            for d in ds:
                todo.append((g + tuple((f[0], f[1]) for f in d), y))
    return out


def find_case(t):
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple):
            continue
        if x and x[0] == 'cases':
            return x
        if x and x[0] in ('none', 'fold', 'pred', 'stop', 'sofar', 'seen'):
            continue
        st.extend(y for y in x if isinstance(y, tuple))
    return None


# ------------------------------------------------------------------------------------------------ text form

def ctext(t):
    """Full, unambiguous text of a canonical term."""
    if not isinstance(t, tuple):
        return repr(t)
    k = t[0] if t else ''
    if k == 'const':
        return 'nullptr' if t[1] is None else ('true' if t[1] is True else 'false' if t[1] is False else repr(t[1]))
    if k == 'param':
        return 'arg' + t[1][1:]
    if k == 'this':
        return 'this'
    if k == 'field':
        return ctext(t[1]) + '.' + t[2]
    if k == 'global':
        return t[1]
    if k == 'enum':
        return t[1]
    if k == 'svar':
        return 'static ' + t[1]
    if k == 'call':
        return t[1] + '(' + ', '.join(ctext(x) for x in t[2]) + ')'
    if k == 'elem':
        return 'each<' + ctext(t[1]) + '>'
    if k == 'coll':
        return ctext(t[2]) + '.' + t[1] + '[]'
    if k == 'op':
        return '(' + (ctext(t[2]) + ' ' + t[1] + ' ' + ctext(t[3]) if len(t) > 3 else t[1] + ' ' + ctext(t[2])) + ')'
    if k == 'atom':
        return t[1] + '(' + ', '.join(ctext(x) if isinstance(x, tuple) else x for x in t[2:]) + ')'
    if k == 'not':
        return '!' + ctext(t[1])
    if k == 'none':
        return 'no<' + ctext(t[1]) + ' with ' + dtext(t[2]) + '>'
    if k == 'fold':
        return 'fold<' + ctext(t[1]) + ' from ' + ctext(t[2]) + ': ' + '; '.join(dtext(d) + ' -> ' + ctext(v) for d, v in t[3]) + '>'
    if k == 'sofar':
        return 'sofar<' + ctext(t[1]) + ' from ' + ctext(t[2]) + ': ' + '; '.join(dtext(d) + ' -> ' + ctext(v) for d, v in t[3]) + '>'
    if k == 'seen':
        return 'earlier<' + ctext(t[1]) + ' with ' + dtext(t[2]) + '>'
    if k == 'own':
        return '#%d' % t[1]
    if k == 'cases':
        return '{' + '; '.join(dtext(d) + ' -> ' + ctext(v) for d, v in t[1]) + '}'
    if k == 'rep':
        return '[for each ' + ctext(t[1]) + ': ' + ' // '.join((dtext(d) + ' => ' if d != ((),) else '') + ' ++ '.join(ctext(x) for x in q) for d, q in t[2]) + (' until ' + dtext(t[3]) if t[3] else '') + ']'
    if k == 'chain':
        return 'chain(' + ctext(t[1]) + ', @ -> ' + ctext(t[2]) + ')'
    if k == 'self':
        return '@'
    if k == 'pred':
        return '[@: ' + dtext(t[1]) + ']'
    if k == 'stop':
        return 'first of ' + ctext(t[1]) + ' with [' + dtext(t[2]) + ']'
    if k == 'cat*':
        return ' ++ '.join(ctext(x) for x in t[1])
    if k == 'obj':
        return 'local ' + t[1] + '(' + ', '.join(ctext(x) for x in t[2]) + ')'
    if k == 'new':
        return 'new ' + t[1] + '(' + ', '.join(ctext(x) for x in t[2]) + ')'
    return (str(k) if isinstance(k, str) else ctext(k)) + '<' + ', '.join(ctext(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + '>'


def dtext(d):
    gs = sorted(' & '.join(sorted(('' if p else '!') + ctext(a) for a, p in g)) or 'always' for g in d)
    return ' | '.join(gs) if gs else 'never'


def etext(e):
    s = e.kind + ' ' + ', '.join(ctext(x) for x in e.term)
    for c, (pre, stop) in e.loops:
        s += '\n      for each of ' + ctext(c) + ('' if pre == [()] else ' [entered when ' + dtext(pre) + ']') + ('' if not stop else ' [until ' + dtext(stop) + ']')
    return s + '\n      when ' + dtext(e.cond)


def clip(s, n=600):
    return s if len(s) <= n else s[:n] + ' …(%d)' % len(s)


def dump(S):
    for e in sorted(S.effects, key=lambda e: (e.where or ('', 0))):
        print('  -', '\n'.join(clip(x) for x in etext(e).split('\n')))
    if S.incomplete:
        print('  incomplete:', S.incomplete)
