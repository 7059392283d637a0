"""More rules: preconditions, hidden inputs, state carried between units, text escaping."""
import os
import re

import behave
import contract
import facts
import flow
import hazards
from contract import sig
from flow import base, last
from rules import Finding, rule, loc
from rulebook import walk, short, strip, text_of, is_rule, is_visitor, rule_classes, const_of

EXAMINING = ('oclint-rules/', 'oclint-metrics/', 'oclint-core/lib/RuleCarrier', 'oclint-core/lib/RuleBase')


# ------------------------------------------------------------------------------------------------ C13

@rule
def null_guard(db, ctx):
    """Every operation whose precondition some program violates is reached only where the precondition is established.

    Reported: such an operation on a path that does not establish it, unless the reviewed program has the same operation on
    the same kind of value unguarded in that file (there the precondition follows from facts outside the function)."""
    bdb = ctx.ref.db()
    now = hazards.Report(db, ctx.fns, ctx.ref.known, ctx.ref.opaque, EXAMINING)
    was = hazards.Report(bdb, contract.product_functions(bdb), ctx.ref.known, ctx.ref.opaque, EXAMINING)
    ctx.count('operations with a precondition', now.sites)
    ctx.count('preconditions established on the path', now.established)
    if now.sites < 3000:
        raise facts.AnalysisBroken('only %d operations found' % now.sites)
    for s, e in now.errors:
        ctx.note('undecided: operations of %s (%s)' % (s, e))
    accepted, guarded = {}, was.closed
    for h in was.open:
        accepted.setdefault(contract.stem(h.file), set()).add(h.key())
    ctx.count('reviewed operations guarded elsewhere', sum(len(v) for v in accepted.values()))
    taken = {}
    for h in was.open:
        if h.kind == 'param':
            taken.setdefault(h.sig, set()).add(h.params.index(h.root) if h.root in h.params else -1)
    tested = _null_tested(was)
    seen = set()
    for h in now.open:
        st = contract.stem(h.file)
        if h.kind == 'param':
            i = h.params.index(h.root) if h.root in h.params else -1
            if i in taken.get(h.sig, ()):
                continue
            # a parameter the reviewed function never used unless present
            if not h.cause and not (h.header and i in tested.get(h.sig, ())):
                continue
        elif h.key() in accepted.get(st, ()):
            continue
        elif h.kind == 'null' and not h.known and h.key() not in guarded.get(st, ()):
            continue
        k = (h.kind, h.skel, h.file, h.line)
        if k in seen:
            continue
        seen.add(k)
        yield Finding('null_guard', '%s:%s:%s' % (h.sig, h.kind, h.skel), (h.file, h.line),
                      {'null': 'used although it may be null: ', 'param': 'used although it may be null: ', 'index': '', 'eval': 'evaluated although it may depend on a template parameter: ',
                       'definition': 'asked although it may not be defined: ', 'name': 'asked for a plain name although it may have none: ', 'narrow': 'read as plain characters although it may be a wide string: ', 'width': 'compared although the widths may differ: ', 'cast': 'taken for that type although it may be another: '}[h.kind] + h.what + ('; ' + h.cause if h.cause else ''))


def _null_tested(rep):
    """sig -> positions of pointer parameters used only where they are present."""
    out = {}
    for k, r in rep.res.items():
        f = rep.fns[k]
        unguarded = {h.root for h in r[0].values() if h.kind == 'param'}
        for i, p in enumerate(f['params']):
            if ('param', p['n']) in r[1] and p['n'] not in unguarded:
                out.setdefault(sig(f), set()).add(i)
    return out


# ------------------------------------------------------------------------------------------------ helpers

PRODUCT = ('oclint-core/', 'oclint-driver/', 'oclint-metrics/', 'oclint-reporters/', 'oclint-rules/')
NOTBUILT = ('oclint-driver/main_docgen.cpp',)


def product(ctx):
    for k, f in sorted(ctx.fns.items()):
        r = facts.rel(f['file'])
        if r.startswith(PRODUCT) and r not in NOTBUILT:
            yield k, f, r


def targs(t):
    """(template, [arguments]) of a type as written."""
    t = re.sub(r'^(const|volatile|struct|class) ', '', t.strip()).rstrip('&* ').strip()
    t = re.sub(r' const$', '', t)
    i = t.find('<')
    if i < 0 or not t.endswith('>'):
        return t, []
    out, d, cur = [], 0, ''
    for ch in t[i + 1:-1]:
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
            continue
        d += ch in '<(['
        d -= ch in '>)]'
        cur += ch
    return t[:i], out + [cur.strip()]


def types_in(f):
    """(type as written, line) of the variables a function declares."""
    for y in walk([f.get('body')]):
        if y['k'] == 'VarDecl' and y.get('t'):
            yield y['t'], y.get('l', f['l'])
        for v in y.get('vars') or y.get('decls') or ():
            if isinstance(v, dict) and v.get('t') and v.get('k') != 'VarDecl':
                yield v['t'], v.get('l', f['l'])


def class_named(db, n):
    n = n.replace('(anonymous namespace)::', '')
    for c in db.classes.values():
        if c['n'].replace('(anonymous namespace)::', '') == n and not c.get('pattern'):
            return c
    return None


def reads(db, f, owner, depth=0, seen=None):
    """Members of class `owner` a function looks at, its repository callees included."""
    seen = seen if seen is not None else set()
    if f['key'] in seen or depth > 6:
        return set()
    seen.add(f['key'])
    names = {x['n'] for x in owner['fields']}
    out = set()
    for y in walk([f.get('body'), f.get('inits')]):
        if y['k'] == 'MemberExpr' and y.get('field') and y.get('n') in names and (y.get('qn') or owner['n'] + '::').replace('(anonymous namespace)::', '').startswith(owner['n'] + '::'):
            out.add(y['n'])
        k = y['fn'].get('key') if isinstance(y.get('fn'), dict) else None
        if k in db.fns:
            out |= reads(db, db.fns[k], owner, depth + 1, seen)
    return out


# ------------------------------------------------------------------------------------------------ C05

AMBIENT = re.compile(r'(^|::)(s?rand(om)?|rand_r|drand48|lrand48|random_device|mt19937(_64)?|default_random_engine|time|clock|gettimeofday|clock_gettime|now|getenv|secure_getenv|getpid|getppid|gettid|get_id|gethostname|tmpnam|tempnam|'
                     r'mkstemp|getrandom|arc4random(_uniform)?|localtime(_r)?|gmtime(_r)?|ctime(_r)?|strftime|asctime|getlogin|getuid|geteuid|current_path|getcwd|uname|sysconf|getrusage|hardware_concurrency|random_shuffle|shuffle|'
                     r'GetRandomNumber|getProcessId|createUniqueFile|createTemporaryFile|GetEnv)$')


def _equality(db, owner):
    for f in db.fns.values():
        if (f.get('sn') or short(f['n'])) == 'operator==' and not f.get('pattern') and f.get('body') and (f.get('cls') == owner['n'] or any(owner['n'] + ' ' in p['t'] + ' ' or owner['n'] + '&' in p['t'].replace(' ', '') for p in f['params'])):
            return f
    return None


@rule
def hash_equality(db, ctx):
    """Equal elements have equal hashes: a hash looks only at what the equality compares, and at no address of the element, clock or counter."""
    done = set()
    n = 0
    for k, f, r in product(ctx):
        for t, l in list(types_in(f)):
            tm, a = targs(t)
            ln = last(tm)
            if ln in ('unordered_set', 'unordered_multiset', 'unordered_map', 'unordered_multimap'):
                m = ln.endswith('map')
                h, eq = (a[2] if m and len(a) > 2 else a[1] if not m and len(a) > 1 else None), (a[3] if m and len(a) > 3 else a[2] if not m and len(a) > 2 else None)
            elif ln in ('set', 'map', 'multiset', 'multimap') and tm.startswith('std::'):
                h, eq = None, (a[2] if ln.endswith('map') and len(a) > 2 else a[1] if not ln.endswith('map') and len(a) > 1 else None)
            else:
                continue
            if not a:
                continue
            ctx.count('keyed containers')
            owner = class_named(db, a[0])
            if owner is None:
                continue
            n += 1
            if eq is not None and (a[0], eq) not in done and not eq.startswith('std::'):
                done.add((a[0], eq))
                e = _equality(db, owner)
                for g in _calls_of(db, eq):
                    want, got = (reads(db, e, owner) if e else set()), reads(db, g, owner)
                    if want != got:
                        yield Finding('hash_equality', '%s:%s' % (a[0], eq), loc(g), 'takes elements for equal by %s where they are equal by %s' % (sorted(got), sorted(want)))
            if h is None and ln.startswith('unordered'):
                h = 'std::hash<%s>' % a[0]
            if h is None or (a[0], h) in done:
                continue
            done.add((a[0], h))
            if eq is not None and not eq.startswith('std::'):
                es = _calls_of(db, eq)
            else:
                e = _equality(db, owner)
                es = [e] if e else []
            if not es:
                continue
            cmp_ = set.intersection(*[reads(db, e, owner) for e in es])
            for g in _calls_of(db, h):
                ctx.count('hash functions')
                got = reads(db, g, owner)
                ctx.count('members hashed', len(got))
                for x in sorted(got - cmp_):
                    yield Finding('hash_equality', '%s:%s' % (h, x), loc(g), 'the hash depends on %s, which the equality does not compare: equal findings may be kept twice' % x)
                for y, why in _unstable(db, g):
                    yield Finding('hash_equality', '%s:%s' % (h, why.split(' ')[0]), (facts.rel(g['file']), y.get('l', g['l'])), 'the hash depends on ' + why)
    if not n:
        ctx.note('no container of a class of the product')


def _calls_of(db, functor):
    fn = functor.replace('(anonymous namespace)::', '')
    return [f for f in db.fns.values() if f.get('body') and not f.get('pattern') and (f.get('sn') or short(f['n'])) == 'operator()' and (f.get('cls') or '').replace('(anonymous namespace)::', '') == fn]


def _unstable(db, f, depth=0, seen=None):
    """What makes the value of a function differ between equal arguments."""
    seen = seen if seen is not None else set()
    if f['key'] in seen or depth > 5:
        return
    seen.add(f['key'])
    params = {p['n'] for p in f['params'] if not p['t'].rstrip().endswith('*')}
    for y in walk([f.get('body')]):
        if y['k'] == 'UnaryOperator' and y.get('op') == '&' and y.get('c'):
            x = strip(y['c'][0])
            while x.get('k') == 'MemberExpr' and not x.get('arrow') and x.get('c'):
                x = strip(x['c'][0])
            if x.get('k') == 'DeclRefExpr' and x.get('n') in params:
                yield y, 'address of the element'
        if y['k'] == 'VarDecl' and y.get('static') and not y.get('t', '').startswith('const'):
            yield y, 'state kept between calls'
        fn = y.get('fn')
        if isinstance(fn, dict):
            n = base(fn.get('n', ''))
            if AMBIENT.search(n):
                yield y, n.split('::')[-1] + ' (differs from run to run)'
            if n.split('::')[-1] in ('c_str', 'data') and 'hash' in str(y.get('t')):
                yield y, 'address of the text'
            if fn.get('key') in db.fns:
                yield from _unstable(db, db.fns[fn['key']], depth + 1, seen)
        if y['k'] == 'CXXConstructExpr' and AMBIENT.search(re.sub(r'<.*', '', y.get('t', ''))):
            yield y, y['t'] + ' (differs from run to run)'


# ------------------------------------------------------------------------------------------------ C27

def _ambient_uses(db, fns):
    out = {}
    for k, f in fns.items():
        r = facts.rel(f['file'])
        if not r.startswith(PRODUCT) or r in NOTBUILT:
            continue
        for y in walk([f.get('body'), f.get('inits')]):
            n = None
            fn = y.get('fn')
            if isinstance(fn, dict) and fn.get('key') not in fns:
                n = base(fn.get('n', ''))
            elif y['k'] == 'CXXConstructExpr':
                n = re.sub(r'<.*', '', strip_t(y.get('t', '')))
            if n and AMBIENT.search(n) and not n.startswith(('clang::', 'oclint::')):
                if n.split('::')[-1] in ('shuffle', 'localtime', 'gmtime', 'ctime', 'strftime', 'asctime', 'gmtime_r', 'localtime_r', 'ctime_r'):
                    if n.split('::')[-1] != 'shuffle':
                        continue          # presents a time that was taken elsewhere
                out.setdefault((contract.stem(f['file']), n.split('::')[-1]), []).append((f, y))
    return out


def strip_t(t):
    return flow.strip_cv(t)


@rule
def no_ambient_input(db, ctx):
    """Only the documented places read the clock, the environment or the process: nothing else may differ from run to run."""
    was = set(_ambient_uses(ctx.ref.db(), contract.product_functions(ctx.ref.db())))
    now = _ambient_uses(db, ctx.fns)
    names = {n for _, n in was}
    ctx.count('functions searched for ambient input', len(ctx.fns))
    ctx.count('documented uses', len(was))
    moved = [s for s, n in was if (s, n) not in now]
    for (s, n), ps in sorted(now.items()):
        if (s, n) in was:
            continue
        if any((m, n) in was for m in moved):
            ctx.note('%s moved to %s' % (n, s))
            continue
        f, y = ps[0]
        yield Finding('no_ambient_input', '%s:%s' % (sig(f), n), (facts.rel(f['file']), y.get('l', f['l'])), 'reads %s: the outcome may differ from run to run' % n)


HASHED = ('unordered_map', 'unordered_set', 'unordered_multimap', 'unordered_multiset', 'DenseMap', 'SmallDenseMap', 'DenseSet', 'SmallDenseSet', 'SmallPtrSet', 'SmallPtrSetImpl', 'StringMap', 'StringSet')
ORDERED = ('set', 'map', 'multiset', 'multimap')
COLLECTS = ('push_back', 'emplace_back', 'append', 'push', 'push_front', 'addViolation', 'operator<<', 'operator+=', 'write', 'print', 'emplace', 'put')


def address_ordered(t):
    """Why iterating a container of this type follows hash values or addresses, or None."""
    tm, a = targs(t)
    ln = last(tm)
    if ln in HASHED:
        return 'hash order'
    if ln in ORDERED and a:
        cmp_ = a[2] if ln.endswith('map') and len(a) > 2 else a[1] if not ln.endswith('map') and len(a) > 1 else None
        if cmp_ is not None and not cmp_.startswith('std::less'):
            return None
        key = a[0]
        if key.rstrip().endswith('*') or targs(key)[0].endswith(('pair', 'tuple')) and any(x.rstrip().endswith('*') for x in targs(key)[1]):
            return 'address order'
    return None


def _sensitive(f, x):
    """The order in which x visits its elements shows: they are collected in a sequence, written, or the first one wins."""
    for y in walk([x]):
        fn = y.get('fn')
        n = short(fn['n']) if isinstance(fn, dict) and fn.get('n') else ''
        if n in COLLECTS and not (n == 'emplace' and targs((y.get('obj') or {}).get('t', ''))[0].split('::')[-1] in ORDERED + HASHED):
            return 'appended or written (%s)' % n
        if y['k'] == 'BreakStmt':
            return 'the first one found ends the search'
        if y['k'] == 'ReturnStmt' and y.get('v') is not None and const_of(y['v']) is None:
            return 'the first one found is returned'
        if y['k'] == 'CompoundAssignOperator' and 'string' in y.get('t', ''):
            return 'appended'
    return None


def _order_uses(fns):
    for k, f in sorted(fns.items()):
        r = facts.rel(f['file'])
        if not r.startswith(PRODUCT) or r in NOTBUILT:
            continue
        for y in walk([f.get('body')]):
            if y['k'] == 'CXXForRangeStmt':
                t = (y.get('range') or {}).get('t', '')
                why = address_ordered(t)
                yield 'range', f, y, (why + ': ' + s if why and s else None) if (s := _sensitive(f, y.get('body'))) or True else None
            elif y['k'] in ('ForStmt', 'WhileStmt'):
                for z in walk([y.get('init'), y.get('cond')]):
                    fn = z.get('fn')
                    if isinstance(fn, dict) and short(fn.get('n', '')) in ('begin', 'cbegin') and z.get('obj'):
                        why = address_ordered(z['obj'].get('t', ''))
                        s = _sensitive(f, y.get('body'))
                        yield 'iterator', f, y, why + ': ' + s if why and s else None
            fn = y.get('fn')
            if isinstance(fn, dict) and fn.get('n'):
                n = short(fn['n'])
                bs = [z for a in y.get('args') or () for z in [strip(a)] if isinstance(z.get('fn'), dict) and short(z['fn'].get('n', '')) in ('begin', 'cbegin') and z.get('obj')]
                if bs and (n in ('insert', 'assign', 'append', 'copy', 'transform', 'vector', 'list', 'deque', 'for_each', 'accumulate', 'copy_if', 'find_if', 'move') or y['k'] == 'CXXConstructExpr'):
                    into = (y.get('obj') or {}).get('t', '') or y.get('t', '')
                    for z in bs:
                        why = address_ordered(z['obj'].get('t', ''))
                        if why and targs(into)[0].split('::')[-1] not in HASHED + ORDERED:
                            yield 'copy', f, y, why + ': copied to ' + (into[:60] or n)
                if n in ('sort', 'stable_sort', 'min_element', 'max_element', 'partial_sort', 'nth_element') and len(y.get('args') or ()) == 2:
                    t = y['args'][0].get('t', '')
                    if re.search(r'\*\s*\*|\* ?(const )?\*', t) or '*' in ''.join(targs(t)[1][:1]) and not re.search(r'<const char \*|<char \*', t) and targs(t)[1][:1] and targs(t)[1][0].rstrip().endswith('**'):
                        yield 'sort', f, y, 'sorted by address'
            if y['k'] == 'BinaryOperator' and y.get('op') in ('<', '>', '<=', '>='):
                a = y['c'][0].get('t', '') if y.get('c') else ''
                if re.search(r'(clang|oclint)::\w+ \*( ?const)?$', a):
                    yield 'address', f, y, 'compares addresses'
            if y['k'] in ('CXXReinterpretCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr') and y.get('ck') == 'PointerToIntegral':
                yield 'address', f, y, 'turns an address into a number'


@rule
def deterministic_iteration(db, ctx):
    """No result follows hash values or addresses: what is iterated in such an order is not collected, written or searched for a first element."""
    was = {(contract.stem(f['file']), kind, why) for kind, f, y, why in _order_uses(contract.product_functions(ctx.ref.db())) if why}
    seen = set()
    for kind, f, y, why in _order_uses(ctx.fns):
        ctx.count('iterations and comparisons')
        if not why or (contract.stem(f['file']), kind, why) in was:
            continue
        k = '%s:%s:%s' % (sig(f), kind, why.split(':')[0])
        if k not in seen:
            seen.add(k)
            yield Finding('deterministic_iteration', k, (facts.rel(f['file']), y.get('l', f['l'])), why)


SCALAR = re.compile(r'^(const )?(bool|char|short|int|long|float|double|unsigned( \w+)*|signed \w+|long long|size_t|.*\*)$')


def _uninitialised(db, fns):
    """(class, member) pairs of scalar members that some constructor leaves without a value."""
    enums = {e['n'] for e in db.enums.values()}
    ctors = {}
    for f in fns.values():
        if f.get('ctor') and f.get('cls'):
            ctors.setdefault(f['cls'], []).append(f)
    for c in db.classes.values():
        r = facts.rel(c['file'])
        if not r.startswith(PRODUCT) or r in NOTBUILT or c.get('pattern'):
            continue
        for x in c.get('fields', ()):
            if x.get('init') or not (SCALAR.match(x['t']) or x['t'] in enums):
                continue
            cs = [f for f in ctors.get(c['n'], ()) if not f.get('implicit')]
            ok = bool(cs)
            for f in cs:
                done = {i.get('field') for i in f.get('inits', ()) if i.get('e')}
                deleg = any(not i.get('field') and short(str(i.get('n') or i.get('t') or '')) == short(c['n']) for i in f.get('inits', ()))
                copies = len(f['params']) == 1 and short(c['n']) in f['params'][0]['t'] and '&' in f['params'][0]['t']
                wrote = any(y['k'] in ('BinaryOperator', 'CXXOperatorCallExpr') and y.get('op') in ('=', 'operator=') and strip((y.get('c') or y.get('args'))[0]).get('n') == x['n'] for y in walk([f.get('body')]))
                if x['n'] not in done and not wrote and not deleg and not copies:
                    ok = False
            yield c, x, ok


@rule
def initialised_members(db, ctx):
    """Numbers, flags and pointers that objects carry have a value from the start, unless the reviewed class sets them before use."""
    bdb = ctx.ref.db()
    was = {(c['n'], x['n']) for c, x, ok in _uninitialised(bdb, contract.product_functions(bdb)) if not ok}
    count = {}
    for n, _ in was:
        count[n] = count.get(n, 0) + 1
    known = {(c['n'], x['n']) for c in bdb.classes.values() for x in c.get('fields', ())}
    for c, x, ok in _uninitialised(db, ctx.fns):
        ctx.count('members of plain type')
        if ok or (c['n'], x['n']) in was:
            continue
        if (c['n'], x['n']) not in known and any((c['n'], m) in was for m in {n for k, n in was if k == c['n']} - {y['n'] for y in c['fields']}):
            continue      # renamed
        if not (c['n'], x['n']) in known and _set_before_use(ctx, c, x):
            continue
        yield Finding('initialised_members', '%s::%s' % (c['n'], x['n']), (facts.rel(c['file']), x.get('l', c['l'])), 'has no value until something sets it')


def _set_before_use(ctx, c, x):
    """setUp gives it a value before each unit."""
    for f in ctx.fns.values():
        if f.get('cls') == c['n'] and (f.get('sn') or short(f['n'])) in ('setUp', 'apply'):
            if any(y['k'] == 'BinaryOperator' and y.get('op') == '=' and strip(y['c'][0]).get('n') == x['n'] for y in walk([f.get('body')])):
                return True
    return False


# ------------------------------------------------------------------------------------------------ C12

PER_UNIT = ('setUp', 'tearDown', 'apply')
CLEARS = ('clear', 'assign', 'reset', 'swap', 'resize', 'shrink_and_clear')
READING = ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'at', 'front', 'back', 'top', 'size', 'empty', 'count', 'get', 'data', 'c_str', 'operator->', 'operator*', 'operator bool', 'lower_bound', 'upper_bound',
           'equal_range')


class Accesses:
    """Order of the accesses to one piece of state: what a function does first to it, on every path.

    events: 'W' gives it a value that does not depend on the old one, 'M' changes it, 'R' reads it."""

    def __init__(self, db, is_it, owner=None):
        self.db, self.is_it, self.owner = db, is_it, owner
        self.memo, self.stack = {}, []

    def fn(self, f):
        k = f['key']
        if k in self.memo:
            return self.memo[k]
        if k in self.stack or len(self.stack) > 12:
            return frozenset('-'), frozenset()
        self.stack.append(k)
        seen = set()
        first = self.seq([i.get('e') for i in f.get('inits') or ()], seen)
        if first <= {'-'}:
            first = self.stmt(f.get('body'), seen)
        first = frozenset('-' if x == 'X' else x for x in first)
        self.stack.pop()
        self.memo[k] = (first, frozenset(seen))
        return self.memo[k]

    # first access of a sequence: set of 'R', 'W', 'M', '-' (none) and 'X' (left before any)
    def seq(self, xs, seen):
        out, cur = set(), {'-'}
        for x in xs:
            if x is None:
                continue
            r = self.stmt(x, seen)
            if '-' in cur:
                cur = (cur - {'-'}) | r
        return out | cur

    def stmt(self, x, seen):
        if x is None:
            return {'-'}
        if isinstance(x, list):
            return self.seq(x, seen)
        if not isinstance(x, dict):
            return {'-'}
        k = x.get('k')
        if k == 'IfStmt':
            pre = self.seq([x.get('init'), x.get('var'), x.get('cond')], seen)
            if self._emptied(x.get('cond'), x.get('then')) and x.get('else') is None:
                seen.add('W')
                return {'W'}
            a, b = self.stmt(x.get('then'), seen), self.stmt(x.get('else'), seen)
            return (pre - {'-'}) | a | b if '-' in pre else pre
        if k in ('WhileStmt', 'ForStmt', 'CXXForRangeStmt'):
            if k in ('WhileStmt', 'ForStmt') and self._emptied(x.get('cond'), [x.get('body'), x.get('inc')]):
                seen.add('W')
                return {'W'}
            pre = self.seq([x.get('init'), x.get('range'), x.get('cond')], seen)
            b = self.seq([x.get('body'), x.get('inc')], seen)
            return (pre - {'-'}) | {('-' if y == 'X' else y) for y in b} | {'-'} | ({'X'} if 'X' in b else set()) if '-' in pre else pre
        if k == 'ReturnStmt':
            r = self.seq([x.get('v'), x.get('c')], seen)
            return {('X' if y == '-' else y) for y in r}
        if k in ('ConditionalOperator',) or k == 'BinaryOperator' and x.get('op') in ('&&', '||'):
            c = [x.get('cond')] + [x.get('then'), x.get('else')] if x.get('cond') is not None else x.get('c') or []
            c = [y for y in c if y is not None]
            if not c:
                return {'-'}
            pre = self.stmt(c[0], seen)
            rest = set().union(*[self.stmt(y, seen) for y in c[1:]] or [{'-'}]) | {'-'}
            return (pre - {'-'}) | rest if '-' in pre else pre
        if k in ('BinaryOperator', 'CompoundAssignOperator') and x.get('c') and self.target(x['c'][0]) and x.get('op', '').endswith('=') and x.get('op') not in ('==', '!=', '<=', '>='):
            pre = self.stmt(x['c'][1], seen)
            e = 'W' if x['op'] == '=' else 'M'
            if pre == {'-'}:
                seen.add(e)
                return {e}
            seen.add(e)
            return (pre - {'-'}) | ({e} if '-' in pre else set())
        if k == 'CXXOperatorCallExpr' or isinstance(x.get('fn'), dict) and short(x['fn'].get('n', '')).startswith('operator'):
            args = ([x['obj']] if x.get('obj') is not None else []) + list(x.get('args') or ())
            if args and self.target(args[0]):
                op = short(x['fn']['n']) if isinstance(x.get('fn'), dict) else 'operator' + str(x.get('op'))
                pre = self.seq(args[1:], seen)
                e = 'W' if op == 'operator=' else 'R' if (x.get('fn') or {}).get('const') or op in READING or op in ('operator==', 'operator!=', 'operator<') else 'M'
                seen.add(e)
                return (pre - {'-'}) | ({e} if '-' in pre else set())
        if x.get('obj') is not None and isinstance(x.get('fn'), dict) and self.target(x['obj']):
            n = short(x['fn'].get('n', ''))
            pre = self.seq(x.get('args') or [], seen)
            e = 'W' if n in CLEARS else 'R' if x['fn'].get('const') or n in READING else 'M'
            seen.add(e)
            return (pre - {'-'}) | ({e} if '-' in pre else set())
        if k == 'UnaryOperator' and x.get('op') in ('++', '--', 'post++', 'post--', '&') and x.get('c') and self.target(x['c'][0]):
            seen.add('M')
            return {'M'}
        if k == 'DeclStmt':
            # a reference to it may change it
            for d in x.get('decls') or ():
                if d.get('t', '').rstrip().endswith('&') and not d['t'].startswith('const') and d.get('init') is not None and self.target(d['init']):
                    seen.add('M')
                    return {'M'}
        if self.is_it(x):
            seen.add('R')
            return {'R'}
        if k == 'LambdaExpr':
            return self.stmt(x.get('body'), seen) | {'-'}
        own = None
        fn = x.get('fn')
        if isinstance(fn, dict):
            # handed over by reference to something that may change it
            pt = fn.get('pt') or ()
            for i, a in enumerate(x.get('args') or ()):
                if self.target(a) and i < len(pt) and pt[i].rstrip().endswith('&') and not pt[i].startswith('const'):
                    seen.add('M')
                    return {'M'}
            own = self.db.fns.get(fn.get('key'))
        r = self.seq([v for a, v in x.items() if isinstance(v, (dict, list)) and a not in ('fn',)], seen)
        if own is not None and (self.owner is None or own.get('clskey') in self.owner) and '-' in r:
            f1, s1 = self.fn(own)
            seen |= s1
            r = (r - {'-'}) | f1
        return r

    def target(self, x):
        x = strip(x)
        while isinstance(x, dict) and x.get('k') == 'UnaryOperator' and x.get('op') == '*' and x.get('c'):
            x = strip(x['c'][0])
        return isinstance(x, dict) and self.is_it(x)

    def _emptied(self, cond, body):
        """while (!x.empty()) x.pop();   if (!x.empty()) x.clear();"""
        c = strip(cond) if isinstance(cond, dict) else None
        if not c or c.get('k') != 'UnaryOperator' or c.get('op') != '!' or not c.get('c'):
            return False
        e = strip(c['c'][0])
        if not (isinstance(e.get('fn'), dict) and short(e['fn'].get('n', '')) == 'empty' and e.get('obj') is not None and self.target(e['obj'])):
            return False
        return any(isinstance(y.get('fn'), dict) and short(y['fn'].get('n', '')) in ('pop', 'pop_back', 'pop_front', 'clear', 'erase') and y.get('obj') is not None and self.target(y['obj']) for y in walk([body]))


def _rule_state(db, fns):
    """(class, field, verdict, where, why): fields that rules change while they examine a unit, and whether each unit starts fresh."""
    for c in sorted(db.classes.values(), key=lambda c: c['n']):
        r = facts.rel(c['file'])
        if not r.startswith('oclint-rules/') or c.get('pattern') or not is_rule(db, c['key']):
            continue
        family = {c['key']} | {b for b in db.bases(c['key']) if b in db.classes and facts.rel(db.classes[b]['file']).startswith('oclint-rules/')}
        fields = {}
        for b in family:
            for x in db.classes[b].get('fields', ()):
                fields[x['n']] = (x, db.classes[b])
        own = [f for f in fns.values() if f.get('clskey') in family and f.get('body')]
        for n, (x, b) in sorted(fields.items()):
            if x['t'].startswith('const ') and not x['t'].rstrip().endswith('*') or x.get('static'):
                continue
            acc = Accesses(db, lambda y: y.get('k') == 'MemberExpr' and y.get('field') and y.get('n') == n and bool(y.get('c')) and strip(y['c'][0]).get('k') == 'CXXThisExpr', family)
            called = set()
            for f in own:
                for y in walk([f.get('body'), f.get('inits')]):
                    if isinstance(y.get('fn'), dict) and y['fn'].get('key') in db.fns:
                        called.add(y['fn']['key'])
            name = lambda f: f.get('sn') or short(f['n'])
            entries = [f for f in own if not f.get('ctor') and name(f) not in PER_UNIT and not name(f).startswith('~') and (f.get('virt') or f['key'] not in called)]
            dirty = [f for f in entries if acc.fn(f)[1] & {'W', 'M'}]
            if not dirty:
                continue
            hooks = {name(f): f for f in sorted(own, key=lambda f: f['clskey'] == c['key'])}
            why = None
            if 'setUp' in hooks and acc.fn(hooks['setUp'])[0] <= {'W'}:
                why = 'setUp'
            elif 'apply' in hooks and acc.fn(hooks['apply'])[0] <= {'W'}:
                why = 'apply'
            elif 'tearDown' in hooks and 'W' in acc.fn(hooks['tearDown'])[0] and not acc.fn(hooks['tearDown'])[0] & {'-'}:
                why = 'tearDown'
            elif all(acc.fn(f)[0] <= {'W', '-'} for f in entries):
                why = 'each use'
            yield c, b, x, why, dirty[0]


def _shared_state(db, fns):
    """(file, name, type, line, why): variables that outlive a unit and are changed, or filled from the unit, while rules run."""
    dirs = ('oclint-rules/', 'oclint-metrics/', 'oclint-core/lib/RuleCarrier', 'oclint-core/include/oclint/RuleCarrier')
    fs = [f for f in fns.values() if facts.rel(f['file']).startswith(dirs) and f.get('body')]
    cand = {}
    for g in db.globals.values():
        if facts.rel(g['file']).startswith(dirs) and not (g.get('const') or g['t'].startswith('const ') and not g['t'].rstrip().endswith('*')) and 'oclint::RuleSet' not in g['t']:
            cand[g['key']] = (facts.rel(g['file']), g['n'], g['t'], g['l'])
    used = {}
    for f in fs:
        for y in walk([f['body']]):
            if y['k'] == 'DeclRefExpr' and y.get('id') in cand:
                used.setdefault(y['id'], []).append(f)
            if y['k'] == 'MemberExpr' and y.get('id') in cand:
                used.setdefault(y['id'], []).append(f)
            if y['k'] == 'VarDecl' and y.get('static') or y.get('static') and y.get('t') and y.get('n'):
                t = y.get('t', '')
                init = y.get('init')
                src = None
                for z in walk([init]):
                    if z['k'] == 'CXXThisExpr' or z['k'] == 'DeclRefExpr' and z.get('dk') in ('ParmVar', 'Var') and not z.get('glob') and z.get('n') != y['n']:
                        src = z
                        break
                if src is not None:
                    yield facts.rel(f['file']), y['n'], t, y.get('l', f['l']), 'keeps what the first call computed from %s' % (src.get('n') or 'the object it was called on')
                elif not t.startswith('const ') and not y.get('const'):
                    acc = Accesses(db, lambda z: z.get('k') == 'DeclRefExpr' and z.get('n') == y['n'])
                    seen = set()
                    acc.stmt(f['body'], seen)
                    first, _ = acc.fn(f)
                    if seen & {'W', 'M'} and not (init and y.get('id') and flow.only_read(f['body'], y['id'], db)):
                        yield facts.rel(f['file']), y['n'], t, y.get('l', f['l']), 'keeps its content from one unit to the next'
    for k, (r, n, t, l) in sorted(cand.items()):
        for f in used.get(k, ()):
            acc = Accesses(db, lambda z: z.get('k') in ('DeclRefExpr', 'MemberExpr') and z.get('id') == k)
            first, seen = acc.fn(f)
            if seen & {'W', 'M'}:
                yield r, n, t, l, 'keeps its content from one unit to the next (changed in %s)' % sig(f)
                break


@rule
def state_reset(db, ctx):
    """What a rule remembers while it examines a unit is given a fresh value for the next one."""
    seen = set()
    for c, b, x, why, f in _rule_state(db, ctx.fns):
        if (b['n'], x['n']) in seen:
            continue
        seen.add((b['n'], x['n']))
        ctx.count('fields that carry state of a unit')
        if why is None:
            yield Finding('state_reset', '%s::%s' % (b['n'], x['n']), (facts.rel(c['file']), x.get('l', c['l'])),
                          '%s is changed in %s and still holds what the previous unit left when the next one is examined' % (x['n'], sig(f)))
    bdb = ctx.ref.db()
    was = sorted({(r, n) for r, n, t, l, why in _shared_state(bdb, contract.product_functions(bdb))})
    now = {}
    for r, n, t, l, why in _shared_state(db, ctx.fns):
        now.setdefault((r, n), (l, why))
    gone = [k for k in was if k not in now]      # renamed or moved ones keep their name here
    for (r, n), (l, why) in sorted(now.items(), key=lambda kv: (kv[0][0], kv[1][0])):
        ctx.count('variables that outlive a unit')
        kr, kn = r, n
        if (r, n) not in was and gone:
            kr, kn = gone.pop(next((i for i, g in enumerate(gone) if g[0] == r), 0))
        yield Finding('state_reset', '%s:%s' % (os.path.basename(kr), kn), (r, l), '%s %s' % (n, why))


# ------------------------------------------------------------------------------------------------ C15

def _inherited(db, fns, cls, name):
    """The function a call of this name on an object of the class reaches."""
    for k in [cls['key']] + list(db.bases(cls['key'])):
        for f in fns.values():
            if f.get('clskey') == k and (f.get('sn') or short(f['n'])) == name and f.get('body'):
                return f
    return None


def _answers(b):
    """The constants a function answers, or None when it answers something else too."""
    out = set()
    for e in b.effects:
        if e[0] == 'return':
            v = e[1][-1]
            if v[0] != 'const':
                return None
            out.add(v[1])
    return out


def plain_identifier(name):
    """What RuleBase::identifier makes of a name."""
    if not name:
        return name
    s = list(name)
    s[0] = s[0].upper()
    for i in range(1, len(s)):
        if not s[i - 1].isalpha() and s[i].islower():
            s[i] = s[i].upper()
    return ''.join(c for c in s if not c.isspace())


@rule
def metadata(db, ctx):
    """Each rule answers one fixed name, identifier, category and priority; names and identifiers are unique; priorities are 1, 2 or 3."""
    classes = list(rule_classes(db))
    want = {}
    for c in classes:
        for m in ('name', 'identifier', 'category', 'priority'):
            f = _inherited(db, ctx.fns, c, m)
            if f is not None:
                want[(c['n'], m)] = f
    keys = sorted({f['key'] for f in want.values() if f.get('clskey') in {c['key'] for c in classes}})
    got = {k: b for k, b, err in behave.run_many(db, keys, ctx.ref.known, ctx.ref.opaque, ctx.ref.pure)}
    names, idents = {}, {}
    for c in classes:
        ctx.count('rules')
        val = {}
        for m in ('name', 'category', 'priority', 'identifier'):
            f = want.get((c['n'], m))
            if f is None:
                if m != 'identifier':
                    yield Finding('metadata', '%s:%s' % (c['n'], m), loc(c), 'the rule has no %s' % m)
                continue
            if f.get('clskey') != c['key'] and f['key'] not in got:
                if m != 'identifier':
                    ctx.note('%s::%s is inherited' % (c['n'], m))
                continue
            b = got.get(f['key'])
            a = _answers(b) if b is not None else None
            if a is None or len(a) != 1:
                if a is not None and len(a) > 1:
                    yield Finding('metadata', '%s:%s' % (c['n'], m), loc(f), 'answers differently from time to time: %s' % sorted(map(str, a)))
                else:
                    ctx.note('undecided: %s::%s is computed' % (c['n'], m))
                continue
            ctx.count('metadata answers')
            v = next(iter(a))
            val[m] = v
            if m == 'priority':
                if v not in (1, 2, 3):
                    yield Finding('metadata', '%s:priority' % c['n'], loc(f), 'priority %s is none of 1, 2, 3: its findings are in no total and under no limit' % v)
            elif not isinstance(v, str) or not v.strip():
                yield Finding('metadata', '%s:%s' % (c['n'], m), loc(f), 'the %s is empty' % m)
            elif any(ch in v for ch in '<>&"\\\n\r\t'):
                yield Finding('metadata', '%s:%s' % (c['n'], m), loc(f), 'the %s %r holds characters that break reports which write it as it is' % (m, v))
            elif v != v.strip():
                yield Finding('metadata', '%s:%s' % (c['n'], m), loc(f), 'the %s %r starts or ends with a blank: it cannot be named in a rule list' % (m, v))
        if 'name' in val:
            n = val['name']
            if n in names:
                yield Finding('metadata', 'name:' + n, loc(want[(c['n'], 'name')]), 'has the name of %s: enabling, disabling and suppressing one means both' % names[n])
            names.setdefault(n, c['n'])
            i = val.get('identifier', plain_identifier(n))
            if i in idents:
                yield Finding('metadata', 'identifier:' + i, loc(want[(c['n'], 'name')]), 'has the identifier of %s' % idents[i])
            idents.setdefault(i, c['n'])
    if len(names) < 60:
        raise facts.AnalysisBroken('only %d rules found' % len(names))


# ------------------------------------------------------------------------------------------------ C08

class _Gate(hazards.Scan):
    """Calls that record a finding, and whether suppression was ruled out on the path."""

    def site(self, kind, v, st, node, ctx, kw):
        if st.dead or kind != 'call' or not isinstance(v, str):
            return
        n = base(v).split('(')[0]
        if last(n) != 'addViolation':
            return
        fn = kw.get('fn') or {}
        pt = fn.get('pt') or ()
        if not (n.endswith('RuleCarrier::addViolation') or len(pt) and 'SourceLocation' in pt[0]):
            return
        self.nsites += 1

        def off(fs):
            return any(not p and a[0] == 'call' and isinstance(a[1], str) and last(a[1]).split('(')[0] == 'shouldSuppress' for a, p in fs)
        ok = off(st.facts.items()) or st.disj != flow.NODISJ and all(off(g) for g in st.disj)
        self.put('gate', ('const', last(n)), ok, True, node, ctx, '::'.join(n.split('::')[-2:]))


def _gate(k):
    s = _Gate(hazards._H['db'], hazards._H['fns'][k], hazards._H['known'], hazards._H['opaque']).run()
    return k, s.open, s.closed, s.passes, s.nsites, s.err, s.it.used


@rule
def only_gated_reports(db, ctx):
    """A finding is recorded only on paths on which suppression of its line, and of the code it is about, was ruled out."""
    keys = []
    for k, f, r in product(ctx):
        if r.startswith('oclint-rules/') and any(isinstance(y.get('fn'), dict) and short(y['fn'].get('n', '')) == 'addViolation' for y in walk([f.get('body')])):
            keys.append(k)
    # with their callers: a helper is judged where it is used
    more = {k for k, f, r in product(ctx) if r.startswith('oclint-rules/') and contract.callees(f, db) & set(keys)} - set(keys)
    keys += sorted(more)
    hazards._H.update(db=db, fns=ctx.fns, known=ctx.ref.known, opaque=frozenset(ctx.ref.opaque))
    res = {k: _gate(k)[1:] for k in keys}
    ctx.count('functions that report findings', len(keys))
    n = sum(r[3] for r in res.values())
    ctx.count('calls that record a finding', n)
    if n < 3:
        raise facts.AnalysisBroken('only %d recording calls found' % n)
    inner = hazards.inside_others(db, ctx.fns, res)
    for k, r in sorted(res.items()):
        if r[4]:
            ctx.note('undecided: %s (%s)' % (sig(ctx.fns[k]), r[4]))
        if k in inner:
            continue
        for h in r[0].values():
            yield Finding('only_gated_reports', '%s:%s' % (h.sig, h.what), (h.file, h.line), '%s is called on a path that has not ruled out suppression' % h.what)


# ------------------------------------------------------------------------------------------------ C21

PLAIN_FORMATS = ('TextReporter', 'XcodeReporter')     # lines of text: nothing to break


class _Raw:
    """Text of the program (paths, messages) that reaches a stream as it is."""

    def __init__(self, db, fns):
        self.db, self.fns = db, fns
        self.sink = {}       # (function, parameter) -> where it is written raw

    def raw(self, x, env, depth=0):
        """'text', ('param', n) or None."""
        x = strip(x)
        if not isinstance(x, dict) or depth > 12:
            return None
        k = x['k']
        if k == 'MemberExpr' and x.get('field') and x.get('n') in ('path', 'message') and (x.get('qn') or '').endswith('Violation::' + x['n']):
            return 'text'
        if k == 'DeclRefExpr':
            if x.get('id') in env:
                return env[x['id']]
            return None
        fn = x.get('fn')
        n = short(fn.get('n', '')) if isinstance(fn, dict) else ''
        if k in ('ConditionalOperator',):
            return next((r for c in [x.get('then'), x.get('else')] + list(x.get('c') or ()) if (r := self.raw(c, env, depth + 1))), None)
        if n in ('c_str', 'str', 'data', 'substr') and x.get('obj') is not None:
            return self.raw(x['obj'], env, depth + 1)
        if n == 'operator+' or k == 'BinaryOperator' and x.get('op') == '+':
            return next((r for c in list(x.get('args') or ()) + list(x.get('c') or ()) if (r := self.raw(c, env, depth + 1))), None)
        if k == 'CXXConstructExpr' and 'basic_string' in x.get('t', '') and x.get('args'):
            return self.raw(x['args'][0], env, depth + 1)
        if k == 'UnaryOperator' and x.get('op') == '*' and x.get('c'):
            return self.raw(x['c'][0], env, depth + 1)
        return None

    def writes(self, f):
        """(what, node): raw values the function writes or hands to something that writes them raw."""
        env = {}
        for p in f['params']:
            if 'string' in p['t'] or 'char' in p['t'] or 'StringRef' in p['t']:
                env[p.get('id') or p['n']] = ('param', p['n'])
        for y in walk([f.get('body')]):
            if y['k'] == 'DeclRefExpr' and y.get('dk') == 'ParmVar' and y.get('id') not in env and y.get('n') in {p['n'] for p in f['params']}:
                t = y.get('t', '')
                if 'string' in t or 'char' in t or 'StringRef' in t:
                    env[y['id']] = ('param', y['n'])
            if y['k'] == 'VarDecl' and y.get('init') is not None:
                r = self.raw(y['init'], env)
                if r:
                    env[y.get('id')] = r
            fn = y.get('fn')
            if not isinstance(fn, dict):
                continue
            n = short(fn.get('n', ''))
            args = ([y['obj']] if y.get('obj') is not None else []) + list(y.get('args') or ())
            if n == 'operator<<' and len(args) == 2 and 'ostream' in (args[0].get('t', '') + str(fn.get('rt', ''))) + 'ostream' * ('stream' in str(fn.get('pt', ''))):
                r = self.raw(args[1], env)
                if r:
                    yield r, y
            elif n in ('write', 'print', 'fputs', 'append') and y.get('obj') is not None and 'stream' in y['obj'].get('t', ''):
                for a in y.get('args') or ():
                    r = self.raw(a, env)
                    if r:
                        yield r, y
            elif fn.get('key') in self.fns:
                g = self.fns[fn['key']]
                for i, a in enumerate(y.get('args') or ()):
                    if i < len(g['params']) and (g['key'], g['params'][i]['n']) in self.sink:
                        r = self.raw(a, env)
                        if r:
                            yield r, y


@rule
def escaping(db, ctx):
    """In the formats with mark-up or quoting, paths and messages reach the document only through a function that rewrites them."""
    fs = {k: f for k, f, r in product(ctx) if r.startswith('oclint-reporters/') and not any(p in r for p in PLAIN_FORMATS) and f.get('body')}
    R = _Raw(db, fs)
    while True:
        n = len(R.sink)
        for k, f in fs.items():
            for what, y in R.writes(f):
                if what != 'text':
                    R.sink.setdefault((k, what[1]), y)
        if len(R.sink) == n:
            break
    ctx.count('functions that write reports', len(fs))
    uses = 0
    for k, f in sorted(fs.items()):
        for y in walk([f['body']]):
            if y['k'] == 'MemberExpr' and y.get('field') and y.get('n') in ('path', 'message'):
                uses += 1
        for what, y in R.writes(f):
            if what == 'text':
                yield Finding('escaping', sig(f), (facts.rel(f['file']), y.get('l', f['l'])), 'a path or message is written without being escaped')
    ctx.count('uses of paths and messages', uses)
    if not uses:
        raise facts.AnalysisBroken('no report states a path or message')


# ------------------------------------------------------------------------------------------------ C02, C27: views that outlive what they look at

VIEW = re.compile(r'^(const )?(llvm::StringRef|std::basic_string_view<char>|std::string_view|llvm::ArrayRef<.*>|const char \*|llvm::Twine)( ?&| ?const)?$')
OWNER = re.compile(r'^(const )?(std::basic_string<char>|std::vector<.*>|llvm::SmallString<.*>|llvm::SmallVector<.*>|std::basic_(o|i)?stringstream<char>|char ?\[\d+\]|std::(map|set|list|deque)<.*>)$')


def _temporary(x):
    """The expression looks into an object that is gone at the end of the statement."""
    while isinstance(x, dict):
        if x['k'] == 'MaterializeTemporaryExpr' and OWNER.match(x.get('t', '')):
            return True
        fn = x.get('fn')
        if isinstance(fn, dict) and x.get('obj') is not None and short(fn.get('n', '')) in ('c_str', 'data', 'str', 'substr', 'trim', 'rtrim', 'ltrim', 'drop_front', 'drop_back', 'operator basic_string_view', 'operator StringRef', 'begin'):
            if OWNER.match(x.get('t', '')) and not x.get('lv'):
                return True           # a fresh string: whoever looks into it is looking into a temporary
            o = x['obj']
            if isinstance(o, dict) and not o.get('lv') and not o.get('arrow') and OWNER.match(flow.strip_cv(o.get('t', '')) if not o.get('t', '').endswith('*') else ''):
                return True
            x = o
            continue
        if x['k'] == 'CXXConstructExpr' and len(x.get('args') or ()) >= 1 and VIEW.match(x.get('t', '')):
            x = x['args'][0]
            continue
        if x.get('c') and x['k'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'ConstantExpr'):
            if OWNER.match(x.get('t', '')) and not x.get('lv') and x['k'] in ('CXXBindTemporaryExpr',):
                return True
            x = x['c'][0]
            continue
        return OWNER.match(x.get('t', '')) is not None and not x.get('lv') and isinstance(x.get('fn'), dict)
    return False


def _local_owner(x, locals_):
    """The expression looks into a local object."""
    d = 0
    while isinstance(x, dict) and d < 20:
        d += 1
        if x['k'] == 'DeclRefExpr':
            return x.get('n') if x.get('id') in locals_ else None
        if x.get('obj') is not None and isinstance(x.get('fn'), dict) and short(x['fn'].get('n', '')) in ('c_str', 'data', 'substr', 'begin', 'front', 'back', 'at', 'operator[]', 'trim', 'operator basic_string_view', 'str'):
            if OWNER.match(x.get('t', '')) and not x.get('lv'):
                return None
            x = x['obj']
            continue
        if x['k'] == 'CXXConstructExpr' and x.get('args'):
            if not VIEW.match(x.get('t', '')):
                return None
            x = x['args'][0]
            continue
        if x['k'] == 'UnaryOperator' and x.get('op') == '&' and x.get('c'):
            x = x['c'][0]
            continue
        if x.get('c') and x['k'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr'):
            if x['k'] == 'ImplicitCastExpr' and x.get('ck') == 'LValueToRValue' and not x.get('t', '').rstrip().endswith('*'):
                return None
            x = x['c'][0]
            continue
        return None
    return None


def _dangling(fns):
    for k, f in sorted(fns.items()):
        r = facts.rel(f['file'])
        if not r.startswith(PRODUCT) or r in NOTBUILT or not f.get('body'):
            continue
        rt = f.get('rt', '')
        looks = bool(VIEW.match(rt)) or rt.rstrip().endswith('&') or rt.rstrip().endswith('*')
        locals_ = {}
        for y in walk([f['body']]):
            if y['k'] == 'VarDecl':
                t = y.get('t', '')
                if not y.get('static') and not t.rstrip().endswith('&') and not t.rstrip().endswith('*') and not VIEW.match(t):
                    locals_[y.get('id')] = y['n']
                if VIEW.match(t) and y.get('init') is not None and _temporary(y['init']):
                    yield f, y, 'view', '%s looks into a string that is gone after its declaration' % y['n']
            elif y['k'] == 'BinaryOperator' and y.get('op') == '=' and VIEW.match((y.get('c') or [{}])[0].get('t', '')) and _temporary(y['c'][1]):
                yield f, y, 'view', '%s looks into a string that is gone after the statement' % (strip(y['c'][0]).get('n') or 'it')
            elif isinstance(y.get('fn'), dict) and short(y['fn'].get('n', '')) == 'operator=' and len(y.get('args') or ()) + (y.get('obj') is not None) == 2:
                a = ([y['obj']] if y.get('obj') is not None else []) + list(y.get('args') or ())
                if VIEW.match(a[0].get('t', '')) and _temporary(a[1]):
                    yield f, y, 'view', '%s looks into a string that is gone after the statement' % (strip(a[0]).get('n') or 'it')
            elif y['k'] == 'ReturnStmt' and looks:
                v = y.get('v') if y.get('v') is not None else (y.get('c') or [None])[0]
                if v is None:
                    continue
                o = _local_owner(v, locals_)
                if o:
                    yield f, y, 'return', 'answers a view of %s, which is gone when the function returns' % o
                elif VIEW.match(rt) and _temporary(v):
                    yield f, y, 'return', 'answers a view of a temporary'
            elif isinstance(y.get('fn'), dict) and short(y['fn'].get('n', '')) in ('push_back', 'emplace_back', 'insert') and y.get('obj') is not None:
                a = targs(y['obj'].get('t', ''))[1][:1]
                if a and VIEW.match(a[0]):
                    for x in y.get('args') or ():
                        if _temporary(x):
                            yield f, y, 'view', 'keeps a view of a string that is gone after the statement'


@rule
def no_dangling_views(db, ctx):
    """Nothing keeps or answers a view (reference, StringRef, C string) of text that is gone when it is used."""
    bdb = ctx.ref.db()
    was = {}
    for f, y, kind, why in _dangling(contract.product_functions(bdb)):
        was[(contract.stem(f['file']), kind, why)] = True
    n = 0
    for k, f, r in product(ctx):
        ctx.count('functions')
    for f, y, kind, why in _dangling(ctx.fns):
        if (contract.stem(f['file']), kind, why) in was:
            ctx.count('reviewed')
            continue
        yield Finding('no_dangling_views', '%s:%s' % (sig(f), kind), (facts.rel(f['file']), y.get('l', f['l'])), why)
    # members that owned their text in the reviewed program still do
    old = {(c['n'], x['n']): x['t'] for c in bdb.classes.values() for x in c.get('fields', ())}
    for c in db.classes.values():
        if not facts.rel(c['file']).startswith(PRODUCT):
            continue
        for x in c.get('fields', ()):
            ctx.count('members')
            o = old.get((c['n'], x['n']))
            if o is None or o == x['t']:
                continue
            a, b = targs(o), targs(x['t'])
            turned = OWNER.match(o) and VIEW.match(x['t']) or a[0] == b[0] and any(OWNER.match(p) and VIEW.match(q) for p, q in zip(a[1], b[1]))
            if turned:
                yield Finding('no_dangling_views', '%s::%s' % (c['n'], x['n']), (facts.rel(c['file']), x.get('l', c['l'])), 'no longer owns its text (%s, was %s): it is gone when its source is' % (x['t'], o))
