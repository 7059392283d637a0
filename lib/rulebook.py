"""The rule instances."""
import os
import re

import behave
import contract
import facts
import hier
from contract import sig
from flow import base, last
from rules import Finding, rule, loc

BOOL_HANDLER = re.compile(r'^(Visit|WalkUpFrom)')
RULES_DIR = 'oclint-rules/rules/'


# ------------------------------------------------------------------------------------------------ helpers

def walk(x):
    """Every syntax node below x, outermost first."""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if 'k' in y:
                yield y
            st.extend(reversed(list(y.values())))
        elif isinstance(y, list):
            st.extend(reversed(y))


def short(n):
    return last(base(n))


def strip(x):
    """The expression below casts, parentheses and temporaries."""
    while isinstance(x, dict):
        if x['k'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'CStyleCastExpr',
                      'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'ConstantExpr') and x.get('c'):
            x = x['c'][0]
        elif x['k'] == 'CXXConstructExpr' and len(x.get('args') or []) == 1:
            x = x['args'][0]
        elif x['k'] == 'CXXConstructExpr' and len(x.get('args') or []) == 2 and x['args'][1].get('k') == 'CXXDefaultArgExpr':
            x = x['args'][0]
        else:
            break
    return x


def text_of(x):
    x = strip(x)
    if isinstance(x, dict) and x['k'] == 'StringLiteral':
        return x.get('v', x.get('s'))
    return None


def is_rule(db, ckey):
    return 'oclint::RuleBase' in db.base_names(ckey)


def is_visitor(db, ckey):
    return 'clang::RecursiveASTVisitor' in db.base_names(ckey)


def rule_classes(db):
    """Concrete rules: the classes the rule sources register."""
    for k, c in sorted(db.classes.items()):
        if is_rule(db, k) and facts.rel(c['file']).startswith(RULES_DIR) and not c.get('pattern') and not c.get('abstract'):
            yield c


def methods(fns, cls):
    return [f for f in fns.values() if f.get('cls') == cls['n']]


# ------------------------------------------------------------------------------------------------ C10

@rule
def visit_returns_true(db, ctx):
    """A visitor callback that returns false ends the whole walk.  Rules never do; a helper visitor does only when the walk
    is a search whose callbacks all end it."""
    byc = {}
    for k, f in ctx.fns.items():
        if f.get('cls') and f.get('rt') == 'bool' and BOOL_HANDLER.match(f.get('sn', '')) and is_visitor(db, f['clskey']) and len(f['params']) == 1:
            byc.setdefault(f['cls'], []).append(k)
    keys = [k for ks in byc.values() for k in ks]
    if len(keys) < 50:
        raise facts.AnalysisBroken('visitor callbacks vanished')
    got = {k: (b, err) for k, b, err in behave.run_many(db, keys, ctx.ref.known, ctx.ref.opaque, ctx.ref.pure)}
    for c, ks in sorted(byc.items()):
        rets = {}
        for k in ks:
            b, err = got[k]
            if b is None:
                ctx.note('undecided: %s (%s)' % (sig(ctx.fns[k]), err))
                continue
            rets[k] = [e for e in b.effects if e[0] == 'return']
        search = not is_rule(db, ctx.fns[ks[0]]['clskey']) and (_asks_walk_result(ctx, c) or all([e[1] for e in r] == [(('const', False),)] for r in rets.values()))
        for k, r in rets.items():
            ctx.count('visitor callbacks')
            f = ctx.fns[k]
            if search:
                ctx.count('callbacks of search walks')
                continue
            for e in r:
                v = e[1][-1]
                if v == ('const', True):
                    continue
                if v[0] == 'call' and re.match(r'(Visit|WalkUpFrom|Traverse)', last(str(v[1]).split('(')[0])):
                    continue
                yield Finding('visit_returns_true', sig(f), loc(f), 'ends the walk of the whole unit: ' + behave.etext(e)[:400])


def _asks_walk_result(ctx, cls):
    """The class is a search: one of its own functions uses whether the walk ran to its end."""
    for f in ctx.fns.values():
        if f.get('cls') != cls or HANDLER.match(f.get('sn') or short(f['n'])):
            continue
        for y in walk(f.get('body')):
            if y['k'] in ('ReturnStmt', 'UnaryOperator', 'IfStmt', 'DeclStmt') and y['k'] != 'CompoundStmt':
                part = [y.get('cond')] if y['k'] == 'IfStmt' else [v for a, v in y.items() if a not in ('then', 'else')]
                if any(isinstance(z.get('fn'), dict) and short(z['fn'].get('n', '')).startswith('Traverse') for z in walk(part)):
                    return True
    return False


# ------------------------------------------------------------------------------------------------ C10, C11, C15 ... class structure

HANDLER = re.compile(r'^(Visit|WalkUpFrom|Traverse|dataTraverse|should)\w+$')


def _by_name(db):
    out = {}
    for k, c in db.classes.items():
        if facts.rel(c['file']).startswith(('oclint-core/', 'oclint-driver/', 'oclint-metrics/', 'oclint-reporters/', 'oclint-rules/')):
            n = re.sub(r'>#.*', '>', c['n'])
            # instantiations of one template have the same members; the pattern is skipped when there is an instance
            if n not in out or out[n].get('pattern'):
                out[n] = c
    return out


def _is_hook(m, visitor):
    return bool(m.get('overrides')) or (visitor and HANDLER.match(m['n']))


# what clang's walk answers where a class says nothing
WALK_DEFAULTS = {'shouldVisitTemplateInstantiations': 'false', 'shouldVisitImplicitCode': 'false', 'shouldVisitLambdaBody': 'true', 'shouldWalkTypesOfTypeLocs': 'true', 'shouldTraversePostOrder': 'false'}


def _idle(name, effects):
    """A handler with these effects does what the walk does without it."""
    heads = [x.split('\n')[0] for x in effects]
    if name in WALK_DEFAULTS:
        return heads == ['return ' + WALK_DEFAULTS[name]]
    if re.match(r'(Traverse|dataTraverse|WalkUpFrom)\w+$', name):
        # only when it is nothing but the walk's own step
        calls = [h for h in heads if not h.startswith('return')]
        return len(calls) <= 1 and any(re.search(r'\b%s\b' % name, h) for h in heads)
    return not heads or heads == ['return true']


def _trivial(ref, cls, m):
    """A handler without effect."""
    for s, b in ref.items():
        if s.startswith('%s::%s(' % (cls, m['n'])):
            return _idle(m['n'], [behave.etext(x) for x in b.effects])
    return False


def _own_and_inherited(db, c):
    """Names of the hooks a class has, its repository bases included."""
    out = set()
    for k in [c['key']] + db.bases(c['key']):
        d = db.classes.get(k)
        if d:
            out |= {(m['n'], tuple(m.get('pt', ()))) for m in d['methods']}
    return out


@rule
def hooks_kept(db, ctx):
    """A reviewed class keeps every method that the framework calls (virtual overrides, visitor callbacks), and gains none with an effect."""
    bdb = ctx.ref.db()
    was, now = _by_name(bdb), _by_name(db)
    fns = {}
    for f in ctx.fns.values():
        fns.setdefault((f.get('cls'), f.get('sn') or short(f['n'])), []).append(f)
    for n, c in sorted(was.items()):
        d = now.get(n)
        if not ctx.member_in_scope(c, ''):
            continue
        if d is None:
            ctx.count('classes renamed or gone')
            continue
        ctx.count('classes compared')
        v0, v1 = is_visitor(bdb, c['key']), is_visitor(db, d['key'])
        here = _own_and_inherited(db, d)
        have = {x[0] for x in here}
        for b in sorted((bdb.base_names(c['key']) - db.base_names(d['key'])) & {'oclint::RuleBase', 'clang::RecursiveASTVisitor', 'oclint::AbstractASTVisitorRule', 'oclint::AbstractASTMatcherRule', 'oclint::AbstractSourceCodeReaderRule',
                                                                                'oclint::AbstractASTRuleBase', 'oclint::Reporter', 'oclint::Results', 'clang::DiagnosticConsumer', 'clang::ast_matchers::MatchFinder::MatchCallback'}):
            yield Finding('hooks_kept', '%s:base:%s' % (n, b), loc(d), 'no longer derives from ' + b)
        for m in c['methods']:
            if m.get('implicit') or m['n'].startswith('~') or not _is_hook(m, v0) or not ctx.member_in_scope(c, m['n']):
                continue
            ctx.count('callbacks and overrides')
            if (m['n'], tuple(m.get('pt', ()))) in here:
                mine = [x for x in d['methods'] if x['n'] == m['n'] and x.get('pt') == m.get('pt')]
                if mine and m.get('overrides') and not mine[0].get('overrides'):
                    yield Finding('hooks_kept', '%s::%s' % (n, m['n']), (facts.rel(d['file']), mine[0]['l']), 'no longer overrides what the framework calls')
                elif not mine and m.get('overrides'):
                    # inherited now: from a class that did not declare it before, or the old default
                    old = _own_and_inherited_before(bdb, c, m)
                    if old and not _same_as_inherited(ctx, bdb, c, m):
                        yield Finding('hooks_kept', '%s::%s' % (n, m['n']), loc(d), 'the override is gone: the inherited default applies')
                continue
            if m['n'] in have:
                ctx.note('%s::%s takes other parameters than reviewed' % (n, m['n']))
                if not HANDLER.match(m['n']):
                    continue
            if _trivial(ctx.ref.behs, n, m):
                continue
            if not m.get('overrides') and not v1:
                ctx.note('%s is no visitor any more' % n)
                continue
            yield Finding('hooks_kept', '%s::%s' % (n, m['n']), loc(d), 'the callback is gone: nothing examines these any more')
        old = {x[0] for x in _own_and_inherited(bdb, c)}
        for m in d['methods']:
            if not ctx.member_in_scope(c, m['n']):
                continue
            if not _is_hook(m, v1) or m['n'] in old and not m.get('overrides') or m['n'].startswith('~'):
                continue
            if any(x['n'] == m['n'] and x.get('pt') == m.get('pt') for x in c['methods']):
                continue
            if n + '::' + m['n'] in {s.split('(')[0] for s in ctx.ref.behs}:
                continue
            fs = fns.get((d['n'], m['n']), [])
            if not fs:
                continue
            bs = [b for k, b, err in behave.run_many(db, [fs[0]['key']], ctx.ref.known, ctx.ref.opaque, ctx.ref.pure) if b]
            eff = [behave.etext(e) for b in bs for e in b.effects]
            if _idle(m['n'], eff):
                continue
            if m['n'] in ('setUp', 'tearDown'):
                ctx.note('%s::%s is new' % (n, m['n']))
                continue
            yield Finding('hooks_kept', '%s::%s' % (n, m['n']), (facts.rel(d['file']), m['l']), 'a callback that was not there before: ' + (eff[0][:300] if eff else 'does nothing, so nothing below is walked'))


def _own_and_inherited_before(bdb, c, m):
    return any(x['n'] == m['n'] for k in bdb.bases(c['key']) for x in (bdb.classes.get(k) or {'methods': ()})['methods'] if not x.get('pure'))


def _same_as_inherited(ctx, bdb, c, m):
    mine = [b for s, b in ctx.ref.behs.items() if s.startswith('%s::%s(' % (c['n'], m['n']))]
    for k in bdb.bases(c['key']):
        d = bdb.classes.get(k)
        if d and any(x['n'] == m['n'] for x in d['methods']):
            his = [b for s, b in ctx.ref.behs.items() if s.startswith('%s::%s(' % (d['n'], m['n']))]
            return bool(mine and his) and [behave.etext(e) for e in mine[0].effects] == [behave.etext(e) for e in his[0].effects]
    return False


NARROWER = {'int': ('char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'bool'), 'unsigned int': ('char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'bool'),
            'unsigned long': ('char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'bool'), 'double': ('float', 'int', 'unsigned int')}


@rule
def members_kept(db, ctx):
    """Members keep their initial values and the range of their type."""
    was, now = _by_name(ctx.ref.db()), _by_name(db)
    for n, c in sorted(was.items()):
        d = now.get(n)
        if d is None or not ctx.member_in_scope(c, ''):
            continue
        mine = {f['n']: f for f in d.get('fields', ())}
        for f in c.get('fields', ()):
            g = mine.get(f['n'])
            if g is None:
                continue
            ctx.count('members compared')
            a, b = f.get('init'), g.get('init')
            if a and not b and not any(x.get('ctor') and x.get('cls') == d['n'] for x in ctx.fns.values()):
                yield Finding('members_kept', '%s::%s' % (n, f['n']), (facts.rel(d['file']), g['l']), 'is no longer given its initial value')
            elif a and b and behave.fingerprint({'body': a}) != behave.fingerprint({'body': b}):
                u, v = const_of(a), const_of(b)
                if u is not None and v is not None and u != v:
                    yield Finding('members_kept', '%s::%s' % (n, f['n']), (facts.rel(d['file']), g['l']), 'starts as %r instead of %r' % (v, u))
            if f['t'] in NARROWER and g['t'] in NARROWER[f['t']]:
                yield Finding('members_kept', '%s::%s:type' % (n, f['n']), (facts.rel(d['file']), g['l']), 'holds fewer values: %s instead of %s' % (g['t'], f['t']))


def const_of(x):
    x = strip(x)
    if not isinstance(x, dict):
        return None
    if 'cv' in x:
        return str(x['cv'])
    if x['k'] in ('IntegerLiteral', 'CXXBoolLiteralExpr', 'StringLiteral', 'FloatingLiteral', 'CharacterLiteral'):
        return str(x.get('v', x.get('s')))
    if x['k'] == 'CXXNullPtrLiteralExpr':
        return 'nullptr'
    if x['k'] == 'DeclRefExpr':
        return x.get('n')
    if x['k'] == 'UnaryOperator' and const_of(x['c'][0]) is not None:
        return x['op'] + const_of(x['c'][0])
    if x['k'] == 'InitListExpr' and len(x.get('c', ())) == 1:
        return const_of(x['c'][0])
    return None


STATUSES = ('ExitCode',)
FLAGS = ('oclint::LanguageSupportFlags', 'oclint::CUDAFunctionAttrFlags')


@rule
def enum_values(db, ctx):
    """The statuses that leave the program keep their documented values; the flags of a set are distinct bits."""
    was = {e['n']: e for e in ctx.ref.db().enums.values()}
    now = {e['n']: e for e in db.enums.values()}
    for n in STATUSES:
        f = now.get(n)
        if f is None:
            ctx.note('no enumeration ' + n)
            continue
        v = {c['n']: c['v'] for c in f['consts']}
        for c in was[n]['consts']:
            ctx.count('status codes')
            if v.get(c['n'], c['v']) != c['v']:
                yield Finding('enum_values', n + '::' + c['n'], (facts.rel(f['file']), f.get('l', 0)), 'has the value %s instead of the documented %s' % (v[c['n']], c['v']))
    for n in FLAGS:
        f = now.get(n)
        if f is None:
            ctx.note('no enumeration ' + n)
            continue
        seen = {}
        for c in f['consts']:
            ctx.count('flags')
            v = int(c['v'])
            if v <= 0 or v & (v - 1):
                yield Finding('enum_values', n + '::' + c['n'], (facts.rel(f['file']), f.get('l', 0)), 'is not one bit of its own: %d' % v)
            elif v in seen:
                yield Finding('enum_values', n + '::' + c['n'], (facts.rel(f['file']), f.get('l', 0)), 'shares its bit with ' + seen[v])
            seen[v] = c['n']


# ------------------------------------------------------------------------------------------------ C11

@rule
def hooks_bound(db, ctx):
    """A visitor callback is named after a kind of program element the walk knows and takes that element (or a more general one)."""
    parent = {}
    for x in facts.node_classes():
        parent[x['n']] = x['base']
    kinds = set(parent) | set(parent.values()) | {'Stmt', 'Decl', 'Type'}
    called = None
    for k, f in sorted(ctx.fns.items()):
        if not f.get('cls') or not is_visitor(db, f['clskey']):
            continue
        n = f.get('sn') or short(f['n'])
        m = re.match(r'^(Visit|WalkUpFrom|Traverse)([A-Z]\w*)$', n)
        if not m or len(f['params']) != 1:
            continue
        t = m.group(2)
        pt = f['params'][0]['t']
        ctx.count('visitor callbacks')
        if t.endswith('TypeLoc') or t in ('AST', 'NestedNameSpecifier', 'Attr') or t.endswith('Attr') or m.group(1) == 'Traverse' and t in ('ConstructorInitializer', 'LambdaCapture', 'TemplateName'):
            continue
        if t not in kinds:
            if called is None:
                called = {y['fn']['key'] for g in ctx.fns.values() for y in walk(g.get('body')) if isinstance(y.get('fn'), dict) and 'key' in y['fn']}
            if k not in called:
                yield Finding('hooks_bound', sig(f), loc(f), 'no kind of program element is called %s: the callback is never called' % t)
            continue
        p = re.sub(r'^(const )?clang::(\w+) ?\*?.*$', r'\2', pt)
        x = t
        up = {x}
        while x in parent and parent[x] != x:
            x = parent[x]
            up.add(x)
        if p not in up and p in kinds:
            yield Finding('hooks_bound', sig(f), loc(f), 'takes %s, which a %s is not' % (pt, t))


@rule
def bindings_agree(db, ctx):
    """Every name a pattern rule looks up in a match is a name its patterns bind."""
    for c in rule_classes(db):
        if 'oclint::AbstractASTMatcherRule' not in db.base_names(c['key']):
            continue
        bound, asked = set(), {}
        fs = [f for f in ctx.fns.values() if f.get('cls') == c['n'] or (f['file'] == c['file'] and not f.get('cls'))]
        for f in fs:
            for y in walk([f.get('body')]):
                fn = y.get('fn')
                if not isinstance(fn, dict):
                    continue
                ln = short(fn.get('n', ''))
                if ln == 'bind':
                    bound |= {t for a in y.get('args', ()) for t in [text_of(a)] if t}
                elif ln == 'getNodeAs':
                    for a in y.get('args', ()):
                        if text_of(a):
                            asked[text_of(a)] = (facts.rel(f['file']), y['l'])
        ctx.count('pattern rules')
        ctx.count('looked-up bindings', len(asked))
        opaque = any(isinstance(y.get('fn'), dict) and short(y['fn'].get('n', '')) == 'bind' and not any(text_of(a) for a in y.get('args', ())) for f in fs for y in walk([f.get('body')]))
        for t, w in sorted(asked.items()):
            if t not in bound and not opaque:
                yield Finding('bindings_agree', c['n'] + ':' + t, w, 'no pattern binds %r: the look-up always yields nothing' % t)


# ------------------------------------------------------------------------------------------------ C15

def _constructions(x):
    """(class made, line) of every `new` expression below x."""
    for y in walk(x):
        if y['k'] == 'CXXNewExpr':
            yield re.sub(r' ?\*$', '', y['t']), y['l']


def _registrations(db):
    """Rule class -> places where an instance is handed to the registry while the library is loaded."""
    out = {}
    roots = [(g['init'], g['file']) for g in db.globals.values() if g.get('init')]
    seen = set()
    while roots:
        x, file = roots.pop()
        if not facts.rel(file).startswith('oclint-rules/'):
            continue
        for y in walk(x):
            if y['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and re.match(r'(const )?(oclint::)?RuleSet$', y['t']):
                for c, l in _constructions(y.get('args') or y.get('c')):
                    out.setdefault(c, []).append((facts.rel(file), l))
            k = y['fn'].get('key') if isinstance(y.get('fn'), dict) else None
            if k in db.fns and k not in seen:
                seen.add(k)
                roots.append((db.fns[k].get('body'), db.fns[k]['file']))
    return out


SET_ASIDE = ('oclint-rules/rules/design/FeatureEnvyRule.cpp',)      # its build file leaves it out on purpose


@rule
def registered(db, ctx):
    """Every concrete rule of the rule sources is registered, once, when its library is loaded; and its source is built."""
    reg = _registrations(db)
    if len(reg) < 50:
        raise facts.AnalysisBroken('only %d registrations found' % len(reg))
    nm = lambda c: re.sub(r'>#.*', '>', c['n'])
    files = {}
    for c in rule_classes(db):
        f = facts.rel(c['file'])
        if not f.endswith('.cpp') or '(anonymous' in c['n']:
            continue
        ctx.count('concrete rules')
        ps = reg.get(nm(c), [])
        files.setdefault(f, []).append(c)
        if not ps:
            sub = [d for d in db.classes if c['key'] in db.bases(d)]
            if sub:
                continue
            yield Finding('registered', nm(c), loc(c), 'is never handed to the registry: the rule cannot run')
        elif len(ps) > 1:
            yield Finding('registered', nm(c), ps[1], 'is registered %d times: every finding would be reported that often' % len(ps))
    cm = {}
    for f in files:
        d = os.path.dirname(f)
        if d not in cm:
            try:
                cm[d] = open(os.path.join(facts.REPO, d, 'CMakeLists.txt')).read()
            except OSError:
                cm[d] = None
        if cm[d] is None:
            continue
        ctx.count('rule sources')
        text = cm[d] if f in SET_ASIDE else re.sub(r'#.*', '', cm[d])
        if not re.search(r'(?<![\w])%s(?![\w])' % re.escape(os.path.basename(f)[:-len('Rule.cpp')]), text) and os.path.basename(f) not in text and 'GLOB' not in text:
            yield Finding('registered', f, (f, 1), 'is not part of the build')
