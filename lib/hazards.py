"""Operations that are undefined for some programs, and whether the path to them rules those programs out.

Every function is interpreted symbolically (flow.Interp); at each operation the facts that hold on the path decide
whether its precondition is established:

  null    a dereferenced value that may be null (a failed cast, an optional part of a program element, a null constant)
  param   a dereferenced parameter that some caller may pass as null
  index   an element of a collection that may be too short
  eval    an expression evaluated although it may depend on a template parameter
  definition  a class asked for what only its definition says
  name    the plain name of something that may be named otherwise (an operator, a constructor, a conversion)
  narrow  a string literal asked for its bytes as plain characters although it may be a wide one
  width   integers compared although their widths may differ
  cast    a checked cast to a type the value may not have
"""
import re
from multiprocessing import Pool

import contract
import facts
import flow
from contract import sig
from flow import I, base, last

# optional parts of program elements: these accessors answer null for ordinary programs
NULLABLE = {
    'getElse', 'getConditionVariable', 'getConditionVariableDeclStmt', 'getInc', 'getRetValue', 'getNRVOCandidate', 'getSwitchCaseList', 'getNextSwitchCase',
    'getDefinition', 'getSuperClass', 'getImplementation', 'getClassInterface', 'getReceiverInterface', 'getMethodDecl', 'getInstanceReceiver',
    'getDirectCallee', 'getCalleeDecl', 'getCatchParamDecl', 'getFinallyStmt', 'getExceptionDecl', 'getThrowExpr', 'getAsCXXRecordDecl', 'getPointeeCXXRecordDecl', 'getAsRecordDecl', 'getAsTagDecl',
    'getIdentifier', 'getIdentifierInfoForSlot', 'getInitializer', 'getArraySize', 'getNodeAs', 'get', 'getRawCommentForDeclNoCache', 'getRawCommentForAnyRedecl', 'getCommentsInFile', 'getGetterMethodDecl',
    'getSetterMethodDecl', 'getImplicitPropertyGetter', 'getImplicitPropertySetter', 'findPropertyDecl', 'lookupMethod', 'lookupInstanceMethod', 'lookupClassMethod', 'getMethod', 'getInstanceMethod',
    'getClassMethod', 'getPropertyInstanceMethod', 'getDestructor', 'getAnyInitializer', 'getPreviousDecl', 'getParentFunctionOrMethod', 'getTemplatedDecl', 'getDescribedFunctionTemplate',
    'getDescribedClassTemplate', 'getInstantiatedFromMemberFunction', 'getPrimaryTemplate', 'getOperatorDelete', 'getAttr', 'getAs', 'getAsExpr', 'getFileEntryForID', 'getFileEntryRefForID', 'getReferencedDeclOfCallee',
    'getContainingInterface', 'getCategoryDecl', 'getLoopVariable', 'getSubStmt', 'getBeginStmt', 'getEndStmt', 'getHandlerBlock', 'getInClassInitializer', 'getOwningModule', 'getFinally', 'getCaptureDecl',
    'getConversionFunction', 'getBestDynamicClassType', 'getBaseElementTypeUnsafe', 'body_back', 'body_front', 'getTypeSourceInfo', 'dlsym', 'dlopen', 'getenv', 'opendir', 'readdir', 'fopen', 'gmtime', 'localtime',
    'getcwd', 'strchr', 'strstr', 'strrchr',
}
# ... and these only in some classes
NULLABLE_IN = {
    'getInit': ('VarDecl', 'IfStmt', 'SwitchStmt', 'ForStmt', 'CXXForRangeStmt', 'CXXCtorInitializer'), 'getCond': ('ForStmt', 'IfStmt'), 'getBody': ('Decl', 'FunctionDecl', 'ObjCMethodDecl'),
    'getSubExpr': ('CXXThrowExpr', 'CoyieldExpr'), 'getSubStmt': ('NullStmt',),
}
# accessors that never answer null for a valid program, however often the code asks
SOUND = {'getThen', 'getLHS', 'getRHS', 'getSubExpr', 'getCond', 'getBody', 'getDecl', 'getFoundDecl', 'getDeclContext', 'getLexicalDeclContext', 'getArg', 'getArgument', 'getTryBlock', 'getTryBody', 'getCatchBody',
         'getFinallyBody', 'getHandlerBlock', 'getParamDecl', 'getASTContext', 'getSourceManager', 'getTranslationUnitDecl', 'getSingleDecl', 'begin', 'getParent', 'getSubStmt'}
EVALS = {'EvaluateAsBooleanCondition', 'EvaluateAsInt', 'EvaluateAsRValue', 'EvaluateKnownConstInt', 'EvaluateAsFloat', 'EvaluateAsLValue', 'EvaluateAsConstantExpr', 'isEvaluatable', 'isIntegerConstantExpr',
         'getIntegerConstantExpr', 'HasSideEffects', 'isCXX11ConstantExpr', 'EvaluateKnownConstIntCheckOverflow', 'isConstantInitializer'}
DEPENDENT = ('isValueDependent', 'isInstantiationDependent')
ELEM_BEGIN = ('body_begin', 'begin', 'cbegin', 'body_rbegin', 'rbegin', 'param_begin', 'decl_begin', 'arg_begin', 'semantics_begin')
ELEM_END = ('body_end', 'end', 'cend', 'param_end', 'decl_end', 'arg_end')
SIZED = ('size', 'length', 'getNumArgs', 'param_size', 'getNumParams', 'getNumDecls', 'getLength')
# questions about a class that only its definition answers
DEFINED = {'bases', 'bases_begin', 'bases_end', 'getNumBases', 'vbases', 'vbases_begin', 'getNumVBases', 'isPolymorphic', 'isAbstract', 'isEmpty', 'isPOD', 'isAggregate', 'isDynamicClass', 'isStandardLayout', 'isTrivial',
           'hasUserDeclaredDestructor', 'hasSimpleDestructor', 'hasTrivialDestructor', 'hasNonTrivialDestructor', 'hasUserDeclaredConstructor', 'hasDefaultConstructor', 'isLiteral', 'hasAnyDependentBases',
           'hasUserDeclaredCopyConstructor', 'hasUserDeclaredCopyAssignment', 'forallBases', 'isDerivedFrom', 'isVirtuallyDerivedFrom', 'mayBeAbstract', 'isInterfaceLike', 'hasFriends', 'friends', 'getFinalOverriders'}
BACKS = ('back', 'front', 'pop_back', 'pop', 'top', 'pop_front', 'body_back', 'body_front')


def skeleton(t, d=0):
    """The accessor path of a value, independent of the names of variables."""
    if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
        return '.'
    if d > 8:
        return '..'
    k = t[0]
    if k == 'call':
        n = base(t[1]) if isinstance(t[1], str) else '?'
        return '%s(%s)' % ('::'.join(n.split('::')[-2:]), ','.join(skeleton(x, d + 1) for x in t[2][:1]))
    if k == 'cast':
        return '%s<%s>(%s)' % (t[1], last(t[2]), skeleton(t[3], d + 1))
    if k == 'op':
        return '(%s%s%s)' % (skeleton(t[2], d + 1), t[1], t[3][1] if len(t) > 3 and t[3][0] == 'const' else skeleton(t[3], d + 1) if len(t) > 3 else '')
    if k == 'field':
        return '.' + t[2]
    if k == 'const':
        return 'null' if t[1] is None else '#'
    if k in ('elem', 'phi', 'each'):
        return '*'
    if k == 'deref':
        return '*' + skeleton(t[1], d + 1)
    return '.'


def plain(sk):
    """A skeleton in which elements of a collection look the same however the collection is walked."""
    sk = re.sub(r'\*?[\w:]*begin\(\.\)', '*', sk)
    return re.sub(r'\*+', '*', sk)


def nullable(v):
    """True: may be null for some program; False: never; None: not known."""
    k = v[0]
    if k == 'cast':
        return True
    if k == 'const':
        return v[1] is None
    if k == 'uninit':
        return True
    if k == 'call' and isinstance(v[1], str):
        n = base(v[1]).split('<')[0]
        ln = n.split('::')[-1]
        c = n.split('::')[-2] if '::' in n else ''
        if ln in NULLABLE_IN and c in NULLABLE_IN[ln]:
            return True
        if ln in SOUND:
            return False
        if ln == 'get' and c not in ('DynTypedNode',):
            return None
        if ln in NULLABLE:
            return True
    return None


class Hazard:
    __slots__ = ('kind', 'skel', 'fn', 'sig', 'file', 'line', 'root', 'known', 'what', 'via', 'params', 'cause', 'header')

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def key(self):
        return (self.kind, plain(self.skel))


class Scan:
    """One function: its unguarded operations, its guarded ones, and what it passes on."""

    def __init__(self, db, f, ref_known, ref_opaque):
        self.db, self.f = db, f
        self.open, self.closed, self.passes, self.nsites = {}, set(), [], 0
        self.err = None
        self.it = flow.Interp(db, opaque=ref_opaque, inline=contract.make_inline(sig(f), ref_known, ref_opaque), on_site=self.site)

    def run(self):
        try:
            with contract.limit(30):
                self.it.run(self.f)
        except contract.Timeout:
            self.err = 'time limit'
        except RecursionError:
            self.err = 'too deep'
        return self

    # ---- what the path establishes

    def holds(self, atom, pol, st):
        """atom == pol is certain here."""
        it = self.it
        a, p = it.norm(atom)
        a = I(a)
        want = pol if p else not pol
        if it.decide(a, st) == want:
            return True
        if st.disj == flow.NODISJ:
            return False
        for g in st.disj:
            s = flow.State()
            s.facts = dict(st.facts)
            for x, y in g:
                s.facts[x] = y
            if it.decide(a, s) != want:
                return False
        return True

    def alternatives(self, v, st, depth=0):
        """(value, state) for each alternative of v that is possible here."""
        if v[0] != 'cases' or depth > 3:
            return [(v, st)]
        out = []
        for g, x in v[1]:
            s = st.fork()
            s.events = []
            if all(self.it.assume(a, p, s) for a, p in g):
                out += self.alternatives(x, s, depth + 1)
        return out

    def minimum(self, c, st):
        """A lower bound on the size of collection c."""
        def of(fs):
            n = 0
            for a, p in fs:
                if a[0] == 'atom' and a[1] == 'empty' and a[2] == c and not p:
                    n = max(n, 1)
                if a[0] == 'op' and a[1] == '==':
                    x, y = a[2], a[3]
                    sz = self.size_term(x, c) or self.size_term(y, c)
                    if not p and x[0] == 'call' and y[0] == 'call' and x[2][:1] == (c,) and y[2][:1] == (c,):
                        n = max(n, 1)
                    if sz:
                        k = y if self.size_term(x, c) else x
                        if k[0] == 'const' and isinstance(k[1], int):
                            if p:
                                n = max(n, k[1])
                            elif k[1] == 0:
                                n = max(n, 1)
                if a[0] == 'op' and a[1] == '<':
                    if self.size_term(a[3], c) and a[2][0] == 'const' and p and isinstance(a[2][1], int):
                        n = max(n, a[2][1] + 1)
                    if self.size_term(a[2], c) and a[3][0] == 'const' and not p and isinstance(a[3][1], int):
                        n = max(n, a[3][1])
                # one element was found: it is not empty
                if a[0] == 'call' and p and last(a[1]) in ('find', 'count') and a[2][:1] == (c,):
                    n = max(n, 1)
            return n
        n = of(st.facts.items())
        if st.disj != flow.NODISJ:
            n = max(n, min(of(g) for g in st.disj))
        return n

    def size_term(self, t, c):
        return t[0] == 'call' and isinstance(t[1], str) and last(t[1]) in SIZED and t[2] == (c,)

    # ---- the operations

    def site(self, kind, v, st, node, ctx, kw):
        if st.dead:
            return
        if kind == 'deref':
            self.nsites += 1
            for x, s in self.alternatives(v, st):
                self.deref(x, s, node, ctx)
        elif kind == 'call':
            self.called(v, st, node, ctx, kw)

    def put(self, kind, v, ok, known, node, ctx, what, root=None):
        sk = v[1] if kind == 'param' else skeleton(v)
        chain = [c.fn for c in ctx.chain()]
        h = Hazard(kind=kind, skel=sk, fn=ctx.fn['n'], sig=sig(self.f), file=facts.rel(ctx.fn.get('file') or self.f['file']), line=node.get('l') or 0, root=root, known=known, what=what, via=len(chain))
        if ok:
            self.closed.add((kind, sk))
        else:
            self.open.setdefault((kind, sk, h.file, h.line), h)

    def deref(self, v, st, node, ctx):
        el = self.element(v)
        if el is not None:
            c, need = el
            self.put('index', v, self.minimum(c, st) >= need or self.nonnull(v, st), True, node, ctx, 'element %d of a collection not known to have that many' % need)
            return
        if v[0] in ('this', 'new', 'addr', 'obj', 'lambda', 'fnref', 'elem', 'phi', 'unk', 'outarg', 'after', 'global', 'svar', 'var', 'deref', 'index'):
            return
        if v[0] == 'param':
            if self.ptr_param(v, ctx):
                self.put('param', v, self.nonnull(v, st), True, node, ctx, 'parameter %s' % v[1], root=v[1])
            return
        n = nullable(v)
        if v[0] == 'field' and n is None:
            n = None
        if n is False and v[0] != 'call':
            return
        self.put('null', v, self.nonnull(v, st), n, node, ctx, flow.show(v)[:160])

    def nonnull(self, v, st):
        if v[0] == 'const':
            return v[1] is not None
        if v[0] == 'uninit':
            return False
        if self.holds(('atom', 'null', v) if v[0] != 'cast' else ('ptr2bool', v), v[0] == 'cast', st):
            return True
        # a successful cast of the same value, or any of its properties tested as present
        return False

    def ptr_param(self, v, ctx):
        for p in self.f['params']:
            if p['n'] == v[1]:
                return p['t'].rstrip().endswith('*')
        return False

    def element(self, v):
        """(collection, size needed) when v is an element reached by position."""
        if v[0] == 'deref':
            v = v[1]
        if v[0] == 'call' and isinstance(v[1], str) and len(v[2]) == 1 and last(v[1]) in ELEM_BEGIN + ('body_back', 'body_front'):
            return v[2][0], 1
        if v[0] == 'op' and len(v) > 3 and v[1] in '+-' and v[2][0] == 'call' and isinstance(v[2][1], str) and len(v[2][2]) == 1 and v[3][0] == 'const' and isinstance(v[3][1], int):
            if v[1] == '+' and last(v[2][1]) in ELEM_BEGIN:
                return v[2][2][0], v[3][1] + 1
            if v[1] == '-' and last(v[2][1]) in ELEM_END:
                return v[2][2][0], v[3][1]
        return None

    def called(self, n, st, node, ctx, kw):
        if not isinstance(n, str):
            return
        n = base(n).split('(')[0]
        ln = n.split('::')[-1]
        c = n.split('::')[-2] if '::' in n else ''
        obj, args, fn = kw.get('obj'), kw.get('args') or [], kw.get('fn') or {}
        if ln in EVALS and n.startswith('clang::') and obj is not None:
            self.nsites += 1
            for x, s in self.alternatives(obj[0], st):
                ok = any(self.says(q, x, False, s) for q in DEPENDENT)
                self.put('eval', x, ok, True, node, ctx, '%s(%s)' % (ln, flow.show(x)[:120]))
        elif ln in DEFINED and c == 'CXXRecordDecl' and obj is not None:
            self.nsites += 1
            for x, s in self.alternatives(obj[0], st):
                ok = any(self.says(q, x, True, s) for q in ('hasDefinition', 'isCompleteDefinition', 'isThisDeclarationADefinition')) or x[0] == 'call' and last(x[1]) == 'getDefinition'
                self.put('definition', x, ok, True, node, ctx, '%s(%s)' % (ln, flow.show(x)[:120]))
        elif ln == 'getName' and c == 'NamedDecl' and obj is not None:
            self.nsites += 1
            for x, s in self.alternatives(obj[0], st):
                ok = self.holds(('atom', 'null', I(('call', 'clang::NamedDecl::getIdentifier', (x,)))), False, s) or self.says('isIdentifier', x, True, s)
                self.put('name', x, ok, True, node, ctx, 'getName(%s)' % flow.show(x)[:120])
        elif ln == 'getString' and c == 'StringLiteral' and obj is not None:
            self.nsites += 1
            for x, s in self.alternatives(obj[0], st):
                ok = any(self.says(q, x, True, s) for q in ('isOrdinary', 'isUTF8', 'isUnevaluated', 'isAscii', 'isPascal')) or self.same('getCharByteWidth', x, s)
                self.put('narrow', x, ok, True, node, ctx, 'getString(%s)' % flow.show(x)[:120])
        elif ln in ('operator==', 'operator!=', 'ult', 'slt', 'ugt', 'sgt', 'ule', 'sle', 'uge', 'sge', 'eq', 'ne') and c in ('APInt', 'APSInt') and len(args) + (obj is not None) == 2 and any('APInt' in q or 'APSInt' in q for q in fn.get('pt', ())):
            self.nsites += 1
            for x, s in self.alternatives(obj[0] if obj is not None else args[0], st):
                ok = any(self.same(q, x[2][0] if q == 'getType' and x[0] == 'call' and x[2] else x, s) for q in ('getBitWidth', 'getType'))
                self.put('width', x, ok, True, node, ctx, '%s(%s, %s)' % (ln, flow.show(x)[:80], flow.show(args[-1])[:80]))
        elif ln in ('cast', 'castAs') and (n.startswith(('llvm::', 'clang::')) or n == 'cast') and args and fn.get('targs'):
            self.nsites += 1
            t = flow.strip_cv(str(fn['targs'][0]))
            src = flow.strip_cv(str(fn['targs'][-1]).rstrip('* ')) if len(fn['targs']) > 1 else ''
            for x, s in self.alternatives(args[0], st):
                ok = t == src or x[0] == 'cast' and x[2] == t or any(a[0] == 'atom' and a[1] in ('isa', 'isa?') and a[3] == x and p and a[2] == t for a, p in s.facts.items())
                self.put('cast', ('cast', 'cast', t, x), ok, True, node, ctx, 'cast<%s>(%s)' % (t, flow.show(x)[:120]))
        elif ln in BACKS and obj is not None and not n.startswith('clang::') and n.startswith(('std::', 'llvm::')):
            self.nsites += 1
            for x, s in self.alternatives(obj[0], st):
                if x[0] in ('obj', 'content', 'unk', 'items'):
                    continue
                self.put('index', I(('call', n, (x,))), self.minimum(x, s) >= 1, True, node, ctx, '%s of %s, which may be empty' % (ln, flow.show(x)[:120]))
        # what is passed on
        if fn.get('key') in self.db.fns:
            pt = fn.get('pt', ())
            for i, a in enumerate(args):
                if i < len(pt) and pt[i].rstrip().endswith('*'):
                    for x, s in self.alternatives(a, st):
                        if x[0] == 'param' and ctx.fn is self.f or x[0] == 'param':
                            if self.ptr_param(x, ctx) and not self.nonnull(x, s):
                                self.passes.append((fn['key'], i, 'param', x[1]))
                        elif nullable(x) and not self.nonnull(x, s):
                            self.passes.append((fn['key'], i, 'null', flow.show(x)[:100]))

    def same(self, q, x, st):
        """The state knows what the query q on x answers: a constant, or what it answers on another value."""
        def of(v):
            return v[0] == 'call' and isinstance(v[1], str) and last(v[1]) == q and v[2][:1] == (x,)

        def f(fs):
            return any(p and a[0] == 'op' and a[1] == '==' and (of(a[2]) or of(a[3])) for a, p in fs)
        if f(st.facts.items()):
            return True
        return st.disj != flow.NODISJ and all(f(g) for g in st.disj)

    def says(self, q, x, want, st):
        """The state knows the answer of the query q on x."""
        def f(fs):
            return any(p == want and a[0] == 'call' and isinstance(a[1], str) and last(a[1]) == q and a[2] and
                       (a[2][0] == x or a[2][0][0] == 'call' and a[2][0][2][:1] == (x,)) for a, p in fs)
        if f(st.facts.items()):
            return True
        return st.disj != flow.NODISJ and all(f(g) for g in st.disj)


_H = {}


def _scan(k):
    db = _H['db']
    s = Scan(db, _H['fns'][k], _H['known'], _H['opaque']).run()
    return k, s.open, s.closed, s.passes, s.nsites, s.err, s.it.used


def scan(db, fns, keys, known, opaque):
    """key -> (open, closed, passes, sites, error)."""
    _H.update(db=db, fns=fns, known=known, opaque=frozenset(opaque))
    out = {}
    with Pool(8) as p:
        for k, *r in p.imap_unordered(_scan, keys, chunksize=6):
            out[k] = r
    return out


def may_be_null(fns, res):
    """(function, parameter) pairs some caller may fill with null; greatest lower bound from the call sites."""
    bad = {}
    for k, (op, cl, passes, n, err, used) in res.items():
        for callee, i, kind, what in passes:
            if kind == 'null' and callee in fns and i < len(fns[callee]['params']):
                bad.setdefault((callee, fns[callee]['params'][i]['n']), '%s passes %s' % (sig(fns[k]), what))
    while True:
        more = {}
        for k, (op, cl, passes, n, err, used) in res.items():
            for callee, i, kind, what in passes:
                if kind == 'param' and (k, what) in bad and callee in fns and i < len(fns[callee]['params']):
                    t = (callee, fns[callee]['params'][i]['n'])
                    if t not in bad:
                        more[t] = '%s passes on its %s (%s)' % (sig(fns[k]), what, bad[(k, what)])
        if not more:
            return bad
        bad.update(more)


def inside_others(db, fns, res):
    """Functions that are analysed as part of every caller: judged there, with what the callers know."""
    callers = {}
    for k in res:
        for c in contract.callees(fns[k], db):
            if c != k:
                callers.setdefault(c, set()).add(k)
    return {k for k, cs in callers.items() if k in fns and not fns[k].get('virt') and all(c in res and res[c][4] is None and k in res[c][5] for c in cs)}


class Report:
    def __init__(self, db, fns, known, opaque, files):
        self.fns = fns
        keys = [k for k, f in fns.items() if facts.rel(f['file']).startswith(files)]
        self.res = scan(db, fns, keys, known, opaque)
        self.bad = may_be_null(fns, self.res)
        self.sites = sum(r[3] for r in self.res.values())
        self.established = sum(len(r[1]) for r in self.res.values())
        self.errors = [(sig(fns[k]), r[4]) for k, r in self.res.items() if r[4]]
        inner = inside_others(db, fns, self.res)
        self.open, self.closed = [], {}
        for k, r in sorted(self.res.items()):
            if k in inner:
                continue
            for h in r[0].values():
                h.params = [p['n'] for p in fns[k]['params']]
                h.cause = self.bad.get((k, h.root), '') if h.kind == 'param' else ''
                h.header = bool(fns[k].get('hdr')) or '/include/' in fns[k]['file']
                self.open.append(h)
            for kd, sk in r[1]:
                self.closed.setdefault(contract.stem(fns[k]['file']), set()).add((kd, plain(sk)))
