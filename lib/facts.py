"""Builds and loads the resolved-program database of /repo's current working tree.

The database is produced by tool/extract.cpp (clang 20 front end).  Everything is rebuilt from source; results are
cached under /verif/build (git-ignored), keyed by the content of every input, so several checks can share one run.
"""
import fcntl
import glob
import hashlib
import json
import lzma
import os
import re
import subprocess
import sys
import tempfile
import concurrent.futures as cf

if os.environ.get('PYTHONHASHSEED') != '0' and sys.argv and sys.argv[0].endswith('.py') and not sys.flags.interactive:
    # iteration orders inside the engine are the same in every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-20'
CXX = '/usr/bin/g++'
DEFS = ['-D__DATE__="DATE"', '-D__TIME__="TIME"', '-Wno-builtin-macro-redefined', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS']


class AnalysisBroken(Exception):
    """The analysis itself could not be carried out (an error exit, neither pass nor violation)."""


def _writable(d):
    try:
        os.makedirs(d, exist_ok=True)
        t = os.path.join(d, '.w%d' % os.getpid())
        open(t, 'w').close()
        os.unlink(t)
        return True
    except OSError:
        return False


_cache = None


def cache_dir():
    global _cache
    if _cache is None:
        d = os.environ.get('VERIF_CACHE') or os.path.join(VERIF, 'build')
        _cache = d if _writable(d) else tempfile.mkdtemp(prefix='verif-')
    return _cache


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


class _Lock:
    def __init__(self, name):
        self.p = os.path.join(cache_dir(), name + '.lock')

    def __enter__(self):
        self.f = open(self.p, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def tool():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    out = os.path.join(cache_dir(), 'extract-' + sha(read(src)))
    if os.path.exists(out):
        return out
    with _Lock('tool'):
        if os.path.exists(out):
            return out
        tmp = out + '.tmp%d' % os.getpid()
        cmd = [CXX, '-std=c++17', '-O1', '-fno-rtti', '-w', '-I' + LLVM + '/include', *DEFS, src, '-o', tmp,
               LLVM + '/lib/libclang-cpp.so.20.1', LLVM + '/lib/libLLVM.so.20.1', '-Wl,-rpath,' + LLVM + '/lib']
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise AnalysisBroken('extractor does not build:\n' + r.stdout[-3000:])
        os.rename(tmp, out)
    return out


def flags(docgen=False):
    f = ['-std=c++17', '-fno-rtti', '-fPIC', '-w', '-ferror-limit=0', '-resource-dir', LLVM + '/lib/clang/20',
         '-I' + LLVM + '/include',
         '-I' + REPO + '/oclint-core/include', '-I' + REPO + '/oclint-driver/include',
         '-I' + REPO + '/oclint-driver', '-I' + REPO + '/oclint-metrics/include',
         '-I' + REPO + '/oclint-rules/include', '-I' + REPO + '/oclint-rules', '-I' + REPO + '/oclint-rules/lib', *DEFS]
    if docgen:
        f.append('-DDOCGEN')
    return f


# Only files whose *content* we parse as translation units; tests and templates are not product code.
def sources(module):
    g = lambda *p: sorted(x for q in p for x in glob.glob(os.path.join(REPO, q), recursive=True)
                          if '/test/' not in x and '/template/' not in x)
    return {
        'core': lambda: g('oclint-core/lib/**/*.cpp'),
        'driver': lambda: [x for x in g('oclint-driver/*.cpp', 'oclint-driver/lib/**/*.cpp') if not x.endswith('main_docgen.cpp')],
        'metrics': lambda: g('oclint-metrics/lib/**/*.cpp'),
        'reporters': lambda: g('oclint-reporters/reporters/**/*.cpp'),
        'ruleslib': lambda: g('oclint-rules/lib/**/*.cpp'),
        'rules': lambda: g('oclint-rules/rules/**/*.cpp'),
        'docgen': lambda: g('oclint-driver/main_docgen.cpp'),
    }[module]()


ALL = ('core', 'driver', 'metrics', 'reporters', 'ruleslib', 'rules')

PCH_HEADERS = {
    'rules': ['clang/AST/AST.h', 'clang/AST/Attr.h', 'clang/AST/RecursiveASTVisitor.h', 'clang/AST/ParentMapContext.h',
              'clang/ASTMatchers/ASTMatchFinder.h', 'clang/ASTMatchers/ASTMatchers.h', 'clang/Basic/SourceManager.h',
              'regex', 'set', 'map', 'unordered_map', 'unordered_set', 'iostream', 'fstream', 'sstream', 'algorithm', 'stack', 'queue'],
    'driver': ['clang/AST/AST.h', 'clang/Frontend/CompilerInstance.h', 'clang/Frontend/FrontendActions.h',
               'clang/Driver/Driver.h', 'clang/Driver/Compilation.h', 'clang/Tooling/Tooling.h',
               'clang/Tooling/CommonOptionsParser.h', 'llvm/Support/YAMLTraits.h', 'llvm/Support/CommandLine.h',
               'set', 'map', 'iostream', 'fstream', 'sstream', 'algorithm'],
}
GROUP_PCH = {'core': 'driver', 'driver': 'driver', 'metrics': 'rules', 'reporters': None, 'ruleslib': 'rules', 'rules': 'rules',
             'docgen': 'driver'}


def header_hash():
    h = []
    for f in sorted(glob.glob(REPO + '/oclint-*/**/*.h', recursive=True)):
        if '/test/' in f:
            continue
        h.append(f)
        h.append(read(f))
    return sha(*h)


def pch(kind, docgen):
    t = tool()
    hdrs = PCH_HEADERS[kind]
    out = os.path.join(cache_dir(), 'pch-%s-%s.pch' % (kind, sha(t, *hdrs, *flags(docgen))))
    if os.path.exists(out):
        return out
    with _Lock('pch-' + kind + str(docgen)):
        if os.path.exists(out):
            return out
        h = out[:-4] + '.h'
        with open(h, 'w') as f:
            f.write(''.join('#include <%s>\n' % x for x in hdrs))
        lst = h + '.list'
        with open(lst, 'w') as f:
            f.write(h + '\n')
        tmp = out + '.tmp%d' % os.getpid()
        r = subprocess.run([t, tmp, '--pch', 'x', lst, '--', *flags(docgen)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise AnalysisBroken('precompiled header does not build: ' + r.stdout[-2000:])
        os.rename(tmp, out)
    return out


def extract(modules, docgen=False):
    """Returns the list of JSONL fact files for the given modules (parsing in parallel)."""
    t = tool()
    hh = header_hash()
    jobs, outs = [], []
    for m in modules:
        files = sources(m)
        if not files:
            raise AnalysisBroken('no source file found for module ' + m)
        for f in files:
            out = os.path.join(cache_dir(), 'facts-%s.jsonl' % sha(t, hh, f, read(f), docgen, *DEFS, *([read(c) for c in extra_inputs(f)])))
            outs.append(out)
            if not os.path.exists(out):
                jobs.append((m, f, out))
    if jobs:
        kinds = sorted({GROUP_PCH[m] for m, _, _ in jobs if GROUP_PCH[m]})
        with cf.ThreadPoolExecutor(2) as ex:
            P = dict(zip(kinds, ex.map(lambda k: pch(k, docgen), kinds)))

        def one(job):
            m, f, out = job
            lst = out + '.list%d' % os.getpid()
            with open(lst, 'w') as fh:
                fh.write(f + '\n')
            tmp = out + '.tmp%d' % os.getpid()
            extra = ['-include-pch', P[GROUP_PCH[m]]] if GROUP_PCH[m] else []
            r = subprocess.run([t, tmp, REPO + '/', '/test/', lst, '--', *flags(docgen), *extra],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            os.unlink(lst)
            if r.returncode:
                raise AnalysisBroken('extractor failed on %s: %s' % (f, r.stdout[-2000:]))
            os.rename(tmp, out)
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(one, jobs))
    return outs


def extra_inputs(f):
    # a unit may #include another .cpp/.inc of the repository; cheap, content-based invalidation
    r = []
    for m in re.finditer(rb'#\s*include\s*"([^"]+\.(?:cpp|inc|def))"', read(f)):
        for d in (os.path.dirname(f), REPO + '/oclint-rules/rules', REPO + '/oclint-rules', REPO + '/oclint-reporters/reporters'):
            p = os.path.join(d, m.group(1).decode())
            if os.path.exists(p):
                r.append(p)
                break
    return r


class DB:
    def __init__(self):
        self.fns = {}        # key -> fn record
        self.classes = {}    # key -> class record
        self.globals = {}
        self.enums = {}
        self.tus = []
        self.by_name = {}
        self.cls_by_name = {}

    def load(self, paths):
        for p in paths:
            with open(p) as fh:
                for line in fh:
                    line = line.strip().lstrip(',')
                    if not line:
                        continue
                    d = json.loads(line)
                    r = d['rec']
                    if r == 'fn':
                        if d.get('externc') and not d.get('hdr') and d['n'] != 'main':
                            d['key'] += '@' + d['file']       # one per plug-in
                        if d['key'] not in self.fns:
                            self.fns[d['key']] = d
                    elif r == 'class':
                        self.classes.setdefault(d['key'], d)
                    elif r == 'var':
                        self.globals.setdefault(d['key'], d)
                    elif r == 'enum':
                        self.enums.setdefault(d['key'], d)
                    elif r == 'tu':
                        self.tus.append(d)
        for f in self.fns.values():
            self.by_name.setdefault(f['n'], []).append(f)
        for c in self.classes.values():
            self.cls_by_name.setdefault(c['n'], []).append(c)
        self._subs = None
        self._sib = None
        self._fw = None
        return self

    def dump(self, path):
        recs = [r for d in (self.fns, self.classes, self.globals, self.enums) for k, r in sorted(d.items()) if not r.get('pseudo')]
        t = '\n'.join(json.dumps(r, separators=(',', ':')) for r in recs).replace(REPO + '/', '\x01')
        with open(path, 'wb') as o:
            o.write(lzma.compress(t.encode()))

    def undump(self, path):
        t = lzma.decompress(open(path, 'rb').read()).decode().replace('\x01', REPO + '/')
        for l in t.split('\n'):
            d = json.loads(l)
            {'fn': self.fns, 'class': self.classes, 'var': self.globals, 'enum': self.enums}[d['rec']][d['key']] = d
        return self.load([])

    # ---- class hierarchy
    def bases(self, ckey):
        seen, st = [], [ckey]
        while st:
            k = st.pop()
            c = self.classes.get(k)
            if not c:
                continue
            for b in c['bases']:
                bk = b.get('key')
                if bk and bk not in seen:
                    seen.append(bk)
                    st.append(bk)
        return seen

    def base_names(self, ckey):
        out, st = set(), [ckey]
        seen = set()
        while st:
            k = st.pop()
            if k in seen:
                continue
            seen.add(k)
            c = self.classes.get(k)
            if not c:
                continue
            for b in c['bases']:
                if b.get('n'):
                    out.add(b['n'])
                if b.get('key'):
                    st.append(b['key'])
        return out

    def overriders(self, key):
        """All repository methods that override (transitively) the given method."""
        if self._subs is None:
            self._subs = {}
            for f in self.fns.values():
                for o in f.get('overrides', ()):
                    self._subs.setdefault(o, set()).add(f['key'])
            for c in self.classes.values():
                for m in c['methods']:
                    for o in m.get('overrides', ()):
                        self._subs.setdefault(o, set()).add(m['key'])
        out, st = set(), [key]
        if '>#' in key:
            # the same method in any instantiation of the class: one description stands for all of them
            st += self.siblings(key)
        while st:
            k = st.pop()
            for s in self._subs.get(k, ()):
                if s not in out:
                    out.add(s)
                    st.append(s)
        return out

    def field_writers(self):
        """field name -> keys of the functions that do more than read it (constructors aside)."""
        if self._fw is None:
            w = self._fw = {}

            def go(x, key, read):
                if isinstance(x, list):
                    for y in x:
                        go(y, key, False)
                    return
                if not isinstance(x, dict):
                    return
                k = x.get('k')
                if k == 'MemberExpr' and x.get('field'):
                    if not read:
                        w.setdefault(x['n'], {}).setdefault(re.sub(r'<.*>', '', x['qn'].rsplit('::', 1)[0]), set()).add(key)
                    # a member of a member: reading a part reads the whole, writing a part writes it
                    for y in x.get('c', ()):
                        go(y, key, read or bool(x.get('arrow')))
                    return
                for n, y in x.items():
                    r = False
                    if k == 'ImplicitCastExpr' and (x.get('ck') == 'LValueToRValue' or (x.get('ck') == 'NoOp' and str(x.get('t', '')).startswith('const '))):
                        r = True
                    elif n == 'obj' and (x.get('fn') or {}).get('const'):
                        r = True
                    elif k == 'ParenExpr':
                        r = read
                    for z in (y if isinstance(y, list) else [y]):
                        go(z, key, r)
            for f in self.fns.values():
                if f.get('body') and not f.get('ctor'):
                    go(f['body'], f['key'], False)
        return self._fw

    def written_only_in(self, field, keys, cls=None):
        """No function but these, none of which the front end's traversal calls back, changes the member."""
        by = self.field_writers().get(field, {})
        cls = re.sub(r'<.*>', '', cls) if cls else None
        declared = {re.sub(r'<.*>', '', c['n']) for c in self.classes.values() for x in c.get('fields', ()) if x['n'] == field}
        for k in by.get(cls, ()) if cls in declared else {k for s in by.values() for k in s}:
            f = self.fns[k]
            if k not in keys or f.get('virt') or f.get('overrides') or re.match(r'(Visit|Traverse|WalkUpFrom|dataTraverse|callback|run)', f['n'].split('::')[-1]):
                return False
        return True

    def siblings(self, key):
        if self._sib is None:
            self._sib, self._sibkey = {}, {}
            for c in self.classes.values():
                if '@S@%s>' % c['n'].split('::')[-1] in c['key']:
                    for m in c['methods']:
                        k = (c['n'], m['n'], tuple(m.get('pt', ())))
                        self._sib.setdefault(k, set()).add(m['key'])
                        self._sibkey[m['key']] = k
        return [k for k in self._sib.get(self._sibkey.get(key), ()) if k != key]

    def fn(self, name):
        """The unique function with this qualified name; AnalysisBroken if it vanished."""
        l = [f for f in self.by_name.get(name, []) if not f.get('pattern')]
        if not l:
            raise AnalysisBroken('anchor vanished: function ' + name)
        return l[0]

    def fns_named(self, name):
        return [f for f in self.by_name.get(name, []) if not f.get('pattern')]


_dbs = {}


def load(modules=ALL, docgen=False):
    k = (tuple(modules), docgen)
    if k not in _dbs:
        db = DB().load(extract(modules, docgen))
        db.modules = list(modules)
        bad = []
        for tu in db.tus:
            if tu['errors']:
                bad.append((tu['file'], tu['errors']))
        db.errors = bad
        _dbs[k] = db
    return _dbs[k]


def node_classes():
    t = tool()
    out = os.path.join(cache_dir(), 'nodes-%s.jsonl' % sha(t))
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        r = subprocess.run([t, '--nodes', tmp])
        if r.returncode:
            raise AnalysisBroken('node list')
        os.rename(tmp, out)
    res = []
    for l in open(out):
        l = l.strip().lstrip(',')
        if l:
            res.append(json.loads(l))
    return res


def rel(p):
    return p[len(REPO) + 1:] if p.startswith(REPO + '/') else p


if __name__ == '__main__':
    import time
    t0 = time.time()
    db = load()
    print('units', len(db.tus), 'functions', len(db.fns), 'classes', len(db.classes), 'globals', len(db.globals), 'in %.1fs' % (time.time() - t0))
    for f, e in db.errors:
        print(rel(f), len(e), e[:6])
