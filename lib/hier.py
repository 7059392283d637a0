"""The clang AST class hierarchy, read from the front end's own node tables."""
import functools
import re

INC = '/usr/lib/llvm-20/include/clang/AST/'


@functools.lru_cache(None)
def parents():
    p = {}
    for f, suf in (('StmtNodes', ''), ('DeclNodes', 'Decl'), ('TypeNodes', 'Type')):
        for line in open(INC + f + '.inc'):
            if line.startswith('#') or '_RANGE' in line:
                continue
            m = re.search(r'\(\s*(\w+)\s*,\s*(\w+)\s*\)', line)
            if m:
                p[m.group(1) + suf] = m.group(2)
    return p


@functools.lru_cache(None)
def ancestors(c):
    out, p = [c], parents()
    while out[-1] in p and len(out) < 40:
        out.append(p[out[-1]])
    return tuple(out)


@functools.lru_cache(None)
def known(c):
    return c in parents() or c in ('Stmt', 'Decl', 'Type')


def short(c):
    return c[7:] if c.startswith('clang::') else c


@functools.lru_cache(None)
def relation(a, b):
    """'sub' (a is a kind of b), 'sup', 'disjoint' or None (unknown)."""
    a, b = short(a), short(b)
    if a == b:
        return 'sub'
    if a.endswith('Attr') and b.endswith('Attr'):
        return 'disjoint'
    if not (known(a) and known(b)):
        return None
    if b in ancestors(a):
        return 'sub'
    if a in ancestors(b):
        return 'sup'
    # some classes are mixed-in bases outside the tables; only classes of one tree are compared
    if ancestors(a)[-1] == ancestors(b)[-1] in ('Stmt', 'Decl', 'Type'):
        return 'disjoint'
    return None
