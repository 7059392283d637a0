"""Hand-written rules.  Each takes (db, ctx) and yields Finding objects; ctx.count(...) records what was analysed."""
import re

import contract
import facts
from contract import sig
from flow import base, last


class Finding:
    """key identifies the construct, independent of line numbers."""

    def __init__(self, rule, key, where, text):
        self.rule, self.key, self.where, self.text = rule, key, where, text


class Context:
    def __init__(self, db, ref):
        self.db, self.ref = db, ref
        self.counts, self.notes, self.samples = {}, [], []
        self._fns = None
        self.scope, self.every_member = (), True

    @property
    def fns(self):
        if self._fns is None:
            self._fns = contract.product_functions(self.db)
        return self._fns

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def member_in_scope(self, c, name):
        """Whether the property is about this member of the class; with an empty name: about any member."""
        f = facts.rel(c['file'])
        if self.every_member:
            return True
        for a, b in self.scope:
            if a.search(f) and (b.search('%s::%s()' % (c['n'], name)) if name else b.search(c['n'] + '::') or any(b.search('%s::%s()' % (c['n'], m['n'])) for m in c['methods'])):
                return True
        return False

    def note(self, s):
        self.notes.append(s)


RULES = {}


def rule(f):
    RULES[f.__name__] = f
    return f


def loc(r):
    return (facts.rel(r['file']), r['l'])
