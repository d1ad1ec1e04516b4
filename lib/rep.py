"""Collects obligations of a rule: each is discharged, violated or (reported in the evidence only) undecided."""
import re
import front, core, api, fp


class Rep:
    def __init__(self, P=None):
        self.P = P
        self.viol, self.ok, self.und, self.samples = [], 0, [], []
        self.count = {}

    def violate(self, key, where, fn, msg, detail=(), rule=None):
        d = dict(key=key, where=where, fn=fn, msg=msg, detail=list(detail))
        if rule:
            d['rule'] = rule
        self.viol.append(d)

    def oblig(self, kind, ok, key, where, fn, msg, detail=(), rule=None):
        """ok: True / False / None (undecided)"""
        self.count[kind] = self.count.get(kind, 0) + 1
        if ok:
            self.ok += 1
            if len(self.samples) < 40:
                self.samples.append('%s: %s' % (kind, key))
        elif ok is None:
            self.und.append('%s: %s' % (kind, msg))
        else:
            self.violate(key, where, fn, msg, detail, rule)

    def same(self, kind, a, b, key, where, fn, msg, detail=(), **kw):
        a, b = api.canon(a), api.canon(b)
        ok = a is b
        if not ok:
            ok = fp.equal(self.P, a, b, **kw) if decided(a) and decided(b) else None
            if ok is None and decided(a) and decided(b):
                ok = False if pure(a) and pure(b) else None
        self.oblig(kind, ok, key, where, fn, '%s: %s instead of %s' % (msg, short(a), short(b)) if not ok else msg, detail)

    def result(self, explanation, minimum=1, summary=None, assumptions=(), **cov):
        n = sum(self.count.values())
        if n < minimum:
            raise front.AnalysisBroken('only %d obligations found (at least %d expected)' % (n, minimum))
        c = dict(obligations=n, discharged=self.ok, undecided=self.und, kinds=self.count, samples=self.samples)
        c.update(cov)
        return dict(violations=self.viol, coverage=c, explanation=explanation,
                    summary=['%d obligations, %d discharged, %d undecided %s' % (n, self.ok, len(self.und), self.count)],
                    assumptions=list(assumptions))


def short(t, n=160):
    s = str(t)
    return s if len(s) <= n else s[:n] + '...'


UNK = {'unk', 'ldd', 'lo', 'lv', 'out', 'oute', 'trip', 'dead', 'void', 'lam', 'exc', 'tmp', 'elem', 'fld', 'stream', 'sizeof'}


def decided(t):
    """the value is a formula over inputs: nothing the interpreter had to give up on"""
    return not core.contains(t, lambda x: x.op in UNK or x.op == 'call' and x.a[3] is not None)


def pure(t):
    """only loads, members and constants"""
    return not core.contains(t, lambda x: x.op in ('op', 'call', 'poly', 'ite'))
