"""Proof-obligation collector."""
from . import dom as D
from .nd import Arr, PyExc
from . import nd
from . import wit


def where(v):
    """Source construct to report for a value."""
    for l in D.lines(v, 300):
        if l is not None:
            return l
    return None


class Ob:
    def __init__(self):
        self.total = 0
        self.ok = 0
        self.und = []
        self.bad = []          # dict(text, loc)
        self.cand = []         # (text, got, want): value numbers differ, to be confirmed
        self.samples = []

    def _ok(self, text):
        self.ok += 1
        if len(self.samples) < 3:
            self.samples.append(text)

    def _bad(self, text, loc=None, witness=None):
        self.bad.append({'text': text, 'loc': loc, 'witness': witness})

    def eq(self, text, got, want, of=None):
        self.total += 1
        got, want = nd.tov(got), nd.tov(want)
        of = got if of is None else nd.tov(of)
        if want.kind in (D.NAN, D.TOP):
            self.und.append('%s: reference value %s' % (text, want.note))
            return None
        if got.kind == D.NAN:
            self._bad('%s: the value is undefined (%s)' % (text, got.note), where(of))
            return False
        r = D.same(got, want)
        if r is True:
            self._ok(text)
        elif r is None:
            self.und.append('%s: %s' % (text, got.note or want.note))
        elif got.kind or want.kind:
            self._bad('%s: infinite value' % text, where(of))
        else:
            self.cand.append((text, got, want, of))
        return r

    def zero(self, text, v, of=None):
        return self.eq(text, v, D.ZERO, of)

    def same_val(self, text, a, b):
        """Two analysed results that must agree; undefined in both counts as undefined."""
        self.eq(text, a, b)

    def true(self, text, cond, loc=None):
        self.total += 1
        if cond:
            self._ok(text)
        else:
            self._bad(text, loc)

    def undecided(self, text):
        self.total += 1
        self.und.append(text)

    def arr_eq(self, text, a, b):
        """Two abstract results (same shape, same cells)."""
        sa = a.shape if isinstance(a, Arr) else ()
        sb = b.shape if isinstance(b, Arr) else ()
        if sa != sb:
            self.total += 1
            self._bad('%s: shapes %s and %s differ' % (text, sa, sb), arr_loc(a))
            return
        ca = a.cells() if isinstance(a, Arr) else [a]
        cb = b.cells() if isinstance(b, Arr) else [b]
        for i, (x, y) in enumerate(zip(ca, cb)):
            self.eq('%s [%d]' % (text, i) if len(ca) > 1 else text, x, nd.tov(y))

    def confirm(self, leaf):
        """Turn candidates into violations (witnessed) or undecided obligations."""
        if not self.cand:
            return
        pts = wit.points(leaf.world.base, leaf.world.ctx.conds, leaf.choices, start=leaf.start)
        done = 0
        for text, got, want, of in self.cand:
            if done >= 3:
                self.und.append('%s: value numbers differ (not examined further)' % text)
                continue
            verdict = None
            for p in pts:
                try:
                    d, x, y = wit.differ(p, got, want)
                except wit.NoValue as e:
                    verdict = 'value numbers differ but no witness (%s)' % e
                    continue
                if d:
                    ins = {k: float(v) for k, v in sorted(p.vals.items()) if k != 'pi'}
                    self._bad(text, where(of), {'got': '%.12g' % float(x), 'expected': '%.12g' % float(y), 'inputs': ins})
                    verdict = None
                    done += 1
                    break
                verdict = 'value numbers differ but the values agree at the samples'
            else:
                self.und.append('%s: %s' % (text, verdict or 'no sample satisfies the path conditions'))
        self.cand = []


def arr_loc(a):
    if isinstance(a, Arr) and a.size:
        c = a.cells()[0]
        if isinstance(c, D.V):
            return where(c)
    if isinstance(a, D.V):
        return where(a)
    return None
