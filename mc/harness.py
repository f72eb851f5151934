"""Per-case context: comparisons, state bookkeeping."""
import hashlib

import numpy as np


def leaves(x):
    if isinstance(x, (tuple, list)):
        out = []
        for y in x:
            out += leaves(y)
        return out
    if isinstance(x, dict):
        out = []
        for k in sorted(x):
            out += leaves(x[k])
        return out
    return [np.asarray(x)]


class Ctx:
    MAXV = 8

    def __init__(self, case):
        self.case = case
        self.violations = []
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.counts = {}

    def export(self):
        return dict(violations=self.violations, states=self.states, transitions=self.transitions,
                    traces=self.traces, samples=self.samples, counts=self.counts)

    # -- oracles ---------------------------------------------------------------
    def fail(self, label, **kw):
        if len(self.violations) < self.MAXV:
            self.violations.append(dict(label=label, **{k: (v if isinstance(v, (int, float, str, list, dict)) else str(v)[:800])
                                                        for k, v in kw.items()}))

    def true(self, label, cond, **kw):
        self.counts['checks'] = self.counts.get('checks', 0) + 1
        if not bool(cond):
            self.fail(label, **kw)
            return False
        return True

    def eq(self, label, got, want, rtol=1e-7, atol=1e-9, scaled=True):
        """Elementwise |got - want| <= rtol |want| + atol (1 + max |want|)."""
        self.counts['checks'] = self.counts.get('checks', 0) + 1
        try:
            got, want = np.asarray(got), np.asarray(want)
        except Exception as e:
            self.fail(label, got=repr(got)[:300], error=repr(e))
            return False
        if got.shape != want.shape:
            self.fail(label, got=f'shape {got.shape}', want=f'shape {want.shape}')
            return False
        if got.size == 0:
            return True
        got = got.astype(np.float64)
        want = want.astype(np.float64)
        fin = np.isfinite(want)
        sc = 1.0 + (np.abs(want[fin]).max() if scaled and fin.any() else 0.0)
        with np.errstate(invalid='ignore'):
            err = np.abs(got - want)
            bad = ~(err <= rtol * np.abs(want) + atol * sc)
        if bad.any():
            w = np.argwhere(bad)
            i = tuple(int(k) for k in w[0])
            self.fail(label, index=list(i), got=float(got[i]), want=float(want[i]), nbad=int(bad.sum()),
                      of=int(bad.size), maxerr=float(np.nanmax(np.where(bad, err, 0))) if np.isfinite(err[bad]).any() else 'nan')
            return False
        return True

    def finite(self, label, x):
        return self.true(label, all(np.isfinite(y).all() for y in leaves(x)))

    # -- bookkeeping -------------------------------------------------------------
    def visit(self, rows, tag=''):
        """Rows (axis 0) are states of the explored system."""
        rows = np.asarray(rows, dtype=np.float64)
        rows = rows.reshape(rows.shape[0], -1) if rows.ndim else rows.reshape(1, 1)
        r = np.round(rows, 9) + 0.0
        t = tag.encode()
        for row in np.unique(r, axis=0):
            self.states.add(hashlib.blake2b(t + row.tobytes(), digest_size=8).digest())

    def trans(self, n):
        self.transitions += int(n)

    def trace(self, n):
        self.traces += int(n)

    def sample(self, **kw):
        if len(self.samples) < 2:
            def conv(v):
                v = np.asarray(v)
                return np.round(v.astype(float), 6).reshape(-1)[:12].tolist() if v.dtype.kind in 'fiub' else str(v)[:100]
            self.samples.append({k: conv(v) for k, v in kw.items()})
