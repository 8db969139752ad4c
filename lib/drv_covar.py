"""Drives real models through the histories of Covar.tla."""
import math, warnings, numpy
from drv_model import Session, run as _run
from larch.model.constraints import OrderingBound
from fx import fx, fl, NAN

def scaled(M, least=0.0):
    """entries divided by a power of two so that the largest is in [1, 2), and that power"""
    m = max(numpy.abs(M).max(), least) if M.size else 0
    if not numpy.isfinite(m) or m < 1e-9:
        return numpy.zeros_like(M), 1.0
    h = 2.0 ** math.floor(math.log2(m))
    return M / h, h

class CovarSession(Session):
    def table(self, M, names):
        return {p: {q: fx(M[i, j]) for j, q in enumerate(names)} for i, p in enumerate(names)}

    def mineig(self, H, keep):
        if not keep.any():
            return 1.0
        A = H[keep][:, keep]
        return float(numpy.abs(numpy.linalg.eigvalsh((A + A.T) / 2)).min())

    def column(self, name):
        pf = self.m.pf
        if name not in pf.columns:
            return {k: NAN for k in pf.index}
        return {k: fx(v) for k, v in pf[name].items()}

    def cov(self, e):
        m = self.m
        before = m.pf.value.copy()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            m.calculate_parameter_covariance(preserve_hessian=True, like_ratio=e['lr'])
        pf = m.pf.copy()
        names = list(pf.index)
        same = list(before.index) == names and all(before[k] == pf.value[k] for k in names[:-1])
        last = same and before[names[-1]] == pf.value[names[-1]]
        # the step of finite differences
        step = same and not last and abs(before[names[-1]] - pf.value[names[-1]]) < 1.6e-8
        H, C, R = (numpy.asarray(x, dtype=float) for x in (m.hessian_matrix, m.covariance_matrix, m.robust_covariance_matrix))
        U = m._matrixes.get('unconstrained_covariance_matrix') if self.limited() else None
        U = C if U is None else numpy.asarray(U, dtype=float)
        B = numpy.asarray(m.bhhh(), dtype=float)
        o = dict(same=bool(same and (last or step)), stepped=bool(step), wild=not all(numpy.isfinite(M).all() for M in (H, C, R, U, B)))
        if not o['wild']:
            H, C, U, R, B = (numpy.where(numpy.abs(M) < 1e-11, 0.0, M) for M in (H, C, U, R, B))
            Hs, h = scaled(H); Us, u = scaled(U); Cs, c = scaled(C, 1e-5 * u); Rs, r = scaled(R); Bs, b = scaled(B)
            for n, M in (('H', Hs), ('C', Cs), ('U', Us), ('R', Rs), ('B', Bs)):
                o[n] = self.table(M, names)
            free = (pf.holdfast.values == 0)
            lim = free & ~(numpy.isclose(pf.value, pf.minimum, atol=1e-5) | numpy.isclose(pf.value, pf.maximum, atol=1e-5))
            o.update(hs=fx(h), ct=fx(min(1900, 1 / (c * h))), ut=fx(min(1900, 1 / (u * h))), rf=fx(min(1900, r / (u * u * b))),
                     mineig=fx(self.mineig(H, free)), greg=fx(self.mineig(H, lim)))
            o['var'] = {k: fx(v) for k, v in zip(names, C.diagonal())}
            o['rvar'] = {k: fx(v) for k, v in zip(names, R.diagonal())}
        for n, col in (('se', 'std_err'), ('t', 't_stat'), ('rse', 'robust_std_err'), ('rt', 'robust_t_stat'), ('lr', 'likelihood_ratio')):
            o[n] = self.column(col)
        o['fin'] = {k: bool(numpy.isfinite(v)) for k, v in pf.t_stat.items()}
        o['notes'] = 'constrained' in pf.columns
        o['note'] = {}
        if o['notes']:
            o['note'] = {k: '' if v == '' or v != v else 'fixed' if v == 'fixed value' else 'binding' for k, v in pf.constrained.items()}
        o.update(self.frame())
        return o

    def limited(self):
        m = self.m
        return bool(m.constraints) or bool(m._get_bounds_constraints())

    def lr(self, e):
        m = self.m
        before = m.pf.value.copy()
        ref = fl(e['ref']) if e['hasref'] else None
        if e['one']:
            p = e['names'][0]
            o = {p: fx(m.likelihood_ratio(p, ref_value=ref, include_holdfast=e['held']))}
        else:
            names = list(dict.fromkeys(e['names'])) or None
            o = {k: fx(v) for k, v in m.likelihood_ratio(names, ref_value=ref, include_holdfast=e['held']).items()}
        after = m.pf.value
        return dict(self.frame(), lr=o, same=bool(list(before.index) == list(after.index) and (before == after).all()))

    def cons(self, e):
        m = self.m
        m.unmangle()
        m.constraints = [OrderingBound(c['p'], c['q']) for c in e['c']]
        return self.frame()

def run(events):
    return _run(events, session=CovarSession)
