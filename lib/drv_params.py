"""Drives a larch Model through the parameter and constraint histories of Params.tla."""
import warnings
warnings.filterwarnings('ignore')
import logging
import numpy, pandas
from fx import fx, fl
logging.disable(logging.CRITICAL)
from larch import Model, P, X
from larch.exceptions import ParameterNotInModelWarning
from larch.model.constraints import RatioBound, OrderingBound, FixedBound
from drv_model import run as run_session

COL = dict(v='value', i='initvalue', n='nullvalue', lo='minimum', hi='maximum', h='holdfast', t='note')
fl_ = lambda k, v: v if k in ('h', 't') else fl(v)
def mapping(m):
    return m if isinstance(m, dict) else {}
def rec(r):
    return {k: (str(r[c]) if k == 't' else int(r[c]) if k == 'h' else fx(r[c])) for k, c in COL.items()}

def num(v, style):
    v = fl(v)
    if style == 5:
        for d in (1, 2, 4):
            if v * d == int(v * d):
                return '%d/%d' % (v * d, d)
    if style == 4 and v == int(v): return '%d' % v
    if style == 3 and v: return '%.6e' % v
    return repr(v)

def constraint(c, text=0):
    lo = [fl(v) for v in c['lo']]
    hi = [fl(v) for v in c['hi']]
    lo, hi = (lo or [None])[0], (hi or [None])[0]
    p, q = c['p'], c['q']
    if text == 0:
        if c['k'] == 'ord': return OrderingBound(p, q)
        if c['k'] == 'fix': return FixedBound(p, lo, hi)
        return RatioBound(p, q, lo, hi)
    # the same constraint in text: either way around, strict or not, with or without spaces
    strict, flip, tight, direct = text & 1, text & 2, text & 4, text & 8
    op = (' %s ' if not tight else '%s') % (('>' if flip else '<') + ('' if strict else '='))
    if c['k'] == 'ord':
        s = (q + op + p) if flip else (p + op + q)
        return OrderingBound(s) if direct else ' %s ' % s if tight else s
    s = p if c['k'] == 'fix' else ('%s/%s' if tight else '%s / %s') % (p, q)
    style = text % 6
    if lo is not None and hi is not None:
        op = op.replace('>', '<')
        return num(c['lo'][0], style) + op + s + op + num(c['hi'][0], style)
    flip = flip and c['k'] == 'fix'                # (a number before a ratio is not in the language)
    op = op.replace('>', '<')
    if (lo is not None) == bool(flip): pass
    else: op = op.replace('<', '>')
    n = num(c['lo' if lo is not None else 'hi'][0], style)
    return n + op + s if flip else s + op + n

class Session:
    def done(self, e, **o):
        m = self.m
        for w in e['look']:
            if w == 'pf': o[w] = {n: rec(r) for n, r in m.pf.to_dict('index').items()}
            elif w == 'pvals':
                v = m.pvals
                o[w] = {n: fx(x) for n, x in zip(m.pnames, v)}
            elif w == 'gv':
                g = m.get_values()
                o[w] = {n: fx(m.get_value(n)) if i % 2 else fx(g[n]) for i, n in enumerate(m.pnames)}
            elif w == 'bounds':
                b = m.pbounds
                o[w] = {n: [fx(x), fx(y)] for n, x, y in zip(m.pnames, b.lb, b.ub)}
            elif w == 'hold': o[w] = {n: int(m.get_holdfast(n)) for n in m.pnames}
            elif w == 'row': o[w] = {m.pnames[m.get_slot_x(n)]: rec(m[n]) for n in m.pnames}
            elif w == 'ncons': o[w] = len(m.constraints)
        return o
    def new(self, e):
        cs = [constraint(c) for c in e['cs']]
        u = sum((P(n) * X('x%d' % i) for i, n in enumerate(e['ca'])), 0)
        v = sum((P(n) * X('c%d' % i) for i, n in enumerate(e['co'])), 0)
        if e['how'] == 0:
            self.m = m = Model(utility_ca=u, utility_co={2: v} if e['co'] else None, constraints=cs or None)
        else:
            self.m = m = Model()
            m.utility_ca = u
            if e['co']: m.utility_co[2] = v
            if e['how'] == 1 and cs: m.constraints = cs
            else:
                for c in cs: m.constraints.append(c)
        m.initialize_graph(alternative_codes=[1, 2, 3, 4])
        return self.done(e)
    def edit(self, e):
        m, ed = self.m, e['ed']
        if ed == 'ca_add':
            if e['how'] == 1: m.utility_ca = m.utility_ca + P(e['n']) * X.y
            elif e['how'] == 2: m.utility_ca.append(P(e['n']) * X.y)
            else: m.utility_ca += P(e['n']) * X.y
        elif ed == 'ca_del':
            for i, t in enumerate(m.utility_ca):
                if str(t.param) == e['n']:
                    del m.utility_ca[i]
                    break
        elif ed == 'co_add':
            if e['how'] == 1: m.utility_co[2] = m.utility_co[2] + P(e['n']) * X.y
            else: m.utility_co[2] += P(e['n']) * X.y
        elif ed == 'co_del':
            for i, t in enumerate(m.utility_co[2]):
                if str(t.param) == e['n']:
                    del m.utility_co[2][i]
                    break
        elif ed == 'nest': m.graph.add_node(e['code'], parameter=e['n'], children=[1, 2])
        elif ed == 'unnest': m.graph.remove_node(e['code'])
        elif ed == 'q_add': m.quantity_ca += P(e['n']) * X.y
        elif ed == 'q_clear': m.quantity_ca = None
        elif ed == 'qs': m.quantity_scale = e['n'] or None
        elif ed == 'lam':
            if e['n']: m.logsum_parameter = e['n']
            else: del m.logsum_parameter
        return self.done(e)
    def setv_(self, n, f, how=0):
        kw = {COL[k]: fl_(k, v) for k, v in f.items()}
        if how == 2 and 'value' in kw: self.m.set_value(n, kw.pop('value'), **kw)
        else: self.m.set_value(P(n) if how == 1 else n, **kw)
    def setv(self, e):
        self.setv_(e['n'], e['f'], e['how'])
        return self.done(e)
    def lock(self, e):
        m, note = self.m, e['note'] or None
        if e['how'] == 1:
            m.lock_values(*[x['n'] for x in e['ls'] if x['as'] == 'here'],
                          **{x['n']: 'null' if x['as'] == 'null' else fl(x['v']) for x in e['ls'] if x['as'] != 'here'}, note=note)
        else:
            for x in e['ls']:
                n = P(x['n']) if e['how'] == 2 else x['n']
                m.lock_value(n, {'here': lambda: m.get_value(n), 'null': lambda: 'null', 'val': lambda: fl(x['v'])}[x['as']](), note=note)
        return self.done(e)
    def vector(self, m):
        return [fl(m[n]) for n in self.m.pnames]
    def vals(self, e):
        m, a = self.m, e['as']
        kw = {n: fl(v) for n, v in mapping(e['kw']).items()}
        args, opt, err = [], {}, None
        if not e['resp']: opt['respect_holdfast'] = False
        if a in ('vec', 'list'):
            v = self.vector(mapping(e['m']))
            args = [numpy.array(v, dtype=float) if a == 'vec' else v]
        elif a in ('short', 'long'):
            v = self.vector(mapping(e['m']))
            args = [v + [1.0] if a == 'long' else v[1:]]
        elif a == 'scalar': args = [fl(e['v'])]
        elif a in ('null', 'init', 'initial', 'best'): args = [a]
        elif a == 'dict': args, kw = [kw], {}
        elif a == 'both':
            ks = sorted(kw)
            args, kw = [{k: kw[k] for k in ks[::2]}], {k: kw[k] for k in ks[1::2]}
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            try:
                if e['op'] == 'vals' and a == 'vec' and not opt and not kw: m.update_values(*args)
                else: m.set_values(*args, **opt, **kw)
            except Exception as x:
                err = x
        if err is None: o = self.done(e, warned=any(issubclass(w.category, ParameterNotInModelWarning) for w in ws))
        else: o = self.done(e)
        self.err = '' if err is None else type(err).__name__ + ': ' + str(err)[:80]
        return o
    def shift(self, e):
        m = self.m
        m.shift_values(fl(e['v']) if e['as'] == 'scalar' else numpy.array(self.vector(mapping(e['m']))))
        return self.done(e)
    def cap(self, e):
        self.m.set_cap(fl(e['v']))
        return self.done(e)
    def batch(self, e):
        with self.m.batch_update():
            for x in e['xs']: self.setv_(x['n'], x['f'])
        return self.done(e)
    def unused(self, e):
        self.m.remove_unused_parameters()
        return self.done(e)
    def psort(self, e):
        f = self.m.pf_sort()
        o = self.done(e)
        o['sorted'] = list(self.m.pnames) == sorted(f.index)
        return o
    def frame(self, e):
        f = self.m.pf.copy()
        for x in e['xs']:
            for k, v in x['f'].items(): f.loc[x['n'], COL[k]] = fl_(k, v)
        f = f.drop(index=list(e['drop']))
        self.m.set_frame(f)
        return self.done(e)
    def expr(self, e):
        m = self.m
        def ex(x):
            if x[0] == 'p': return P(x[1])
            if x[0] == 'k': return fl(x[1])
            a, b = ex(x[1]), ex(x[2])
            return a + b if x[0] == '+' else a - b if x[0] == '-' else a * b if x[0] == '*' else a / b
        r = []
        for x in e['xs']:
            y = ex(x)
            v = [m.pvalue(y), m.pvalue({'k': y})['k']]
            if not isinstance(y, (int, float)): v += [m.get_value(y), m.get_value({'j': y})['j']]
            if x[0] == 'p': v += [m.pvalue(x[1]), m.pvalue([x[1]])[x[1]]]
            r.append([fx(w) for w in v])
        o = self.done(e)
        o['xs'] = r
        return o
    def cats(self, e):
        import re
        m = self.m
        m.ordering = tuple(('C%d' % i,) + tuple('^' + re.escape(n) + '$' for n in ns) for i, ns in enumerate(e['cats'], 1))
        o = self.done(e)
        f = m.pfo()
        if e['cats']:
            o['cats'] = [dict(c=int(c[1:]) if c != 'Other' else 0, n=n, v=fx(v)) for (c, n), v in f['value'].items()]
        else:
            o['cats'] = [dict(c=0, n=n, v=fx(v)) for n, v in f['value'].items()]
        m.ordering = ()
        return o
    def cons(self, e):
        m, h = self.m, e['how']
        if h == 'append': m.constraints.append(constraint(e['c'], e['text']))
        elif h == 'insert':
            k = e['k'] - 1
            if e['neg'] and k < len(m.constraints): k -= len(m.constraints)
            m.constraints.insert(k, constraint(e['c'], e['text']))
        elif h == 'put':
            k = e['k'] - 1
            m.constraints[k - len(m.constraints) if e['neg'] else k] = constraint(e['c'], e['text'])
        elif h == 'del': del m.constraints[e['k'] - 1]
        elif h == 'set': m.constraints = [constraint(c) for c in e['cs']]
        elif h == 'clear': del m.constraints
        elif h == 'rescale': m.constraints.rescale(fl(e['v']), None if e['k'] == 0 else e['k'] - 1)
        return self.done(e)
    def eval(self, e):
        m = self.m
        names = list(m.pnames)
        x = numpy.array([fl(e['x'][n]) for n in names])
        old = m.pvals
        m.set_values(x, respect_holdfast=False)
        binding = m.get_all_binding_contraints()
        r = []
        for c in m.constraints:
            d = c.as_constraint_dicts()[0]
            scaled = lambda v: fx(v / 64)
            lin = all(bool(numpy.all(l.lb <= l.A @ x) and numpy.all(l.A @ x <= l.ub)) for l in c.as_linear_constraints())
            r.append(dict(fun=scaled(c.fun(x)), jac={n: scaled(v) for n, v in zip(names, c.jac(x))}, bind=bool(c.is_binding(x)),
                          listed=any(b is c for b in binding), lin=lin, dfun=scaled(d['fun'](x)),
                          djac={n: scaled(v) for n, v in zip(names, d['jac'](x))}, par=[str(p) for p in c.get_parameters()]))
        m.set_values(old, respect_holdfast=False)
        o = self.done(e)
        o['cons'] = r
        return o

def run(events):
    return run_session(events, Session)
