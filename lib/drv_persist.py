"""Drives several real models that are copied from one another through the behaviours of Persist.tla."""
import copy, os, pickle, shutil, tempfile, warnings
from drv_model import Session, run as run1, fl, fx, Model, P, X
from larch.model.constraints import RatioBound, OrderingBound, FixedBound
warnings.filterwarnings('ignore')

def text(x):
    return repr(x)

def num(v):
    return '%.9g' % v

def fingerprint(m):
    """what a user can read about the specification of a model, as text by field"""
    pf = m.pf
    g = m.graph
    d = {}
    d['title'] = str(m.title)
    d['frame'] = '; '.join('%s: %s' % (k, ' '.join('%s=%s' % (c, num(pf.loc[k, c]) if c != 'note' else str(pf.loc[k, c]))
                 for c in ('value', 'initvalue', 'nullvalue', 'minimum', 'maximum', 'holdfast', 'note'))) for k in sorted(pf.index))
    d['ca'] = text(m.utility_ca)
    d['co'] = '; '.join('%s: %r' % (k, m.utility_co[k]) for k in sorted(m.utility_co.keys()) if len(m.utility_co[k]))
    d['quantity'] = text(m.quantity_ca)
    d['scale'] = 'none' if m.quantity_scale is None else str(m.quantity_scale)
    d['nodes'] = '; '.join('%s: %s' % (n, ' '.join('%s=%s' % (a, g.nodes[n][a]) for a in sorted(g.nodes[n]))) for n in sorted(g.nodes))
    d['edges'] = '; '.join('%s-%s' % (u, v) for u, v in sorted(g.edges))
    d['roles'] = '; '.join('%s=%r' % (r, getattr(m, r)) for r in ('choice_ca_var', 'choice_co_vars', 'choice_co_code', 'choice_any',
                 'weight_co_var', 'availability_var', 'availability_co_vars', 'availability_any', 'logsum_parameter'))
    d['constraints'] = '; '.join(sorted(repr(c) for c in m.constraints))
    d['order'] = repr(list(g.standard_sort)) + ' ' + repr(m.ordering)
    return d

class One(Session):
    def __init__(self, e=None):
        super().__init__()

    def dress(self, e):
        m, k = self.m, e['k']
        if k == 'title': m.title = e['v']
        elif k == 'bounds': m.set_value(e['p'], minimum=fl(e['lo']), maximum=fl(e['hi']))
        elif k == 'init': m.set_value(e['p'], initvalue=fl(e['v']))
        elif k == 'note': m.set_value(e['p'], note=e['v'])
        elif k == 'role':
            n, v = e['n'], e['v']
            if n == 'availability_co_vars': v = {a: v for a in self.S['alts']}
            elif n == 'choice_co_vars': v = {a: v + '_%d' % a for a in self.S['alts']}
            setattr(m, n, v)
        elif k == 'alts': m.graph.suggest_elemental_order(e['v'])
        elif k == 'order': m.ordering = [('Group', *['^' + p + '$' for p in e['v']])]
        elif k == 'fixed': m.constraints.append(FixedBound(e['p'], minimum=fl(e['lo']), maximum=fl(e['hi'])))
        elif k == 'order_bound': m.constraints.append(OrderingBound(e['p'], e['q']))
        elif k == 'ratio':
            m.set_value(e['q'], minimum=0.001, maximum=90)     # (the bound needs to know the sign)
            m.constraints.append(RatioBound(e['p'], e['q'], min_ratio=fl(e['lo']), max_ratio=fl(e['hi'])))
        else: raise RuntimeError(k)
        return {}

    def data(self, e):
        if self.m.dataframes is None:      # (the data will have the alternatives in this order)
            self.m.graph.suggest_elemental_order(sorted(self.S['alts']))
        return super().data(e)

class Shelf:
    def __init__(self):
        self.at = {}
        self.err = ''

    def __getattr__(self, op):
        def go(e):
            return getattr(self.at[e['slot']], op)(e)
        return go

    def new(self, e):
        s = One()
        r = s.new(e)
        self.at[e['slot']] = s
        return r

    def look(self, e):
        s = self.at[e['slot']]
        return dict(fp=fingerprint(s.m), vals={k: fx(v) for k, v in s.m.pf.value.items()})

    def clone(self, e):
        a = self.at[e['slot']]
        before = fingerprint(a.m)
        self.at.pop(e['to'], None)
        b = One()
        b.S, b.D = copy.deepcopy(a.S), a.D
        b.m = self.copied(a.m, e['how'])
        self.at[e['to']] = b
        now = fingerprint(b.m)
        return dict(now=now, was=fingerprint(a.m), before=before,
                    vals={k: fx(v) for k, v in b.m.pf.value.items()})

    def copied(self, m, how):
        if how == 'pickle': return pickle.loads(pickle.dumps(m))
        if how == 'dumps': return pickle.loads(m.dumps())
        if how == 'copy': return m.copy()
        if how == 'deepcopy': return copy.deepcopy(m)
        if how == 'shallow': return copy.copy(m)
        if how == 'init': return Model(m)
        d = tempfile.mkdtemp(prefix='larchcheck')
        try:
            f = os.path.join(d, 'm.xlsx') if how == 'xlsx' else os.path.join(d, 'm.pkl')
            if how == 'xlsx':
                m.to_xlsx(f, nesting=False)
            else:
                with open(f, 'wb') as h:
                    h.write(m.dumps())
            return Model.load(f)
        finally:
            shutil.rmtree(d)

def run(events):
    return run1(events, Shelf)
