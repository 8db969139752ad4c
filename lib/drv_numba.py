"""Drives real models of larch.numba through the behaviours of Lifecycle: the data reach them as
DataFrames, as a dense Dataset, as a Dataset of idco tables, or as a sparse one."""
import os
os.environ.setdefault('NUMBA_NUM_THREADS', '2')
from drv_model import *
import drv_model
import larch.numba
from larch.numba import Model as NumbaModel, Dataset, DataTree
from larch.numba import DataArray

def tables(S, D):
    alts, ids = S['alts'], D['ids']
    co = pandas.DataFrame([[fl(v) for v in r] for r in D['co']], index=pandas.Index(ids, name='caseid'),
                          columns=['c%d' % (k + 1) for k in range(len(D['co'][0]))])
    ix = pandas.MultiIndex.from_product([ids, alts], names=['caseid', 'altid'])
    ca = pandas.DataFrame([[fl(v) for v in r] for case in D['ca'] for r in case], index=ix,
                          columns=['x%d' % (k + 1) for k in range(len(D['ca'][0][0]))])
    ca['av'] = [v for r in D['av'] for v in r]
    ca['chose'] = [fl(v) for r in D['ch'] for v in r]
    co['w'] = [fl(v) for v in D['wt']]
    return co.sort_index(), ca.sort_index()

class NumbaSession(Session):
    def case_order(self):
        return sorted(self.D['ids'])

    def feed(self, m, S, D, e):
        src = e['src']
        if src == 'frames':
            m.dataframes = data_frames(S, D)
            return
        co, ca = tables(S, D)
        if D['haswt']:
            m.weight_co_var = 'w'
        if src == 'idco':
            for a in sorted(S['alts']):
                co['ch_%d' % a] = ca['chose'].xs(a, level=1)
                co['av_%d' % a] = ca['av'].xs(a, level=1)
            m.choice_co_vars = {a: 'ch_%d' % a for a in S['alts']}
            m.availability_co_vars = {a: 'av_%d' % a for a in S['alts']}
            del ca['av'], ca['chose']
            ds = Dataset.construct.from_idca(ca, crack=e['crack'])
            ds = ds.merge(Dataset.construct.from_idco(co))
            ds.dc.CASEID = 'caseid'
            ds.dc.ALTID = 'altid'
        elif src == 'idca':
            m.choice_ca_var = 'chose'
            m.availability_var = 'av'
            ds = Dataset.construct.from_idca(ca, crack=e['crack'])
            ds = ds.merge(Dataset.construct.from_idco(co))
            ds.dc.CASEID = 'caseid'
            ds.dc.ALTID = 'altid'
        else:
            ca = ca.join(co, on='caseid')
            keep = (ca.av != 0) | (ca.chose != 0)
            if e['crack']:             # some rows of alternatives that are not available
                keep |= numpy.arange(len(ca)) % 3 == 0
            for i in D['ids']:
                if not keep.loc[[i]].any():
                    keep.loc[[i]] = True
            if keep.groupby(level=0).sum().max() < 2:
                keep.loc[[D['ids'][0]]] = True
            ca = ca[keep]
            ca['rowno'] = numpy.arange(len(ca), dtype=float)   # cracking must leave something to the rows
            m.choice_ca_var = 'chose'
            m.availability_var = '1' if (ca.av != 0).all() else 'av'
            ds = Dataset.construct.from_idce(ca, crack=True)
        m.datatree = ds

    def new(self, e):
        S, D = self.S, self.D = copy.deepcopy(e['S']), e['D']
        self.src = e['src']
        m = self.m = NumbaModel()
        m.utility_ca = linear(S['ca'], 'x')
        for a, ts in zip(S['alts'], S['co']):
            if ts:
                m.utility_co[a] = linear(ts, 'c')
        if S['q']:
            m.quantity_ca = sum((P(t['p']) * X('x%d' % t['x']) for t in S['q']), LinearFunction())
            if S['qs']:
                m.quantity_scale = P(S['qs'])
        self.feed(m, S, D, e)
        if len(S['nests']) > 1:
            build_graph(m, S)
        m.set_values(**{k: fl(v) for k, v in (e['V'] or {}).items()})
        for k in e['H']:
            m.lock_value(k, m.get_value(k))
        return self.frame()

    def data(self, e):
        self.D = e['D']
        self.feed(self.m, self.S, self.D, e)
        return self.frame()

    def threads(self, e):
        return {}

    def eval(self, e):
        m, via = self.m, e['via']
        kw = dict(start_case=e['start'] or None, stop_case=None if e['stop'] < 0 else e['stop'], step_case=None if e['step'] == 1 else e['step'])
        if all(v is None for v in kw.values()):
            kw = {}
        x = {k: fl(v) for k, v in (e['x'] or {}).items()}
        pos = [x] if x else []
        names = lambda: list(m.pf.index)
        vec = lambda a: dict(zip(names(), fxs(numpy.asarray(a))))
        mat = lambda a: dict(zip(names(), [dict(zip(names(), fxs(r))) for r in numpy.asarray(a)]))
        rows = lambda r: self.rows(e, r)
        alts = sorted(self.S['alts'])
        A = len(alts)
        o = {}
        if via == 'loglike':
            o['ll'] = fx(m.loglike(*pos, **kw))
        elif via == 'loglike2':
            r = m.loglike2(*pos, **kw)
            o['ll'] = fx(r.ll)
            o['dll'] = {k: fx(v) for k, v in r.dll.items()}
        elif via == 'd_loglike':
            o['dll'] = vec(m.d_loglike(*pos, **kw))
        elif via == 'd_loglike_series':
            o['dll'] = {k: fx(v) for k, v in m.d_loglike(*pos, return_series=True, **kw).items()}
        elif via == 'neg_loglike':
            o['ll'] = fx(-m.neg_loglike(*pos, **kw))
        elif via == 'bhhh':
            o['bhhh'] = mat(m.bhhh(*pos, **kw))
        elif via == 'bhhh_df':
            b = m.bhhh(*pos, return_dataframe=True, **kw)
            o['bhhh'] = {k: {j: fx(b.loc[k, j]) for j in b.columns} for k in b.index}
        elif via == 'loglike2_bhhh':
            r = m.loglike2_bhhh(*pos, **kw)
            o['ll'], o['dll'], o['bhhh'] = fx(r.ll), vec(r.dll), mat(r.bhhh)
        elif via == 'loglike2_bhhh_casewise':
            from larch.model import persist_flags as pfl
            r = m.loglike2_bhhh(*pos, persist=pfl.PERSIST_LOGLIKE_CASEWISE | pfl.PERSIST_D_LOGLIKE_CASEWISE, return_series=True, **kw)
            o['ll'] = fx(r.ll)
            o['dll'] = {k: fx(v) for k, v in r.dll.items()}
            o['bhhh'] = {k: {j: fx(r.bhhh.loc[k, j]) for j in r.bhhh.columns} for k in r.bhhh.index}
            o['cll'] = rows(fxs(r.ll_casewise))
            o['cdll'] = rows([dict(zip(names(), fxs(v))) for v in numpy.asarray(r.dll_casewise)])
        elif via == 'casewise':
            o['cll'] = rows(fxs(m.loglike_casewise(*pos, **kw)))
        elif via == 'd_casewise':
            o['cdll'] = rows([dict(zip(names(), fxs(v))) for v in m.d_loglike_casewise(*pos, **kw)])
        elif via == 'utility':
            o['u'] = rows(self.nodes_of(m.utility(*pos, **kw), m.graph.standard_sort))
        elif via == 'utility_df':
            u = m.utility(*pos, return_format='idco', **kw)
            o['u'] = self.by_label(e, self.nodes_of(u.values, u.columns), u.index)
        elif via == 'utility_array':
            u = m.utility(*pos, return_format='dataarray', **kw)
            o['u'] = self.by_label(e, self.nodes_of(u.values, list(u.coords['nodeid'].values)), list(u.coords[u.dims[0]].values))
        elif via == 'logsums':
            o['ls'] = rows(fxs(m.logsums(*pos, **kw)))
        elif via == 'logsums_arr':
            arr = numpy.full(self.D['n'], 77.0)
            m.logsums(*pos, arr=arr, **kw)
            stop = e['stop'] if e['stop'] >= 0 else self.D['n']
            o['ls'] = rows(fxs(arr[e['start']:stop:e['step']]))
        elif via == 'probability':
            o['p'] = rows(self.nodes_of(m.probability(*pos, **kw), alts))
        elif via == 'probability_nests':
            o['p'] = rows(self.nodes_of(m.probability(*pos, include_nests=True, **kw), m.graph.standard_sort))
        elif via == 'probability_df':
            p = m.probability(*pos, return_dataframe='idco', **kw)
            o['p'] = self.by_label(e, self.nodes_of(p.values, p.columns), p.index)
        elif via == 'probability_idca':
            p = m.probability(*pos, return_dataframe='idca', **kw).unstack()
            o['p'] = self.by_label(e, self.nodes_of(p.values, p.columns), p.index)
        else:
            raise RuntimeError('via ' + via)
        o['vals'] = {k: fx(v) for k, v in m.pf.value.items()}
        return o

def run(events, session=NumbaSession):
    return drv_model.run(events, session)
