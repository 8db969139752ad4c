"""Drives real larch models through the behaviours that Lifecycle.tla generates, and
records what they report.  No expected value is computed here."""
import sys, json, copy, warnings
warnings.filterwarnings('ignore')
import numpy, pandas
import logging
logging.disable(logging.CRITICAL)
import larch
from larch import Model, P, X, DataFrames
from larch.roles import LinearFunction
from fx import fx, fxs, fxm, fl

def term(t, data):
    r = P(t['p'])
    if t['x'] != 0:
        r = r * X(data + str(t['x']))
    if t['s'] != 1000000:
        r = r * fl(t['s'])
    return r

def linear(ts, data):
    f = LinearFunction()
    for t in ts:
        f = f + term(t, data)
    return f

def data_frames(S, D, **kw):
    alts, n, ids = S['alts'], D['n'], D['ids']
    A = len(alts)
    co = pandas.DataFrame([[fl(v) for v in r] for r in D['co']], index=pandas.Index(ids, name='caseid'),
                          columns=['c%d' % (k + 1) for k in range(len(D['co'][0]))])
    ix = pandas.MultiIndex.from_product([ids, alts], names=['caseid', 'altid'])
    ca = pandas.DataFrame([[fl(v) for v in r] for case in D['ca'] for r in case], index=ix,
                          columns=['x%d' % (k + 1) for k in range(len(D['ca'][0][0]))])
    av = pandas.DataFrame(D['av'], index=co.index, columns=alts)
    ch = pandas.DataFrame([[fl(v) for v in r] for r in D['ch']], index=co.index, columns=alts)
    wt = pandas.DataFrame({'w': [fl(v) for v in D['wt']]}, index=co.index) if D['haswt'] else None
    co, ca, av, ch = co.sort_index(), ca.sort_index(), av.sort_index()[sorted(alts)], ch.sort_index()[sorted(alts)]
    if wt is not None:
        wt = wt.sort_index()
    alts = sorted(alts)
    dfs = DataFrames(co=co, ca=ca, av=av, ch=ch, wt=wt, alt_codes=alts,
                     alt_names=['a%d' % a for a in alts], **kw)
    if D['norm'] != 1000000:
        dfs.weight_normalization = fl(D['norm'])
    return dfs

def build_graph(m, S):
    """Add the nests of S to the graph of the model (the alternatives are there)."""
    A = len(S['alts'])
    code = lambda i: S['alts'][i - 1] if i <= A else S['nests'][i - A - 1]['code']
    g = m.graph
    for nest in S['nests'][:-1]:
        g.new_node(code=nest['code'], parameter=nest['p'], children=[code(i) for i in nest['ch']], name='n%d' % nest['code'])
    nonroot = set(i for nest in S['nests'][:-1] for i in nest['ch'])
    for i in S['nests'][-1]['ch']:
        if i in nonroot:
            g.add_edge(S['nests'][-1]['code'], code(i))

def edit_model(m, S, e):
    """one edit through the public interface, in one of several spellings (how)"""
    ed, h = e['ed'], e['how']
    code = lambda a: S['alts'][a - 1]
    lin = lambda ts, d: linear(ts, d)
    comp = lambda t, d: list(linear([t], d))[0]
    if ed == 'ca_set':
        if h == 1: m.utility_ca = list(lin(e['ts'], 'x'))
        elif h == 2:
            m.utility_ca = 0 if False else lin(e['ts'][:1], 'x')
            for t in e['ts'][1:]: m.utility_ca += term(t, 'x')
        else: m.utility_ca = lin(e['ts'], 'x')
    elif ed == 'ca_add':
        if h == 0: m.utility_ca += term(e['t'], 'x')
        elif h == 1: m.utility_ca.append(comp(e['t'], 'x'))
        elif h == 2: m.utility_ca.extend([comp(e['t'], 'x')])
        elif h == 3: m.utility_ca = m.utility_ca + term(e['t'], 'x')
        else:
            f = m.utility_ca
            f += lin([e['t']], 'x')
    elif ed == 'ca_ins': m.utility_ca.insert(e['k'] - 1, comp(e['t'], 'x'))
    elif ed == 'ca_put': m.utility_ca[e['k'] - 1] = comp(e['t'], 'x')
    elif ed == 'ca_del':
        if h == 1: m.utility_ca = [t for i, t in enumerate(m.utility_ca) if i != e['k'] - 1]
        else: del m.utility_ca[e['k'] - 1]
    elif ed == 'ca_rmp': m.utility_ca.remove_param(e['p'])
    elif ed == 'ca_rmx': m.utility_ca.remove_data('x%d' % e['x'])
    elif ed == 'ca_clear':
        if h == 0: del m.utility_ca
        elif h == 1: m.utility_ca = None
        elif h == 2: m.utility_ca = []
        else: m.utility_ca = ()
    elif ed == 'co_set':
        if h == 1: m.utility_co[code(e['a'])] = list(lin(e['ts'], 'c'))
        else: m.utility_co[code(e['a'])] = lin(e['ts'], 'c')
    elif ed == 'co_add':
        a = code(e['a'])
        if h == 0: m.utility_co[a] += term(e['t'], 'c')
        elif h == 1: m.utility_co[a].append(comp(e['t'], 'c'))
        elif h == 2: m.utility_co[a].extend([comp(e['t'], 'c')])
        elif h == 3: m.utility_co[a] = m.utility_co[a] + term(e['t'], 'c')
        else:
            f = m.utility_co[a]
            f += lin([e['t']], 'c')
    elif ed == 'co_ins': m.utility_co[code(e['a'])].insert(e['k'] - 1, comp(e['t'], 'c'))
    elif ed == 'co_put': m.utility_co[code(e['a'])][e['k'] - 1] = comp(e['t'], 'c')
    elif ed == 'co_cut':
        if h == 1:
            a = code(e['a'])
            m.utility_co[a] = [t for i, t in enumerate(m.utility_co[a]) if i != e['k'] - 1]
        else: del m.utility_co[code(e['a'])][e['k'] - 1]
    elif ed == 'co_del':
        a = code(e['a'])
        if h == 0 and a in m.utility_co: del m.utility_co[a]
        elif h == 1: m.utility_co[a] = 0
        elif h == 2: m.utility_co[a] = LinearFunction()
        elif h == 3:
            while len(m.utility_co[a]): del m.utility_co[a][0]
        else: m.utility_co[a] = []
    elif ed == 'co_rmp': m.utility_co[code(e['a'])].remove_param(e['p'])
    elif ed == 'co_rmx': m.utility_co[code(e['a'])].remove_data('c%d' % e['x'] if e['x'] else '1')
    elif ed == 'co_clear':
        if h == 0: del m.utility_co
        elif h == 1: m.utility_co = None
        elif h == 2:
            for a in list(m.utility_co.keys()): del m.utility_co[a]
        else: m.utility_co = {}
    elif ed == 'co_all':
        d = {code(a + 1): lin(ts, 'c') for a, ts in enumerate(e['co']) if ts}
        if h == 0:
            for a in S['alts']: m.utility_co[a] = d.get(a, 0)
        else: m.utility_co = d
    elif ed == 'q_set':
        f = sum((P(t['p']) * X('x%d' % t['x']) for t in e['q']), LinearFunction())
        m.quantity_ca = list(f) if h == 1 else f
    elif ed == 'q_add':
        t = P(e['t']['p']) * X('x%d' % e['t']['x'])
        if h == 0: m.quantity_ca += t
        elif h == 1: m.quantity_ca.append(list(LinearFunction() + t)[0])
        else: m.quantity_ca = m.quantity_ca + t
    elif ed in ('q_ins', 'q_put'):
        t = list(LinearFunction() + P(e['t']['p']) * X('x%d' % e['t']['x']))[0]
        if ed == 'q_ins': m.quantity_ca.insert(e['k'] - 1, t)
        else: m.quantity_ca[e['k'] - 1] = t
    elif ed == 'q_del': del m.quantity_ca[e['k'] - 1]
    elif ed == 'q_rmp': m.quantity_ca.remove_param(e['p'])
    elif ed == 'q_clear':
        if h == 0: del m.quantity_ca
        else: m.quantity_ca = None
    elif ed == 'qs_set': m.quantity_scale = P(e['p']) if h == 1 else e['p']
    elif ed == 'qs_clear':
        if h == 0: del m.quantity_scale
        else: m.quantity_scale = None
    else:
        A = len(S['alts'])
        node = lambda i: S['alts'][i - 1] if i <= A else S['nests'][i - A - 1]['code']
        g = m.graph
        if ed == 'nest_add':
            ch = [node(i) for i in e['ch']]
            if h == 0: g.new_node(code=e['code'], parameter=e['p'], children=ch, name='n%d' % e['code'])
            elif h == 1: g.add_node(e['code'], parameter=e['p'], children=ch, parent=g.root_id)
            elif h == 2:
                g.add_node(e['code'], parameter=e['p'])
                for c in ch:
                    g.add_edge(e['code'], c)
            else: g.add_node(e['code'], parameter=e['p'], children=ch)
            for c in ch:       # (the children may have explicit links to the root)
                if (g.root_id, c) in g.edges:
                    g.remove_edge(g.root_id, c)
        elif ed == 'nest_del': g.remove_node(e['code'])
        elif ed == 'nest_par':
            g.add_node(e['code'], parameter=e['p'])
        elif ed == 'nest_move':
            if h == 0:
                g.add_edge(e['to'], node(e['i']))
                if (e['from'], node(e['i'])) in g.edges:
                    g.remove_edge(e['from'], node(e['i']))
            else:
                g.remove_edge(e['from'], node(e['i']))
                g.add_edge(e['to'], node(e['i']))
        elif ed == 'nest_clear':
            if h == 0: m.graph = None
            elif h == 1:
                m.initialize_graph()
            else:
                for n in list(S['nests'][:-1]):
                    g.remove_node(n['code'])
        else:
            raise RuntimeError('edit ' + ed)
    apply_edit(S, e)

def apply_edit(S, e):
    """keeps the positions of nests, which later edits name"""
    A = len(S['alts'])
    ed = e['ed']
    if ed == 'nest_add':
        rt = S['nests'][-1]
        pos = A + len(S['nests'])
        S['nests'][-1:] = [dict(code=e['code'], p=e['p'], ch=e['ch']),
                           dict(rt, ch=[i for i in rt['ch'] if i not in e['ch']] + [pos])]
    elif ed == 'nest_del':
        m = [n['code'] for n in S['nests']].index(e['code'])
        pos = A + m + 1
        old = S['nests'].pop(m)
        for n in S['nests']:
            if pos in n['ch']:
                n['ch'] = [i for i in n['ch'] if i != pos]
                n['ch'] += [i for i in old['ch'] if i not in n['ch']]
            n['ch'] = [i - 1 if i > pos else i for i in n['ch']]
    elif ed == 'nest_move':
        for n in S['nests']:
            if n['code'] == e['from']: n['ch'] = [i for i in n['ch'] if i != e['i']]
            elif n['code'] == e['to']: n['ch'] = n['ch'] + [e['i']]
    elif ed == 'nest_clear':
        S['nests'] = [dict(code=0, p='', ch=list(range(1, A + 1)))]

WIDE = 2000 * 10**6                             # a limit that is none

class Session:
    def __init__(self):
        self.m = None

    # -- positions ------------------------------------------------------
    def node_codes(self):
        A = len(self.S['alts'])
        return self.S['alts'] + [n['code'] for n in self.S['nests']]

    def nodes_of(self, arr, cols):
        """rows of values in the order of the specification's nodes, for those in cols"""
        cols = list(cols)
        pos = [cols.index(c) for c in self.node_codes() if c in cols]
        return [[fx(r[p]) for p in pos] for r in arr]

    def case_order(self):
        return list(self.m.dataframes.caseindex)

    def by_case(self, rows, cases=None):
        """reorder rows (one for each case in the order of the data collection)"""
        order = list(self.case_order() if cases is None else cases)
        assert len(order) == len(rows), 'number of rows'
        return [rows[order.index(i)] for i in self.D['ids'] if i in order]

    # -- operations ------------------------------------------------------
    def new(self, e):
        S, D = self.S, self.D = copy.deepcopy(e['S']), e['D']
        m = self.m = Model()
        m.n_threads = e.get('threads', 2)
        m.utility_ca = linear(S['ca'], 'x')
        for a, ts in zip(S['alts'], S['co']):
            if ts:
                m.utility_co[a] = linear(ts, 'c')
        if S['q']:
            m.quantity_ca = sum((P(t['p']) * X('x%d' % t['x']) for t in S['q']), LinearFunction())
            if S['qs']:
                m.quantity_scale = P(S['qs'])
        m.dataframes = data_frames(S, D)
        if len(S['nests']) > 1:
            build_graph(m, S)
        m.set_values(**{k: fl(v) for k, v in (e['V'] or {}).items()})
        for k in e['H']:
            m.lock_value(k, m.get_value(k))
        return self.frame()

    def frame(self):
        pf = self.m.pf
        return dict(names=sorted(pf.index), vals={k: fx(v) for k, v in pf.value.items()})

    def set(self, e):
        vals = {k: fl(v) for k, v in (e['v'] or {}).items()}
        if e['how'] == 'kw':
            self.m.set_values(**vals)
        elif e['how'] == 'dict':
            self.m.set_values(vals)
        elif e['how'] == 'vec':
            cur = self.m.pf.value.copy()
            for k, v in vals.items():
                cur[k] = v
            self.m.set_values(cur.values)
        else:
            for k, v in vals.items():
                self.m.set_value(k, v)
        return self.frame()

    def nullv(self, e):
        for k, v in e['v'].items():
            self.m.set_value(k, nullvalue=fl(v))
        return self.frame()

    def lock(self, e):
        for k, v in e['v'].items():
            self.m.lock_value(k, fl(v))
        return self.frame()

    def hold(self, e):
        self.m.set_value(e['p'], holdfast=1 if e['on'] else 0)
        return self.frame()

    def limits(self):
        pf = self.m.pf
        return dict(self.frame(), limits={k: [fx(pf.minimum[k]), fx(pf.maximum[k])] for k in pf.index})

    def bound(self, e):
        for k, (lo, hi) in (e['v'] or {}).items():
            self.m.set_value(k, minimum=fl(lo) if lo > -WIDE else -numpy.inf, maximum=fl(hi) if hi < WIDE else numpy.inf)
        return self.limits()

    def cap(self, e):
        self.m.set_cap(fl(e['c']))
        return self.limits()

    def est(self, e):
        m = self.m
        kw = {} if e['method'] == 'default' else dict(method=e['method'])
        cv = {} if e['sub'] < 0 else dict(leave_out=e['leave'], keep_only=e['keep'], subsample=e['sub'])
        try:
            r = m.maximize_loglike(quiet=True, maxiter=e['maxiter'], **kw, **cv)
        except Exception as err:
            self.err = type(err).__name__ + ': ' + str(err)[:80]
            # a search that leaves the range of floating point numbers says so
            return dict(self.frame(), lost='nonfinite' in str(err) or 'NaN' in str(err))
        o = dict(ll=fx(r['loglike']), x={k: fx(v) for k, v in r['x'].items()}, vals={k: fx(v) for k, v in m.pf.value.items()})
        if 'd_loglike' in r:
            o['dll'] = {k: fx(v) for k, v in r['d_loglike'].items()}
        msg = str(r.get('message', ''))
        o['bhhh'] = r['method'] == 'bhhh'
        o['conv'] = bool(r.get('success', False)) or msg == 'Optimization terminated successfully.'
        o['msg'] = msg[:60]
        o['again'] = fx(m.loglike(**cv))
        return o

    def data(self, e):
        self.D = e['D']
        self.m.dataframes = data_frames(self.S, self.D)
        return self.frame()

    def purge(self, e):
        self.m.remove_unused_parameters(verbose=False)
        return self.frame()

    def edit(self, e):
        edit_model(self.m, self.S, e)
        return self.frame() if e['look'] else {}

    def stat(self, e):
        m, w = self.m, e['which']
        o = {}
        x = {k: fl(v) for k, v in (e['x'] or {}).items()}
        pos = [x] if x else []
        def rho(f):
            try:
                return fx(f(*pos))
            except ZeroDivisionError:      # nothing is left to chance in these data
                return fx(float('nan'))
        if w == 'null':
            o['ll'] = fx(m.loglike_null())
        elif w == 'nil':
            o['ll'] = fx(m.loglike_nil())
        elif w == 'const':
            o['ll'] = fx(m.loglike_constants_only())
        elif w == 'rho_null':
            o['ll'] = rho(m.rho_sq_null)
        elif w == 'rho_nil':
            o['ll'] = rho(m.rho_sq_nil)
        elif w == 'best':
            best = m._get_cached_loglike_values()['best']
            o['has'] = bool(numpy.isfinite(best))
            o['ll'] = fx(best)
            o['at'] = {k: fx(v) for k, v in m.pf['best'].items()} if o['has'] else {}
        elif w == 'set_best':
            m.set_values('best')
        elif w == 'set_null':
            m.set_values('null')
        o['vals'] = {k: fx(v) for k, v in m.pf.value.items()}
        return o

    def threads(self, e):
        self.m.n_threads = e['n']
        return {}

    def eval(self, e):
        m, via = self.m, e['via']
        kw = dict(start_case=e['start'], stop_case=e['stop'], step_case=e['step'])
        cv = dict(leave_out=e['leave'], keep_only=e['keep'], subsample=e['sub'])
        if e['start'] == 0 and e['stop'] == -1 and e['step'] == 1:
            kw = {}
        if e['leave'] < 0 and e['keep'] < 0:
            cv = {}
        x = {k: fl(v) for k, v in (e['x'] or {}).items()}
        x = e['xhow'] if e['xhow'] != 'dict' else (x or None)
        pos = [] if x is None else [x]
        names = lambda: list(m.pf.index)
        vec = lambda a: dict(zip(names(), fxs(numpy.asarray(a))))
        mat = lambda a: dict(zip(names(), [dict(zip(names(), fxs(r))) for r in numpy.asarray(a)]))
        o = {}
        if via == 'loglike':
            o['ll'] = fx(m.loglike(*pos, **kw, **cv))
        elif via == 'neg_loglike':
            o['ll'] = fx(-m.neg_loglike(*pos, **kw, **cv))
        elif via == 'loglike2':
            r = m.loglike2(*pos, **kw, **cv)
            o['ll'] = fx(r.ll)
            o['dll'] = vec(r.dll)
        elif via == 'd_loglike':
            o['dll'] = vec(m.d_loglike(*pos, **kw, **cv))
        elif via == 'neg_d_loglike':
            o['dll'] = vec(-numpy.asarray(m.neg_d_loglike(*pos, **kw, **cv)))
        elif via == 'loglike2_bhhh':
            r = m.loglike2_bhhh(*pos, **kw, **cv)
            o['ll'] = fx(r.ll)
            o['dll'] = vec(r.dll)
            o['bhhh'] = mat(r.bhhh)
        elif via == 'bhhh':
            o['bhhh'] = mat(m.bhhh(*pos))
        elif via == 'casewise':
            from larch.model import persist_flags as pfl
            flags = 0
            for nm in ('PERSIST_LOGLIKE_CASEWISE', 'PERSIST_D_LOGLIKE_CASEWISE'):
                flags |= getattr(pfl, nm)
            r = m.loglike2(*pos, persist=flags, **kw)
            o['ll'] = fx(r.ll)
            o['cll'] = self.rows(e, fxs(r.ll_casewise))
            dl = r.dll_casewise
            o['cdll'] = self.rows(e, [dict(zip(names(), fxs(v))) for v in numpy.asarray(dl)])
        elif via == 'utility':
            u = m.utility(*pos)
            cols = m.dataframes.alternative_codes() if m.is_mnl() else m.graph.standard_sort
            o['u'] = self.by_case(self.nodes_of(u, cols))
        elif via == 'utility_df':
            u = m.utility(*pos, return_dataframe=True)
            o['u'] = self.by_case(self.nodes_of(u.values, u.columns), u.index)
        elif via == 'logsums':
            o['ls'] = self.by_case(fxs(m.logsums(*pos)))
        elif via == 'probability':
            p = m.probability(*pos, **kw)
            o['p'] = self.rows(e, self.nodes_of(p, m.dataframes.alternative_codes()))
        elif via == 'probability_nests':
            p = m.probability(*pos, include_nests=True, **kw)
            cols = m.dataframes.alternative_codes() if m.is_mnl() else m.graph.standard_sort
            o['p'] = self.rows(e, self.nodes_of(p, cols))
        elif via == 'probability_df':
            p = m.probability(*pos, return_dataframe='idco', **kw)
            o['p'] = self.by_label(e, self.nodes_of(p.values, p.columns), p.index)
        elif via == 'probability_names':
            p = m.probability(*pos, return_dataframe='names', **kw)
            o['p'] = self.by_label(e, self.nodes_of(p.values, [int(c[1:]) for c in p.columns]), p.index)
        elif via == 'probability_idca':
            p = m.probability(*pos, return_dataframe='idca').unstack()
            o['p'] = self.by_case(self.nodes_of(p.values, p.columns), p.index)
        elif via == 'probability_idce':
            p = m.probability(*pos, return_dataframe='idce')
            o['ce'] = {'%d' % (self.D['ids'].index(c) + 1): {} for c in self.D['ids']}
            for (c, a), v in p.items():
                o['ce']['%d' % (self.D['ids'].index(c) + 1)]['%d' % (self.S['alts'].index(a) + 1)] = fx(v)
        elif via == 'd_probability':
            dp = m.d_probability(*pos)
            cols = list(m.graph.standard_sort)
            o['dp'] = self.by_case([[dict(zip(names(), fxs(case[cols.index(c)]))) for c in self.S['alts']] for case in dp])
        else:
            raise RuntimeError('via ' + via)
        o['vals'] = {k: fx(v) for k, v in m.pf.value.items()}
        return o

    def rows(self, e, rows):
        """positional rows of a slice of the cases, as pairs of case number (of the scenario) and value"""
        n = self.D['n']
        stop = e['stop'] if e['stop'] >= 0 else n
        order = self.case_order()[e['start']:stop:e['step']]
        assert len(order) == len(rows), 'number of rows'
        return [rows[order.index(i)] for i in self.D['ids'] if i in order]

    def by_label(self, e, rows, index):
        n = self.D['n']
        stop = e['stop'] if e['stop'] >= 0 else n
        want = self.case_order()[e['start']:stop:e['step']]
        assert sorted(want) == sorted(index), 'labels of the rows'
        index = list(index)
        return [rows[index.index(i)] for i in self.D['ids'] if i in want]

EXC = (Exception,)

def run(events, session=Session):
    """events of one behaviour -> events with observations"""
    s = session()
    out = []
    dead = False
    for e in events:
        e = dict(e)
        if dead:
            break
        s.err = ''                             # an operation may report an error and still show what it left behind
        try:
            e['obs'] = getattr(s, e['op'])(e)
            e['err'] = s.err
        except EXC as x:
            import os
            if os.environ.get('VERIF_DEBUG'):
                import traceback; traceback.print_exc()
            e['obs'] = {}
            e['err'] = type(x).__name__ + ': ' + str(x)[:80].replace('"', "'").replace('\\', '/')
            e['err'] = e['err'].encode('ascii', 'replace').decode().replace('\n', ' ')
            if e['op'] == 'new':
                dead = True
        out.append(e)
    return out
