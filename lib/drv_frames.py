"""Builds larch DataFrames from the tables of Frames.tla and reads them back, by label and by position."""
import warnings, os, shutil, tempfile
warnings.filterwarnings('ignore')
import logging
import numpy, pandas
from fx import fx, fl, fxs, fxm
logging.disable(logging.CRITICAL)
import larch
from larch import DataFrames, P, X
from larch.dataframes import DataFrames as DF
from drv_model import run as run_session

def fls(v):
    return [fl(i) for i in v]

def text(x):
    k = x[0]
    if k == 'n': return x[1]
    if k == 'k':
        v = fl(x[1])
        return repr(int(v) if v == int(v) else v)
    return f'{text(x[1])} {k} {text(x[2])}'

def wide(f):
    """rows of [case, values] under given columns"""
    return pandas.DataFrame([list(r[1]) for r in f['rows']], index=[r[0] for r in f['rows']], columns=f['cols'])

def multi(pairs, lev=None, how=0):
    if lev is not None and how % 2 == 1 and pairs:
        cs = sorted({p[0] for p in pairs}, reverse=how == 3)
        al = sorted(lev, reverse=how == 3)
        return pandas.MultiIndex(levels=[cs, al], codes=[[cs.index(p[0]) for p in pairs], [al.index(p[1]) for p in pairs]], names=['c', 'a'])
    m = pandas.MultiIndex.from_tuples([tuple(p) for p in pairs], names=['c', 'a'])
    if lev is not None and list(m.levels[1]) != list(lev) and pairs:
        m = pandas.MultiIndex(levels=[m.levels[0], list(lev)], codes=[m.codes[0], [list(lev).index(p[1]) for p in pairs]], names=['c', 'a'])
    return m

def ints(s):
    return [int(i) for i in s]

def look(d):
    cases = [] if d.caseindex is None else ints(d.caseindex)
    alts = [] if d.alternative_codes() is None else ints(d.alternative_codes())
    o = dict(cases=cases, alts=alts, n=int(d.n_cases), na=int(d.n_alts), norm=fx(d.weight_normalization))
    nm = d.alternative_names()
    o['names'] = [] if nm is None else [str(n) for n in nm]
    off = dict(on=False)
    lab = lambda df, rows, cols: [fxs(df.loc[r, c] for c in cols) for r in rows]
    co = d.data_co
    if co is None or len(co.columns) == 0: o['co'] = off
    else:
        cols = list(co.columns)
        o['co'] = dict(on=True, cols=[str(c) for c in cols], lab=lab(co, cases, cols), pos=fxm(d.array_co()))
    x = d.data_ca_or_ce
    if x is None: o['x'] = off
    else:
        ce = d.data_ce is not None
        cols = list(x.columns)
        rows = [[int(i[0]), int(i[1]), fxs(v)] for i, v in zip(x.index, x.values)]
        if ce:
            arr, rm = d.array_ce(), numpy.asarray(d.array_ce_reversemap)
            at = lambda i, j: rm[i, j] if i < rm.shape[0] and j < rm.shape[1] else -1
            pos = [[fxs(arr[at(i, j)]) if at(i, j) >= 0 else [] for j in range(len(alts))] for i in range(len(cases))]
        else:
            pos = [[fxs(v) for v in r] for r in d.array_ca()]
        o['x'] = dict(on=True, kind='ce' if ce else 'ca', cols=[str(c) for c in cols], lab=rows, pos=pos)
    for n, g in (('av', lambda v: int(v)), ('ch', fx)):
        df = getattr(d, 'data_' + n)
        if df is None: o[n] = off
        else: o[n] = dict(on=True, lab=[[g(df.loc[c, a]) for a in alts] for c in cases], pos=[[g(v) for v in r] for r in getattr(d, 'array_' + n)()])
    wt = d.data_wt
    if wt is None: o['wt'] = off
    else: o['wt'] = dict(on=True, lab=[fx(wt.loc[c].iloc[0]) for c in cases], pos=[fx(v) for v in d.array_wt().reshape(-1)])
    return o

class Session:
    def __init__(self):
        self.d = {}
        self.tmp = None
    def make(self, e):
        kw = {}
        args = []
        how = e['how']
        x = e['x']
        if e['co']['cols']:
            kw['co' if how != 2 else 'data_co'] = pandas.DataFrame([fls(r[1]) for r in e['co']['rows']], index=[r[0] for r in e['co']['rows']], columns=e['co']['cols'])
        xi = None
        if x['k'] != 'none':
            xi = multi([r[:2] for r in x['rows']], e['lev'], how)
            df = pandas.DataFrame([fls(r[2]) for r in x['rows']], index=xi, columns=x['cols'])
            if x['k'] == 'pos': args = [df]
            else: kw[x['k']] = df
        ch = e['ch']
        if ch['k'] == 'wide': kw['ch'] = wide(dict(cols=ch['cols'], rows=[[r[0], fls(r[1])] for r in ch['rows']]))
        elif ch['k'] in ('tall', 'frame'):
            s = pandas.Series(fls(r[2] for r in ch['rows']), index=multi([r[:2] for r in ch['rows']]), name='picked')
            kw['ch'] = s if ch['k'] == 'tall' else s.to_frame()
        elif ch['k'] == 'array': kw['ch_as_ce'] = numpy.array(fls(r[2] for r in ch['rows']))
        elif ch['k'] in ('xname', 'coname'): kw['ch' if how % 2 else 'ch_name'] = ch['n']
        elif ch['k'] == 'codes': kw['ch'] = pandas.Series([r[1] for r in ch['rows']], index=[r[0] for r in ch['rows']])
        av = e['av']
        if av['k'] == 'wide': kw['av'] = wide(av)
        elif av['k'] in ('tall', 'frame'):
            s = pandas.Series([r[2] for r in av['rows']], index=multi([r[:2] for r in av['rows']]), name='open')
            kw['av'] = s if av['k'] == 'tall' else s.to_frame()
        elif av['k'] == 'array': kw['av_as_ce'] = numpy.array([r[2] for r in av['rows']])
        elif av['k'] == 'true': kw['av'] = True if how % 2 else 1
        elif av['k'] == 'dict': kw['av'] = {r[0]: text(r[1]) for r in av['d']}
        elif av['k'] == 'xname': kw['av'] = av['n']
        wt = e['wt']
        if wt['k'] in ('series', 'frame'):
            s = pandas.Series(fls(r[1] for r in wt['rows']), index=[r[0] for r in wt['rows']], name='w')
            kw['wt'] = s if wt['k'] == 'series' else s.to_frame()
        elif wt['k'] in ('coname', 'xname'): kw['wt' if how % 2 else 'wt_name'] = wt['n']
        if e['codes']: kw['alt_codes'] = e['codes']
        if e['names']: kw['alt_names'] = e['names']
        if e['comp']: kw['computational'] = True
        self.d[e['t']] = d = DataFrames(*args, **kw)
        return look(d)
    def look(self, e):
        return look(self.d[e['t']])
    def derived(self, e, d):
        self.d[e['to']] = d
        o = look(d)
        o['was'] = look(self.d[e['t']])
        return o
    def select(self, e):
        return self.derived(e, self.d[e['t']].selector_co(text(e['x'])))
    def prep(self, e):
        q = e['q']
        req = {}
        for k in ('co', 'ca'):
            if q[k]: req[k] = {v['n']: text(v['x']) for v in q[k]}
        ch = q['ch']
        if ch['k'] == 'any': req['choice_any'] = True
        elif ch['k'] == 'code': req['choice_co_code'] = ch['n']
        elif ch['k'] == 'ca': req['choice_ca'] = text(ch['x'])
        elif ch['k'] == 'co': req['choice_co'] = {r[0]: text(r[1]) for r in ch['d']}
        d = self.d[e['t']]
        if d.data_ch is None and ch['k'] == 'any': del req['choice_any']
        av = q['av']
        if av['k'] == 'any': 
            if d.data_av is not None: req['avail_any'] = True
        elif av['k'] == 'ca': req['avail_ca'] = text(av['x'])
        elif av['k'] == 'co': req['avail_co'] = {r[0]: text(r[1]) for r in av['d']}
        if q['wt']['k'] == 'co': req['weight_co'] = text(q['wt']['x'])
        # the names of a request are the expressions, its columns are in their order
        for k in ('co', 'ca'):
            if q[k]: req[k] = list(req[k].values())
        r = d.make_dataframes(req)
        return self.derived(e, r)
    def part(self, e):
        w = e['w']
        even = len(set(w)) == 1 and e['even']
        numpy.random.seed(len(w) * 7 + len(self.d))
        ps = self.d[e['t']].split(len(w) if even else w, method=e['how'])
        for n, p in zip(e['to'], ps): self.d[n] = p
        return dict(parts=[look(p) for p in ps], was=look(self.d[e['t']]))
    def store(self, e):
        d = self.d[e['t']]
        tmp = tempfile.mkdtemp(prefix='frames')
        try:
            if e['how'] == 'dump':
                d.dump(os.path.join(tmp, 'x.df'))
                r = DF.load(os.path.join(tmp, 'x.df'))
            else:
                d.to_feathers(os.path.join(tmp, 'x'))
                r = DF.from_feathers(os.path.join(tmp, 'x'))
            return self.derived(e, r)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    def scale(self, e):
        self.d[e['t']].scale_weights(fl(e['v']))
        return look(self.d[e['t']])
    def auto(self, e):
        self.d[e['t']].autoscale_weights()
        return look(self.d[e['t']])
    def unscale(self, e):
        self.d[e['t']].unscale_weights()
        return look(self.d[e['t']])
    def summary(self, e):
        d = self.d[e['t']]
        o = dict(err='')
        r = d.choice_avail_summary()
        for c in r.columns:
            if c == 'name': continue
            try:
                o[str(c)] = [fx(r.loc[a, c]) for a in d.alternative_codes()]
            except KeyError as x:
                o['err'] = 'rows'
        return o
    def conv(self, e):
        d = self.d[e['t']]
        o = dict(kind='ce' if d.data_ce is not None else 'ca', failed=[])
        def rows(df): return [[int(i[0]), int(i[1]), fxs(v)] for i, v in zip(df.index, df.values)]
        def one(df): return [[int(i[0]), int(i[1]), fx(v)] for i, v in zip(df.index, df.values.reshape(len(df)))]
        def attempt(n, f):
            try: o[n] = f()
            except Exception as x:
                if os.environ.get('VERIF_DEBUG'):
                    import traceback; traceback.print_exc()
                o['failed'].append(n + ': ' + type(x).__name__)
        sparse = d.data_ce is not None
        tab = lambda df: dict(cols=[str(c) for c in df.columns], rows=rows(df))
        if d.data_ca is not None and d.data_av is not None: attempt('ca_ce', lambda: tab(d.data_ca_as_ce()))
        if sparse:
            attempt('ce_ca', lambda: tab(d.data_ce_as_ca()))
            if d.data_co is not None: attempt('co_ce', lambda: tab(d.data_co_as_ce()))
            if d.data_wt is not None: attempt('wt_ce', lambda: one(d.data_wt_as_ce()))
        if d.data_av is not None:
            attempt('av_ce', lambda: one(d.data_av_as_ce()))
            if d.data_ch is not None: attempt('ch_ce', lambda: one(d.data_ch_as_ce()))
        if d.data_ca_or_ce is not None:
            attempt('both', lambda: tab(d.data_ca_combined()))
            def w():
                df = d.data_co_combined()
                return dict(cols=[[str(c[0]), 0 if c[1] == '*' else int(c[1])] for c in df.columns], rows=[[int(i), fxs(v)] for i, v in zip(df.index, df.values)])
            attempt('wide', w)
        return o
    def model(self, e):
        d = self.d[e['t']]
        m = larch.Model(dataservice=d)
        m.utility_ca = sum((P('x_' + n) * X(n) for n, v in e['xs'][1:]), P('x_' + e['xs'][0][0]) * X(e['xs'][0][0]))
        if d.data_co is not None and e['cs']:
            for a in list(d.alternative_codes())[1:]:
                m.utility_co[a] = sum((P('c_' + n) * X(n) for n, v in e['cs'][1:]), P('c_' + e['cs'][0][0]) * X(e['cs'][0][0]))
        if d.data_ch is not None: m.choice_any = True
        if d.data_av is not None: m.availability_any = True
        m.load_data()
        m.set_values(**{'x_' + n: fl(v) for n, v in e['xs']})
        if d.data_co is not None and e['cs']: m.set_values(**{'c_' + n: fl(v) for n, v in e['cs']})
        u = m.utility()
        return dict(cases=ints(m.dataframes.caseindex), u=fxm(numpy.asarray(u)[:, :d.n_alts]))

def run(events):
    return run_session(events, Session)
