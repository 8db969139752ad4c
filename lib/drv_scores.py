"""Drives the scoring and summary functions of larch through the histories of Scores.tla."""
import numpy, pandas, copy
from drv_model import Session, run as _run
from larch.scoring import probability_to_rank, rank_within_cases, top_k_accuracy
from fx import fx, fl

COLS = {'chosen': 'c', 'chosen weighted': 'cw', 'chosen unweighted': 'cu',
        'available': 'a', 'available weighted': 'aw', 'available unweighted': 'au',
        'chosen but not available': 'n', 'chosen but not available weighted': 'nw', 'chosen but not available unweighted': 'nu'}

def matrix(rows, w, dt=float):
    return numpy.array([[fl(v) for v in r] for r in rows], dtype=dt).reshape(len(rows), w)

class ScoreSession(Session):
    def rank(self, e):
        a = matrix(e['m'], e['w'], numpy.float32 if e['kind'] == 'f32' else float)
        if e['kind'] == 'df':
            a = pandas.DataFrame(a, columns=['k%d' % i for i in range(e['w'])], index=[100 - 3 * i for i in range(len(a))])
        before = a.copy()
        r = probability_to_rank(a)
        if e['kind'] == 'df':
            form = isinstance(r, pandas.DataFrame) and list(r.columns) == list(a.columns) and list(r.index) == list(a.index)
        else:
            form = isinstance(r, numpy.ndarray) and r.shape == a.shape
        return dict(r=[[int(v) for v in row] for row in numpy.asarray(r)], form=bool(form), kept=bool((numpy.asarray(before) == numpy.asarray(a)).all()))

    def rankin(self, e):
        n = len(e['g'])
        ix = {'range': list(range(n)), 'same': [7] * n, 'down': [50 - i for i in range(n)]}[e['ix']]
        df = pandas.DataFrame({'val': [fl(v) for v in e['v']], 'grp': e['g']}, index=ix)
        before = df.copy()
        r = rank_within_cases(df, 'val', 'grp', output_col='rk' if e['out'] else None, tiny_perturb=e['perturb'])
        o = dict(r=[int(v) if v == int(v) else -1 for v in numpy.asarray(r)], kept=bool(df[['val', 'grp']].equals(before)))
        if e['out']:
            o['col'] = [int(v) for v in df['rk']]
        else:
            o['kept'] = o['kept'] and list(df.columns) == list(before.columns)
        return o

    def ks(self, e):
        conv = numpy.int64 if e['np'] else int
        if e['one'] and len(e['ks']) == 1:
            return conv(e['ks'][0])
        return numpy.asarray(e['ks']) if e['np'] else list(e['ks'])

    def shares(self, e, r):
        if isinstance(r, pandas.Series):
            return [fx(r[k]) for k in e['ks']] if list(r.index) == list(e['ks']) else []
        return [fx(r)]

    def acc(self, e):
        m = numpy.array(e['m'])
        ch = matrix(e['ch'], m.shape[1])
        if e['kind'] != 'arr':
            ch = pandas.DataFrame(ch)
        if e['kind'] == 'df':
            m = pandas.DataFrame(m)
        return dict(s=self.shares(e, top_k_accuracy(m, ch, self.ks(e))))

    def xarg(self, e):
        x = {k: fl(v) for k, v in (e['x'] or {}).items()}
        if e['xhow'] == 'none':
            return None
        if e['xhow'] == 'vec':
            return [x.get(n, float(v)) for n, v in self.m.pf.value.items()]
        return x

    def topk(self, e):
        self.m.unmangle()
        return dict(self.frame_after(lambda: dict(s=self.shares(e, self.m.top_k_accuracy(self.ks(e), x=self.xarg(e))))))

    def logloss(self, e):
        self.m.unmangle()
        return self.frame_after(lambda: dict(ll=fx(self.m.logloss(x=self.xarg(e)))))

    def frame_after(self, f):
        o = f()
        return dict(o, **self.frame())

    def dataset(self, e):
        from larch.dataset import Dataset
        D, S = self.D, self.S
        order = sorted(range(len(S['alts'])), key=lambda i: S['alts'][i])
        alts = [S['alts'][i] for i in order]
        v = {}
        if not e['noch']:
            v['ch'] = (('caseid', 'altid'), numpy.array([[fl(r[i]) for i in order] for r in D['ch']]))
        if not e['noav']:
            v['av'] = (('caseid', 'altid'), numpy.array([[r[i] for i in order] for r in D['av']], dtype=numpy.int8))
        if not e['nowt']:
            v['wt'] = (('caseid',), numpy.array([fl(w) for w in D['wt']]))
        ds = Dataset(v, coords={'caseid': D['ids'], 'altid': alts, 'alt_names': ('altid', ['a%d' % a for a in alts])})
        ds.dc.CASEID, ds.dc.ALTID = 'caseid', 'altid'
        return ds

    def summary(self, e):
        if e['ds']:
            from larch.dataset import choice_avail_summary
            ds = self.dataset(e)
            before = ds.copy(deep=True)
            t = choice_avail_summary(ds)
            kept = ds.equals(before)
        else:
            m = self.m
            m.unmangle()
            dfs = m.dataframes
            frames = lambda: [None if x is None else x.copy() for x in (dfs.data_ch, dfs.data_av, dfs.data_wt)]
            before = frames()
            t = dfs.choice_avail_summary(graph=m.graph if e['graph'] else None)
            kept = all((a is None and b is None) or a.equals(b) for a, b in zip(before, frames()))
        rows = {}
        for code, row in t.iterrows():
            r = {'name': str(row.get('name', ''))}
            for c, v in row.items():
                if c in COLS and not isinstance(v, str) and v is not None and v == v:
                    r[COLS[c]] = fx(v)
            rows['T' if isinstance(code, str) else str(int(code))] = r
        return dict(t=rows, kept=bool(kept))

def run(events):
    return _run(events, session=ScoreSession)
