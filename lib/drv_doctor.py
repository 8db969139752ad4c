"""Checks and repairs data through the functions of larch.troubleshooting, as the histories
of Doctor.tla say."""
import numpy
from drv_model import Session, run as _run
from larch import troubleshooting as ts
from larch import DataFrames
from fx import fx, fl

FUN = {'cav': ts.chosen_but_not_available, 'czq': ts.chosen_but_zero_quantity, 'noch': ts.nothing_chosen_but_nonzero_weight,
       'nanw': ts.nan_weight, 'nanco': ts.nan_data_co, 'lowvar': ts.low_variance_data_co}
KEY = {'chosen_but_not_available': 'cav', 'chosen_but_zero_quantity': 'czq', 'nothing_chosen_but_nonzero_weight': 'noch',
       'nan_weight': 'nanw', 'nan_data_co': 'nanco', 'low_variance_data_co': 'lowvar'}
ARG = {'cav': 'repair_ch_av', 'czq': 'repair_ch_zq', 'noch': 'repair_noch_nowt', 'nanw': 'repair_nan_wt', 'nanco': 'repair_nan_data_co'}

class DoctorSession(Session):
    def found(self, kind, d):
        """number of faults and examples, for every row of a report"""
        def rows(v):
            return [int(float(x.strip().lstrip('c'))) for x in str(v).split(',') if x.strip()]
        o = {}
        for k in d.index:
            if kind == 'nanco':
                o[str(k)] = dict(n=int(d.loc[k].iloc[0]), rows=[])
            else:
                o[str(k) if kind in ('cav', 'czq') else kind] = dict(n=int(d.loc[k, 'n']), rows=rows(d.loc[k].iloc[1]))
        return o

    def check(self, e):
        m = self.m
        how = {k: True if v == 'y' else (v or None) for k, v in e['how'].items()}
        dfs = m.dataframes
        if e['on'] == 'dfs' and e['no']:
            part = dict(co=dfs.data_co, ca=dfs.data_ca, av=dfs.data_av, ch=dfs.data_ch, wt=dfs.data_wt)
            part = {k: v.copy() for k, v in part.items() if k != e['no'] and v is not None}
            dfs = DataFrames(**part, alt_codes=dfs.alternative_codes(), alt_names=dfs.alternative_names())
        what = dfs if e['on'] == 'dfs' else m
        if e['which'] == 'all':
            kw = {ARG[k]: v for k, v in how.items() if k in ARG}
            if e['on'] == 'doctor':
                back, d = m.doctor(**kw, verbose=e['verbose'])
            else:
                back, d = ts.doctor(what, **kw, verbose=e['verbose'])
            found = {KEY[k]: self.found(KEY[k], v) for k, v in d.items()}
        else:
            k = e['which']
            back, d = FUN[k](what, repair=how[k], verbose=e['verbose'])
            found = {} if d is None else {k: self.found(k, d)}
        D, S = self.D, self.S
        dfs = m.dataframes
        o = dict(found=found, back=back is what, norm=fx(dfs.weight_normalization))
        alts = S['alts']
        o['av'] = self.by_case([[int(v) for v in r] for r in dfs.data_av[alts].values])
        o['ch'] = self.by_case([[fx(v) for v in r] for r in dfs.data_ch[alts].values])
        o['wt'] = [] if dfs.data_wt is None else self.by_case([fx(v) for v in dfs.data_wt.values.reshape(-1)])
        o['co'] = {k: self.by_case([fx(v) for v in dfs.data_co[k].values]) for k in dfs.data_co.columns} if dfs.data_co is not None else {}
        return o

def run(events):
    return _run(events, session=DoctorSession)
