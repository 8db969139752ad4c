"""Makes systematic alternatives with larch, and trees and data collections from them, as the histories of Codes.tla say."""
import numpy, pandas, warnings
warnings.filterwarnings('ignore')
import logging
logging.disable(logging.CRITICAL)
from larch import Model, DataFrames
from larch.model.systematic_alternatives import new_alternative_codes
from drv_model import EXC

COLS = ['f1', 'f2', 'f3']

def val(kinds, i, v):
    if kinds[i] == 'num':
        return 10.0 * (i + 1) + v
    return 'pqr'[i] + str(v) if kinds[i] == 'str' else 10 * (i + 1) + v

class CodeSession:
    def table(self, kinds, rows, form, clash):
        df = pandas.DataFrame({COLS[i]: [val(kinds, i, r['f'][i]) for r in rows] for i in range(len(kinds))}, index=range(len(rows)))
        df['x'] = [float(i + 1) for i in range(len(rows))]
        if clash:
            df['alternative_code'] = [7] * len(rows)
        cases = [r['c'] for r in rows]
        kw = {}
        if form == 'multi':
            df.index = pandas.MultiIndex.from_arrays([cases, list(range(500, 500 + len(rows)))], names=['case', 'alt'])
        elif form == 'index':
            df.index = pandas.Index(cases, name='case')
        elif form == 'col':
            df['case'] = cases
            kw = dict(caseindex='case')
        elif form == 'other':
            df['case'] = cases
            df.index = pandas.Index(list(range(700, 700 + len(rows))), name='rowid')
            kw = dict(caseindex='case')
        else:
            df.index = pandas.Index(cases)
            kw = dict(caseindex='case')
        return df, kw

    def tables(self, e, dfs, before, res, name, over):
        o = dict(codes=[], cases=[], kept=True, src=True, ix=True)
        for d, b, r in zip(dfs, before, res):
            o['src'] = o['src'] and d.equals(b) and list(d.columns) == list(b.columns) and list(d.index.names) == list(b.index.names)
            ok = r.index.nlevels == 2 and r.index.names[0] == 'case'
            nm = r.index.names[1] if ok else None
            taken = name in b.columns and not over
            ok = ok and nm == res[0].index.names[1] and (str(nm).startswith(name) and nm not in b.columns if taken else nm == name)
            o['ix'] = o['ix'] and bool(ok)
            o['cases'].append([int(c) for c in r.index.get_level_values(0)])
            o['codes'].append([int(c) for c in r.index.get_level_values(1)])
            for c in b.columns:
                if c == 'case' or (c == name and over):
                    continue
                if c not in r.columns or list(r[c]) != list(b[c]):
                    o['kept'] = False
        return o

    def prep(self, e):
        nf = len(e['kinds'])
        made = [self.table(e['kinds'], rows, f, e['clash']) for rows, f in zip(e['dfs'], e['forms'])]
        return [m[0] for m in made], made[0][1]

    def args(self, e):
        nf = len(e['kinds'])
        kw = dict(padding_levels=e['pad'], overwrite=e['over'])
        comp = {COLS[i]: [val(e['kinds'], i, v) for v in c] for i, c in enumerate(e['comp']) if c}
        if comp:
            kw['complete_features_list'] = comp
        if e['pre']:
            kw['groupby_prefixes'] = list(e['pre'])
        if e['named']:
            kw['name'] = 'alternative_code'
        return kw, ('f1' if nf == 1 and e['named'] else COLS[:nf])

    def code(self, e):
        self.sa = None
        dfs, ckw = self.prep(e)
        before = [d.copy() for d in dfs]
        kw, g = self.args(e)
        res, sa = new_alternative_codes(dfs if e['aslist'] else dfs[0], groupby=g, **ckw, **kw)
        self.sa = sa
        o = self.tables(e, dfs, before, res if e['aslist'] else [res], 'alternative_code', e['over'])
        o['alts'] = [int(c) for c in sa.altcodes]
        o['names'] = {str(c): sa.alternative_name_from_code(c).replace('\u00a7', '.') for cs in o['codes'] for c in cs}
        o['altnames'] = [n.replace('\u00a7', '.') for n in sa.altnames]
        return o

    def again(self, e):
        dfs, ckw = self.prep(e)
        before = [d.copy() for d in dfs]
        res = self.sa.compute_alternative_codes(dfs[0], name='alternative_code', **ckw)
        o = self.tables(e, dfs, before, [res], 'alternative_code', False)
        o['names'] = {str(c): self.sa.alternative_name_from_code(c).replace('\u00a7', '.') for cs in o['codes'] for c in cs}
        return o

    def nest(self, e):
        sa = self.sa
        m = Model()
        m.initialize_graph(alternative_codes=[int(c) for c in sa.altcodes], alternative_names=sa.altnames, root_id=0)
        mu = list(e['mu']) if e['own'] else None
        if e['plain'] and all(c == 1 for c in e['cover']):
            m.magic_nesting(sa, mu_parameters=mu)
        else:
            m.magic_ogev_nesting(list(e['cover']), sa, mu_parameters=mu)
        g = m.graph
        fix = lambda s: str(s).replace('\u00a7', '.')
        alts = set(int(c) for c in sa.altcodes)
        name = lambda n: fix(sa.alternative_name_from_code(n) if int(n) in alts else g.nodes[n].get('name'))
        inner = [n for n in g.nodes if n != g.root_id and int(n) not in alts]
        return dict(nests={name(n): dict(p=str(g.nodes[n].get('parameter')), ch=[name(c) for c in g.successors(n)]) for n in inner},
                    root=[name(c) for c in g.successors(g.root_id)], leaves=[name(c) for c in g.elementals])

    def frames(self, e):
        rows = e['dfs'][0]
        df, _ = self.table(e['kinds'], rows, 'multi', False)
        df['ch'] = [float(v) for v in e['ch']]
        d0 = DataFrames(ce=df.copy(), ch='ch', av=True)
        before = d0.data_ca_or_ce.copy()
        kw, g = self.args(e)
        d1 = d0.new_systematic_alternatives(g, **{k: v for k, v in kw.items()})
        names = dict(zip([int(c) for c in d1.alternative_codes()], d1.alternative_names()))
        fix = lambda c: names.get(int(c), 'none').replace('\u00a7', '.')
        o = dict(an=[fix(c) for c in d1.alternative_codes()])
        ce = d1.data_ca_or_ce
        o['v'] = [dict(c=int(c), a=fix(a), x=int(x)) for (c, a), x in zip(ce.index, ce['x'])]
        yes = lambda df: {str(int(c)): [fix(a) for a in df.columns if df.loc[c, a] != 0] for c in df.index}
        o['ch'], o['av'] = yes(d1.data_ch), yes(d1.data_av)
        o['src'] = bool(d0.data_ca_or_ce.equals(before) and list(d0.data_ca_or_ce.columns) == list(before.columns))
        return o

def run(events):
    s = CodeSession()
    out = []
    for e in events:
        e = dict(e)
        try:
            e['obs'], e['err'] = getattr(s, e['op'])(e), ''
        except EXC as x:
            import os
            if os.environ.get('VERIF_DEBUG'):
                import traceback; traceback.print_exc()
            e['obs'] = {}
            e['err'] = (type(x).__name__ + ': ' + str(x)[:80]).replace('"', "'").replace('\\', '/').encode('ascii', 'replace').decode().replace('\n', ' ')
        out.append(e)
    return out
