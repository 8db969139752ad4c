"""Drives real latent class models through the histories of Mixture.tla."""
import copy, numpy
from drv_model import Session, data_frames, build_graph, linear, term, edit_model, run as _run
from larch import Model, P, X
from larch.roles import LinearFunction
from larch.model.latentclass import LatentClassModel
from fx import fx, fxs, fl

class MixtureSession(Session):
    def member(self, S, D):
        m = Model()
        m.n_threads = 2
        m.utility_ca = linear(S['ca'], 'x')
        for a, ts in zip(S['alts'], S['co']):
            if ts:
                m.utility_co[a] = linear(ts, 'c')
        if S['q']:
            m.quantity_ca = sum((P(t['p']) * X('x%d' % t['x']) for t in S['q']), LinearFunction())
            if S['qs']:
                m.quantity_scale = P(S['qs'])
        if D is not None:
            m.dataframes = data_frames(S, D)
            if len(S['nests']) > 1:
                build_graph(m, S)
        return m

    def xnew(self, e):
        self.K, self.M, self.D = copy.deepcopy(e['K']), copy.deepcopy(e['M']), e['D']
        self.S = self.K[0]
        self.ks = [self.member(S, self.D) for S in self.K]
        self.mm = self.member(self.M, None)
        order = list(range(1, len(self.ks) + 1))
        order = order[e['turn']:] + order[:e['turn']]
        self.m = LatentClassModel(self.mm, {k: self.ks[k - 1] for k in order})
        V = {k: fl(v) for k, v in (e['V'] or {}).items()}
        if e['late']:
            self.m.set_values(V)
        self.m.dataframes = data_frames(self.S, self.D)
        if not e['late']:
            self.m.set_values(V)
        return self.frame()

    def frame(self):
        o = Session.frame(self)
        o['mvals'] = [{k: fx(v) for k, v in k_.pf.value.items()} for k_ in self.ks + [self.mm]]
        return o

    def kset(self, e):
        m = self.mm if e['k'] == 0 else self.ks[e['k'] - 1]
        m.set_values({k: fl(v) for k, v in (e['v'] or {}).items()})
        return self.frame()

    def set(self, e):
        if e['how'] == 'null':
            self.m.set_values('null')
            return self.frame()
        return Session.set(self, e)

    def kedit(self, e):
        m, S = (self.mm, self.M) if e['cls'] == 0 else (self.ks[e['cls'] - 1], self.K[e['cls'] - 1])
        edit_model(m, S, e)
        return {}

    def data(self, e):
        self.D = e['D']
        self.m.dataframes = data_frames(self.S, self.D)
        return self.frame()

    def est(self, e):
        m = self.m
        kw = {} if e['method'] == 'default' else dict(method=e['method'])
        try:
            r = m.maximize_loglike(quiet=True, maxiter=e['maxiter'], **kw)
        except Exception as err:
            self.err = type(err).__name__ + ': ' + str(err)[:80]
            return dict(self.frame(), lost='nonfinite' in str(err) or 'NaN' in str(err))
        return dict(ll=fx(r['loglike']), x={k: fx(v) for k, v in r['x'].items()}, vals=self.frame()['vals'],
                    conv=bool(r.get('success', False)))

    def stat(self, e):
        m = self.m
        o = {}
        if e['which'] == 'null':
            o['ll'] = fx(m.loglike_null())
        else:
            m.pf                    # changes in the parts are noticed when they are next looked at
            best = m._get_cached_loglike_values()['best']
            o['has'] = bool(numpy.isfinite(best))
            o['ll'] = fx(best)
        o.update(self.frame())
        return o

    def case_order(self):
        return list(self.m.dataframes.caseindex)

    def xeval(self, e):
        m, via = self.m, e['via']
        kw = dict(start_case=e['start'], stop_case=e['stop'], step_case=e['step'])
        if e['start'] == 0 and e['stop'] == -1 and e['step'] == 1:
            kw = {}
        x = {k: fl(v) for k, v in (e['x'] or {}).items()}
        pos = [x] if x else []
        names = lambda: list(m.pf.index)
        vec = lambda a: dict(zip(names(), fxs(numpy.asarray(a))))
        mat = lambda a: dict(zip(names(), [dict(zip(names(), fxs(r))) for r in numpy.asarray(a)]))
        cols = lambda: m.dataframes.alternative_codes()
        o = {}
        if via == 'loglike':
            o['ll'] = fx(m.loglike(*pos, **kw))
        elif via == 'neg_loglike':
            o['ll'] = fx(-m.neg_loglike(*pos))
        elif via == 'loglike2':
            r = m.loglike2(*pos, **kw)
            o['ll'], o['dll'] = fx(r.ll), vec(r.dll)
        elif via == 'loglike2_bhhh':
            r = m.loglike2_bhhh(*pos, **kw)
            o['ll'], o['dll'], o['bhhh'] = fx(r.ll), vec(r.dll), mat(r.bhhh)
        elif via == 'd_loglike':
            o['dll'] = vec(m.d_loglike(*pos, **kw))
        elif via == 'bhhh':
            o['bhhh'] = mat(m.bhhh(*pos))
        elif via == 'p':
            o['p'] = self.rows(e, self.nodes_of(m.probability(*pos, **kw), cols()))
        elif via == 'p_df':
            p = m.probability(*pos, return_dataframe=True, **kw)
            o['p'] = self.by_label(e, self.nodes_of(p.values, p.columns), p.index)
        elif via == 'pm':
            p = m.class_membership_probability(*pos, **kw)
            o['pm'] = self.by_label(e, [[fx(r[k]) for k in range(1, len(self.ks) + 1)] for _, r in p.iterrows()], p.index)
        elif via == 'dp':
            dp = m.d_probability(*pos, **kw)
            c = list(cols())
            o['dp'] = self.rows(e, [[dict(zip(names(), fxs(case[c.index(a)]))) for a in self.S['alts']] for case in dp])
        elif via == 'classes':
            o['kll'] = [fx(k.loglike()) for k in self.ks]
        o.update(self.frame())
        return o

    def node_codes(self):
        return self.S['alts']

def run(events):
    return _run(events, session=MixtureSession)
