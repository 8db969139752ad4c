"""Drives real groups of models through the histories of Group.tla."""
import numpy
from drv_model import Session, data_frames, run as _run, WIDE
from larch.model.model_group import ModelGroup
from fx import fx, fl

class GroupSession(Session):
    def member(self, m):
        s = Session()
        s.new(dict(m, threads=2))
        return s

    def gnew(self, e):
        self.ms = [self.member(m) for m in e['M']]
        self.m = ModelGroup([s.m for s in self.ms])
        return self.frame()

    def gapp(self, e):
        s = self.member(e['m'])
        self.ms.append(s)
        self.m.append(s.m)
        return {}

    def gins(self, e):
        s = self.member(e['m'])
        self.ms.insert(e['k'] - 1, s)
        self.m.insert(e['k'] - 1, s.m)
        return {}

    def gput(self, e):
        s = self.member(e['m'])
        self.ms[e['k'] - 1] = s
        self.m[e['k'] - 1] = s.m
        return {}

    def gdel(self, e):
        del self.ms[e['k'] - 1]
        del self.m[e['k'] - 1]
        return {}

    def mset(self, e):
        self.m[e['k'] - 1].set_values({k: fl(v) for k, v in (e['v'] or {}).items()})
        return {}

    def mdata(self, e):
        s = self.ms[e['k'] - 1]
        s.data(e)
        return {}

    def set(self, e):
        if e['how'] == 'null':
            self.m.set_values('null')
            return self.frame()
        return Session.set(self, e)

    def est(self, e):
        m = self.m
        kw = {} if e['method'] == 'default' else dict(method=e['method'])
        try:
            r = m.maximize_loglike(quiet=True, maxiter=e['maxiter'], **kw)
        except Exception as err:
            self.err = type(err).__name__ + ': ' + str(err)[:80]
            return dict(self.frame(), lost='nonfinite' in str(err) or 'NaN' in str(err))
        msg = str(r.get('message', ''))
        return dict(ll=fx(r['loglike']), x={k: fx(v) for k, v in r['x'].items()}, vals=self.frame()['vals'],
                    conv=bool(r.get('success', False)), msg=msg[:60], again=fx(m.loglike()))

    def stat(self, e):
        m = self.m
        o = {}
        if e['which'] == 'null':
            o['ll'] = fx(m.loglike_null())
        else:
            best = m._get_cached_loglike_values()['best']
            o['has'] = bool(numpy.isfinite(best))
            o['ll'] = fx(best)
        o['vals'] = self.frame()['vals']
        return o

    def geval(self, e):
        m, via = self.m, e['via']
        x = {k: fl(v) for k, v in (e['x'] or {}).items()}
        pos = [x] if x else []
        o = {}
        if via == 'loglike':
            o['ll'] = fx(m.loglike(*pos))
        elif via == 'neg_loglike':
            o['ll'] = fx(-m.neg_loglike(*pos))
        elif via == 'parts':
            from larch.model import persist_flags as pfl
            r = m.loglike(*pos, persist=pfl.PERSIST_PARTS)
            o['ll'] = fx(r.ll)
            o['parts'] = [fx(v) for v in r.ll_parts]
        elif via == 'loglike2':
            r = m.loglike2(*pos)
            o['ll'] = fx(r.ll)
            o['dll'] = {k: fx(v) for k, v in dict(r.dll).items()}
        else:
            o['dll'] = {k: fx(v) for k, v in zip(m.pf.index, numpy.asarray(m.d_loglike(*pos)))}
        o['vals'] = self.frame()['vals']
        o['mvals'] = [{k: fx(v) for k, v in k_.pf.value.items()} for k_ in list(m)]
        o['n'] = int(m.n_cases)
        o['tw'] = fx(m.total_weight())
        return o

def run(events):
    return _run(events, session=GroupSession)
