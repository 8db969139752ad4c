"""Builds the expressions and functions of Linear.tla with larch's P, X and operators."""
import warnings, copy, pickle, operator, re
warnings.filterwarnings('ignore')
import logging
from fx import fx, fl
logging.disable(logging.CRITICAL)
from larch import P, X
from larch.model.linear import ParameterRef_C, DataRef_C, LinearComponent_C, LinearFunction_C
from larch.model.linear_math import *
from drv_model import run as run_session
OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv}
NUM = (int, float)

class Refused(Exception):
    pass

def num(v):
    v = fl(v)
    return int(v) if v == int(v) else v

def kind(b):
    if isinstance(b, NUM): return 'n'
    if isinstance(b, ParameterRef_C): return 'P'
    if isinstance(b, DataRef_C): return 'X'
    if isinstance(b, LinearComponent_C): return 'LC1' if str(b.data) == '1' else 'LC'
    if isinstance(b, LinearFunction_C): return 'LF1' if all(str(i.data) == '1' for i in b) else 'LF'
    return 'PM'

def build(t):
    k = t['k']
    if k == 'p': return P(t['n'])
    if k == 'x': return X(t['n'])
    if k == 'n': return num(t['v'])
    a = build(t['a'])
    b = None
    try:
        if k == 'neg': return -a
        if k == 'pos': return +a
        if k == 'pow':
            b = t['e']
            return a ** t['e']
        b = build(t['b'])
        return OPS[k](a, b)
    except Refused: raise
    except Exception as x:
        # (a component whose data has come out as a number is left open)
        odd = lambda v: isinstance(v, LinearComponent_C) and re.match(r'^[-+.0-9]*$', str(v.data)) and str(v.data) != '1'
        oddf = lambda v: odd(v) or isinstance(v, LinearFunction_C) and (len(v) == 0 or any(odd(i) for i in v))
        ka = 'PM?' if oddf(a) else kind(a)
        kb = '' if b is None else 'PM?' if oddf(b) else kind(b)
        raise Refused([k, ka, kb, type(x).__name__, str(b) if isinstance(b, NUM) else '0' if isinstance(a, NUM) and isinstance(b, NUM) else ''])

def value(b, v):
    ps = {k: fl(x) for k, x in v['P'].items()}; ps['_'] = 1.0
    xs = {k: fl(x) for k, x in v['X'].items()}
    try:
        if isinstance(b, NUM): r = b
        elif isinstance(b, ParameterRef_C): r = b.value(ps)
        elif isinstance(b, DataRef_C): r = b.eval(xs)
        elif isinstance(b, (LinearComponent_C, LinearFunction_C)): r = b.evaluate(ps.__getitem__, xs)
        else: r = b.value(ps)
    except ZeroDivisionError:
        return fx(float('nan'))
    except Exception:
        return -2000000009
    return fx(r)

def read(b):
    r = repr(b).strip()
    return eval('(%s)' % r, dict(P=P, X=X, inf=float('inf'), nan=float('nan')))

COPIES = (copy.copy, copy.deepcopy, lambda b: pickle.loads(pickle.dumps(b)))

def data(t):
    d = build(t)
    return '1' if isinstance(d, NUM) else str(d)

def comp(t):
    return LinearComponent_C(param=t['p'], data=data(t['x']), scale=fl(t['s']))

def term(t, h=0):
    d = X(data(t['x'])); s = num(t['s'])
    if str(d) == '1' and s == 1 and h % 2: return P(t['p'])
    if str(d) == '1': return P(t['p']) * s if h % 2 else s * P(t['p'])
    if s == 1: return P(t['p']) * d if h % 2 else d * P(t['p'])
    return P(t['p']) * s * d if h % 3 == 0 else d * (s * P(t['p'])) if h % 3 == 1 else s * (P(t['p']) * d)

class Session:
    def __init__(self):
        self.v = {}
        self.vals = []
    def new(self, e):
        self.vals = e['vals']
        return {}
    def expr(self, e):
        try: b = build(e['t'])
        except Refused as x: return dict(rej=x.args[0])
        vs = [value(b, v) for v in self.vals]
        try: rb = read(b); rv = [value(rb, v) for v in self.vals]
        except ZeroDivisionError: rv = vs
        except Exception: rv = []
        twin = build(e['t'])
        plain = isinstance(b, (ParameterRef_C, DataRef_C, LinearComponent_C, LinearFunction_C))
        ok = not plain or (twin == b and not (twin != b))
        cv = vs
        for c in COPIES:
            try: w = [value(c(b), v) for v in self.vals]
            except Exception: w = []
            if w != vs: cv = w
        if [value(b, v) for v in self.vals] != vs: cv = []      # (computing does not change it)
        return dict(rej=[], vals=vs, rvals=rv, twin=bool(ok), copied=cv)
    def look(self):
        o = {}
        for n, f in self.v.items():
            xs = []
            for t in f: xs.append([value(t.data, v) for v in self.vals])
            d = dict(len=len(f), ps=[str(t.param) for t in f], ss=[fx(t.scale) for t in f], xs=xs,
                     vals=[value(f, v) for v in self.vals], inp={}, atp={}, inx={}, atx={})
            try: d['rvals'] = [value(read(f), v) for v in self.vals]
            except Exception: d['rvals'] = []
            for names, ref, i, a in (('abc', P, 'inp', 'atp'), ('xyz', X, 'inx', 'atx')):
                for c in names:
                    d[i][c] = ref(c) in f
                    try: d[a][c] = f._index_of(ref(c))
                    except KeyError: d[a][c] = -1
            o[n] = d
        return dict(vars=o, eq={n: {m: bool(f == g) for m, g in self.v.items()} for n, f in self.v.items()})
    def let(self, e):
        h, ts = e['how'], e['ts']
        if h == 0: f = LinearFunction_C([comp(t) for t in ts])
        elif h == 1: f = sum((term(t, i) for i, t in enumerate(ts)), LinearFunction_C())
        elif h == 2:
            f = LinearFunction_C()
            for t in ts: f.append(comp(t))
        elif h == 3:
            f = LinearFunction_C(comp(t) for t in ts)
        else:
            f = sum(term(t, h) for t in ts)
            if not isinstance(f, LinearFunction_C): f = LinearFunction_C() + f
        self.v[e['n']] = f
        return self.look()
    def bind(self, e):
        self.v[e['n']] = self.v[e['m']]
        return self.look()
    def iadd(self, e):
        f = self.v[e['n']]; ts = e['ts']; h = e['how']
        if h == 0: f += comp(ts[0])
        elif h == 1: f.append(comp(ts[0]))
        elif h == 2: f += term(ts[0], 1)
        elif h == 3: f.extend([comp(t) for t in ts])
        elif h == 4: f += LinearFunction_C([comp(t) for t in ts])
        else: f.extend(comp(t) for t in ts)
        return self.look()
    def iaddv(self, e):
        f = self.v[e['n']]
        if e['how'] % 2: f.extend(self.v[e['m']])
        else: f += self.v[e['m']]
        return self.look()
    def insert(self, e):
        self.v[e['n']].insert(e['k'] - 1, comp(e['ts'][0]))
        return self.look()
    def put(self, e):
        self.v[e['n']][e['k'] - 1] = comp(e['ts'][0])
        return self.look()
    def cut(self, e):
        del self.v[e['n']][e['k'] - 1]
        return self.look()
    def rmp(self, e):
        self.v[e['n']].remove_param(e['p'])
        return self.look()
    def rmx(self, e):
        self.v[e['n']].remove_data(e['x']['n'])
        return self.look()
    def copy(self, e):
        f = self.v[e['m']]; h = e['how']
        self.v[e['n']] = (f.copy() if h == 0 else copy.copy(f) if h == 1 else copy.deepcopy(f) if h == 2 else pickle.loads(pickle.dumps(f)) if h == 3
                          else +f if h == 4 else f + 0 if h == 5 else 0 + f if h == 6 else f - 0 if h == 7 else LinearFunction_C(f))
        return self.look()
    def neg(self, e):
        self.v[e['n']] = -self.v[e['m']]
        return self.look()
    def add(self, e):
        self.v[e['n']] = self.v[e['m']] + self.v[e['w']]
        return self.look()
    def sub(self, e):
        self.v[e['n']] = self.v[e['m']] - self.v[e['w']]
        return self.look()
    def addt(self, e):
        f, t = self.v[e['m']], term(e['ts'][0], e['left'])
        self.v[e['n']] = t + f if e['left'] else f + t
        return self.look()
    def subt(self, e):
        f, t = self.v[e['m']], term(e['ts'][0], e['left'])
        self.v[e['n']] = t - f if e['left'] else f - t
        return self.look()
    def scale(self, e):
        f, s = self.v[e['m']], num(e['s'])
        self.v[e['n']] = s * f if e['left'] else f * s
        return self.look()
    def timesx(self, e):
        f, x = self.v[e['m']], X(e['x']['n'])
        self.v[e['n']] = x * f if e['left'] else f * x
        return self.look()
    def rename(self, e):
        (old, new), = e['map'].items()
        self.v[e['n']] = self.v[e['m']].reformat_param(pattern='^%s$' % old, repl=new)
        return self.look()

def run(behaviour):
    return run_session(behaviour, Session)
