"""Writes and reads matrix files with larch, as the histories of Omx.tla say; in a scratch folder of its own."""
import gzip, os, shutil, tempfile, warnings
warnings.filterwarnings('ignore')
import logging
logging.disable(logging.CRITICAL)
import numpy, pandas, tables
from larch.omx import OMX
from larch.util.arraytools import label_to_index
from drv_model import EXC

DT = {'f8': 'float64', 'i4': 'int32', 'f4': 'float32', 'i8': 'int64'}

def num(a):
    a = numpy.asarray(a)
    out = numpy.rint(a.astype(float))
    if a.dtype.kind not in 'fiu' or not numpy.all(out == a):
        return 'not whole'
    return out.astype(int).tolist()

class Session:
    def __init__(self, path):
        self.path, self.n, self.o = path, 0, None

    def fresh(self, ext='.omx'):
        self.n += 1
        return os.path.join(self.path, 'f%d%s' % (self.n, ext))

    def dump(self, o):
        kd, kl, ka = o.keys('data'), o.keys('lookup'), o.keys()
        return dict(sh=[int(x) for x in o.shape], kd=sorted(kd), kl=sorted(kl), ka=sorted(ka),
                    m=[dict(n=n, v=num(o.data._v_children[n][:])) for n in sorted(o.data._v_children)],
                    k=[dict(n=n, v=num(o.lookup._v_children[n][:])) for n in sorted(o.lookup._v_children)])

    def state(self):
        try:
            return self.dump(self.o)
        except EXC as x:
            return dict(sh=[-1, -1], kd=[], kl=[], ka=[], m=[], k=[])

    def close(self):
        try:
            if self.o is not None:
                self.o.close()
        except EXC:
            pass

    # what changes the file
    def new(self, e):
        self.close()
        self.name = self.fresh()
        arg = (self.name, 'a') if e['file'] else ()
        if e['how'] == 'frame':
            self.o = OMX.FromDataFrame(pandas.DataFrame({c['n']: c['v'] for c in e['cols']}), *arg)
        else:
            self.o = OMX(*arg)

    def shape(self, e):
        self.o.shape = tuple(e['sh'])

    def addm(self, e):
        v = numpy.array(e['v'], dtype=DT[e['kind']])
        if e['how'] == 'set':
            self.o[e['n']] = v
        else:
            self.o.add_matrix(e['n'], v if e['kind'] != 'i8' else e['v'], overwrite=e['ov'])

    def blankm(self, e):
        kw = dict(shape=tuple(e['sh'])) if e['sh'] else {}
        self.o.add_blank_matrix(e['n'], atom=tables.Atom.from_dtype(numpy.dtype(DT[e['kind']])), **kw)

    def cell(self, e):
        self.o.data._v_children[e['n']][e['i'] - 1, e['j'] - 1] = e['x']

    def line(self, e):
        self.o.data._v_children[e['n']][e['i'] - 1] = e['v']

    def addl(self, e):
        v = numpy.array(e['v'], dtype=DT[e['kind']])
        if e['how'] == 'set':
            self.o[e['n']] = v
        else:
            self.o.add_lookup(e['n'], v if e['kind'] != 'i8' else e['v'], overwrite=e['ov'])

    def blankl(self, e):
        kw = dict(shape=e['len']) if e['len'] else {}
        self.o.add_blank_lookup(e['n'], atom=tables.Atom.from_dtype(numpy.dtype(DT[e['kind']])), **kw)

    def celll(self, e):
        self.o.lookup._v_children[e['n']][e['i'] - 1] = e['x']

    def crop(self, e):
        a, b = e['sh']
        if e['how'] == 'one':
            self.o.crop(a)
        elif e['how'] == 'pair':
            self.o.crop((a, b))
        else:
            self.o.crop(a, b)

    def atom(self, e):
        dt = numpy.dtype(DT[e['kind']])
        if e['all']:
            node = (self.o.lookup if e['lk'] else self.o.data)._v_children[e['n']]
            if e['smaller']:
                self.o.change_all_atoms_of_type(node.dtype, dt)
                return
        self.o.change_atom_type(e['n'], dt, matrix=not e['lk'], lookup=e['lk'], require_smaller=e['smaller'])

    def imp(self, e):
        name = self.fresh()
        oth = OMX(name, 'w')
        for t in e['src']:
            oth.add_matrix(t['n'], numpy.array(t['v'], dtype=float))
        before = self.dump(oth)
        oth.close()
        kw = {}
        if e['rs']:
            kw = dict(rowslicer=slice(*e['rs']), colslicer=slice(*e['cs']))
        try:
            self.o.import_omx(name, '*' if not e['tabs'] else [e['src'][i - 1]['n'] for i in e['tabs']], **kw)
        finally:
            self.left = name in tables.file._open_files.filenames
        oth = OMX(name, 'r')
        same = self.dump(oth) == before
        oth.close()
        return bool(same and not self.left)

    def table(self, cols):
        name = self.fresh('.csv')
        pandas.DataFrame(cols).to_csv(name, index=False)
        return name

    def csv(self, e):
        cols = {'o': [r['i'] - 1 + e['base'] for r in e['rows']], 'd': [r['j'] - 1 + e['base'] for r in e['rows']]}
        kd = DT[e['kind']]
        if e['asd']:
            kd = numpy.dtype(kd)
        if e['op'] == 'csv':
            for k, n in enumerate(e['names']):
                cols['col%d' % k] = [r['x'][k] for r in e['rows']]
            self.o.import_datatable(self.table(cols), one_based=bool(e['base']), chunksize=e['chunk'], default_atom=kd,
                                    column_map={'col%d' % k: n for k, n in enumerate(e['names'])})
        else:
            for k, n in enumerate(e['names']):
                cols[n] = [r['x'][k] for r in e['rows']]
            self.o.import_datatable_3d(self.table(cols), one_based=bool(e['base']), chunksize=e['chunk'], default_atom=kd)
    csv3 = csv

    def csvl(self, e):
        rows = e['rows']
        z = [r['i'] - 1 + e['base'] for r in rows]
        cols = {'zone': z}
        for k, n in enumerate(e['names']):
            cols['col%d' % k] = [r['x'][k] for r in rows]
        kw = {}
        if e['byz']:
            kw = dict(zone_ix='zone', zone_ix1=e['base'])
            if e['drop']:
                at = len(rows) // 2
                for c in cols:
                    cols[c] = cols[c][:at] + [-7] + cols[c][at:]
                kw.update(drop_zone=-7, n_rows=len(rows))
        self.o.import_datatable_as_lookups(self.table(cols), chunksize=e['chunk'], column_map={'col%d' % k: n for k, n in enumerate(e['names'])}, **kw)

    def reopen(self, e):
        if not getattr(self.o, 'isopen', 0) or e['how'] == 'change':
            self.o.change_mode(e['mode'])
        elif e['how'] == 'with':
            with self.o:
                pass
            self.o = OMX(self.name, e['mode'])
        else:
            self.o.close()
            self.o = OMX(self.name, mode=e['mode'])

    # what reads it
    def get(self, e):
        return num(self.o[e['n']][:])

    def attr(self, e):
        return num(getattr(self.o, e['n'])[:])

    def df(self, e):
        lab = lambda x: None if not x else (x[0]['n'] or list(x[0]['v']))
        d = self.o.get_dataframe(e['n'], **{k: v for k, v in dict(index=lab(e['ix']), columns=lab(e['cols'])).items() if v is not None})
        return dict(v=num(d.values), ix=num(d.index.values), cols=[] if e['lk'] else num(d.columns.values))

    def at(self, e):
        return [dict(n=n, v=int(v)) for n, v in self.o.all_matrix_at(e['i'] - 1, e['j'] - 1).items()]

    def points(self, e, v, form, first, name):
        if form == 'int':
            return int(v[0])
        if form == 'npint':
            return numpy.int64(v[0])
        if form == 'list':
            return list(v)
        if form == 'array':
            return numpy.array(v)
        return pandas.Series(v, index=[first + 7 * (i + 1) for i in range(len(v))], name=name)

    def names(self, e):
        if e['as'] == 'none' or not e['mats']:
            return None
        ms = list(e['mats'])
        return {m: 'new' + m for m in ms} if e['as'] == 'map' else tuple(ms) if e['as'] == 'tuple' else ms

    def rc(self, e):
        nm = {'no': (None, None), 'yes': ('r', 'c'), 'same': ('z', 'z')}[e['named']]
        n = max(len(e['rows']) if e['rf'] not in ('int', 'npint') else 0, len(e['cols']) if e['cf'] not in ('int', 'npint') else 0)
        kw = {}
        if e['ix'] == 'rc':
            kw = dict(index='rc')
        elif e['ix'] == 'array':
            kw = dict(index=numpy.array([100 + 7 * (i + 1) for i in range(n)]))
        d = self.o.get_rc_dataframe(self.points(e, e['rows'], e['rf'], 100, nm[0]), self.points(e, e['cols'], e['cf'], 300, nm[1]), self.names(e), **kw)
        return dict(cols=[str(c) for c in d.columns], vals=[num(d.iloc[:, j].values) for j in range(d.shape[1])],
                    ix=[[int(v) for v in (k if isinstance(k, tuple) else (k,))] for k in d.index])

    def join(self, e):
        n = len(e['rows'])
        df = pandas.DataFrame(dict(orig=e['rows'], dest=[c + 1 for c in e['cols']], other=[5 * i for i in range(n)]), index=[40 - 3 * i for i in range(n)])
        b = df.copy()
        if e['how'] == 'array':
            r, c = numpy.array(e['rows']), numpy.array(e['cols'])
        elif e['how'] == 'expr':
            r, c = 'orig + 0', 'dest - 1'
        else:
            r, c = 'orig', df.dest - 1
        d = self.o.join_rc_dataframe(df, r, c, self.names(e), prefix=e['pre'])
        kept = df.equals(b) and list(d.columns[:3]) == list(b.columns) and d.iloc[:, :3].equals(b)
        return dict(cols=[str(x) for x in d.columns[3:]], vals=[num(d.iloc[:, j].values) for j in range(3, d.shape[1])], kept=bool(kept))

    def lkix(self, e):
        x = list(e['x'])
        if e['form'] == 'two':
            r = self.o.lookup_to_index(e['n'], numpy.array([x, x]))
            assert r.shape == (2, len(x)) and (r[0] == r[1]).all()
            return num(r[0])
        if e['form'] == 'util':
            return num(label_to_index(self.o.lookup._v_children[e['n']][:], x))
        return num(self.o.lookup_to_index(e['n'], x if e['form'] == 'list' else numpy.array(x)))

    def rlk(self, e):
        d = self.o.get_reverse_lookup(e['n'])
        if e['how'] == 'attr':
            d = self.o.rlookup[e['n']]
        return [[int(k), int(v)] for k, v in d.items()]

    def gz(self, e):
        self.o.flush()
        name = self.fresh() + '.gz'
        with open(self.name, 'rb') as f, gzip.open(name, 'wb') as g:
            shutil.copyfileobj(f, g)
        o = OMX(name, mode='r')
        try:
            return self.dump(o)
        finally:
            o.close()

    def remap(self, e):
        sl = lambda x: {} if not x else slice(*x)
        kw = {}
        if e['old']:
            kw['oldslicecols'] = slice(*e['old'])
        if e['nw']:
            kw['newslicecols'] = slice(*e['nw'])
        if not kw:
            kw['oldslicecols'] = slice(None)
        o = OMX.change_cols(self.fresh(), self.o, list(e['mats']), list(e['lr']), list(e['lc']), (int(self.o.shape[0]), e['cols']), **kw)
        try:
            return self.dump(o)
        finally:
            o.close()

def run(events):
    path = tempfile.mkdtemp(prefix='verif_omx_')
    s = Session(path)
    out = []
    try:
        for e in events:
            e = dict(e)
            res, e['err'] = 0, ''
            try:
                res = getattr(s, e['op'])(e)
                res = 0 if res is None else res
            except EXC as x:
                if os.environ.get('VERIF_DEBUG'):
                    import traceback; traceback.print_exc()
                e['err'] = (type(x).__name__ + ': ' + str(x)[:80]).replace('"', "'").replace('\\', '/').encode('ascii', 'replace').decode().replace('\n', ' ')
            e['obs'] = dict(s.state(), res=res)
            out.append(e)
    finally:
        s.close()
        shutil.rmtree(path, ignore_errors=True)
    return out
