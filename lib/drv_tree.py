"""Drives larch's NestingTree through the histories of Tree.tla and records what its views say."""
import warnings, pickle
warnings.filterwarnings('ignore')
import logging
import numpy
from fx import fx
logging.disable(logging.CRITICAL)
from larch.model.tree import NestingTree
from drv_model import run as run_session

MU = dict(mu=0.5, mu1=0.25, mu2=0.375, mu3=0.75)

def ints(s):
    return [int(i) for i in s]

def views(g, look):
    o = {}
    slot = lambda: list(g.standard_sort)
    for v in look:
        if v == 'nodes': o[v] = ints(g.nodes)
        elif v == 'edges': o[v] = [[int(a), int(b)] for a, b in g.edges]
        elif v == 'root': o[v] = int(g.root_id)
        elif v == 'elementals': o[v] = ints(g.elementals)
        elif v == 'counts': o[v] = [len(g), int(g.n_edges), int(g.n_elementals()), int(g.n_intermediate_nests())]
        elif v == 'topo': o[v] = ints(g.topological_sorted)
        elif v == 'nests': o[v] = ints(g.topological_sorted_no_elementals)
        elif v == 'std': o[v] = ints(g.standard_sort)
        elif v == 'slots':
            m = g.standard_slot_map
            o[v] = [int(m[c]) for c in slot()] if len(m) == len(slot()) else []
        elif v == 'pred': o[v] = {str(n): ints(slot()[i] for i in g.predecessor_slots(n)) for n in g.nodes}
        elif v == 'succ': o[v] = {str(n): ints(slot()[i] for i in g.successor_slots(n)) for n in g.nodes}
        elif v == 'desc': o[v] = {str(n): ints(g.elemental_descendants(n)) for n in g.nodes}
        elif v == 'multi': o[v] = [ints(e) for e in g.standard_competitive_edge_list]
        elif v == 'multi2': o[v] = [dict(n=int(n), by=ints(p)) for p, n in g.standard_competitive_edge_list_2]
        elif v == 'arr':
            up, dn, first, alloc = g.edge_slot_arrays()
            o[v] = [[int(slot()[a]), int(slot()[b]), int(f)] for a, b, f in zip(up, dn, first)]
        elif v == 'span':
            up, dn, first, alloc = g.edge_slot_arrays()
            r = g.as_arrays(trim=False, model=numpy.float64, parameter_dict=MU)
            o['spanarr'] = [[int(slot()[a]), int(slot()[b])] for a, b in zip(up, dn)]
            o['mu'] = {str(c): fx(r['mu_params'][i]) for i, c in enumerate(slot())}
            o[v] = {str(c): [int(r['start_slots'][i]), int(r['len_slots'][i])] for i, c in enumerate(slot())}
        elif v == 'par': o[v] = {str(n): g.nodes[n].get('parameter') or '' for n in g.nodes}
    return o

class Session:
    def done(self, e, g=None):
        return views(g or self.g, e['look'])
    def new(self, e):
        self.g = g = NestingTree(root_id=e['root']) if e['root'] != 0 or e['how'] == 2 else NestingTree()
        if e['how'] == 0:
            for a in e['alts']: g.add_node(a)
        elif e['how'] == 1: g.add_nodes(e['alts'], parent=e['root'])
        elif e['how'] == 2: g.add_nodes(e['alts'])
        else:
            for a in e['alts']: g.new_node(code=a, name='a%d' % a)
        return self.done(e)
    def nest(self, e):
        kw = dict(parameter=e['p'], children=e['ch'])
        if len(e['up']) == 1 and e['how'] < 2: kw['parent'] = e['up'][0]
        elif e['up']: kw['parents'] = e['up']
        if e['how'] == 1: self.g.add_node(e['code'], **kw)
        else: self.g.new_node(code=e['code'], **kw)
        return self.done(e)
    def attr(self, e):
        self.g.add_node(e['code'], parameter=e['p'])
        return self.done(e)
    def edge(self, e):
        self.g.add_edge(e['u'], e['v'])
        return self.done(e)
    def unedge(self, e):
        self.g.remove_edge(e['u'], e['v'])
        return self.done(e)
    def del_(self, e):
        self.g.remove_node(e['code'])
        return self.done(e)
    def root(self, e):
        self.g.root_id = e['root']
        return self.done(e)
    def order(self, e):
        self.g.suggest_elemental_order(e['ord'])
        return self.done(e)
    def bulk(self, e):
        self.g.add_edges_from([tuple(x) for x in e['es']])
        return self.done(e)
    def bulkdrop(self, e):
        self.g.remove_edges_from([tuple(x) for x in e['es']])
        return self.done(e)
    def look_(self, e):
        return self.done(e)
    def copy(self, e):
        old = self.g
        if e['how'] == 0: self.g = old.copy()
        elif e['how'] == 1: self.g = NestingTree(old)
        else:
            import copy
            self.g = copy.deepcopy(old)
        o = self.done(e)
        o['same'] = bool(self.g == old)
        self.g.add_node(777, children=list(old.elementals)[:2])
        old.add_node(778)
        o2 = [[int(a), int(b)] for a, b in old.edges]
        old.remove_node(778)
        o['apart'] = [x for x in o2 if 778 not in x]
        self.g.remove_node(777)
        self.g = old if e['how'] == 2 else NestingTree.copy(old) if e['how'] == 0 else NestingTree(old)
        return o
    def pickle(self, e):
        old = self.g
        self.g = pickle.loads(pickle.dumps(old))
        o = self.done(e)
        o['same'] = bool(self.g == old)
        return o
    def sub(self, e):
        g = self.g.subgraph_from(e['code'])
        if not e['keep']: self.g = g
        return self.done(e, g)

setattr(Session, 'del', Session.del_)
setattr(Session, 'look', Session.look_)

def run(events):
    return run_session(events, Session)
