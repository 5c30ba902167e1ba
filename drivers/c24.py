"""C24: graphs and their edits against Graphs.tla; graphs extracted from
generated networks (nets.py)."""
import vlib


class Obj:

    def __init__(self, rng, module_graph=False):
        from mmrazor.structures.graph.base_graph import BaseGraph, BaseNode
        from mmrazor.structures.graph.module_graph import (GraphConverter,
                                                           ModuleGraph,
                                                           ModuleNode)
        import torch.nn as nn
        self.rng, self.mg = rng, module_graph
        self.B, self.N = (ModuleGraph, ModuleNode) if module_graph else \
            (BaseGraph, BaseNode)
        if module_graph:
            self.conv = GraphConverter(nn.Sequential())
            self.g = self.conv.graph
        else:
            from mmrazor.structures.graph.module_graph import GraphConverter
            self.conv = GraphConverter.__new__(GraphConverter)
            self.conv.graph = self.g = BaseGraph()
        self.vals = {1: 'input_placeholder', 2: 'output_placeholder',
                     3: 'bind_placeholder', 4: nn.ReLU(), 5: nn.ReLU(),
                     6: (1, 2)}
        self.old = []       # copied-from graphs and what they looked like

    def node(self, a):
        """The graph's own node or an equal one."""
        n = self.g.nodes.get(a['nm'])
        if n is not None and n.val is self.vals[a['val']] and \
                self.rng.random() < .6:
            return n
        return self.N(a['nm'], self.vals[a['val']])

    def do(self, e):
        g, op = self.g, e['op']
        self.order = []
        try:
            if op in ('add', 'addfind'):
                n = self.N(e['a']['nm'], self.vals[e['a']['val']])
                if op == 'add':
                    g.add_node(n)
                else:
                    r = g.add_or_find_node(n)
                    if r is not g.nodes[n.name]:
                        self.order = ['add_or_find_node returns a stranger']
            elif op == 'connect':
                g.connect(self.node(e['a']), self.node(e['b']))
            elif op == 'disconnect':
                g.disconnect(self.node(e['a']), self.node(e['b']))
            elif op == 'delete':
                g.delete_node(self.node(e['a']))
            elif op == 'insert':
                new = self.N(e['b']['nm'], self.vals[3])
                new = g.add_or_find_node(new)
                self.conv._insert_node_before(g.nodes[e['a']['nm']], new)
            elif op == 'copy':
                before = self.look(g)
                h = type(g).copy_from(g, type(self).conv_node(self))
                self.old.append((g, before))
                self.g = self.conv.graph = h
                if set(map(id, h)) & set(map(id, g)):
                    self.order = ['copy shares nodes']
            elif op == 'rebuild':     # every edge again changes nothing
                for n in list(g):
                    for p in list(n.prev_nodes):
                        p.add_next_node(n)
                        n.add_prev_node(p)
            elif op == 'sort':
                self.order = [n.name for n in g.topo_traverse()]
                g.topo_sort()
            elif op == 'walk':
                self.order = [n.name for n in g.topo_traverse()]
            elif op == 'checkfix':
                self.order = [n.name for n in g.topo_traverse()]
                g.check(fix=True)
                g.check()
        except Exception as ex:  # noqa
            if type(ex) not in (Exception, AssertionError):
                raise
            return False
        return True

    def conv_node(self):
        return self.N.copy_from if not self.mg else \
            (lambda n: self.N(n.name, n.val, n.module_name))

    def look(self, g):
        return ([dict(nm=n.name, val=self.val(n),
                      prev=[p.name for p in n.prev_nodes])
                 for n in g], [[p.name for p in n.next_nodes] for n in g])

    def val(self, n):
        return next((k for k, v in self.vals.items() if v is n.val), 0)

    def whole(self):
        """Nodes reached by links are the graph's own, and graphs that were
        copied stay as they were."""
        g = self.g
        for k, n in g.nodes.items():
            if k != n.name:
                return f'node {n.name} is kept under the name {k}'
            for p in list(n.prev_nodes) + list(n.next_nodes):
                if g.nodes.get(p.name) is not p:
                    return f'{n.name} is linked to {p.name}, not a node'
        for h, before in self.old:
            if self.look(h) != before:
                return 'a graph changed when its copy was edited'

    def step(self, e, t):
        ok = self.do(e)
        if ok != e['ok']:
            return f'{e["op"]} {"succeeded" if ok else "failed"}'
        w = self.whole()
        if w:
            return w
        nodes, nexts = self.look(self.g)
        if e['op'] == 'sort':
            if self.order != [n['nm'] for n in nodes]:
                return 'topo_sort does not follow topo_traverse'
            if [r['nm'] for r in t] != self.order:
                return valid(nodes, self.order, t) or vlib.SKIP
        if nodes != t:
            return f'{e["op"]}: nodes {nodes}, specification {t}'
        for n, x in zip(nodes, nexts):
            want = {r['nm'] for r in t if n['nm'] in r['prev']}
            if set(x) != want or len(x) != len(want):
                return f'{e["op"]}: {n["nm"]} precedes {x}, not {want}'


def valid(nodes, order, t):
    if sorted(order) != sorted(r['nm'] for r in t):
        return 'the walk does not list every node once'
    for r in t:
        if any(order.index(p) > order.index(r['nm']) for p in r['prev']):
            return f'the walk {order} visits {r["nm"]} too early'


def random_trace(rng, steps):
    o = Obj(rng, rng.random() < .5)
    names = [f'n{i}' for i in range(rng.randint(3, 9))]
    inner = [3, 4, 5] if o.mg else [3, 4, 5, 6]
    val = {n: rng.choice(inner + [1, 2] * (rng.random() < .3))
           for n in names}
    rank = {n: i for i, n in enumerate(names)}
    ev, cnt, fixed = [], 0, False
    for _ in range(steps):
        own = [n.name for n in o.g]
        a, b = rng.choice(names), rng.choice(names)
        op = rng.choice(['add'] * 3 + ['addfind'] * 2 + ['connect'] * 9 +
                        ['disconnect', 'delete', 'insert', 'copy', 'sort',
                         'walk', 'rebuild', 'checkfix'])
        nd = dict(nm='', val=0)
        e = dict(op=op, a=nd, b=nd)

        def mk(n):
            return dict(nm=n, val=val[n] if rng.random() < .95 else
                        rng.choice(inner))
        if op in ('add', 'addfind', 'delete'):
            if own and op == 'delete' and rng.random() < .8:
                a = rng.choice(own)
            e['a'] = mk(a)
        elif op in ('connect', 'disconnect'):
            if a == b:
                continue
            if op == 'connect' and rank[a] > rank[b]:
                a, b = b, a
            if op == 'connect' and (val[a] == 2 or val[b] == 1):
                continue
            e['a'], e['b'] = mk(a), mk(b)
        elif op == 'insert':
            if not own or len(names) > 14:
                continue
            a = rng.choice(own)
            if val[a] == 1:
                continue
            cnt += 1
            new = f'x{cnt}'
            names.append(new)
            val[new] = 3
            rank[new] = rank[a] - 1 / (1 << cnt) if cnt < 20 else 0
            # keep the rank below the node and above its predecessors
            lo = max([rank[p.name] for p in o.g.nodes[a].prev_nodes],
                     default=rank[a] - 1)
            rank[new] = (lo + rank[a]) / 2
            e['a'], e['b'] = dict(nm=a, val=val[a]), dict(nm=new, val=3)
        elif op == 'checkfix':
            if not o.mg or not own:
                continue
            if any(o.val(n) == 1 and n.prev_nodes or
                   o.val(n) == 2 and n.next_nodes for n in o.g):
                continue
            for n, v in (('auto_input', 1), ('auto_output', 2)):
                if n not in names:
                    names.append(n)
                    val[n] = v
                    rank[n] = -100 if v == 1 else 1000
        e['ok'] = o.do(e)
        w = o.whole()
        e['order'] = o.order
        if w:
            e['order'] = [w]
        e['obs'], e['nexts'] = o.look(o.g)
        ev.append(e)
    return dict(par=dict(n=0), ev=ev)


def run(ctx):
    big = not ctx.quick
    g = vlib.graph(
        ctx, 'Graphs', dict(
            Names='{"a", "b", "c"}', Vals='{3, 4}'),
        next='Nxt',
        invariants=['UniqueNames', 'OwnEdges', 'NoDoubleEdges', 'IsAcyclic',
                    'WalkIsTopological'],
        props=['RefusedChangesNothing', 'DeleteKeepsPaths'],
        defs=None, timeout=300)
    vlib.replay(ctx, g, lambda s: Obj(ctx.rng, ctx.rng.random() < .4),
                maxlen=60, desc='graph edits',
                budget=60000 if ctx.quick else 400000)
    if big:
        r = vlib.model(
            ctx, 'Graphs', vlib.cfg(
                consts=dict(Names='{"a", "b", "c", "d"}', Vals='{3}'),
                next='Nxt',
                invariants=['UniqueNames', 'OwnEdges', 'NoDoubleEdges',
                            'IsAcyclic', 'WalkIsTopological'],
                props=['RefusedChangesNothing', 'DeleteKeepsPaths']),
            timeout=800, workers=6)
    traces = [t for t in (ctx.guard(random_trace, ctx.rng, 50,
                                    desc='random history')
                          for _ in range(500 if ctx.quick else 6000))
              if t and t['ev']]
    vlib.validate(ctx, 'GraphsTrace', traces, what='recorded graph history')
    ctx.sample(traces[0]['ev'][:3])
