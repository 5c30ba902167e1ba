"""Real recorders and deliveries driven by the events of Interpose.tla."""
import itertools

import interp_toys as toys

KINDS = {
    ('in', 'f'): 'FunctionInputs', ('out', 'f'): 'FunctionOutputs',
    ('in', 'm'): 'MethodInputs', ('out', 'm'): 'MethodOutputs',
    ('in', 'x'): 'ModuleInputs', ('out', 'x'): 'ModuleOutputs',
    ('pa', 'x'): 'Parameter',
    ('dl', 'f'): 'FunctionOutputs', ('dl', 'm'): 'MethodOutputs'}
SRC = dict(f='interp_toys.f', g='interp_toys.g', m='interp_toys.A.m',
           i='interp_toys.B.m', x='x')
FAM = dict(f='f', g='f', m='m', i='m', x='x')


def val(r):
    """Token, None and 0 as numbers."""
    if r is None:
        return 8000
    if type(r) is int and r == 0:
        return 7000
    return r.v if isinstance(r, toys.Tok) else -1


class Sim:
    """L: layers as in the specification; managed: set of groups built as a
    manager (others are single, stand-alone objects); late: groups whose
    objects are only constructed when first entered."""

    def __init__(self, L, managed=(), late=(), rng=None):
        self.L, self.managed, self.rng = L, set(managed), rng
        self.net = toys.Net()
        toys.COUNT[0] = 0
        self.a, self.b = toys.A(), toys.B()
        self.objs = {}      # layer index -> recorder / delivery
        self.ctxs = {}      # group -> context manager
        self.open = []
        self.calls = []
        for g in sorted({x['grp'] for x in L}):
            if g not in late:
                self.build(g)

    def build(self, g):
        from mmrazor.models.task_modules import (DistillDeliveryManager,
                                                 RecorderManager)
        from mmrazor.registry import TASK_UTILS
        ls = [i for i, x in enumerate(self.L) if x['grp'] == g]
        isdl = self.L[ls[0]]['kind'] == 'dl'
        cfgs = {}
        for i in ls:
            x = self.L[i]
            t = KINDS[(x['kind'], FAM[x['src']])]
            if isdl:
                key = 'func_path' if FAM[x['src']] == 'f' else 'method_path'
                cfgs[f'r{i}'] = {'type': t, 'max_keep_data': x['cap'],
                                 key: SRC[x['src']]}
            elif x['kind'] == 'pa':
                cfgs[f'r{i}'] = dict(type=t, source='lin.weight')
            else:
                cfgs[f'r{i}'] = dict(type=t, source=SRC[x['src']])
        if g in self.managed:
            m = (DistillDeliveryManager if isdl else RecorderManager)(cfgs)
            if not isdl:
                m.initialize(self.net)
            self.ctxs[g] = m
            for i in ls:
                self.objs[i] = (m.deliveries[f'r{i}'] if isdl else
                                m.get_recorder(f'r{i}'))
        else:
            assert len(ls) == 1
            c = dict(cfgs[f'r{ls[0]}'])
            c['type'] += 'Delivery' if isdl else 'Recorder'
            o = TASK_UTILS.build(c)
            if not isdl:
                o.initialize(self.net)
            self.ctxs[g] = o
            self.objs[ls[0]] = o

    # -- events
    def do(self, e):
        """Returns the observed event (ok, r filled in)."""
        op, g = e['op'], e['g']
        o = dict(e, ok=True, r=0)
        if op == 'call':
            o['ok'], o['r'] = self.call(e['src'], e['v'])
        elif op == 'enter':
            if g not in self.ctxs:
                self.build(g)
            self.ctxs[g].__enter__()
            self.open.append(g)
        elif op in ('exit', 'raise'):
            self.open.pop()
            exc = (None, None, None)
            if op == 'raise':
                try:
                    raise toys.Boom()
                except toys.Boom as b:
                    exc = (toys.Boom, b, b.__traceback__)
            if self.ctxs[g].__exit__(*exc):
                o['ok'] = False     # swallowed the exception
        elif op == 'ov':
            if g not in self.ctxs:
                self.build(g)
            self.ctxs[g].override_data = bool(e['v'])
        o['n'] = toys.COUNT[0]
        o['D'] = self.data()
        o['clean'] = self.clean()
        return o

    def call(self, src, v):
        t = toys.Tok(v)
        st = self.rng.randrange(5) if self.rng and src != 'x' else 0
        args, kw = [((t,), {}), ((t, 7), {}), ((t,), dict(b=7)),
                    ((), dict(b=7, a=t)), ((), dict(a=t, b=7))][st]
        self.calls.append((src, v, st, t))
        f = dict(f=lambda *a, **k: toys.f(*a, **k),
                 g=lambda *a, **k: toys.g(*a, **k),
                 m=self.a.m, i=self.b.m,
                 x=lambda *a: self.net.x(*a))[src]
        self.last = (t, 7 if st else None)
        try:
            r = f(*args, **kw)
        except (toys.Boom, AssertionError):
            return False, 0
        return True, val(r)

    def data(self):
        res = []
        for i, x in enumerate(self.L):
            o = self.objs.get(i)
            if o is None:
                res.append([0] if x['kind'] == 'pa' else [])
            elif x['kind'] == 'dl':
                res.append([val(q) for q in o.data_queue])
            elif x['kind'] == 'pa':
                res.append([0 if q is self.net.lin.weight else -1
                            for q in o.data_buffer])
            else:
                res.append([self.dec(x, q) for q in o.data_buffer])
        return res

    def dec(self, x, q):
        if x['kind'] == 'out':
            return val(q)
        # inputs: the very arguments of one of the calls
        if not isinstance(q, (list, tuple)) or not q or \
                not isinstance(q[0], toys.Tok):
            return -2
        for src, v, st, t in self.calls:
            if t is q[0]:
                want = [t, 7] if st else [t]
                if len(want) != len(q) or any(
                        p is not w for p, w in zip(q, want)):
                    return -3
        return q[0].v

    def reads(self):
        """get_record_data agrees with the buffer, and refuses an index
        beyond it."""
        for i, x in enumerate(self.L):
            o = self.objs.get(i)
            if o is None or x['kind'] == 'dl':
                continue
            buf = list(o.data_buffer)
            for k in range(len(buf) + 2):
                try:
                    got = o.get_record_data(record_idx=k)
                except AssertionError:
                    if k < len(buf):
                        return f'record {k} of {len(buf)} refused'
                    continue
                if k >= len(buf):
                    return f'record {k} of {len(buf)} delivered'
                if got is not buf[k]:
                    return f'record {k} is another one'
                if isinstance(got, (list, tuple)):
                    for j in range(len(got) + 1):
                        try:
                            d = o.get_record_data(k, j)
                        except AssertionError:
                            if j < len(got):
                                return f'data {j} refused'
                            continue
                        if j >= len(got) or d is not got[j]:
                            return f'data {j} of record {k} is wrong'
        return None

    def clean(self):
        """Sources without an open layer are the originals."""
        openl = {self.L[i]['src'] for i in range(len(self.L))
                 if self.L[i]['grp'] in self.open}
        if 'f' not in openl and toys.f is not toys.ORIG['f']:
            return False
        if 'g' not in openl and toys.g is not toys.ORIG['g']:
            return False
        if 'm' not in openl and toys.A.__dict__['m'] is not toys.ORIG['m']:
            return False
        if 'i' not in openl and 'm' in toys.B.__dict__:
            return False
        return True

    # -- replay interface
    def step(self, e, t):
        o = self.do(e)
        if o['ok'] != e['ok']:
            return (f'{e["op"]} {e["src"]}({e["v"]}) '
                    f'{"succeeded" if o["ok"] else "failed"}')
        if o['r'] != e['r']:
            return f'call returned {o["r"]}, specification {e["r"]}'
        if o['n'] != t['n']:
            return f'originals ran {o["n"]} times, specification {t["n"]}'
        if o['D'] != t['D']:
            return f'recorded/queued {o["D"]}, specification {t["D"]}'
        if not o['clean']:
            return 'a source without open context is not the original'
        return self.reads()

    def close(self):
        toys.f, toys.g = toys.ORIG['f'], toys.ORIG['g']
        toys.A.m = toys.ORIG['m']
        if 'm' in toys.B.__dict__:
            del toys.B.m
        for m in self.net.modules():
            m._forward_hooks.clear()


def layers(*spec):
    return [dict(zip(('kind', 'src', 'grp', 'cap'), s + (0,) * (4 - len(s))))
            for s in spec]


def random_history(rng, kinds, maxlen):
    """A random configuration and a random legal history on the real code."""
    ng = rng.randint(1, 3)
    L, managed = [], []
    for g in range(1, ng + 1):
        dl = 'dl' in kinds and rng.random() < (0.6 if 'rec' in kinds else 1)
        n = rng.choice([1, 1, 2, 3])
        if n > 1 or rng.random() < .4:
            managed.append(g)
        for _ in range(n):
            if dl:
                L.append(dict(kind='dl', src=rng.choice('ffgmmi'), grp=g,
                              cap=rng.randint(1, 3)))
            else:
                k = rng.choice(['in', 'out', 'in', 'out', 'pa'])
                L.append(dict(kind=k, src='x' if k == 'pa' else
                              rng.choice('ffgmmix'), grp=g, cap=0))
    late = [g for g in range(1, ng + 1) if rng.random() < .3]
    sim = Sim(L, managed, late, rng)
    ev, gs = [], []
    try:
        for _ in range(rng.randint(5, maxlen)):
            r = rng.random()
            e = dict(op='call', g=0, src='', v=0)
            closed = [g for g in range(1, ng + 1) if g not in gs]
            if r < .2 and closed:
                e.update(op='enter', g=rng.choice(closed))
                gs.append(e['g'])
            elif r < .36 and gs:
                e.update(op=rng.choice(['exit', 'raise']), g=gs.pop())
            elif r < .46 and any(x['kind'] == 'dl' for x in L):
                e.update(op='ov', v=rng.randint(0, 1), g=rng.choice(
                    [x['grp'] for x in L if x['kind'] == 'dl']))
            else:
                src = rng.choice([x['src'] for x in L] + ['f', 'm', 'i'])
                opn = [x for g in gs for x in L if x['grp'] == g]
                # base method wrapped inside the subclass's wrapper
                srcs = [x['src'] for x in opn]
                if src == 'i' and 'i' in srcs and 'm' in \
                        srcs[srcs.index('i'):]:
                    src = 'm'
                below = {'i': 'mi'}.get(src, src)
                v = rng.choice([0, 1, 2, 3, 4, 7, 8, 9])
                if v == 9 and (src == 'x' or any(
                        x['kind'] == 'dl' and x['src'] in below
                        for x in opn)):
                    v = 1
                e.update(src=src, v=v)
            ev.append(sim.do(e))
            r = sim.reads()
            if r:
                ev[-1]['clean'] = False
                ev[-1]['why'] = r
    finally:
        sim.close()
    return dict(par=dict(L=L, managed=managed, late=late), ev=ev)


def check(ctx, configs, invs, kinds, ntraces):
    import vlib
    from concurrent.futures import ThreadPoolExecutor

    def one(c):
        L, ng, srcs, vals, maxn, maxe = c[:6]
        defs = f'MCL == {vlib.tla(L)}\n'
        consts = dict(L='<- MCL', NG=ng, MaxN=maxn, MaxEnter=maxe, HMax=0,
                      Srcs=vlib.tla(set(srcs)), Vals=vlib.tla(set(vals)))
        g = vlib.graph(ctx, 'Interpose', consts, defs=defs, mem='3g',
                       invariants=['QueueBound'],
                       props=['DlStep', 'OverrideRunsNothing',
                              'PlainWhenClosed'])
        if invs:
            # with the history of calls as part of the state
            consts.update(MaxN=min(maxn, 3), Vals=vlib.tla(set(vals) - {9}),
                          HMax=5 if ctx.quick else 6)
            vlib.model(ctx, 'Interpose', vlib.cfg(
                'Init', 'Next', consts, invariants=invs,
                constraint='HBound'), defs=defs)
        return g

    with ThreadPoolExecutor(4) as ex:
        graphs = list(ex.map(one, configs))
    for c, g in zip(configs, graphs):
        L, ng = c[0], c[1]
        for managed, late in c[6]:
            vlib.replay(ctx, g, lambda s: Sim(L, managed, late, ctx.rng),
                        maxlen=30, desc=f'{L} managed={managed} late={late}',
                        budget=40000 if ctx.quick else None)
    traces = [t for t in (ctx.guard(random_history, ctx.rng, kinds, 60,
                                    desc='random history')
                          for _ in range(ntraces)) if t]
    vlib.validate(ctx, 'InterposeTrace', traces, what='recorded history')
    ctx.sample(traces[0]['par'])
    ctx.counts['random_events'] = sum(len(t['ev']) for t in traces)
