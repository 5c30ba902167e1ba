"""C10: iterative pruning follows its schedule to exactly the target
(IterPrune.tla)."""
import random

import net
import vlib


def toy(ns, seed=0):
    import torch
    import torch.nn as nn
    from mmengine.model import BaseModel

    class Toy(BaseModel):

        def __init__(self):
            super().__init__()
            cin = 3
            for k, n in enumerate(ns):
                setattr(self, f'c{k}', nn.Conv2d(cin, n, 1))
                cin = n
            self.head = nn.Conv2d(cin, 2, 1)
            self.seen = []

        def forward(self, inputs, data_samples=None, mode='tensor'):
            x, self.seen = inputs, []
            for k in range(len(ns)):
                x = getattr(self, f'c{k}')(x)
                self.seen.append(x.shape[1])
            x = self.head(x)
            if mode == 'loss':
                return dict(loss=x.sum())
            return [x] if mode == 'predict' else x

    torch.manual_seed(seed)
    return Toy()


class Run:

    def __init__(self, c, seed=0):
        import torch
        from mmengine import MessageHub
        from mmrazor.models.algorithms import DCFF, ItePruneAlgorithm
        self.c = c
        us = c['units']
        dcff = c['kind'] == 'dcff'
        mut = dict(
            type='DCFFChannelMutator' if dcff else 'ChannelMutator',
            channel_unit_cfg=dict(
                type='DCFFChannelUnit' if dcff else
                'SequentialMutableChannelUnit',
                default_args=dict(choice_mode=c['mode'], divisor=c['d'],
                                  min_value=c['mn'], min_ratio=c['rt'] / 10)),
            parse_cfg=dict(type='ChannelAnalyzer', demo_input=(1, 3, 2, 2),
                           tracer_type='BackwardTracer'))
        self.names = [f'c{k}_(0, {u["n"]})_{u["n"]}'
                      for k, u in enumerate(us)]
        target = {}
        for name, u in zip(self.names, us):
            if u['k'] == 'num':
                target[name] = u['v']
            elif u['k'] == 'ratio':
                target[name] = u['v'] / u['q']
        items = list(target.items())
        random.Random(seed).shuffle(items)
        self.algo = (DCFF if dcff else ItePruneAlgorithm)(
            toy([u['n'] for u in us]), mutator_cfg=mut,
            target_pruning_ratio=dict(items) if items else None,
            step_freq=c['freq'], prune_times=c['times'],
            linear_schedule=bool(c['linear']))
        self.algo.mutator.set_choices({
            name: u['s'] if c['mode'] == 'number' else u['s'] / u['n']
            for name, u in zip(self.names, us)})
        hub = self.hub = MessageHub.get_current_instance()
        hub.update_info('max_epochs', c['epochs'])
        hub.update_info('max_iters', c['epochs'] * c['ipe'])
        self.tick(0)
        self.x = torch.rand(1, 3, 2, 2)

    def tick(self, it):
        self.hub.update_info('iter', it)
        self.hub.update_info('epoch', it // self.c['ipe'])

    def forward(self, train, mode):
        self.algo.train(train)
        self.algo.forward(self.x, None, mode)

    def widths(self):
        m = self.algo.mutator
        w = [int(m._name2unit[n].mutable_channel.current_mask.sum())
             for n in self.names]
        seen = self.algo.architecture.seen
        if seen and self.c['kind'] == 'ite' and list(seen) != w:
            return list(seen)
        return w

    def step(self, e, t):
        if e['op'] == 'tick':
            self.tick(e['it'])
        else:
            self.forward(e['op'] == 'train', e['mode'])
        w = self.widths()
        if w != t['w']:
            return f'widths {w} at iteration {t["it"]}, not {t["w"]}'


def unit(n, k='none', v=0, q=1, s=None):
    return dict(n=n, s=s or n, k=k, v=v, q=q)


def configs(ctx):
    r, res = ctx.rng, []
    big = 1 if ctx.quick else 3
    for freq in (1, 2, 3):
        for times in (1, 2, 3, 4):
            for ipe, epochs in ((9, 1), (1, 8), (2, 4), (3, 3)):
                for lin in ((1, 0) if not ctx.quick else
                            (int(r.random() < .75), )):
                    for mode in ('number', 'ratio'):
                        d, mn = r.choice([(1, 1), (1, 1), (2, 1), (2, 2),
                                          (4, 4)])
                        res.append(dict(
                            kind='ite', freq=freq, times=times, linear=lin,
                            ipe=ipe, epochs=epochs, mode=mode, d=d, mn=mn,
                            rt=9, units=units(r, r.randint(1, 3), 12)))
    for freq, times in ((0, 2), (0, 3), (2, 0), (1, 0), (3, 0), (0, 5)):
        for ipe, epochs in ((9, 1), (2, 4), (3, 3)):
            res.append(dict(kind='dcff', freq=freq, times=times,
                            linear=int(r.random() < .3), ipe=ipe,
                            epochs=epochs, mode='ratio', d=1, mn=1, rt=9,
                            units=units(r, 2, 8)))
    return [c for c in res if legal(c)]


def legal(c):
    f = c['freq'] * (c['ipe'] if c['epochs'] != 1 else 1)
    mx = c['ipe'] * c['epochs']
    return c['kind'] == 'ite' or (0 < f < mx) != (0 < c['times'] < mx)


def units(r, k, top):
    us = []
    for _ in range(k):
        n = r.randint(1, top)
        x = r.random()
        s = n if r.random() < .7 else r.randint(1, n)
        if x < .15:
            us.append(unit(n, s=s))
        elif x < .55:
            us.append(unit(n, 'num', r.randint(1, n), 1, s))
        else:
            q = r.choice([2, 3, 5, 10])
            us.append(unit(n, 'ratio', r.randint(1, q), q, s))
    return us


def history(job):
    c, seed = job
    rng = random.Random(seed)
    ev = []
    try:
        run = Run(c, seed)
        # the start is what the units were brought to
        for u, w in zip(c['units'], run.widths()):
            u['s'] = w
        if rng.random() < .5:
            run.forward(False, 'tensor')
            ev.append(dict(op='eval', w=run.widths()))
        for it in range(c['ipe'] * c['epochs']):
            run.tick(it)
            for _ in range(rng.choice([1, 1, 1, 2])):
                if rng.random() < .2:
                    run.forward(False, rng.choice(['loss', 'tensor']))
                    ev.append(dict(op='eval', w=run.widths()))
                run.forward(True, rng.choice(['loss', 'loss', 'tensor']))
                ev.append(dict(op='train', it=it, w=run.widths()))
    except Exception as e:
        ev.append(dict(op='text', ok=0, what=f'{type(e).__name__}: {e}'
                       [:200]))
    return dict(par=c, ev=ev)


def run(ctx):
    import mmrazor.models  # noqa
    cfgs = configs(ctx)
    # starts that the width rules leave alone
    for c in cfgs:
        r = Run(c)
        for u, w in zip(c['units'], r.widths()):
            u['s'] = w
    g = vlib.graph(ctx, 'IterPrune', dict(Configs='<- CfgDef'), next='Nxt',
                   defs='CfgDef == ' + vlib.tla(cfgs),
                   invariants=['Inside', 'NeverPast', 'AtTheEnd'],
                   props=['NeverBack', 'OnlyScheduled'])
    vlib.replay(ctx, g, lambda s: Run(cfgs[s['c'] - 1]), 60, 'schedule')
    rng, jobs = ctx.rng, []
    while len(jobs) < (150 if ctx.quick else 3000):
        epochs = rng.choice([1, 1, rng.randint(2, 6)])
        ipe = rng.randint(1, 30) if epochs == 1 else rng.randint(1, 6)
        c = dict(kind=rng.choice(['ite'] * 4 + ['dcff']),
                 freq=rng.choice([1, 1, 2, 3, rng.randint(1, 6)]),
                 times=rng.randint(1, 12), linear=int(rng.random() < .8),
                 ipe=ipe, epochs=epochs,
                 mode=rng.choice(['number', 'ratio']),
                 d=rng.choice([1, 1, 2, 8]), mn=1, rt=9,
                 units=units(rng, rng.randint(1, 4), 64))
        if c['kind'] == 'dcff':
            c['mode'] = 'ratio'
            c[rng.choice(['freq', 'times'])] = 0
        if legal(c):
            jobs.append((c, rng.randint(0, 1 << 30)))
    traces = net.pmap(history, jobs)
    vlib.validate(ctx, 'IterPruneTrace', traces, what='pruning schedule')
