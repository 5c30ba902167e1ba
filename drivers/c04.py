"""C04: IndexDict and MutableChannelContainer against Ranges.tla."""
import torch

import vlib

REFUSED = (AssertionError, ValueError, KeyError)


class Box:
    """A container with elements, or (n = 0) a bare IndexDict."""

    def __init__(self, n, el, rng, prefix=None):
        from mmrazor.models.mutables import (MutableChannelContainer,
                                             SimpleMutableChannel,
                                             SquentialMutableChannel)
        from mmrazor.utils import IndexDict
        self.n, self.rng = n, rng
        self.el = []
        for i, k in enumerate(el):
            seq = rng.random() < .5 if prefix is None else prefix[i]
            self.el.append((SquentialMutableChannel if seq
                            else SimpleMutableChannel)(k))
        self.seq = [type(e) is SquentialMutableChannel for e in self.el]
        if n:
            self.mod = None
            r = rng.random()
            if r < .6:
                self.box = MutableChannelContainer(n)
            else:       # the container of a layer
                from mmrazor.models.architectures.dynamic_ops import (
                    DynamicBatchNorm2d, DynamicLinear)
                if r < .8:
                    self.mod = DynamicLinear(n, n)
                    for a in ('in_channels', 'out_channels'):
                        self.mod.register_mutable_attr(
                            a, MutableChannelContainer(n))
                else:
                    self.mod = DynamicBatchNorm2d(n)
                    self.mod.register_mutable_attr(
                        'num_features', MutableChannelContainer(n))
                self.out = rng.random() < .5
                self.box = self.mod.get_mutable_attr(
                    'out_channels' if self.out else 'in_channels')
            self.d = self.box.mutable_channels
        else:
            self.d = IndexDict()

    def do(self, e):
        op, m = e['op'], e['m'] - 1
        self.mask = []
        try:
            if op == 'reg':
                if not self.n:
                    self.d[(e['s'], e['e'])] = self.el[m]
                elif self.mod is not None and e['e'] >= 0:
                    self.box.register_mutable_channel_to_module(
                        self.mod, self.el[m], self.out, e['s'], e['e'])
                else:
                    self.box.register_mutable(self.el[m], e['s'], e['e'])
            elif op == 'del':
                del self.d[(e['s'], e['e'])]
            elif op == 'set':
                x = self.el[m]
                if self.seq[m]:
                    assert e['mask'] == sorted(e['mask'], reverse=True)
                    x.current_choice = sum(e['mask'])
                else:
                    x.current_choice = torch.tensor(e['mask']).bool()
            elif op == 'read':
                how = self.rng.randrange(4)
                t = self.box.current_mask if how < 2 else \
                    self.box.current_choice
                self.mask = [int(v) for v in t]
                if how == 3 and self.box.activated_channels != sum(self.mask):
                    self.mask = ['activated_channels', 'differs']
        except REFUSED:
            return False
        return True

    def keys(self):
        return [list(k) for k in self.d.keys()]

    def vals(self):
        return [next((i + 1 for i, x in enumerate(self.el) if x is v), 0)
                for v in self.d.values()]

    def step(self, e, t):
        ok = self.do(e)
        if ok != e['ok']:
            return (f'{e["op"]} ({e["s"]}, {e["e"]}) '
                    f'{"succeeded" if ok else "failed"}')
        if e['op'] == 'read' and self.mask != e['mask']:
            return f'kept channels {self.mask}, specification {e["mask"]}'
        want = [[r['s'], r['e']] for r in t['regs']]
        if self.keys() != want:
            return f'ranges {self.keys()}, specification {want}'
        if self.vals() != [r['m'] for r in t['regs']]:
            return f'elements {self.vals()} at {want}'


def random_trace(rng, steps):
    n = rng.choice([0, 0, 4, 8, 16, 33])
    cuts = sorted(rng.sample(range(1, n), min(n - 1, rng.randint(1, 5)))) \
        if n else []
    parts = list(zip([0] + cuts, cuts + [n]))
    el = [b - a for a, b in parts] if n else [3, 3, 3]
    if n and rng.random() < .5:
        el.append(rng.randint(1, n))
    b = Box(n, el, rng)
    lo, hi = (-5, 30) if not n else (0, n)
    ev = []
    for _ in range(steps):
        e = dict(op='', m=rng.randint(1, len(el)), s=0, e=0, mask=[])
        r = rng.random()
        if r < (.45 if n else .8):
            e['op'] = 'reg'
            if n and rng.random() < .7:
                k = e['m'] - 1
                if k < len(parts):
                    e['s'], e['e'] = parts[k]
                else:
                    e['s'] = rng.randint(0, n - el[k])
                    e['e'] = e['s'] + el[k]
            else:
                e['s'] = rng.randint(lo, hi)
                e['e'] = min(e['s'] + rng.choice([0, -1, 1, 2, 3, 5, 9, 20]),
                             hi)
                keys = [tuple(k) for k in b.keys()]
                free = e['s'] < e['e'] and not any(
                    s < e['e'] and e['s'] < t for s, t in keys)
                if n and (e['e'] < 0 or
                          free and e['e'] - e['s'] != el[e['m'] - 1]):
                    continue
        elif not n:
            e['op'] = 'del'
            ks = b.keys()
            e['s'], e['e'] = rng.choice(ks) if ks else (0, 1)
        elif r < .75:
            e['op'] = 'set'
            k = el[e['m'] - 1]
            if b.seq[e['m'] - 1]:
                a = rng.randint(1, k)
                e['mask'] = [1] * a + [0] * (k - a)
            else:
                e['mask'] = [rng.randint(0, 1) for _ in range(k)]
        else:
            e['op'] = 'read'
        e['ok'] = b.do(e)
        if e['op'] == 'read':
            e['mask'] = b.mask
        e['keys'], e['vals'] = b.keys(), b.vals()
        ev.append(e)
    return dict(par=dict(n=n, el=el), ev=ev)


def run(ctx):
    cfgs = [dict(n=4, el=[1, 2, 1]), dict(n=3, el=[1, 1, 1]),
            dict(n=5, el=[2, 3])]
    if not ctx.quick:
        cfgs += [dict(n=6, el=[2, 1, 3]), dict(n=5, el=[1, 2, 1, 1])]
    for pref in (True, False):
        use = cfgs if pref or not ctx.quick else cfgs[:2]
        g = vlib.graph(ctx, 'Ranges', dict(
            Configs='<- CfgDef', Prefixes=str(pref).upper()),
            defs='CfgDef == ' + vlib.tla(use),
            invariants=['SortedDisjoint', 'NonEmpty', 'MaskIsWhole',
                        'MaskPointwise'],
            props=['RefusedChangesNothing', 'ReadKeepsRegistered'],
            timeout=300)
        vlib.replay(
            ctx, g, lambda s: Box(
                use[s['ci'] - 1]['n'], use[s['ci'] - 1]['el'], ctx.rng,
                [pref and ctx.rng.random() < .7] * 4),
            maxlen=30, desc='container',
            budget=30000 if ctx.quick else 400000)
    traces = [t for t in (ctx.guard(random_trace, ctx.rng, 30,
                                    desc='random history')
                          for _ in range(500 if ctx.quick else 8000))
              if t and t['ev']]
    vlib.validate(ctx, 'RangesTrace', traces, what='recorded history')
    ctx.sample(traces[0]['ev'][:3])
