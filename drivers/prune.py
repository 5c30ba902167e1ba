"""Lives of networks prepared for channel pruning (PruneTrace.tla): C07, C08,
C09 (round trips), C18."""
import copy
import random

import torch
import torch.nn as nn

import net

KINDS = ['seq', 'seq', 'seq', 'l1', 'one', 'slim', 'dmcp', 'dcff']
CLASS = dict(seq='SequentialMutableChannelUnit', l1='L1MutableChannelUnit',
             one='OneShotMutableChannelUnit', slim='SlimmableChannelUnit',
             dmcp='DMCPChannelUnit', dcff='DCFFChannelUnit')
ATOL = 1e-4


class Life:

    def __init__(self, p, tracer, kind, seed, cin=3, cfg=None):
        self.rng = random.Random(seed)
        random.seed(seed)
        torch.manual_seed(seed)
        self.p, self.tracer, self.kind, self.seed, self.cin = \
            p, tracer, kind, seed, cin
        r = self.rng
        self.cfg = cfg or dict(d=r.choice([1, 1, 2, 3, 4]),
                               mn=r.choice([1, 1, 2]), rt=9)
        if kind in ('dmcp',) and cfg is None:
            self.cfg['rt'] = 5
        self.mode = r.choice(['number', 'ratio'])
        if kind in ('one', 'slim', 'dcff'):
            self.mode = 'number' if kind == 'slim' else 'ratio'
        self.orig = net.Prog(cin, p, seed).eval()
        self.x = torch.rand(2, cin, 2, 2) * 2 - .5
        self.trace = dict(
            par=dict(cin=cin, nl=net.nlayers(p), prefix=int(kind != 'l1'),
                     tracer=tracer, kind=kind, style=seed, mode=self.mode,
                     **self.cfg),
            ev=list(p) + [dict(op='done')])
        self.ev = self.trace['ev']

    # ------------------------------------------------------------ preparing
    def parse_cfg(self):
        return dict(type='ChannelAnalyzer', demo_input=(1, self.cin, 2, 2),
                    tracer_type=self.tracer)

    def default_args(self):
        c = self.cfg
        a = dict(divisor=c['d'], min_value=c['mn'], min_ratio=c['rt'] / 10,
                 choice_mode=self.mode)
        if self.kind in ('one', 'dcff'):
            a['candidate_choices'] = [.25, .5, .75, 1.0]
        return a

    def build(self, model=None):
        """(model, mutator) prepared the way this life says."""
        from mmrazor.models.mutators import ChannelMutator
        model = model or copy.deepcopy(self.orig)
        cls = CLASS[self.kind]
        if self.kind == 'slim':
            if not hasattr(self, 'units_cfg'):
                pre = ChannelMutator(dict(
                    type='SequentialMutableChannelUnit',
                    default_args=dict(choice_mode='number')),
                    self.parse_cfg())
                m0 = copy.deepcopy(self.orig)
                pre.prepare_from_supernet(m0)
                us = pre.config_template(
                    with_unit_init_args=True,
                    with_channels=True)['channel_unit_cfg']['units']
                for u in us.values():
                    n = u['init_args']['num_channels']
                    u['init_args'] = dict(
                        num_channels=n, choice_mode='number',
                        candidate_choices=sorted(
                            {1, max(1, n // 2), n}), divisor=1)
                    u.pop('choice')
                self.units_cfg = us
                self.cfg.update(d=1, mn=1)
                self.trace['par'].update(d=1, mn=1)
            mut = ChannelMutator(
                dict(type=cls, units=copy.deepcopy(self.units_cfg)),
                dict(type='Config'))
        else:
            mut = ChannelMutator(
                dict(type=cls, default_args=self.default_args()),
                self.parse_cfg())
        mut.prepare_from_supernet(model)
        return model, mut

    def weights(self, model):
        sd = {k: v.clone() for k, v in self.orig.state_dict().items()}
        miss, extra = model.load_state_dict(sd, strict=False)
        if extra:
            raise AssertionError(f'prepared model lost {extra}')
        if self.kind == 'slim':     # statistics that differ between widths
            g = torch.Generator().manual_seed(self.seed)
            for m in model.modules():
                if hasattr(m, 'candidate_bn'):
                    for b in m.candidate_bn.values():
                        for t in (b.running_mean, b.running_var, b.weight,
                                  b.bias):
                            t.data.copy_(torch.rand(t.shape, generator=g) +
                                         .5)

    @staticmethod
    def units(mut):
        return [net.unit(dict(init_args=dict(num_channels=u.num_channels),
                              channels=u.config_template(
                                  with_channels=True)['channels']))
                for u in mut.units]

    def prepare(self):
        try:
            self.model, self.mut = self.build()
            self.weights(self.model)
            us = self.units(self.mut)
        except Exception as e:
            self.ev.append(dict(op='failed', why=f'{type(e).__name__}: {e}'
                                [:300]))
            return False
        self.model.eval()
        self.ev.append(dict(op='prep', units=us))
        if not all(u.is_mutable for u in self.mut.units):
            self.text(False, 'a prepared unit is not mutable')
        return bool(us)

    # -------------------------------------------------------------- choices
    def read(self, mut=None):
        w, m = [], []
        for u in (mut or self.mut).units:
            c = u.current_choice
            n = u.num_channels
            w.append(c if isinstance(c, int) else
                     int(n * c + .5) if abs(n * c - int(n * c + .5)) < 1e-6
                     else -1)
            m.append([int(b) for b in u.mutable_channel.current_mask])
        return w, m

    def request(self, u):
        r, n = self.rng, u.num_channels
        if self.kind == 'one' or self.kind == 'slim':
            c = r.choice(u.candidate_choices)
            if isinstance(c, float):
                return c, dict(k='num', v=int(round(c * n)), q=1)
            return c, dict(k='num', v=c, q=1)
        if r.random() < .5:
            v = r.choice([1, n, r.randint(1, n), r.randint(1, n)])
            return v, dict(k='num', v=v, q=1)
        q = r.choice([n, 4, 10, 3])
        v = r.randint(1, q)
        return v / q, dict(k='ratio', v=v, q=q)

    def choose(self, full=False):
        """Set some units (through the mutator or the units) or sample."""
        r = self.rng
        none = dict(k='', v=0, q=1)
        names = [u.name for u in self.mut.units]
        req = {}
        by = 'set'
        if full:
            ch = {u.name: (u.num_channels if u.is_num_mode else 1.0)
                  for u in self.mut.units}
            self.mut.set_choices(ch)
            req = {u.name: dict(k='num', v=u.num_channels, q=1)
                   for u in self.mut.units}
        elif r.random() < .4:
            by = 'sample'
            self.mut.set_choices(self.mut.sample_choices())
        else:
            ch = {}
            for u in self.mut.units:
                if r.random() < .8:
                    ch[u.name], req[u.name] = self.request(u)
            if r.random() < .5:
                self.mut.set_choices(ch)
            else:
                for u in r.sample(list(self.mut.units), len(names)):
                    if u.name in ch:
                        u.current_choice = ch[u.name]
        self.choose_record(by, [req.get(n, none) for n in names])

    def choose_record(self, by='told', req=()):
        w, m = self.read()
        self.ev.append(dict(op='choose', by=by, w=w, m=m, req=list(req)))

    # ---------------------------------------------------------- observation
    @staticmethod
    def layers(model):
        for k, mod in model.named_children():
            if k[0] == 'l' and k[1:].isdigit():
                yield int(k[1:]), mod

    @staticmethod
    def layer_masks(mod):
        def mask(attr, n):
            if hasattr(mod, 'mutable_attrs'):
                c = mod.get_mutable_attr(attr)
                if c is not None:
                    return [int(b) for b in c.current_mask]
            return [1] * n
        if isinstance(mod, nn.Conv2d):
            return (mask('in_channels', mod.in_channels),
                    mask('out_channels', mod.out_channels))
        if isinstance(mod, nn.Linear):
            return (mask('in_channels', mod.in_features),
                    mask('out_channels', mod.out_features))
        n = getattr(mod, 'num_features', 0) or mod.num_channels
        return mask('in_channels', n), mask('out_channels', n)

    def masks(self):
        lay = []
        for k, mod in self.layers(self.model):
            i, o = self.layer_masks(mod)
            lay.append(dict(l=k, i=i, o=o))
        if lay:
            self.ev.append(dict(op='masks', lay=lay))

    def sliced(self):
        """The original network with its layers cut to the masks."""
        ref = copy.deepcopy(self.orig)
        for k, mod in self.layers(self.model):
            i, o = (torch.tensor(t).bool() for t in self.layer_masks(mod))
            src = dict(ref.named_children())[f'l{k}']
            if isinstance(src, nn.Conv2d):
                g = src.groups
                if g == src.in_channels == src.out_channels:
                    w, g2 = src.weight[o], int(o.sum())
                else:
                    ig, og = i.view(g, -1), o.view(g, -1)
                    w = torch.cat([
                        src.weight.view(g, -1, *src.weight.shape[1:])
                        [q][og[q]][:, ig[q]] for q in range(g)])
                    g2 = g
                new = nn.Conv2d(int(i.sum()), int(o.sum()), src.kernel_size,
                                padding=src.padding, groups=g2,
                                bias=src.bias is not None)
                new.weight.data = w.clone()
                if src.bias is not None:
                    new.bias.data = src.bias[o].clone()
            elif isinstance(src, nn.Linear):
                new = nn.Linear(int(i.sum()), int(o.sum()),
                                bias=src.bias is not None)
                new.weight.data = src.weight[o][:, i].clone()
                if src.bias is not None:
                    new.bias.data = src.bias[o].clone()
            elif isinstance(src, nn.BatchNorm2d):
                new = nn.BatchNorm2d(int(i.sum()))
                if self.kind == 'slim' and int(i.sum()) < len(i) and \
                        hasattr(mod, 'candidate_bn'):
                    new = copy.deepcopy(mod.candidate_bn[str(int(i.sum()))])
                else:
                    for t in ('weight', 'bias', 'running_mean',
                              'running_var'):
                        getattr(new, t).data = \
                            getattr(src, t).data[i].clone()
            else:
                continue
            setattr(ref, f'l{k}', new)
        return ref.eval()

    def forward(self, model, x=None):
        model.rec = []
        try:
            with torch.no_grad():
                y = model(self.x if x is None else x)
            return 1, list(model.rec), y if isinstance(y, tuple) else (y, )
        except Exception as e:
            return 0, f'{type(e).__name__}: {e}'[:300], ()
        finally:
            model.rec = None

    @staticmethod
    def near(a, b):
        return len(a) == len(b) and all(
            x.shape == y.shape and torch.allclose(x, y, ATOL, ATOL)
            for x, y in zip(a, b))

    def run(self, model=None, ref=None, how=''):
        model = model or self.model
        ok, w, y = self.forward(model)
        e = dict(op='run', ok=ok, w=w if ok else [], close=0, how=how)
        if not ok:
            e['why'] = w
        else:
            ref = ref or self.sliced()
            _, _, z = self.forward(ref)
            e['close'] = int(self.near(y, z))
        self.ev.append(e)
        return y

    def train_run(self):
        """A forward pass in training mode is that of the sliced network and
        moves only the statistics of the kept channels."""
        ref = self.sliced().train()
        before = {k: b.clone() for k, b in self.model.named_buffers()
                  if 'running' in k}
        self.model.train()
        ok, w, y = self.forward(self.model)
        self.model.eval()
        _, _, z = self.forward(ref)
        e = dict(op='run', ok=ok, w=w if ok else [], close=0, train=1)
        if ok:
            good = self.near(y, z)
            bufs = dict(self.model.named_buffers())
            for k, mod in self.layers(self.model):
                if isinstance(mod, nn.BatchNorm2d):
                    i = torch.tensor(self.layer_masks(mod)[0]).bool()
                    r = dict(ref.named_children())[f'l{k}']
                    if self.kind == 'slim' and not i.all():
                        continue
                    for t in ('running_mean', 'running_var'):
                        b = bufs[f'l{k}.{t}']
                        good = good and torch.allclose(
                            b[i], getattr(r, t), ATOL, ATOL) and torch.equal(
                                b[~i], before[f'l{k}.{t}'][~i])
            e['close'] = int(good)
        else:
            e['why'] = w
        self.ev.append(e)
        self.weights(self.model)      # undo

    # --------------------------------------------------------------- export
    def state(self, model=None):
        """Everything of a model that an export or estimate may not touch."""
        model = model or self.model
        return (net.snapshot(model), self.read(),
                {n: [int(c.is_fixed), str(c.current_choice)]
                 for n, c in model.named_modules() if hasattr(c, 'is_fixed')})

    def still(self, before, model=None):
        now = self.state(model)
        return net.unchanged(before[0], now[0]) and before[1:] == now[1:]

    def shapes(self, model):
        """The layers of a model that is to be static."""
        from mmrazor.models.architectures.dynamic_ops import DynamicMixin
        from mmrazor.models.mutables.base_mutable import BaseMutable
        lay = []
        for k, m in self.layers(model):
            if isinstance(m, nn.Conv2d):
                lay.append(dict(l=k, i=m.in_channels, o=m.out_channels,
                                g=m.groups))
                if tuple(m.weight.shape[:2]) != (
                        m.out_channels, m.in_channels // m.groups):
                    lay[-1]['i'] = -1
            elif isinstance(m, nn.Linear):
                lay.append(dict(l=k, i=m.in_features, o=m.out_features, g=1))
                if tuple(m.weight.shape) != (m.out_features, m.in_features):
                    lay[-1]['i'] = -1
            elif isinstance(m, nn.BatchNorm2d):
                n = m.num_features
                if {tuple(t.shape) for t in (
                        m.weight, m.bias, m.running_mean,
                        m.running_var)} != {(n, )}:
                    n = -1
                lay.append(dict(l=k, i=n, o=n, g=1))
        dyn = sum(isinstance(m, (DynamicMixin, BaseMutable))
                  for m in model.modules())
        return lay, dyn

    def static(self, model, same=True, how=''):
        """A network that is to be the selected one, written out."""
        lay, dyn = self.shapes(model)
        self.ev.append(dict(op='static', lay=lay, dyn=dyn, same=int(same),
                            how=how))
        self.run(model=model, how=how)

    def export(self, mode=None):
        """Export in one of the ways, load the description in another
        network."""
        from mmrazor.structures.subnet import (
            export_fix_subnet, load_fix_subnet)
        from mmrazor.structures.subnet.fix_subnet import convert_fix_subnet
        r = self.rng
        known = mode is not None
        mode = mode or r.choice(['mutable', 'mutator'])
        chan = r.random() < .5 or self.mut.parse_cfg['type'] == 'Config'
        how = f'{mode} {chan}'
        root = Algo(self.model, self.mut)
        before = self.state()
        try:
            desc, static = export_fix_subnet(
                root, mode, slice_weight=True, export_channel=chan)
            same = self.still(before)
            static = static.architecture.eval()
            self.static(static, same, 'export ' + how)
            if mode == 'mutable':
                if self.kind == 'l1' and not known:     # a known finding
                    return
                desc = convert_fix_subnet(desc)
            desc = through_file(desc, r.choice(['json', 'yaml']))
            if mode == 'mutator':
                fresh = copy.deepcopy(self.orig)
                load_fix_subnet(fresh, desc, load_subnet_mode='mutator')
                fresh.load_state_dict(static.state_dict())
            else:
                fresh, mut = self.build()
                self.weights(fresh)
                root, kw = Algo(fresh, mut), {}
                if r.random() < .3:     # a part of a larger network
                    pre = r.choice(['backbone.', 'm.', 'u_a.'])
                    if r.random() < .5:
                        desc = {pre + k: v for k, v in desc.items()}
                        kw = dict(extra_prefix=pre)
                    else:
                        root = Holder(pre[:-1], root)
                        kw = dict(prefix=pre)
                load_fix_subnet(root, desc, load_subnet_mode='mutable', **kw)
            self.static(fresh.eval(), self.still(before), 'load ' + how)
        except Exception as e:
            self.text(False, f'exporting or loading fails: '
                      f'{type(e).__name__}: {e}'[:200])

    # ----------------------------------------------------------------- cost
    def spatial(self):
        """Per layer: side of its output, kernel size, bias, uses."""
        if not hasattr(self, 'geometry'):
            res, hooks = {}, []
            for k, m in self.layers(self.orig):
                def hook(mod, x, y, k=k):
                    e = res.setdefault(k, dict(
                        l=k, hw=y.shape[2] if y.dim() == 4 else 1, n=0,
                        k=getattr(mod, 'kernel_size', (1, ))[0],
                        b=int(mod.bias is not None)))
                    e['n'] += 1
                hooks.append(m.register_forward_hook(hook))
            with torch.no_grad():
                self.orig(self.x)
            for h in hooks:
                h.remove()
            self.geometry = [res[k] for k in sorted(res)]
        return self.geometry

    def cost(self):
        """Estimate the prepared network as it is, and exported."""
        from mmrazor.models import ResourceEstimator
        from mmrazor.structures.subnet import export_fix_subnet
        r = self.rng
        est = ResourceEstimator(
            input_shape=(1, self.cin, 2, 2), flops_params_cfg=dict(
                units=None, disabled_counters=[
                    'ReLUCounter', 'ReLU6Counter', 'MaxPool2dCounter',
                    'AdaptiveAvgPool2dCounter']))
        before = self.state()
        try:
            model, how = self.model, 'live'
            if r.random() < .5:
                _, root = export_fix_subnet(
                    Algo(self.model, self.mut), 'mutable', slice_weight=True,
                    export_channel=self.mut.parse_cfg['type'] == 'Config')
                model, how = root.architecture, 'exported'
            for m in model.modules():
                m.training = r.random() < .3
            before = self.state()
            mine = self.state(model) if how == 'exported' else None
            e = est.estimate(model)
            same = self.still(before) and (
                mine is None or net.unchanged(mine[0], net.snapshot(model)))
            self.model.eval()
            self.ev.append(dict(
                op='cost', lay=self.spatial(), flops=int(e['flops']),
                params=int(e['params']), same=int(same), how=how))
        except Exception as ex:
            import traceback
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            self.text(False, f'estimating fails: {type(ex).__name__}: {ex} '
                      f'{tb.filename}:{tb.lineno}'[:250])

    # ---------------------------------------------------------- round trips
    def round_trip(self):
        """Give what the mutator writes down to a fresh one and go on with
        that one."""
        import os
        import tempfile
        from mmengine import fileio
        from mmrazor.models.mutators import ChannelMutator
        r = self.rng
        way = r.choice(['config', 'config', 'mixed', 'tracer', 'choices'])
        file = r.choice(['', 'json', 'yaml'])
        inits = r.random() < .6
        channels = inits and r.random() < .6
        only, told = r.random() < .5, r.random() < .5
        how = f'{way} {file} {int(channels)}{int(inits)}{int(told)}'
        before = self.state()
        names = [u.name for u in self.mut.units]
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, 'units.' + file)
            try:
                if way == 'choices':
                    ch = self.mut.choice_template if told \
                        else self.mut.current_choices
                    if file:
                        fileio.dump(ch, path)
                        ch = fileio.load(path)

                    def fresh():
                        model, mut = self.build()
                        mut.set_choices(ch)
                        return model, mut
                else:
                    t = self.mut.config_template(
                        only_mutable_units=only,
                        with_unit_init_args=inits or way == 'config' or
                        self.kind == 'slim',
                        with_channels=channels or way == 'config')
                    cfg = copy.deepcopy(t['channel_unit_cfg'])
                    if file:
                        fileio.dump(cfg['units'], path)
                        cfg['units'] = path if told else fileio.load(path)
                    parse = dict(type='Config') if way == 'config' else \
                        self.parse_cfg()
                    if way == 'mixed':
                        parse['from_cfg'] = True

                    def fresh():
                        mut = ChannelMutator(cfg, parse)
                        model = copy.deepcopy(self.orig)
                        mut.prepare_from_supernet(model)
                        return model, mut
                for again in range(r.choice([1, 2])):
                    model, mut = fresh()
                    self.weights(model)
                    if self.kind == 'l1':   # looks at the weights
                        mut.set_choices(mut.current_choices)
                    w, m = self.read(mut)
                    self.ev.append(dict(
                        op='round', units=self.units(mut), w=w, m=m,
                        old=names, names=[u.name for u in mut.units],
                        same=int(self.still(before)), how=how, again=again,
                        widths=int(way != 'tracer')))
            except Exception as e:
                self.text(False, f'a round trip fails ({how}): '
                          f'{type(e).__name__}: {e}'[:200])
                return
        self.model, self.mut = model.eval(), mut
        self.choose_record()

    def text(self, ok, what):
        self.ev.append(dict(op='text', ok=int(bool(ok)), what=what))


class Algo(nn.Module):

    def __init__(self, architecture, mutator):
        super().__init__()
        self.architecture = architecture
        self.mutator = mutator


class Holder(nn.Module):

    def __init__(self, name, net):
        super().__init__()
        self.add_module(name, net)


def through_file(desc, kind):
    import os
    import tempfile
    from mmengine import fileio
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'desc.' + kind)
        fileio.dump(desc, f)
        return fileio.load(f)


def plain(kind, p):
    """Programs a kind of unit can deal with: FuseConv and switchable norms
    belong to one unit each."""
    if kind == 'slim':
        made = {}
        for n, e in enumerate(p):
            if e['op'] == 'bn' and not (
                    e['a'][0] and p[e['a'][0] - 1]['op'] == 'conv'):
                return False
            if e['op'] == 'bn' and e['l'] in made:
                return False
            if e['op'] == 'bn':
                made[e['l']] = 1
            if e['op'] == 'conv' and e['g'] > 1 and e['g'] != e['o']:
                return False
        return True
    return True


def programs(ctx, n, lo=3, hi=9, ops=None):
    """Random programs with prunable channels, mostly."""
    rng, res = ctx.rng, []
    while len(res) < n:
        p = net.random_program(rng, rng.randint(lo, hi), ops=ops)
        tr = rng.choice(['BackwardTracer', 'FxTracer'])
        if net.outside(p, tr) or not any(
                e['op'] in ('conv', 'lin') for e in p):
            continue
        if sum(e['op'] in ('conv', 'lin') for e in p) < 2:
            continue
        kind = rng.choice(KINDS)
        if not plain(kind, p):
            continue
        res.append((p, tr, kind, len(res) + ctx.seed * 100000))
    return res
