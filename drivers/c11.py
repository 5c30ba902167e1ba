"""C11: which widths are trained in each step, what they learn from and how
their gradients are applied (Sandwich.tla)."""
import os
import random
import tempfile

import net
import vlib

SLOTS = 400


class Stop(Exception):
    pass


def register():
    import torch.nn as nn
    from mmrazor.registry import MODELS

    class SerialLoss(nn.Module):
        """Differentiable with respect to the student only; tells the passes
        it was computed from."""

        world = None

        def forward(self, preds_S, preds_T):
            t = preds_T.detach().mean()
            s = preds_S.mean()
            SerialLoss.world.ev.append(dict(
                op='soft', s=int(round(float(s))), t=int(round(float(t)))))
            return s + 1000 * t

    if not MODELS.get('SerialLoss'):
        MODELS.register_module(name='SerialLoss', module=SerialLoss)
    return MODELS.get('SerialLoss')


class World:

    def __init__(self):
        self.ev, self.n, self.mode, self.fail = [], 0, '', -1


def body(world, widths):
    """A network of two searchable layers; out of pass n is worth n and has a
    gradient in tag[n] only."""
    import torch
    import torch.nn as nn
    from mmengine.model import BaseModel

    class Net(BaseModel):

        def __init__(self):
            super().__init__()
            self.a = nn.Conv2d(1, widths[0], 1)
            self.n = nn.BatchNorm2d(widths[0])
            self.b = nn.Conv2d(widths[0], widths[1], 1)
            self.c = nn.Conv2d(widths[1], 1, 1)
            self.out = nn.Identity()
            self.tag = nn.Parameter(torch.zeros(SLOTS))
            self.backbone = nn.Module()
            self.backbone.layers = nn.ModuleList()

        def widths(self):
            return [m.get_dynamic_params()[0].shape[0]
                    if hasattr(m, 'get_dynamic_params') else m.out_channels
                    for m in (self.a, self.b)]

        def forward(self, inputs, data_samples=None, mode='tensor'):
            x = self.c(self.b(self.n(self.a(inputs))))
            if world.mode == '' or mode == 'tensor':
                return x
            if mode == 'predict':
                world.ev.append(dict(op='val'))
                return [self.out(x)]
            world.fail -= 1
            if world.fail == 0:
                raise Stop
            world.n += 1
            d = int(round(float(inputs.mean())))
            modes = {m.training for m in self.modules()}
            world.ev.append(dict(
                op='fwd', sub=self.widths(), mode=int(modes == {True}),
                d=d if data_samples == [d] * len(inputs) else -1))
            y = self.out(x * 0 + self.tag[world.n] + world.n)
            return dict(loss=y.mean())

    return Net


def values(world, cand):
    """The same with searchable values."""
    import torch
    import torch.nn as nn
    from mmengine.model import BaseModel
    from mmrazor.models.mutables import OneShotMutableValue

    class Net(body(world, [1, 1])):

        def __init__(self):
            super().__init__()
            self.v = nn.ModuleList(
                OneShotMutableValue(value_list=list(c), default_value=c[0])
                for c in cand)

        def widths(self):
            return [int(v.current_choice) for v in self.v]

    return Net


def parse(side=2):
    return dict(type='ChannelAnalyzer', tracer_type='FxTracer',
                demo_input=(1, 1, side, side))


def algorithm(world, c):
    import torch
    from mmengine.model import BaseDataPreprocessor
    from mmrazor.models.algorithms import AutoSlim, BigNAS, SlimmableNetwork
    from mmrazor.models.mutators import (NasMutator, OneShotChannelMutator,
                                         SlimmableChannelMutator)
    full = [max(x) for x in c['cand']]
    if c['alg'] != 'bignas':
        Net = body(world, full)

        class Plain(Net):       # to be traced without the bookkeeping

            def forward(self, inputs, data_samples=None, mode='tensor'):
                return self.c(self.b(self.n(self.a(inputs))))

        m = OneShotChannelMutator(
            channel_unit_cfg=dict(type='OneShotMutableChannelUnit',
                                  default_args=dict(choice_mode='number',
                                                    candidate_choices=[1])),
            parse_cfg=parse())
        m.prepare_from_supernet(Plain())
        units = {}
        for u in m.mutable_units:
            i = 'ab'.index(u.name[0])
            units[u.name] = dict(init_args=dict(
                choice_mode='number', num_channels=full[i],
                candidate_choices=list(c['cand'][i])))
        if c['alg'] == 'slim':
            mutator = SlimmableChannelMutator(
                channel_unit_cfg=dict(type='SlimmableChannelUnit',
                                      units=units), parse_cfg=parse())
            return SlimmableNetwork(Net(), mutator,
                                    deploy_index=c['deploy'],
                                    data_preprocessor=BaseDataPreprocessor())
        mutator = OneShotChannelMutator(
            channel_unit_cfg=dict(type='OneShotMutableChannelUnit',
                                  units=units), parse_cfg=parse())
    distiller = dict(
        type='ConfigurableDistiller',
        teacher_recorders=dict(o=dict(type='ModuleOutputs', source='out')),
        student_recorders=dict(o=dict(type='ModuleOutputs', source='out')),
        distill_losses=dict(loss_soft=dict(type='SerialLoss')),
        loss_forward_mappings=dict(loss_soft=dict(
            preds_S=dict(recorder='o', from_student=True),
            preds_T=dict(recorder='o', from_student=False))))
    if c['alg'] == 'autoslim':
        a = AutoSlim(Net(), mutator, distiller,
                     num_random_samples=c['samples'],
                     data_preprocessor=BaseDataPreprocessor())
        places = {u.name: 'ab'.index(u.name[0])
                  for u in a.mutator.mutable_units}
    else:
        a = BigNAS(values(world, c['cand'])(), NasMutator(), distiller,
                   num_random_samples=c['samples'],
                   data_preprocessor=BaseDataPreprocessor())
        places = {}
        for gid, ms in a.mutator.search_groups.items():
            for i, v in enumerate(a.architecture.v):
                if any(v is x for x in ms):
                    places[gid] = i
    sample = a.mutator.sample_choices

    def drawn(*args, **kw):
        res = sample(*args, **kw)
        if world.mode == 'train':
            sub = [0] * len(places)
            for k, x in res.items():
                sub[places[k]] = int(x)
            world.ev.append(dict(op='sample', sub=sub))
        return res

    a.mutator.sample_choices = drawn
    return a


def config(rng):
    alg = rng.choice(['slim', 'autoslim', 'bignas'])
    n = rng.randint(1, 4)
    c = dict(alg=alg, deploy=-1, samples=0)
    if alg == 'slim':
        c['cand'] = [rng.sample(range(1, 8), n) for _ in range(2)]
        subs = [list(s) for s in zip(*c['cand'])]
        if rng.random() < .15:
            c['deploy'] = rng.randrange(n)
            c['kinds'] = [dict(pre='', sub=subs[c['deploy']], hard=1, soft=0)]
        else:
            c['kinds'] = [dict(pre=f'subnet_{i}.', sub=s, hard=1, soft=0)
                          for i, s in enumerate(subs)]
    else:
        c['cand'] = [sorted(rng.sample(range(1, 8), rng.randint(1, 4)))
                     for _ in range(2)]
        c['samples'] = rng.choice([0, 1, 2, 2, 3, 4])
        hard = int(alg == 'autoslim')
        c['kinds'] = [
            dict(pre='max_subnet.', sub=[max(x) for x in c['cand']], hard=1,
                 soft=0),
            dict(pre='min_subnet.', sub=[min(x) for x in c['cand']],
                 hard=hard, soft=1)] + [
            dict(pre=f'random{i}_subnet.', sub=[], hard=hard, soft=1)
            for i in range(c['samples'])]
    k = len(c['kinds'])
    c['acc'] = rng.choice([1, 1, 2, 3, k, k + 1, 2 * k])
    c['first'] = rng.choice([0, 0, 0, 1, 2])
    c['last'] = c['first'] + rng.randint(1, 5)
    return c


def history(job):
    seed, = job
    import torch
    from mmengine.logging import MessageHub
    from mmengine.optim import OptimWrapper
    rng = random.Random(seed)
    random.seed(seed)
    import numpy
    numpy.random.seed(seed & 0xffffffff)
    torch.manual_seed(seed)
    c = config(rng)
    world = World()
    register().world = world
    ev = world.ev
    c['ddp'] = int(rng.random() < .35)
    try:
        a = algorithm(world, c)
    except Exception as e:
        return dict(par=c, ev=[dict(op='text', ok=0, what='building: %s: %s' %
                                    (type(e).__name__, str(e)[:100]))])
    top = a
    if c['ddp']:
        top = ddp(a, c)

    class SGD(torch.optim.SGD):

        def step(self, closure=None):
            g = a.architecture.tag.grad
            g = torch.zeros(SLOTS) if g is None else g
            ev.append(dict(op='upd', g=[
                dict(n=int(i), v=int(round(float(g[i]) * 1e6)))
                for i in g.nonzero().flatten()]))
            super().step(closure)

    hub = MessageHub.get_instance(f'h{seed}')
    hub.update_info('max_iters', c['last'])
    hub.update_info('iter', c['first'])
    opt = OptimWrapper(SGD(a.parameters(), lr=0.), accumulative_counts=c['acc'])
    opt.message_hub = hub
    # (a runner does so before training)
    opt.initialize_count_status(top, c['first'], c['last'])
    # an unused parameter of another width must not matter
    wild = rng.random() < .3
    for it in range(c['first'], c['last']):
        hub.update_info('iter', it)
        if rng.random() < .3:       # validate other widths in between
            world.mode = 'val'
            top.eval()
            if c['alg'] == 'slim':
                if c['deploy'] < 0:
                    a.mutator.set_choices(rng.choice(a.mutator.subnets))
            else:
                a.mutator.set_choices(a.mutator.sample_choices())
            with torch.no_grad():
                a.val_step(dict(inputs=torch.ones(2, 1, 2, 2),
                                data_samples=[1, 1]))
        top.train()
        d = rng.randint(1, 90)
        batch = rng.randint(1, 3)
        data = dict(inputs=torch.full((batch, 1, 2, 2), float(d)),
                    data_samples=[d] * batch)
        world.mode = 'train'
        world.fail = rng.randint(1, len(c['kinds'])) \
            if wild and not c['ddp'] and rng.random() < .3 else -1
        ev.append(dict(op='begin', d=d))
        try:
            losses = top.train_step(data, opt)
            ls = []
            for k, v in losses.items():
                i = k.rfind('.') + 1
                ls.append(dict(pre=k[:i], key=k[i:],
                               v=int(round(float(v)))))
            ev.append(dict(op='done', ls=ls))
        except Stop:
            ev.append(dict(op='fail'))
        except Exception as e:
            import traceback
            ev.append(dict(op='text', ok=0, what='%s: %s at %s' % (
                type(e).__name__, str(e)[:100],
                traceback.extract_tb(e.__traceback__)[-1].name)))
            break
    return dict(par=c, ev=ev)


def ddp(a, c):
    import torch.distributed as dist
    from mmrazor.models.algorithms import (AutoSlimDDP, BigNASDDP,
                                           SlimmableNetworkDDP)
    if not dist.is_initialized():
        f = tempfile.NamedTemporaryFile(prefix='c11', delete=False)
        f.close()
        os.unlink(f.name)
        os.environ.setdefault('GLOO_SOCKET_IFNAME', 'lo')
        dist.init_process_group('gloo', init_method='file://' + f.name,
                                rank=0, world_size=1)
    cls = dict(slim=SlimmableNetworkDDP, autoslim=AutoSlimDDP,
               bignas=BigNASDDP)[c['alg']]
    return cls(module=a, find_unused_parameters=True)


def run(ctx):
    import mmrazor.models  # noqa
    register()
    rng = ctx.rng
    cfgs = []
    for _ in range(40 if ctx.quick else 200):
        k = rng.randint(1, 3)
        kinds = [dict(pre=f'{i}.', hard=rng.randint(0, 1) if i else 1,
                      soft=1 if i else 0, sub=rng.choice([[], [1], [2]])
                      if i else [2]) for i in range(k)]
        for z in kinds:
            z['soft'] |= 1 - z['hard']
        first = rng.randint(0, 2)
        cfgs.append(dict(kinds=kinds, cand=[[1, 2]], first=first,
                         last=first + rng.randint(1, 3),
                         acc=rng.randint(1, 5), fails=rng.randint(0, 1)))
    vlib.model(ctx, 'Sandwich', vlib.cfg(
        'Init', 'Nxt', dict(Configs='<- CfgDef'),
        invariants=['Once', 'Average', 'Disjoint', 'Nothing', 'Named',
                    'Fresh'], view='Vars'),
        defs='CfgDef == ' + vlib.tla(cfgs))
    jobs = [(rng.randint(0, 1 << 30), )
            for _ in range(700 if ctx.quick else 9000)]
    vlib.validate(ctx, 'SandwichTrace', net.pmap(history, jobs),
                  what='training', batch=100,
                  keyfn=lambda t, v: t['par'].get('alg'))
