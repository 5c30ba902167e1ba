"""C22: what validation, calibration and combined training loops feed to which
network, and under which name the result is reported (Loops.tla)."""
import random
import tempfile

from mmengine.evaluator import Evaluator

import net
import search
import vlib


class Items:

    def __init__(self, values, side, flat):
        self.v, self.side, self.flat = values, side, flat

    def __len__(self):
        return len(self.v)

    def __getitem__(self, i):
        import torch
        return dict(inputs=torch.full((1, ) + self.side, float(self.v[i])),
                    data_samples=self.v[i])


def loader(values, batch, side, form):
    import torch

    def collate(items):
        x = [i['inputs'] for i in items]
        y = [i['data_samples'] for i in items]
        if form == 'tensor':
            return dict(inputs=torch.stack(x), data_samples=torch.tensor(y))
        if form == 'list':
            return dict(inputs=x, data_samples=y)
        return dict(inputs=torch.stack(x), data_samples=y)
    return torch.utils.data.DataLoader(Items(values, side, 0),
                                       batch_size=batch, collate_fn=collate)


def batches(values, batch):
    return [values[i:i + batch] for i in range(0, len(values), batch)]


class World:
    """What is recorded: only passes entered through val_step / test_step."""

    def __init__(self, cal):
        self.ev, self.on, self.last, self.cal = [], None, '', cal
        self.snap = None

    def pre(self, net_, inputs, *a, **k):
        if self.on and inputs.max() < 100 and self.last != 'cal':
            self.snap = state(net_)

    def rec(self, net_, width, inputs, *a, **k):
        if self.on is None:
            return
        ids = [int(round(float(v))) for v in inputs.flatten(1)[:, 0]]
        src = 'val' if ids and min(ids) >= 100 else 'cal'
        if src == 'val' and self.last == 'cal':
            self.stats(net_, width)
        self.last = src
        modes = {m.training for m in net_.modules()}
        self.ev.append(dict(op='fwd', src=src, ids=ids, sub=width,
                            role=net_.role,
                            mode=int(True in modes) if len(modes) == 1
                            else 2))

    def stats(self, net_, width):
        w = width[0]
        now, was = state(net_), self.snap
        rest = 1
        for k in now:
            a, b = now[k], was[k]
            if k.startswith('bn.'):
                a, b = a[w:], b[w:]
            rest &= int(bool((a == b).all()))
        mean, var = now['bn.m'][:w], now['bn.v'][:w]
        clean = int(attrs(net_) == net_.attrs)
        self.ev.append(dict(
            op='stats', mean=[int(round(float(v) * 1000)) for v in mean],
            var=[int(round(float(v) * 1000)) for v in var], rest=rest,
            clean=clean))


def state(n):
    res = {}
    for k in ('bn', 'idle'):
        m = getattr(n, k)
        if hasattr(m, 'running_mean'):
            res[k + '.m'] = m.running_mean.clone()
            res[k + '.v'] = m.running_var.clone()
    return res


def attrs(n):
    return {k: (sorted(m.__dict__), len(m._forward_hooks),
                len(m._forward_pre_hooks))
            for k, m in n.named_modules() if 'attrs' not in m.__dict__}


def network(world, widths, dim, role='student'):
    """widths: channels of the first (and second) layer."""
    import torch.nn as nn
    from mmengine.model import BaseModel
    conv = {1: nn.Linear, 2: nn.Conv2d, 3: nn.Conv3d}[dim]
    norm = {1: nn.BatchNorm1d, 2: nn.BatchNorm2d, 3: nn.BatchNorm3d}[dim]

    def layer(i, o):
        return conv(i, o, bias=False) if dim == 1 else \
            conv(i, o, 1, bias=False)

    class Net(BaseModel):

        def __init__(self):
            super().__init__()
            self.role = role
            self.a = layer(1, widths[0])
            self.bn = norm(widths[0])
            self.idle = norm(3)
            if len(widths) > 1:
                self.b = layer(widths[0], widths[1])
            self.head = layer(widths[-1], 1)

        def forward(self, inputs, data_samples=None, mode='tensor'):
            x = self.bn(self.a(inputs))
            if len(widths) > 1:
                x = self.b(x)
            x = self.head(x)
            return [x] if mode == 'predict' else x

        def val_step(self, data):
            return noted(world, super().val_step, data)

        def watch(self):
            for j in range(widths[0]):
                self.a.weight.data[j] = j + 1
            ws = []
            pre = lambda m, x: ws.append(x[0].shape[1])  # noqa
            self.bn.register_forward_pre_hook(pre)
            if len(widths) > 1:
                self.head.register_forward_pre_hook(pre)
            self.register_forward_pre_hook(
                lambda m, a, k: ws.clear() or world.pre(m, *a, **k),
                with_kwargs=True)
            self.register_forward_hook(
                lambda m, a, k, o: world.rec(m, list(ws), *a, **k),
                with_kwargs=True)
            return self

    return Net()


def noted(world, f, data):
    was, world.on = world.on, 1
    try:
        if isinstance(data['inputs'], list):    # a plain preprocessor
            import torch
            data = dict(data, inputs=torch.stack(data['inputs']))
        return f(data)
    finally:
        world.on = was


class Scores(Evaluator):
    """The k-th evaluation is worth k, if it has seen everything once."""

    def __init__(self, ids, ev):
        super().__init__([])
        self.k, self.ids, self.seen, self.ev = 0, ids, [], ev

    def process(self, data_samples=None, data_batch=None):
        self.seen += [int(i) for i in data_batch['data_samples']]
        if len(data_samples) != 1 or \
                len(data_samples[0]) != len(data_batch['data_samples']):
            self.seen.append(-1)

    def evaluate(self, size):
        if self.seen != self.ids or size != len(self.ids):
            self.ev.append(dict(op='text', ok=0, what='the scored results '
                                'are not those of all the data'))
        self.seen = []
        self.k += 1
        return dict(acc=self.k)


def mutated(world, cfg, dim, side, kinds, slim):
    from mmrazor.models.algorithms import BaseAlgorithm
    from mmrazor.models.mutators import (OneShotChannelMutator,
                                         SlimmableChannelMutator)
    widths = [c[-1] for c in map(sorted, cfg)]
    parse = dict(type='ChannelAnalyzer', tracer_type='FxTracer',
                 demo_input=(2, 1) + side)
    typ = 'SlimmableChannelUnit' if slim else 'OneShotMutableChannelUnit'
    plain = OneShotChannelMutator(
        channel_unit_cfg=dict(type='OneShotMutableChannelUnit',
                              default_args=dict(choice_mode='number',
                                                candidate_choices=[1])),
        parse_cfg=parse)
    plain.prepare_from_supernet(network(world, widths, dim))
    units = {}
    for u in plain.mutable_units:
        i = 'ab'.index(u.name.split('_')[0])
        arg = dict(choice_mode='number', num_channels=widths[i],
                   candidate_choices=cfg[i])
        units[u.name] = dict(init_args=arg)
    mutator = (SlimmableChannelMutator if slim else OneShotChannelMutator)(
        channel_unit_cfg=dict(type=typ, units=units), parse_cfg=parse)
    architecture = network(world, widths, dim)
    if slim:
        from mmrazor.models.algorithms import SlimmableNetwork as Base
    else:
        Base = BaseAlgorithm

    class Algo(Base):

        def __init__(self):
            if slim:
                super().__init__(architecture, mutator)
            else:
                super().__init__(architecture)
                self.mutator = mutator
                mutator.prepare_from_supernet(self.architecture)
                self.sample_kinds = kinds

        def val_step(self, data):
            return noted(world, super().val_step, data)

        def test_step(self, data):
            return noted(world, super().test_step, data)

    return Algo()


def validation(job):
    import numpy
    import torch
    from mmrazor.engine import (SelfDistillValLoop,
                                SingleTeacherDistillValLoop, SlimmableValLoop,
                                SubnetValLoop)
    from mmrazor.engine.runner import ItePruneValLoop
    from mmrazor.models.algorithms import SelfDistill, SingleTeacherDistill
    seed, = job
    rng = random.Random(seed)
    random.seed(seed)
    torch.manual_seed(seed)
    numpy.random.seed(seed & 0xffffffff)
    what = rng.choice(['slim', 'subnet', 'subnet', 'subnet', 'subnet',
                       'fixed', 'teacher', 'self', 'prune'])
    n, bs = rng.randint(1, 6), rng.randint(1, 4)
    vals = [100 + i for i in range(n)]
    rng.shuffle(vals)
    form = rng.choice(['mixed', 'tensor', 'list'])
    dim = rng.choice([1, 2, 2, 2]) if what == 'subnet' else 2
    s = rng.choice([1, 2])
    side = {1: (), 2: (s, s), 3: (s, s, s)}[dim]
    px = s ** len(side)
    cal, want = [], 0
    if what in ('subnet', 'fixed'):
        while True:
            m, cb = rng.randint(2, 9), rng.randint(2, 4)
            cal = batches([rng.randint(0, 12) for _ in range(m)], cb)
            want = rng.randint(1, m + 3)
            left, ok = want, True
            for b in cal:
                if left > 0:
                    ok &= min(len(b), left) * px > 1
                    left -= len(b)
            if ok:
                break
    world = World(cal)
    ev = world.ev
    score = Scores(vals, ev)
    stu = dict(role='student', sub=[])
    par = dict(what='val', nb=batches(vals, bs), cal=cal, n=want, px=px,
               lens=[], key=what)
    dl = loader(vals, bs, side, form)
    reported = []
    times = rng.choice([1, 1, 2])
    with tempfile.TemporaryDirectory() as d:
        run = search.runner(None, d, train=loader(
            [v for b in cal for v in b], len(cal[0]), side, form)
            if cal else None)
        run.logger.debug = lambda *a, **k: None
        run.call_hook = lambda name, **k: reported.append(k['metrics']) \
            if name == 'after_val_epoch' else None
        if what == 'slim':
            cfg = [rng.sample(range(1, 7), rng.randint(1, 3))]
            cfg.append(rng.sample(range(1, 7), len(cfg[0])))
            run.model = mutated(world, cfg, dim, side, None, True)
            loop = SlimmableValLoop(run, dl, score)
            par['kinds'] = [dict(pre=f'subnet_{i}.', role='student',
                                 sub=[cfg[0][i], cfg[1][i]])
                            for i in range(len(cfg[0]))]
        elif what in ('subnet', 'fixed'):
            # (one-dimensional layers are not searched)
            cfg = [rng.sample(range(1, 7),
                              rng.randint(1, 4) if dim == 2 else 1)]
            kinds = rng.sample(['max', 'min', 'random0', 'random1',
                                'random2'], rng.randint(1, 5))
            if what == 'subnet':
                kinds_ = []
                for k in kinds:
                    sub = dict(max=[max(cfg[0])], min=[min(cfg[0])]).get(
                        k, [])
                    kinds_.append(dict(pre=f'{k}_subnet.', role='student',
                                       sub=sub))
                par['kinds'] = kinds_
            run.model = mutated(world, cfg, dim, side, kinds, False)
            if what == 'fixed':
                w = rng.choice(cfg[0])
                run.model.mutator.set_choices(
                    {u.name: w for u in run.model.mutator.mutable_units})
                par['kinds'] = [dict(pre='fix_subnet.', role='student',
                                     sub=[w])]
            loop = SubnetValLoop(
                run, dl, score, evaluate_fixed_subnet=what == 'fixed',
                calibrate_sample_num=want,
                estimator_cfg=dict(
                    type='mmrazor.ResourceEstimator', flops_params_cfg=dict(
                        input_shape=(2, 1) + side
                        if dim == 1 else (1, 1) + side, units=None)))
        elif what == 'teacher':
            teacher = network(world, [3], dim, 'teacher')
            run.model = SingleTeacherDistill(
                dict(type='ConfigurableDistiller'), teacher,
                architecture=network(world, [2], dim))
            loop = SingleTeacherDistillValLoop(run, dl, score)
            par['kinds'] = [dict(pre='', role='student', sub=[2]),
                            dict(pre='teacher.', role='teacher', sub=[3])]
        elif what == 'self':
            run.model = SelfDistill(dict(type='ConfigurableDistiller'),
                                    architecture=network(world, [2], dim))
            loop = SelfDistillValLoop(run, dl, score)
            par['kinds'] = [dict(pre='student.', role='student', sub=[2])]
        else:
            w = sorted(rng.sample(range(1, 7), 2))
            run.model = mutated(world, [w], dim, side, None, False)
            run.model.mutator.set_choices(
                {u.name: w[0] for u in run.model.mutator.mutable_units})
            loop = ItePruneValLoop(run, dl, score)
            par['kinds'] = [dict(pre='', role='student', sub=[w[0]])]
        if what in ('teacher', 'self'):
            alg = run.model
            step = alg.val_step
            alg.val_step = lambda data: noted(world, step, data)
        for m in run.model.modules():
            if hasattr(m, 'watch'):
                m.watch()
        traces = []
        for _ in range(times):
            score.k = 0
            world.last = ''
            del ev[:], reported[:]
            a = run.model.architecture
            if what in ('subnet', 'fixed'):
                # statistics which calibrating has to replace
                st = a.state_dict()
                for k in st:
                    if 'running' in k:
                        st[k].uniform_(1, 50)
            a.attrs = None
            a.attrs = attrs(a)
            run.model.train(rng.random() < .7)
            try:
                loop.run()
                assert len(reported) == 1, 'one report'
                ms = []
                for k, v in reported[0].items():
                    i = k.rfind('.') + 1
                    ms.append(dict(pre=k[:i], key=k[i:], v=int(round(v))
                                   if abs(v - round(v)) < 1e-6 else -1))
                ev.append(dict(op='metrics', ms=ms))
            except Exception as e:
                import traceback
                ev.append(dict(op='text', ok=0, what='%s: %s at %s' % (
                    type(e).__name__, str(e)[:100],
                    traceback.extract_tb(e.__traceback__)[-1].name)))
            traces.append(dict(par=par, ev=list(ev)))
    return traces


def pairs(job):
    import torch
    from mmrazor.engine.runner.darts_loop import (DartsEpochBasedTrainLoop,
                                                  DartsIterBasedTrainLoop,
                                                  EpochMultiLoader,
                                                  IterMultiLoader)
    seed, = job
    rng = random.Random(seed)
    what = rng.choice(['epoch', 'iter', 'eloop', 'iloop'])
    loop = what.endswith('loop')
    lens = [rng.randint(1, 4)
            for _ in range(2 if loop else rng.randint(1, 3))]
    bs = [rng.randint(1, 3) for _ in lens]
    loaders = []
    for n, b in zip(lens, bs):
        size = n * b - rng.randint(0, b - 1)
        loaders.append(torch.utils.data.DataLoader(
            range(size), batch_size=b, collate_fn=list))
    par = dict(what='pairs', lens=lens, key=what, kinds=[], nb=[], cal=[],
               n=0, px=1)
    ev = []

    def ids(data):
        res = []
        for d, b, dl in zip(data, bs, loaders):
            k = d[0] // b
            full = list(range(k * b, min(k * b + b, len(dl.dataset))))
            res.append(k + 1 if d == full else -1)
        return res if len(data) == len(lens) else []

    class Model:

        training = True

        def train(self, mode=True):
            pass

        def train_step(self, data, optim_wrapper=None):
            ev.append(dict(op='pair', ids=ids(data), epoch=epoch()))
            return {}

    epoch = lambda: 0  # noqa
    try:
        if what == 'epoch':
            for _ in range(rng.randint(1, 3)):
                m = EpochMultiLoader(loaders)
                size = len(m)
                for data in m:
                    ev.append(dict(op='pair', ids=ids(data), epoch=0))
                    size -= 1
                if size:
                    ev.append(dict(op='text', ok=0, what='the length of a '
                                   'pass is not its number of steps'))
                ev.append(dict(op='stop'))
        elif what == 'iter':
            m = IterMultiLoader(loaders)
            for _ in range(rng.randint(1, 4 * min(lens) + 2)):
                data = next(m)
                ev.append(dict(op='pair', ids=ids(data), epoch=m.epoch))
        else:
            run = search.runner(Model(), '/nonexistent')
            run.train_loop = None
            run.optim_wrapper = None
            run.val_loop = None
            if what == 'eloop':
                passes = rng.randint(1, 3)
                run.call_hook = lambda name, **k: \
                    ev.append(dict(op='stop')) \
                    if name == 'after_train_epoch' else None
                lo = DartsEpochBasedTrainLoop(run, *loaders,
                                              max_epochs=passes)
                lo.run()
                if sum(e['op'] == 'stop' for e in ev) != passes or \
                        lo.iter != passes * min(lens):
                    ev.append(dict(op='text', ok=0, what='not as many passes '
                                   'as configured'))
            else:
                steps = rng.randint(1, 4 * min(lens) + 2)
                lo = DartsIterBasedTrainLoop(run, *loaders, max_iters=steps)
                epoch = lambda: lo.multi_loaders.epoch  # noqa
                lo.run()
                if len(ev) != steps:
                    ev.append(dict(op='text', ok=0, what='not as many steps '
                                   'as configured'))
    except Exception as e:
        ev.append(dict(op='text', ok=0, what='%s: %s' % (
            type(e).__name__, str(e)[:100])))
    return dict(par=par, ev=ev)


def run(ctx):
    import mmrazor.engine  # noqa
    import mmrazor.models  # noqa
    rng = ctx.rng
    cfgs = []
    for _ in range(60 if ctx.quick else 600):
        kinds = [dict(pre=f'{i}.', role='student',
                      sub=rng.choice([[], [1], [2]]))
                 for i in range(rng.randint(1, 3))]
        cfgs.append(dict(
            kinds=kinds, n=rng.randint(0, 6),
            nb=batches(list(range(100, 100 + rng.randint(1, 5))),
                       rng.randint(1, 2)),
            cal=batches([rng.randint(0, 9) for _ in range(rng.randint(1, 6))],
                        rng.randint(1, 3)),
            lens=[rng.randint(1, 3) for _ in range(rng.randint(1, 3))]))
    vlib.model(ctx, 'Loops', vlib.cfg(
        'Init', 'Nxt', dict(Configs='<- CfgDef'),
        invariants=['Complete', 'Enough', 'Ends', 'InOrder'], view='Vars'),
        defs='CfgDef == ' + vlib.tla(cfgs))
    size = 1 if ctx.quick else 12
    seeds = lambda n: [(rng.randint(0, 1 << 30), ) for _ in range(n)]  # noqa
    traces = [t for ts in net.pmap(validation, seeds(900 * size)) for t in ts]
    key = lambda t, v: t['par'].get('key')  # noqa
    vlib.validate(ctx, 'LoopsTrace', traces, what='validation', batch=200,
                  keyfn=key)
    vlib.validate(ctx, 'LoopsTrace', net.pmap(pairs, seeds(600 * size)),
                  what='combined loaders', batch=200, keyfn=key)
