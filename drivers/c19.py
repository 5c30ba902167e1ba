"""C19: quantized training, calibration and validation (Quant.tla)."""
import copy
import glob
import os
import random
import shutil
import tempfile
import warnings

import net
import vlib


class Loader:
    """Batches which are new every time; batch n has wider values than
    those before."""

    def __init__(self, n, size, first):
        self.n, self.size, self.first, self.at = n, size, first, None
        self.dataset = self
        self.sampler = None
        self.batch_size = size
        self.metainfo = {}

    def __len__(self):
        return self.n

    def __iter__(self):
        import torch
        start = self.at() if self.at else 0
        for i in range(start, start + self.n):
            g = torch.Generator().manual_seed(self.first * 1000 + i)
            x = torch.randn(self.size, 3, 6, 6, generator=g)
            yield dict(inputs=x * (1. + .6 * i + 5 * self.first),
                       data_samples=torch.full((self.size, ), float(i + 1)))


def toy(seed, modes=True, weights=None):
    import torch
    import torch.nn as nn
    from mmengine.model import BaseModel
    rng = random.Random(seed)
    twice, sig, odd, deep = [rng.random() < .4 for _ in range(4)]

    class Leaf(nn.Module):

        def __init__(self):
            super().__init__()
            self.gap = nn.AdaptiveAvgPool2d(1)
            self.rest = None
            self.register_module('none', None)

        def forward(self, x):
            return self.gap(x).flatten(1)

    class Out(nn.Module):

        def __init__(self, mode):
            super().__init__()
            self.mode = mode

        def forward(self, x):
            return dict(loss=x.sum()) if self.mode == 'loss' else x

    class Toy19(BaseModel):

        def __init__(self):
            super().__init__()
            self.conv = nn.Conv2d(3, 4, 3)
            self.bn = nn.BatchNorm2d(4)
            self.relu = nn.ReLU()
            self.mid = nn.Conv2d(4, 4, 1)
            self.head = nn.Sequential(nn.Conv2d(4, 4, 1),
                                      nn.BatchNorm2d(4))
            self.sig = nn.Sigmoid()
            self.pool = Leaf() if odd else None
            self.fc = nn.Linear(4, 2)
            self.out = nn.ModuleDict({
                k: Out(k) for k in ('tensor', 'predict', 'loss')})

        def body(self, x):
            x = self.relu(self.bn(self.conv(x)))
            if deep:
                x = self.mid(x) + x
            x = self.head(x)
            if twice:
                x = self.head(x)
            if sig:
                x = self.sig(x)
            x = self.pool(x) if odd else x.mean([2, 3])
            return self.fc(x)

        def forward(self, inputs, data_samples=None, mode='tensor'):
            x = self.body(inputs)
            return self.out[mode](x) if modes else x

    torch.manual_seed(seed if weights is None else weights)
    m = Toy19()
    for p in m.modules():
        if isinstance(p, nn.BatchNorm2d):
            nn.init.uniform_(p.weight, .5, 1.5)
            nn.init.uniform_(p.bias, -.5, .5)
    return m, [Leaf, Out]


def config(seed):
    rng = random.Random(seed)
    kind = rng.choice(['qat', 'qat', 'lsq', 'lsq', 'ptq'])
    c = dict(kind=kind, epochs=rng.randint(1, 4), iters=rng.randint(1, 3),
             dob=0, fbn=0, vb=1, vi=1, vn=rng.randint(1, 2), start=0,
             steps=rng.randint(1, 4), cn=rng.randint(1, 4), only=0)
    if kind == 'ptq':
        c['epochs'] = 0
        c['only'] = int(rng.random() < .2)
        return c
    if kind == 'qat' and rng.random() < .7:
        c['dob'] = rng.randint(1, c['epochs'] + 1)
    if rng.random() < .7:
        c['fbn'] = rng.randint(1, c['epochs'] + 1)
    c['vb'] = rng.randint(1, 3)
    c['vi'] = rng.choice([1, 1, 2, 3])
    if c['epochs'] > 1 and rng.random() < .4:
        c['start'] = rng.randint(1, c['epochs'] - 1)
    return c


def algorithm(c, seed, only=None, modes=True, weights=None):
    import torch
    from mmrazor.models import (register_torch_fake_quants,
                                register_torch_observers)
    from mmrazor.models.algorithms import MMArchitectureQuant
    register_torch_fake_quants()
    register_torch_observers()
    rng = random.Random(seed + 1)
    arch, leaf = toy(seed, modes, weights)
    if c['kind'] == 'lsq':
        fq = 'LearnableFakeQuantize'
        w, a = rng.choice([('LSQPerChannelObserver', 'LSQObserver'),
                           ('LSQPerChannelObserver', 'LSQObserver'),
                           ('LSQObserver', 'LSQObserver'),
                           ('MinMaxObserver', 'MinMaxObserver'),
                           ('PerChannelMinMaxObserver', 'LSQObserver')])
    else:
        fq = 'FakeQuantize'
        w = rng.choice(['PerChannelMinMaxObserver', 'MinMaxObserver',
                        'MovingAveragePerChannelMinMaxObserver'])
        a = rng.choice(['MovingAverageMinMaxObserver', 'MinMaxObserver',
                        'HistogramObserver'])
    ext = dict(averaging_constant=.1) if a.startswith('Moving') else {}
    fqs = [dict(type='mmrazor.' + fq) for _ in range(2)]
    q = rng.choice(only or ['TorchNative', 'OpenVINO', 'TensorRT',
                            'Academic'])
    g = dict(w_observer=dict(type='mmrazor.' + w),
             a_observer=dict(type='mmrazor.' + a),
             w_fake_quant=fqs[0], a_fake_quant=fqs[1],
             w_qscheme=dict(qdtype='qint8', bit=rng.choice([8, 8, 4]),
                            is_symmetry=True,
                            is_symmetric_range=rng.random() < .5),
             a_qscheme=dict(qdtype='quint8', bit=8,
                            is_symmetry=rng.random() < .5, **ext))
    tracer = dict(type='mmrazor.CustomTracer', skipped_module_classes=leaf)
    quantizer = dict(type='mmrazor.%sQuantizer' % q, tracer=tracer)
    if q == 'Academic':
        quantizer['qconfig_mapping'] = dict(_global_=g)
    else:
        quantizer['global_qconfig'] = g
    torch.manual_seed(seed + 7)
    m = MMArchitectureQuant(arch, quantizer, input_shapes=(1, 3, 6, 6))
    return m, '%s/%s/%s' % (q, w, a)


def plain(m, seed):
    """A float network with the weights and statistics m trains."""
    import torch
    ref, _ = toy(seed)
    got = dict(m.qmodels['loss'].state_dict())
    want = {}
    for k in ref.state_dict():
        mod, leaf = k.rsplit('.', 1)
        places = [k]
        if mod == 'bn':
            places.append('conv.bn.' + leaf)
        if mod == 'head.1':
            places.append('head.0.bn.' + leaf)
        hit = [p for p in places if p in got]
        if hit:
            want[k] = got[hit[0]]
    with torch.no_grad():
        for k, v in ref.state_dict().items():
            if k in want:
                v.copy_(want[k])
    return ref.eval()


class Watch:
    """What the fake quantizers of a network do in one pass."""

    def __init__(self, m, lsq):
        import torch
        from torch.ao.quantization import (FakeQuantizeBase,
                                           FixedQParamsFakeQuantize)
        self.m, self.lsq, self.torch, self.mute = m, lsq, torch, False
        self.fixed = FixedQParamsFakeQuantize
        self.fqs = {k: [x for x in g.modules()
                        if isinstance(x, FakeQuantizeBase)]
                    for k, g in m.qmodels.items()}
        self.names = {k: [n for n, x in g.named_modules()
                          if isinstance(x, FakeQuantizeBase)]
                      for k, g in m.qmodels.items()}
        self.rec, self.ran, self.float_out = {}, [], None
        for k, mods in self.fqs.items():
            for x in mods:
                x.register_forward_pre_hook(self.pre)
                x.register_forward_hook(self.post)
            m.qmodels[k].register_forward_pre_hook(
                lambda mod, args, k=k: self.went(k))
        m.architecture.register_forward_hook(self.arch)
        self.norms = [x.bn for x in m.qmodels['loss'].modules()
                      if hasattr(x, 'bn') and hasattr(x, 'weight_fake_quant')]
        self.reset()

    def went(self, k):
        if not self.mute:
            self.ran.append(k)

    def arch(self, mod, args, out):
        self.ran.append('float')
        self.float_out = out

    def reset(self):
        self.rec, self.ran, self.float_out = {}, [], None
        self.other = {k: self.state(k) for k in self.fqs}
        self.stats = [(b.running_mean.clone(), int(b.num_batches_tracked))
                      for b in self.norms]

    def state(self, k):
        return {(n, s): v.clone() for n, x in zip(self.names[k], self.fqs[k])
                for s, v in x.state_dict().items() if not s.endswith('enabled')
                and '_enabled' not in s}

    def pre(self, mod, args):
        if self.mute:
            return
        self.rec.setdefault(id(mod), []).append(dict(
            x=args[0].detach().clone(),
            obs=copy.deepcopy(mod.activation_post_process),
            s=mod.scale.detach().clone(), z=mod.zero_point.detach().clone()))

    def post(self, mod, args, out):
        if self.mute:
            return
        r = self.rec[id(mod)][-1]
        r['y'] = out.detach().clone()
        r['obs1'] = copy.deepcopy(mod.activation_post_process)
        r['s1'] = mod.scale.detach().clone()
        r['z1'] = mod.zero_point.detach().clone()

    # ------------------------------------------------------------- verdicts
    def alike(self, a, b):
        t = self.torch
        a, b = a.state_dict(), b.state_dict()
        return all(k in b and a[k].shape == b[k].shape and t.allclose(
            a[k].double(), b[k].double(), rtol=1e-4, atol=1e-6,
            equal_nan=True) for k in a)

    def near(self, a, b):
        return a.numel() == b.numel() and self.torch.allclose(
            a.flatten().double(), b.flatten().double(), rtol=1e-4, atol=1e-7)

    def fold(self, flags):
        flags = list(flags)
        bad = [f for f in flags if f not in ('yes', 'no', 'any')]
        if bad:
            return bad[0]
        if 'yes' in flags and 'no' in flags:
            return 'some are, others are not'
        return 'yes' if 'yes' in flags else 'no' if 'no' in flags else 'any'

    def wanted(self, mod, r):
        """The parameters the observer's rule gives for these values."""
        t = self.torch
        ref = copy.deepcopy(r['obs'])
        ref(r['x'])
        s, z = ref.calculate_qparams()
        if type(ref).__name__.startswith('LSQ'):
            x = r['x'].abs()
            if 'PerChannel' in type(ref).__name__:
                dims = [d for d in range(x.dim()) if d != ref.ch_axis]
                x = x.mean(dims)
            else:
                x = x.mean()
            s = 2 * x / mod.quant_max**.5
        return ref, t.as_tensor(s), t.as_tensor(z)

    def observed(self, mod, r):
        if isinstance(mod, self.fixed):
            return 'any'
        ref, s, z = self.wanted(mod, r)
        kept, new = self.alike(r['obs1'], r['obs']), self.alike(
            r['obs1'], ref)
        if not kept and not new:
            return 'the ranges are not those of the values seen'
        if not self.lsq:
            still = self.near(r['s1'], r['s']) and self.near(r['z1'], r['z'])
            due = self.near(r['s1'], s) and self.near(r['z1'], z)
            if new and not kept and not due:
                return 'the parameters are not those of the ranges'
            if kept and not new and not still:
                return 'the parameters change without being observed'
            if kept and new and not still and not due:
                return 'the parameters are neither kept nor those due'
        return 'any' if kept and new else 'yes' if new else 'no'

    def estimated(self, mod, r):
        if isinstance(mod, self.fixed) or not self.lsq:
            return 'any'
        _, s, z = self.wanted(mod, r)
        eps = float(mod.eps)
        still = self.near(r['s1'], r['s'].clamp(min=eps)) and self.near(
            r['z1'], r['z'])
        due = self.near(r['s1'], s) and self.near(r['z1'], z)
        if not still and not due:
            return 'the scale is neither kept nor the one of this batch'
        return 'any' if still and due else 'yes' if due else 'no'

    def quantized(self, mod, r):
        t = self.torch
        x, y = r['x'], r['y']
        s, z = r['s1'].flatten(), r['z1'].flatten()
        if isinstance(mod, self.fixed):
            o = mod._observer_ctr()
            s, z = o.scale.flatten(), o.zero_point.flatten()
        lo, hi = mod.quant_min, mod.quant_max
        if s.numel() == 1:
            want = t.fake_quantize_per_tensor_affine(
                x, float(s), int(round(float(z))), lo, hi)
            step = s
        else:
            ax = mod.ch_axis
            want = t.fake_quantize_per_channel_affine(
                x, s.float(), z.round().int(), ax, lo, hi)
            step = s.view([-1 if d == ax else 1 for d in range(x.dim())])
        far = ((y - want).abs() > step * 1e-3 + 1e-6).float().mean()
        is_q = float(far) < .02
        is_x = bool(t.equal(x, y))
        if not is_q and not is_x:
            return 'a value is quantized by other parameters'
        return 'any' if is_q and is_x else 'yes' if is_q else 'no'

    def norm(self):
        out = []
        for b, (mean, n) in zip(self.norms, self.stats):
            k = int(b.num_batches_tracked) - n
            moved = not self.torch.equal(b.running_mean, mean)
            out.append('yes' if k >= 1 and moved else 'no'
                       if not k and not moved else 'half a step is taken')
        return self.fold(out or ['any'])

    def others(self, mode):
        for k in self.fqs:
            if k == mode:
                continue
            now = self.state(k)
            if any(not self.torch.equal(v, now[i])
                   for i, v in self.other[k].items()):
                return 1
        return 0

    def event(self, op, b, mode):
        """What the pass (of a quantized mode) did."""
        ran = [x for x in self.ran if x in self.fqs]
        mods = self.fqs[mode]
        if ran != [mode]:
            what = '%s: the quantized networks run are %s' % (op, ran)
            return dict(op='text', ok=0, what=what)
        missing = [n for n, x in zip(self.names[mode], mods)
                   if id(x) not in self.rec]
        if missing:
            return dict(op='text', ok=0, what='%s is left out' % missing[0])
        rs = [(x, r) for x in mods for r in self.rec[id(x)]]
        return dict(op=op, b=b, oth=self.others(mode), bn=self.norm(),
                    obs=self.fold(self.observed(x, r) for x, r in rs),
                    fq=self.fold(self.quantized(x, r) for x, r in rs),
                    est=self.fold(self.estimated(x, r) for x, r in rs))

    def agree(self):
        names = self.names
        if len({tuple(n) for n in names.values()}) > 1:
            return 0
        got = [self.state(k) for k in self.fqs]
        return int(all(g.keys() == got[0].keys() and all(
            g[i].shape == v.shape and self.torch.equal(g[i], v)
            for i, v in got[0].items()) for g in got))

    def tied(self, ref):
        """Without quantization every mode computes what the float network
        does."""
        t = self.torch
        from torch.ao.quantization import (disable_fake_quant,
                                           disable_observer)
        x = t.randn(2, 3, 6, 6, generator=t.Generator().manual_seed(5))
        with t.no_grad():
            want = ref(x)
            for k, g in self.m.qmodels.items():
                flags = {n: b.clone() for n, b in g.named_buffers()
                         if n.endswith('_enabled')}
                modes = [(mod, mod.training) for mod in g.modules()]
                for mod, _ in modes:
                    mod.training = False
                g.apply(disable_fake_quant)
                g.apply(disable_observer)
                self.mute = True
                got = g(x, None, k)
                self.mute = False
                for n, b in g.named_buffers():
                    if n in flags:
                        b.copy_(flags[n])
                for mod, was in modes:
                    mod.training = was
                w = want
                if k == 'loss':
                    got, w = got['loss'], want.sum()
                if not t.allclose(got, w, rtol=1e-3, atol=1e-4):
                    return 0
        return 1

    def fresh(self):
        for mods in self.fqs.values():
            for x in mods:
                o = x.activation_post_process
                if isinstance(x, self.fixed):
                    continue
                if hasattr(o, 'min_val') and o.min_val.numel() and bool(
                        (o.min_val <= o.max_val).any()):
                    return 0
                if hasattr(o, 'histogram') and float(
                        o.histogram.abs().sum()):
                    return 0
        return 1


def training(job):
    import torch
    from mmengine.evaluator import Evaluator
    from mmengine.hooks import Hook
    from mmengine.optim import OptimWrapper
    from mmengine.runner import Runner
    seed, = job
    c = config(seed)
    ev = []
    root = tempfile.mkdtemp(prefix='c19')
    ptq, lsq = c['kind'] == 'ptq', c['kind'] == 'lsq'
    par = dict(c, key=c['kind'])

    def one(first, last, load, ev):
        m, how = algorithm(c, seed)
        par['how'] = how
        w = Watch(m, lsq)
        fresh = w.fresh()
        lr = .002
        scales = {id(x.scale): (x, i) for i, x in enumerate(w.fqs['loss'])
                  if isinstance(x.scale, torch.nn.Parameter)}
        grads = {}
        score = [0]

        def grab(opt, args, kwargs):
            grads.clear()
            for g in opt.param_groups:
                for p in g['params']:
                    if id(p) in scales and p.grad is not None:
                        grads[id(p)] = p.grad.clone()

        def learned():
            flags = []
            for k, (x, _) in scales.items():
                was = w.rec[id(x)][-1]['s1']
                now = x.scale.detach()
                still = w.near(now, was)
                g = grads.get(k)
                if g is None or not bool(g.any()):
                    flags.append('any' if g is not None and still else 'no'
                                 if still else 'a scale changes by itself')
                    continue
                due = w.near(now, was - lr * g)
                flags.append('any' if due and still else 'yes' if due else
                             'no' if still else 'not by its gradient')
            return w.fold(flags or ['no'])

        class Look(Hook):
            priority = 'VERY_HIGH'

            def before_train(self, runner):
                runner.optim_wrapper.optimizer.register_step_pre_hook(grab)
                ok = fresh
                if load:
                    ok = 1
                    saved = torch.load(load)['state_dict']
                    now = m.state_dict()
                    for k, v in saved.items():
                        if 'fake_quant' in k or 'post_process' in k:
                            ok = int(ok and k in now and w.near(
                                now[k].float(), v.float()))
                ev.append(dict(op='start', fresh=ok))

            def before_test(self, runner):
                ev.append(dict(op='start', fresh=1 if load else fresh))

            def before_train_iter(self, *a, **k):
                w.reset()

            def before_val_iter(self, *a, **k):
                w.reset()

            def before_test_iter(self, *a, **k):
                w.reset()

            def after_train_iter(self, runner, batch_idx, data_batch=None,
                                 outputs=None):
                e = w.event('train', int(data_batch['data_samples'][0]),
                            'loss')
                if e['op'] == 'train':
                    e['lrn'] = learned()
                ev.append(e)

            def after_train_epoch(self, runner):
                ev.append(dict(op='sync', same=w.agree(),
                               tied=w.tied(plain(m, seed))))

            def after_val_iter(self, runner, batch_idx, data_batch=None,
                               outputs=None):
                b = int(data_batch['data_samples'][0])
                if w.ran == ['float']:
                    with torch.no_grad():
                        ref = plain(m, seed)(data_batch['inputs'])
                    ok = not w.rec and torch.allclose(
                        ref, w.float_out, rtol=1e-3, atol=1e-4)
                    ev.append(dict(op='orig', b=b, plain=int(ok),
                                   oth=w.others(None)))
                else:
                    ev.append(w.event('val', b, 'predict'))

            def after_test_iter(self, runner, batch_idx, data_batch=None,
                                outputs=None):
                ev.append(w.event('cal', int(data_batch['data_samples'][0]),
                                  'predict'))

            def before_val(self, runner):
                score[0] = 0
                if ptq and not c['only']:
                    f = glob.glob(os.path.join(root, '**', 'model_ptq.pth'),
                                  recursive=True)
                    ok = 0
                    if len(f) == 1:
                        saved = torch.load(f[0])['state_dict']
                        now = m.state_dict()
                        ok = int(saved.keys() == now.keys() and all(
                            torch.equal(saved[k], now[k]) for k in now))
                    ev.append(dict(op='save', same=ok))

            def after_val_epoch(self, runner, metrics=None):
                metrics = dict(metrics or {})
                want = {('qat.acc', 'original.acc')[score[0] - 1]: score[0]}
                ev.append(dict(op='metrics', ok=int(metrics == want)))

        class Eval(Evaluator):

            def __init__(self):
                super().__init__([])

            def process(self, *a, **k):
                pass

            def evaluate(self, size):
                score[0] += 1
                return dict(acc=score[0])

        val = Loader(c['vn'], 2, 3)
        hooks = dict(logger=None, checkpoint=None, param_scheduler=None,
                     timer=None, sampler_seed=None)
        args = dict(model=m, work_dir=root, val_dataloader=val,
                    val_cfg=dict(type='mmrazor.QATValLoop'),
                    val_evaluator=Eval(), custom_hooks=[Look()],
                    log_level='ERROR', default_scope='mmrazor',
                    experiment_name=f'c19_{seed}_{first}_{os.getpid()}')
        if ptq:
            args.update(
                default_hooks=hooks, test_dataloader=val,
                test_evaluator=Eval(), test_cfg=dict(
                    type='mmrazor.PTQLoop', calibrate_steps=c['steps'],
                    calibrate_dataloader=Loader(c['cn'], 2, 1),
                    only_val=bool(c['only'])))
            run = Runner(train_dataloader=Loader(1, 2, 0), train_cfg=dict(
                by_epoch=True, max_epochs=1), optim_wrapper=OptimWrapper(
                    torch.optim.SGD(m.parameters(), lr=lr)), **args)
            run.test()
            return
        tr = Loader(c['iters'], 3, 0)
        tc = dict(type='mmrazor.%sEpochBasedLoop' % c['kind'].upper(),
                  max_epochs=last, val_begin=c['vb'], val_interval=c['vi'],
                  freeze_bn_begin=c['fbn'] or -1)
        if not lsq:
            tc['disable_observer_begin'] = c['dob'] or -1
        if last < c['epochs']:
            hooks['checkpoint'] = dict(type='CheckpointHook', interval=1)
        if load:
            args.update(load_from=load, resume=True)
        opt = OptimWrapper(torch.optim.SGD(m.parameters(), lr=lr))
        run = Runner(train_dataloader=tr, train_cfg=tc, optim_wrapper=opt,
                     default_hooks=hooks, **args)
        tr.at = lambda: run.iter
        run.train()

    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if c['start']:
                one(0, c['start'], None, [])
                one(1, c['epochs'], os.path.join(
                    root, 'epoch_%d.pth' % c['start']), ev)
            else:
                one(0, c['epochs'], None, ev)
        ev.append(dict(op='end'))
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ev.append(dict(op='text', ok=0, what='%s: %s (%s)' % (
            type(e).__name__, str(e)[:120], tb.name)))
        if os.environ.get('C19_TB'):
            traceback.print_exc()
    finally:
        shutil.rmtree(root)
    return dict(par=par, ev=ev)


def run(ctx):
    import mmrazor.engine  # noqa: F401
    import mmrazor.models  # noqa: F401
    import mmrazor.structures  # noqa: F401
    rng = ctx.rng
    vlib.model(ctx, 'Quant', vlib.cfg(
        'Init', 'Nxt', dict(Configs='<- CfgDef'),
        invariants=['RangesInTime', 'RangesAll', 'NormsInTime', 'InitOnce',
                    'Calibrated', 'Agree', 'SameEnd', 'ValDue'],
        props=['ValObservesNothing'], view='Vars'),
        defs='CfgDef == ' + vlib.tla([
            config(rng.randrange(10 ** 9))
            for _ in range(200 if ctx.quick else 1000)]))
    jobs = [(rng.randrange(10 ** 9), )
            for _ in range(200 if ctx.quick else 2000)]
    vlib.validate(ctx, 'QuantTrace', net.pmap(training, jobs),
                  what='quantized runs', batch=40,
                  keyfn=lambda t, v: t['par'].get('key'))
