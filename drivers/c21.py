"""C21: the phases of architecture searches (Phases.tla)."""
import copy
import os
import random
import shutil
import tempfile
import warnings

import net
import vlib
from c23 import group

SLOTS = 64


class World:
    """What a live network leaves a record of."""

    def __init__(self, ev):
        self.ev, self.on, self.n, self.net, self.ran = ev, False, 0, None, []


W = World([])


def register():
    import torch
    import torch.nn as nn
    from mmengine.model import BaseModel
    from mmrazor.registry import MODELS

    class Cand21(nn.Module):

        def __init__(self, key, size):
            super().__init__()
            self.key = key
            self.conv = nn.Conv2d(3, 3, size, padding=size // 2)

        def forward(self, x):
            if W.on and any(m is self for m in W.net.modules()):
                W.ran.append(self.key)
            return torch.tanh(self.conv(x))

    class Loss21(nn.Module):

        def forward(self, a, b):
            if W.on:
                W.ev.append(dict(op='soft', s=int(round(float(a.mean()))),
                                 t=int(round(float(b.mean())))))
            return (a - b.detach()).mean() * 1e-3

    class Net21(BaseModel):

        def __init__(self):
            super().__init__()
            self.tag = nn.Parameter(torch.zeros(SLOTS))
            self.mark = nn.Identity()
            self.register_buffer('grid', torch.linspace(0, 3, 48).view(
                1, 3, 4, 4))

        def body(self, x):
            raise NotImplementedError

        def seen(self, y):
            return {}

        def forward(self, inputs, data_samples=None, mode='tensor'):
            w = W
            live = w.on and self is w.net and mode == 'loss'
            if live:
                w.n, w.ran = w.n + 1, []
                home = w.home()
            x = inputs.to(self.grid.dtype)
            if inputs.shape[-1] == 4:
                x = torch.sin(x * .37 + self.grid)
            y = self.body(x)
            if mode != 'loss':
                return [y] if mode == 'predict' else y
            y = y.square().mean()
            if live:
                n = w.n
                y = y + self.tag[n]
                if w.atag is not None:
                    y = y + w.atag[n]
                self.mark(y - y.detach() + n)
                w.ev.append(dict(
                    op='pass', d=int(round(float(inputs.mean()))),
                    tr=int(self.training), home=int(home),
                    **dict(dict(ops=[], w=[], arch=0), **self.seen(y))))
            return dict(loss=y)

    for cls in (Cand21, Loss21, Net21):
        if not MODELS.get(cls.__name__):
            MODELS.register_module(module=cls)
    return MODELS.get('Net21')


class Data:

    def __init__(self, n, offset=0):
        self.n, self.offset = n, offset

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        import torch
        return dict(inputs=torch.full((3, 4, 4), float(
            self.offset + i + 1)), data_samples=i)


def loader(n, offset=0):
    import torch

    def collate(items):
        return dict(inputs=torch.stack([x['inputs'] for x in items]),
                    data_samples=[x['data_samples'] for x in items])
    return torch.utils.data.DataLoader(Data(n, offset), batch_size=1,
                                       collate_fn=collate)


def chosen(c, rng):
    """Architecture values with known winners."""
    import torch
    win, clear, vals = [], [], []
    for n in c['ns']:
        i, s = rng.randint(1, n), int(rng.random() < c['often'])
        v = torch.tensor([rng.uniform(-.1, .1) for _ in range(n)],
                         dtype=torch.double)
        v[i - 1] = v.max() + (8. if s else rng.uniform(.3, 1))
        win.append(i)
        clear.append(s)
        vals.append(v)
    return win, clear, vals


def ops_algorithm(c, rng):
    """DSNAS or Darts over toy groups; members[g]: the operations."""
    import torch.nn as nn
    from mmrazor.models.algorithms import DSNAS
    from mmrazor.models.algorithms.nas.darts import Darts
    from mmrazor.models.mutators import NasMutator
    from mmrazor.registry import MODELS
    base = register()
    order = [(g, m) for g, k in enumerate(c['mem']) for m in range(k)]
    rng.shuffle(order)
    norm = rng.random() < .4 and not (c['alg'] == 'darts' and c['ddp'])

    class Net(base):

        def __init__(self):
            super().__init__()
            self.w = nn.Conv2d(3, 3, 1)
            if norm:
                self.bn = nn.BatchNorm2d(3)
            for g, m in order:
                cfg = dict(
                    type='OneHotMutableOP' if c['alg'] == 'dsnas'
                    else 'DiffMutableOP',
                    fix_threshold=.9 if c['thr'] else 1.,
                    candidates={f'k{i}': dict(
                        type='Cand21', key=(g, m, i), size=2 * i - 1)
                        for i in range(1, c['ns'][g] + 1)})
                if c['mem'][g] > 1:
                    cfg['alias'] = f'g{g}'
                setattr(self, f'm{g}{m}', MODELS.build(cfg))

        def body(self, x):
            x = self.w(x)
            if norm:
                x = self.bn(x)
            for g, m in order:
                x = getattr(self, f'm{g}{m}')(x) + .1 * x
            return x

        def seen(self, y):
            return dict(ops=[[[i for a, b, i in W.ran if (a, b) == (g, m)]
                              for m in range(k)]
                             for g, k in enumerate(c['mem'])])

    a = Net()
    members = [[getattr(a, f'm{g}{m}') for m in range(k)]
               for g, k in enumerate(c['mem'])]
    if c['alg'] == 'dsnas':
        algo = DSNAS(a, NasMutator(), pretrain_epochs=c['pre'],
                     finetune_epochs=c['fine'],
                     flops_constraints=c['flops'], estimator_cfg=dict(
                         flops_params_cfg=dict(input_shape=(1, 3, 4, 4))))
    else:
        algo = Darts(a, NasMutator(), unroll=bool(c['unroll']))
    algo.double()
    params = []
    for g in range(len(c['mem'])):
        k, = [k for k, ms in algo.mutator.search_groups.items()
              if any(x is members[g][0] for x in ms)]
        params.append(algo.mutator.arch_params[k])
    return algo, members, params


def fixed(members):
    res = []
    for ms in members:
        res.append([])
        for m in ms:
            if not m.is_fixed:
                res[-1].append(0)
                continue
            v = m.__dict__.get('_chosen')
            left = list(m._candidates.keys())
            ok = isinstance(v, (list, tuple)) and len(v) == 1 and \
                left == list(v)
            res[-1].append(int(left[0][1:]) if ok else -1)
    return res


def lookahead(algo, params, opt, s, a):
    """The gradients of the architecture for the loss one step ahead, from
    second derivatives."""
    import torch
    p0 = algo.mutator.arch_params
    names = [k for k in p0.keys() for p in params if p0[k] is p]
    live = [p for n, p in algo.architecture.named_parameters()
            if n != 'tag']
    buf = [opt.optimizer.state[p].get('momentum_buffer') for p in live]
    gr = opt.param_groups[0]
    cp = copy.deepcopy(algo)
    cp.train()
    ws = [p for n, p in cp.architecture.named_parameters() if n != 'tag']
    al = [cp.mutator.arch_params[n] for n in names]

    def loss(x):
        return cp.architecture(x, mode='loss')['loss']

    w0 = [p.detach().clone() for p in ws]
    g = torch.autograd.grad(loss(s), ws)
    with torch.no_grad():
        for p, d, b in zip(ws, g, buf):
            m = 0 if b is None else gr['momentum'] * b
            p -= gr['lr'] * (m + d + gr['weight_decay'] * p)
    r = torch.autograd.grad(loss(a), al + ws)
    da, v = r[:len(al)], r[len(al):]
    with torch.no_grad():
        for p, w in zip(ws, w0):
            p.copy_(w)
    g = torch.autograd.grad(loss(s), ws, create_graph=True)
    h = torch.autograd.grad(sum((x * y).sum() for x, y in zip(g, v)), al)
    return {n: x - gr['lr'] * y for n, x, y in zip(names, da, h)}


def probabilistic(c, rng):
    """DMCP over a toy network of three units."""
    import torch
    import torch.nn as nn
    from mmengine.logging import MessageHub
    from mmrazor.models.algorithms import DMCP
    base = register()
    hi = c['hi']

    class Back(nn.Module):

        def __init__(self):
            super().__init__()
            cs = [3] + hi
            for i in range(len(hi)):
                setattr(self, f'c{i}', nn.Conv2d(
                    cs[i], cs[i + 1], 1, stride=2 if i == 0 else 1))
                setattr(self, f'b{i}', nn.BatchNorm2d(cs[i + 1]))

        def forward(self, x):
            if W.on:
                W.ran = []
            for i in range(len(hi)):
                x = getattr(self, f'b{i}')(getattr(self, f'c{i}')(x))
                if W.on:
                    W.ran.append(x.shape[1])
            return x

    class Net(base):

        def __init__(self):
            super().__init__()
            self.backbone = Back()
            self.head = nn.Conv2d(hi[-1], 2, 1)

        def body(self, x):
            return torch.tanh(self.head(self.backbone(x)))

        def seen(self, y):
            ps = W.params
            g = torch.autograd.grad(y, ps, retain_graph=True,
                                    allow_unused=True)
            return dict(w=list(W.ran), arch=int(any(
                x is not None for x in g)))

    MessageHub.get_current_instance().update_info('iter', 0)
    rec = dict(m=dict(type='ModuleOutputs', source='mark'))
    algo = DMCP(
        distiller=dict(
            type='mmrazor.ConfigurableDistiller', student_recorders=rec,
            teacher_recorders=rec, distill_losses=dict(x=dict(
                type='Loss21')),
            loss_forward_mappings=dict(x=dict(
                a=dict(recorder='m', from_student=True),
                b=dict(recorder='m', from_student=False)))),
        architecture=Net(),
        mutator_cfg=dict(
            type='mmrazor.DMCPChannelMutator',
            channel_unit_cfg=dict(type='DMCPChannelUnit'),
            pruning_cfg=c['cut'],
            parse_cfg=dict(type='ChannelAnalyzer',
                           demo_input=(1, 3, 224, 224),
                           tracer_type='BackwardTracer')),
        strategy=[dict(arch='arch_random', sched='scheduled_random').get(
            x, x) for x in c['strat']],
        arch_start_train=c['astart'], arch_train_freq=c['freq'],
        distillation_times=c['dt'], target_flops=c['target'],
        flops_loss_type=c['ftype'])
    if c['sure']:
        algo.cur_sample_prob = 0.
    algo.double()
    a = algo.architecture
    params = []
    for i in range(len(hi)):
        k, = [str(j) for j, u in enumerate(algo.mutator.units)
              if f'backbone.c{i}' in [x.name for x in u.output_related]]
        params.append(algo.mutator.arch_params[k])
    return algo, a, params


def expected(c, params):
    """The widths to be expected of architecture values."""
    import torch
    return [lo + by * float(torch.exp(-p.detach().clamp(min=0)).cumprod(
        0).sum()) if p.numel() else lo
        for lo, by, p in zip(c['lo'], c['by'], params)]


def config(seed):
    rng = random.Random(seed)
    alg = rng.choice(['dsnas', 'dsnas', 'darts', 'darts', 'dmcp', 'dmcp'])
    c = dict(alg=alg, dict=int(rng.random() < .85), pre=0, fine=0, ns=[],
             mem=[], thr=0, unroll=0, strat=[], astart=0, freq=1, dt=0,
             sure=0, hi=[], lo=[], by=[], first=0, iters=1, epochs=1,
             loop='epoch', key=alg, often=.3, cut=[.25, 1, .25],
             flops=300., target=0., ftype='l1', alen=1, momentum=0.,
             decay=0., ddp=int(rng.random() < .25))
    if alg in ('dsnas', 'darts'):
        c['ns'] = [rng.randint(2, 3) for _ in range(rng.randint(1, 3))]
        c['mem'] = [1 if rng.random() < .7 else 2 for _ in c['ns']]
        c['epochs'] = rng.randint(1, 4 if alg == 'darts' else 5)
        c['iters'] = rng.randint(1, 3)
        c['alen'] = c['iters'] + rng.randint(0, 2)
    if alg == 'dsnas':
        c['pre'] = rng.randint(0, 3)
        c['fine'] = c['pre'] + rng.randint(1, 3)
        c['thr'] = rng.randint(0, 1)
        c['often'] = rng.choice([.1, .4])
        c['flops'] = rng.choice([300., 0.])
        if rng.random() < .3:
            c['first'] = rng.randint(0, c['epochs'] - 1)
    if alg == 'darts':
        c['unroll'] = c['dict'] * rng.randint(0, 1)
        c['momentum'] = rng.choice([0., .9])
        c['decay'] = rng.choice([0., .1])
        if rng.random() < .4:
            c['loop'], c['iters'] = 'iter', rng.randint(1, 6)
    if alg == 'dmcp':
        c['dict'], c['loop'] = 1, 'iter'
        c['iters'] = rng.randint(4, 10)
        c['strat'] = rng.choice([
            ['max', 'min', 'arch'], ['max', 'min', 'sched'],
            ['max', 'min', 'sched', 'arch'], ['max', 'arch', 'min'],
            ['max', 'min', 'arch', 'arch'], ['max', 'sched', 'sched'],
            ['max']])
        c['astart'] = rng.choice([-1, 0, 1, 2, 3, 5, 20])
        c['freq'] = rng.choice([1, 2, 2, 3])
        c['dt'] = rng.choice([-1, 1, 2, 4, 20])
        c['sure'] = rng.randint(0, 1)
        if rng.random() < .3:
            c['first'] = rng.randint(1, 5)
        c['cut'] = rng.choice([[.25, 1, .25], [.5, 1, .25], [.1, 1, .05]])
        c['hi'] = [rng.choice([20, 40] if c['cut'][0] == .1 else
                              [4, 8, 12]) for _ in range(3)]
        lo, top, off = c['cut']
        c['by'] = [int(off * h / top) for h in c['hi']]
        c['lo'] = [h - b * int((top - lo) / off + 1e-4)
                   for h, b in zip(c['hi'], c['by'])]
        c['ftype'] = rng.choice(['l1', 'l2', 'log_l1', 'inverted_log_l1'])
        c['target'] = 0. if c['ftype'] == 'inverted_log_l1' else \
            rng.choice([0., 1e3])
    return c, rng


def training(job):
    import torch
    from mmengine.hooks import Hook
    from mmengine.optim import OptimWrapper, OptimWrapperDict
    from mmengine.runner import Runner
    from mmrazor.models.algorithms import DSNASDDP
    from mmrazor.models.algorithms.nas.darts import DartsDDP
    from mmrazor.models.algorithms.pruning.dmcp import DMCPDDP
    global W
    seed, = job
    c, rng = config(seed)
    c['seed'] = seed
    torch.manual_seed(seed)
    random.seed(seed)
    ev = []
    W = w = World(ev)
    w.atag, w.home = None, lambda: 1
    root = tempfile.mkdtemp(prefix='c21')
    try:
        members = []
        if c['alg'] == 'dmcp':
            algo, arch, params = probabilistic(c, rng)
        else:
            algo, members, params = ops_algorithm(c, rng)
            arch = algo.architecture
        w.net, w.params = arch, params
        wparams = list(arch.parameters())
        ow = OptimWrapper(torch.optim.SGD(
            wparams, lr=.05, momentum=c['momentum'],
            weight_decay=c['decay']))
        opts = [(ow.optimizer, 'w')]
        opt = ow
        if c['dict']:
            extra = []
            if c['alg'] != 'dsnas':
                algo.mutator.register_parameter('tag', torch.nn.Parameter(
                    torch.zeros(SLOTS, dtype=torch.double)))
                w.atag = algo.mutator.tag
                extra = [w.atag]
            oa = OptimWrapper(torch.optim.SGD(
                [*extra, *params], lr=.01 if c['alg'] != 'dmcp' else 1e-5))
            opts.append((oa.optimizer, 'a'))
            opt = OptimWrapperDict(architecture=ow, mutator=oa)

        def snap():
            return {n: p.detach().clone() for n, p in algo.named_parameters()
                    if not n.endswith('tag')}

        def differs(a, b):
            return int(any(not torch.equal(a[n], b[n])
                           for n in a if n in b))

        def mine(who, n):
            return n.startswith('mutator.') == (who == 'a')

        state = dict(last=None, ref=None, start=None, ops=None)

        def home():
            return not differs(
                {n: p for n, p in state['start'].items()
                 if mine('w', n)}, snap())

        w.home = home

        def before(who):
            def hook(optim, args, kwargs):
                if not w.on:
                    return
                e = dict(op='upd', who=who, dir=1, toward=1, groups=[],
                         other=differs(state['last'], snap()))
                tag = arch.tag if who == 'w' else w.atag
                e['from'] = [] if tag is None or tag.grad is None else [
                    int(i) for i in tag.grad.nonzero().flatten()]
                if who == 'a' and c['alg'] == 'dsnas':
                    e['groups'] = [g + 1 for g, p in enumerate(params)
                                   if p.grad is not None
                                   and bool(p.grad.any())]
                    last = [x for x in ev if x['op'] == 'pass'][-1]['ops']
                    now = fixed(members)
                    for g, p in enumerate(params):
                        if p.grad is None or now[g][0]:
                            continue
                        pr = torch.softmax(p.detach(), 0)
                        b = torch.stack([torch.eye(
                            len(pr), dtype=pr.dtype)[r[0] - 1] - pr
                            for r in last[g]], 1)
                        x = torch.linalg.lstsq(
                            b, p.grad[:, None], driver='gelsd').solution
                        rest = (b @ x)[:, 0] - p.grad
                        if rest.norm() > 1e-6 * p.grad.norm() + 1e-12:
                            e['dir'] = 0
                if who == 'a' and c['unroll'] and state['ref']:
                    for n, r in state['ref'].items():
                        p = algo.mutator.arch_params[n]
                        if p.grad is None or (p.grad - r).norm() > \
                                .02 * r.norm() + 1e-9:
                            e['dir'] = 0
                state['pending'] = e
                state['was'] = snap()
                state['exp'] = expected(c, params)
                if who == 'a' and c['alg'] == 'dmcp' and not e['from']:
                    state['can'] = any(
                        b > 0 and p.numel() and (
                            0 if c['target'] == 0. else 1e-8) <= float(
                                p[0]) < 1
                        for b, p in zip(c['by'], params))
            return hook

        def after(who):
            def hook(optim, args, kwargs):
                if not w.on:
                    return
                now = snap()
                e = state['pending']
                e['other'] |= differs(
                    {n: p for n, p in state['was'].items()
                     if not mine(who, n)}, now)
                if who == 'a' and c['alg'] == 'dmcp' and not e['from']:
                    ex = expected(c, params)
                    sign = -1 if c['target'] == 0. else 1
                    d = [sign * (y - x) for x, y in zip(state['exp'], ex)]
                    e['toward'] = int(all(x >= -1e-12 for x in d) and (
                        not state['can'] or any(x > 0 for x in d)))
                ev.append(e)
                state['last'] = now
            return hook

        for o, who in opts:
            o.register_step_pre_hook(before(who))
            o.register_step_post_hook(after(who))
        steps = [0]

        class Step(Hook):

            def before_train_iter(self, runner, batch_idx, data_batch=None):
                steps[0] += 1
                win, clear, direct = [], [], []
                if c['alg'] == 'dmcp':
                    for p, lo, by in zip(params, c['lo'], c['by']):
                        n = p.numel()
                        k = rng.randint(0, n)
                        p.data = torch.tensor(
                            ([0.] * k + [50.] + [rng.choice([0., 50.])
                                                 for _ in range(n)])[:n],
                            dtype=torch.double)
                        direct.append(lo + by * k)
                else:
                    win, clear, vals = chosen(c, rng)
                    for p, v in zip(params, vals):
                        p.data.copy_(v)
                two = isinstance(data_batch, (tuple, list))
                bs = data_batch if two else (data_batch, data_batch)
                s, a = [int(x['inputs'].mean()) for x in bs]
                ev.append(dict(op='begin', win=win, clear=clear,
                               direct=direct, s=s, a=a if two else 0))
                w.on, w.n = False, 0
                for p in (arch.tag, w.atag):
                    if p is not None:
                        p.grad = None
                state['ref'] = None
                if c['unroll']:
                    state['ref'] = lookahead(
                        algo, params, ow, *[x['inputs'] for x in bs])
                state['last'] = state['start'] = snap()
                w.on = True

            def after_train_iter(self, runner, batch_idx, data_batch=None,
                                 outputs=None):
                w.on = False
                ev.append(dict(
                    op='done', fix=fixed(members),
                    stray=differs(state['last'], snap()),
                    tr=int(arch.training)))

        n = c['iters'] if c['loop'] == 'epoch' else 40
        if c['alg'] == 'darts' and c['loop'] == 'iter':
            n = rng.randint(2, 4)
            c['alen'] = n + rng.randint(-1, 1)
        tc = dict(by_epoch=c['loop'] == 'epoch', val_interval=1000)
        tc['max_epochs' if c['loop'] == 'epoch' else 'max_iters'] = \
            c['epochs'] if c['loop'] == 'epoch' else c['first'] + c['iters']
        if c['alg'] == 'darts' and c['dict']:
            tc.pop('by_epoch')
            tc['type'] = 'mmrazor.Darts%sBasedTrainLoop' % (
                'Epoch' if c['loop'] == 'epoch' else 'Iter')
            tc['mutator_dataloader'] = loader(c['alen'], 1000)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            run = Runner(
                model=algo, work_dir=os.path.join(root, 'work'),
                train_dataloader=loader(n), optim_wrapper=opt, train_cfg=tc,
                custom_hooks=[Step()],
                default_hooks=dict(logger=None, checkpoint=None,
                                   param_scheduler=None, timer=None,
                                   sampler_seed=None),
                log_level='ERROR', default_scope='mmrazor',
                experiment_name=f'c21_{seed}_{os.getpid()}')
            if c['ddp']:
                group()
                run._distributed = True
                run.model = dict(dsnas=DSNASDDP, darts=DartsDDP,
                                 dmcp=DMCPDDP)[c['alg']](
                    module=algo, find_unused_parameters=True)
            if c['first']:
                lp = run.build_train_loop(tc)
                if c['loop'] == 'epoch':
                    lp._epoch = c['first']
                    lp._iter = c['first'] * c['iters']
                else:
                    lp._iter = c['first']
                run._train_loop = lp
            run.train()
        ev.append(dict(op='end', steps=steps[0]))
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ev.append(dict(op='text', ok=0, what='%s: %s (%s)' % (
            type(e).__name__, str(e)[:120], tb.name)))
        if os.environ.get('C21_TB'):
            traceback.print_exc()
    finally:
        w.on = False
        shutil.rmtree(root)
    return dict(par=c, ev=ev)


def specs(rng, n):
    """Configurations for the model itself."""
    out = []
    while len(out) < n:
        c, _ = config(rng.randrange(10 ** 9))
        if len(c['ns']) > 2 or len(c['strat']) > 3:
            continue
        c = dict(c, flops=0, cut=[], target=0, momentum=0, decay=0, often=0)
        c['hi'], c['lo'], c['by'] = [
            x[:2] for x in (c['hi'], c['lo'], c['by'])]
        out.append(c)
    return out


def run(ctx):
    import mmrazor.engine  # noqa: F401
    import mmrazor.models  # noqa: F401
    import mmrazor.structures  # noqa: F401
    rng = ctx.rng
    vlib.model(ctx, 'Phases', vlib.cfg(
        'Init', 'Nxt', dict(Configs='<- CfgDef'),
        invariants=['TunedIsFixed', 'NoArchOutside', 'ArchOnce',
                    'WeightsAlways', 'ArchEvery', 'Contributes', 'OwnBatch'],
        props=['FixedStays', 'FixedIsWinner'], view='Vars'),
        defs='CfgDef == ' + vlib.tla(specs(rng, 24 if ctx.quick else 80)))
    jobs = [(rng.randrange(10 ** 9), )
            for _ in range(300 if ctx.quick else 3000)]
    vlib.validate(ctx, 'PhasesTrace', net.pmap(training, jobs),
                  what='searches', batch=40,
                  keyfn=lambda t, v: t['par'].get('key'))
