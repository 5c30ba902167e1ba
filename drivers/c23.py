"""C23: when training runs write subnets and estimate resources, and what the
subnets written are (Dumps.tla)."""
import copy
import glob
import json
import os
import random
import re
import shutil
import tempfile
import warnings

import net
import search
import vlib

KINDS = ['op', 'op', 'onehot', 'onehot', 'darts', 'spos', 'autoformer']


def register():
    import torch.nn as nn
    from mmrazor.registry import MODELS
    if not MODELS.get('torchConv2d'):
        MODELS.register_module(name='torchConv2d', module=nn.Conv2d)


def supernet(kind, seed):
    """A searchable algorithm, the same for the same seed."""
    import supernets
    import torch
    import torch.nn as nn
    from mmengine.model import BaseModel
    from mmrazor.models.algorithms import DSNAS, BaseAlgorithm
    from mmrazor.models.algorithms.nas.darts import Darts
    from mmrazor.models.mutators import NasMutator
    from mmrazor.registry import MODELS
    register()
    rng = random.Random(seed)
    torch.manual_seed(seed)
    ns = [rng.randint(2, 4) for _ in range(rng.randint(1, 3))]
    alias = rng.random() < .3
    if kind == 'op':
        a = search.algorithm(ns, seed)
        a.is_supernet = True
        return a

    def cands(n):
        return {f'k{i}': dict(type='torchConv2d', in_channels=3,
                              out_channels=3, padding=i - 1,
                              kernel_size=2 * i - 1)
                for i in range(1, n + 1)}

    if kind in ('onehot', 'darts'):
        thr = rng.choice([1.0, 0.05])

        class Net(BaseModel):

            def __init__(self):
                super().__init__()
                self.w = nn.Conv2d(3, 3, 1)
                for g, n in enumerate(ns):
                    cfg = dict(type='DiffMutableOP' if kind == 'darts' else
                               'OneHotMutableOP', candidates=cands(n),
                               fix_threshold=thr if kind == 'onehot' else 1.)
                    setattr(self, f'm{g}', MODELS.build(cfg))
                if kind == 'darts':
                    self.route = MODELS.build(dict(
                        type='DiffChoiceRoute', with_arch_param=True,
                        num_chosen=rng.choice([1, 2]), edges=nn.ModuleDict(
                            {f'e{i}': nn.Conv2d(3, 3, 1)
                             for i in range(3)})))

            def forward(self, inputs, data_samples=None, mode='tensor'):
                x = self.w(inputs)
                for g in range(len(ns)):
                    x = getattr(self, f'm{g}')(x)
                if kind == 'darts':
                    x = self.route([x, inputs, x + 1])
                if mode == 'loss':
                    return dict(loss=x.square().mean())
                return [x] if mode == 'predict' else x

        if kind == 'darts':
            a = Darts(Net(), NasMutator())
            a.is_supernet = True
            return a
        return DSNAS(Net(), NasMutator(), pretrain_epochs=0,
                     finetune_epochs=50, estimator_cfg=dict(
                         flops_params_cfg=dict(input_shape=(1, 3, 4, 4))))

    class Whole(BaseModel):

        def __init__(self):
            super().__init__()
            self.backbone = supernets.build(kind)
            if kind == 'spos':
                self.backbone.out_indices = (1, )

        def forward(self, inputs, data_samples=None, mode='tensor'):
            size = 32
            x = inputs[:, :, :1, :1].expand(-1, -1, size, size)
            x = self.backbone(x)
            x = x[-1] if isinstance(x, (tuple, list)) else x
            if isinstance(x, (tuple, list)):
                x = x[-1]
            if mode == 'loss':
                return dict(loss=x.square().mean())
            return [x] if mode == 'predict' else x

    class Algo(BaseAlgorithm):

        def __init__(self):
            super().__init__(Whole())
            self.mutator = NasMutator()
            self.mutator.prepare_from_supernet(self.architecture)
            self.mutator.set_choices(self.mutator.sample_choices())
            self.is_supernet = True

    return Algo()


def elements(algo):
    """The searched elements and their alternatives before anything happens
    to them."""
    res, seen = [], set()
    for ms in algo.mutator.search_groups.values():
        for m in ms:
            if id(m) in seen:
                continue
            seen.add(id(m))
            res.append((m, list(m.candidate_choices if hasattr(
                m, 'candidate_choices') else m.choices)))
    return res


def loaded(kind, seed, path):
    """What a fresh model is fixed to by a file."""
    from mmrazor.structures import load_fix_subnet
    algo = supernet(kind, seed)
    els = elements(algo)
    load_fix_subnet(algo, path)
    res = []
    for m, alts in els:
        if hasattr(m, 'is_fixed') and not m.is_fixed:
            ok = 0
        else:
            c = m.current_choice
            if c is None:
                c = getattr(m, '_chosen', None)
            if isinstance(c, list) and len(c) == 1 and c[0] in alts:
                c = c[0]
            if isinstance(c, list):
                ok = 1 if c and len(set(c)) == len(c) and \
                    all(x in alts for x in c) and \
                    len(c) == m.num_chosen else -1
            else:
                ok = alts.index(c) + 1 if c in alts else -1
        res.append(ok)
    import torch
    algo.eval()
    algo.architecture(torch.zeros(2, 3, 4, 4), mode='tensor')
    return res


def watch(algo):
    """Everything the hook must not touch."""
    import torch
    from mmrazor.models.mutables import BaseMutable
    res = []
    for n, m in algo.named_modules():
        res.append((n, m.training, len(m._forward_hooks), len(
            m._modules), type(m).__name__))
        if isinstance(m, BaseMutable):
            w = m.__dict__.get('arch_weights')
            res.append((m.is_fixed, str(m.current_choice),
                        None if w is None else w.detach().tolist(),
                        None if w is None or w.grad is None
                        else w.grad.tolist()))
    for n, p in list(algo.named_parameters()) + list(algo.named_buffers()):
        res.append((n, p.requires_grad, torch.nan_to_num(
            p.detach()).double().sum().item(), tuple(p.shape),
            None if p.grad is None else p.grad.double().sum().item()))
    return res


def group():
    import torch.distributed as dist
    if not dist.is_initialized():
        f = tempfile.mktemp(prefix='c23')
        os.environ.setdefault('GLOO_SOCKET_IFNAME', 'lo')
        dist.init_process_group('gloo', init_method='file://' + f, rank=0,
                                world_size=1)
        os.unlink(f)


def training(job):
    from mmengine.hooks import Hook
    from mmengine.model import MMDistributedDataParallel
    from mmengine.optim import OptimWrapper, OptimWrapperDict
    from mmengine.runner import Runner
    from mmengine.evaluator import Evaluator
    from mmrazor.engine.hooks import DumpSubnetHook, EstimateResourcesHook
    from mmrazor.models.algorithms import DSNASDDP
    import torch
    seed, kind = job
    rng = random.Random(seed)
    loop = rng.choice(['epoch', 'epoch', 'iter'])
    iters = rng.randint(1, 4)
    epochs = rng.randint(1, 6) if loop == 'epoch' else 1
    if loop == 'iter':
        iters = rng.randint(1, 9)
    by = rng.choice(['epoch', 'iter']) if loop == 'epoch' else 'iter'
    c = dict(what='run', loop=loop, by=by, n=rng.choice([-1, 1, 2, 2, 3, 4]),
             iters=iters, epochs=epochs, begin=0, last=rng.randint(0, 1),
             keep=rng.choice([-1, -1, 1, 2, 3]),
             vi=rng.choice([0, 1, 1, 2, 3]), eby=rng.choice(
                 ['epoch', 'iter']) if loop == 'epoch' else 'iter',
             en=rng.choice([-1, 1, 2, 2, 3]), vb=rng.randint(1, 2))
    if loop == 'epoch' and rng.random() < .3:
        c['begin'] = rng.randint(0, epochs - 1)
    out = rng.choice([None, None, 'out', 'same'])
    tmpl = rng.choice([None, None, 'net_{}.yaml'])
    ddp = rng.random() < .25 and kind not in ('autoformer', )
    root = tempfile.mkdtemp(prefix='c23')
    work = os.path.join(root, 'work', 'exp')
    ev = []
    par = dict(c, els=[], key=kind)
    try:
        algo = supernet(kind, seed)
        par['els'] = [len(a) for _, a in elements(algo)]
        args = dict(interval=c['n'], by_epoch=by == 'epoch',
                    save_last=bool(c['last']), max_keep_subnets=c['keep'])
        if out:
            args['out_dir'] = work if out == 'same' else \
                os.path.join(root, 'out')
        if tmpl:
            args['filename_tmpl'] = tmpl
        where = os.path.join(root, 'out', 'exp') if out == 'out' else work
        size = 32 if kind in ('spos', 'autoformer') else 4
        dump = DumpSubnetHook(**args)
        est = EstimateResourcesHook(
            interval=c['en'], by_epoch=c['eby'] == 'epoch',
            estimator_cfg=dict(flops_params_cfg=dict(
                input_shape=(1, 3, size, size))))
        count = [0]
        real = est.estimator.estimate

        def estimate(model, *a, **k):
            count[0] += 1
            if size == 32:
                return {}
            return real(model, *a, **k)
        est.estimator.estimate = estimate
        name = re.compile(re.escape(tmpl or (
            'subnet_epoch_{}.yaml' if by == 'epoch' else 'subnet_iter_{}.yaml')
        ).replace(r'\{\}', r'(\d+)') + '$')
        stay = os.path.join(root, 'seen')
        os.makedirs(stay)
        known = {}
        before = [None]

        def look(op):
            files = []
            for f in glob.glob(os.path.join(where, '**'), recursive=True):
                if not f.endswith('.yaml'):
                    continue
                m = name.match(os.path.relpath(f, where))
                k = int(m.group(1)) if m else -1
                files.append((k, f))
                if k >= 0 and k not in known:
                    known[k] = shutil.copy(f, os.path.join(
                        stay, f'{k}.yaml'))
            ev.append(dict(op=op, files=[k for k, _ in sorted(files)],
                           est=count[0], same=int(
                               before[0] == watch(algo))))

        class Before(Hook):
            priority = 'LOW'

            def after_train_iter(self, *a, **k):
                before[0] = watch(algo)

            def after_train_epoch(self, *a, **k):
                before[0] = watch(algo)

            def after_val_iter(self, *a, **k):
                before[0] = watch(algo)

            def after_val_epoch(self, *a, **k):
                before[0] = watch(algo)

        changed = [0]

        class After(Hook):
            priority = 'LOWEST'

            def after_train_iter(self, runner, *a, **k):
                look('iter')

            def after_train_epoch(self, runner, *a, **k):
                if loop == 'epoch':
                    look('epoch')

            def after_val_iter(self, runner, *a, **k):
                changed[0] |= before[0] != watch(algo)

            def after_val_epoch(self, *a, **k):
                look('val')
                ev[-1]['same'] = int(ev[-1]['same'] and not changed[0])

        class Eval(Evaluator):

            def __init__(self):
                super().__init__([])

            def process(self, *a, **k):
                pass

            def evaluate(self, size):
                return {}

        params = list(algo.architecture.parameters())
        if kind in ('onehot', 'darts') and rng.random() < .7:
            opt = OptimWrapperDict(
                architecture=OptimWrapper(torch.optim.SGD(params, lr=.01)),
                mutator=OptimWrapper(torch.optim.SGD(
                    algo.mutator.parameters(), lr=.01)))
        else:
            opt = OptimWrapper(torch.optim.SGD(params, lr=.01))
        if kind == 'darts' and isinstance(opt, OptimWrapperDict):
            opt = opt['architecture']
        train = search.loader(2 * (iters if loop == 'epoch' else 12), 2)
        if loop == 'epoch':
            tc = dict(by_epoch=True, max_epochs=epochs,
                      val_interval=c['vi'] or 1000,
                      val_begin=1 if c['vi'] else 1000000)
        else:
            tc = dict(by_epoch=False, max_iters=iters,
                      val_interval=c['vi'] or 1000,
                      val_begin=1 if c['vi'] else 1000000)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            run = Runner(
                model=algo, work_dir=work, train_dataloader=train,
                optim_wrapper=opt, train_cfg=tc,
                val_dataloader=search.loader(2 * c['vb'], 2),
                val_cfg=dict(), val_evaluator=Eval(),
                custom_hooks=[dump, est, Before(), After()],
                default_hooks=dict(logger=None, checkpoint=None,
                                   param_scheduler=None, timer=None,
                                   sampler_seed=None),
                log_level='ERROR', default_scope='mmrazor',
                experiment_name=f'c23_{seed}_{os.getpid()}')
            if ddp:
                group()
                run._distributed = True
                run.model = (DSNASDDP if kind == 'onehot' else
                             MMDistributedDataParallel)(
                    module=algo, find_unused_parameters=True)
            if c['begin']:
                lp = run.build_train_loop(tc)
                lp._epoch = c['begin']
                lp._iter = c['begin'] * iters
                run._train_loop = lp
            run.train()
        ev.append(dict(op='end'))
        for k in sorted(known):
            ev.append(dict(op='file', k=k, els=loaded(kind, seed, known[k])))
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ev.append(dict(op='text', ok=0, what='%s: %s (%s)' % (
            type(e).__name__, str(e)[:120], tb.name)))
    finally:
        shutil.rmtree(root)
    return dict(par=par, ev=ev)


def dmcp(job):
    """The sampled widths written at the end of a probabilistic search."""
    import torch
    import torch.nn as nn
    from mmengine.model import BaseModel
    from mmengine.logging import MessageHub
    from mmrazor.engine.hooks import DMCPSubnetHook
    from mmrazor.models.algorithms import DMCP
    from mmrazor.structures import load_fix_subnet
    seed, = job
    rng = random.Random(seed)
    import numpy as np
    np.random.seed(seed)
    torch.manual_seed(seed)
    random.seed(seed)
    chans = [rng.choice([8, 16, 20]) for _ in range(rng.randint(2, 3))]

    class Back(nn.Module):

        def __init__(self):
            super().__init__()
            cs = [3] + chans
            for i in range(len(chans)):
                setattr(self, f'c{i}', nn.Conv2d(
                    cs[i], cs[i + 1], 1, stride=16 if i == 0 else 1))
                setattr(self, f'b{i}', nn.BatchNorm2d(cs[i + 1]))

        def forward(self, x):
            for i in range(len(chans)):
                x = getattr(self, f'b{i}')(getattr(self, f'c{i}')(x))
            return x

    class Net(BaseModel):

        def __init__(self):
            super().__init__()
            self.backbone = Back()
            self.head = nn.Conv2d(chans[-1], 2, 1)

        def forward(self, inputs, data_samples=None, mode='tensor'):
            x = self.head(self.backbone(inputs))
            return dict(loss=x.mean()) if mode == 'loss' else x

    def build():
        return DMCP(
            distiller=dict(type='mmrazor.ConfigurableDistiller',
                           student_recorders=dict(), teacher_recorders=dict(),
                           distill_losses=dict(),
                           loss_forward_mappings=dict()),
            architecture=Net(),
            mutator_cfg=dict(
                type='mmrazor.DMCPChannelMutator',
                channel_unit_cfg=dict(type='DMCPChannelUnit'),
                parse_cfg=dict(type='ChannelAnalyzer',
                               demo_input=(1, 3, 32, 32),
                               tracer_type='BackwardTracer')))
    par = dict(what='dmcp', key='dmcp', els=[])
    ev = []
    root = tempfile.mkdtemp(prefix='c23')
    try:
        MessageHub.get_current_instance().update_info('iter', 0)
        algo = build()
        for a in algo.mutator.arch_params.values():
            a.data.uniform_(0, rng.choice([.1, .3]))
        algo.set_subnet('max', False)
        top = float(algo.calc_current_flops())
        while True:
            algo.set_subnet('direct', False)
            cur = float(algo.calc_current_flops())
            if cur >= .2 * top:
                break
        algo.target_flops = cur * rng.choice([1, .98]) / 1e6
        n = rng.randint(1, 3)
        run = search.runner(algo, root)
        DMCPSubnetHook(subnet_sample_num=n).after_run(run)
        par['els'] = chans
        out = os.path.join(root, 'model_sample')
        want = {f'subnet_{i + 1}.json': i + 1 for i in range(n)}
        want['excepted_ch.json'] = 0
        names = int(set(os.listdir(out)) == set(want))
        for f, i in sorted(want.items(), key=lambda x: x[1]):
            if not names:
                ev.append(dict(op='sampled', i=i, names=0, els=[], flops=0,
                               target=0))
                break
            d = json.load(open(os.path.join(out, f)))
            fresh = Net()
            load_fix_subnet(fresh, d, load_subnet_mode='mutator')
            fresh(torch.zeros(2, 3, 32, 32))
            els = [getattr(fresh.backbone, f'c{j}').weight.shape[0]
                   for j in range(len(chans))]
            fl = flops(chans, fresh.backbone)
            ev.append(dict(op='sampled', i=i, names=names, els=els,
                           flops=fl, target=int(round(
                               algo.target_flops * 1e6))))
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ev.append(dict(op='text', ok=0, what='%s: %s (%s)' % (
            type(e).__name__, str(e)[:120], tb.name)))
    finally:
        shutil.rmtree(root)
    return dict(par=par, ev=ev)


def flops(chans, back):
    """Operations of the static backbone by our own count."""
    px, res = 14 * 14, 0
    for i in range(len(chans)):
        cv = getattr(back, f'c{i}')
        o, k = cv.weight.shape[:2]
        res += px * o * k + px * o + 2 * px * o
    return res


def run(ctx):
    import mmcls.models  # noqa
    import mmrazor.engine  # noqa
    import mmrazor.models  # noqa
    rng = ctx.rng
    cfgs = []
    for _ in range(150 if ctx.quick else 1500):
        loop = rng.choice(['epoch', 'epoch', 'iter'])
        e = rng.randint(1, 5) if loop == 'epoch' else 1
        cfgs.append(dict(
            loop=loop, by=rng.choice(['epoch', 'iter'])
            if loop == 'epoch' else 'iter', n=rng.choice([-1, 1, 2, 3]),
            iters=rng.randint(1, 4) if loop == 'epoch' else
            rng.randint(1, 12), epochs=e, begin=rng.randint(0, e - 1),
            last=rng.randint(0, 1), keep=rng.choice([-1, 1, 2]),
            vi=rng.randint(0, 3), eby=rng.choice(['epoch', 'iter']),
            en=rng.choice([-1, 1, 2, 3]), vb=rng.randint(1, 2)))
    vlib.model(ctx, 'Dumps', vlib.cfg(
        'Init', 'Nxt', dict(Configs='<- CfgDef'),
        invariants=['OnSchedule', 'Bounded', 'EndWritten', 'Counted'],
        view='Vars'), defs='CfgDef == ' + vlib.tla(cfgs))
    size = 1 if ctx.quick else 10
    jobs = []
    for _ in range(320 * size):
        k = rng.choice(KINDS)
        if k in ('spos', 'autoformer') and rng.random() < .6:
            k = 'op'
        jobs.append((rng.randint(0, 1 << 30), k))
    key = lambda t, v: t['par'].get('key')  # noqa
    vlib.validate(ctx, 'DumpsTrace', net.pmap(training, jobs),
                  what='training runs', batch=80, keyfn=key)
    vlib.validate(ctx, 'DumpsTrace', net.pmap(
        dmcp, [(rng.randint(0, 1 << 30), ) for _ in range(24 * size)]),
        what='sampled widths', batch=40, keyfn=key)
