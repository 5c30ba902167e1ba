"""C20: the passes, losses and updates of distillation steps (Distill.tla)."""
import random
import types

import net
import search
import vlib

SLOTS = 300


class World:

    def __init__(self):
        self.ev, self.n, self.cnt, self.img, self.on = [], 0, 0, 0, False


WORLD = World()


def aug():
    """What a delivery replaces."""
    WORLD.cnt += 1
    return WORLD.cnt


def register():
    import torch
    import torch.nn as nn
    from mmengine.model import BaseModel
    from mmengine.registry import MODEL_WRAPPERS
    from mmrazor.registry import MODELS

    class Toy20(BaseModel):
        """Pass n produces 100n+1, 100n+2 (mid, twice) and 100n+3, 100n+4
        (out, a tuple)."""

        def __init__(self, role, m=0):
            super().__init__()
            self.role, self.m = role, m
            self.bn = nn.BatchNorm2d(1)
            self.mid, self.out = nn.Identity(), Pair()
            self.tag = nn.Parameter(torch.zeros(SLOTS))
            self.w = nn.Parameter(torch.zeros(1))

        def run(self, inputs):
            asked = [aug() for _ in range(self.m)]
            self.bn(inputs)
            w = WORLD
            if not w.on:
                return 0.
            w.n += 1
            norms = [m.training for m in self.modules()
                     if isinstance(m, nn.BatchNorm2d)]
            w.ev.append(dict(
                op='pass', role=self.role, d=int(round(float(inputs.mean()))),
                grad=int(torch.is_grad_enabled()),
                ig=int(inputs.requires_grad), train=int(self.training),
                bn=int(any(norms)), aug=asked))
            g = self.tag[w.n] + self.w - self.w.detach() + \
                inputs.mean() - inputs.mean().detach()
            n = w.n
            self.mid(100 * n + 1 + g)
            self.mid(100 * n + 2 + g)
            self.out((100 * n + 3 + g, 100 * n + 4 + g))
            return n + g

        def extract_feat(self, inputs):
            self.run(inputs)

        def forward(self, inputs, data_samples=None, mode='tensor'):
            y = self.run(inputs)
            return dict(loss_own=y) if mode == 'loss' else [y]

    class Pair(nn.Module):

        def forward(self, x):
            return tuple(x)

    class Toy20Gen(nn.Module):

        def __init__(self):
            super().__init__()
            self.module = types.SimpleNamespace(latent_dim=1)
            self.tag = nn.Parameter(torch.zeros(SLOTS))

        def forward(self, data=None, batch_size=1):
            WORLD.img += 1
            i = WORLD.img
            return torch.zeros(batch_size, 1, 2, 2) + i + self.tag[i]

    class Toy20Add(nn.Module):

        def __init__(self, add, listed=0):
            super().__init__()
            self.add, self.listed = add, listed

        def forward(self, x):
            return [x + 40, x + self.add] if self.listed else x + self.add

    class Toy20Loss(nn.Module):

        def __init__(self, set, tag):
            super().__init__()
            self.set, self.tag = set, tag

        def forward(self, a, b):
            WORLD.ev.append(dict(
                op='loss', set=self.set, name=self.tag,
                s=int(round(float(a.mean()))), t=int(round(float(b.mean()))),
                tg=int(b.requires_grad)))
            return a.mean()

    class Toy20Wrap(nn.Module):

        def __init__(self, module):
            super().__init__()
            self.module = module

    for cls in (Toy20, Toy20Gen, Toy20Add, Toy20Loss):
        if not MODELS.get(cls.__name__):
            MODELS.register_module(module=cls)
    if not MODEL_WRAPPERS.get('Toy20Wrap'):
        MODEL_WRAPPERS.register_module(module=Toy20Wrap)


def distiller(c, names, set, kind='ConfigurableDistiller'):
    def recorders(role, prefix=''):
        return {role + 'm': dict(type='ModuleOutputs', source=prefix + 'mid'),
                role + 'o': dict(type='ModuleOutputs', source=prefix + 'out')}

    free = c['alg'] in ('free', 'dafl')
    teachers = {}
    for i in range(c['nt']):
        r = f'T{i + 1}'
        teachers.update(recorders(r, r + '.' if free else ''))

    def operand(x):
        d = dict(recorder=x['role'] + ('m' if x['place'] < 3 else 'o'),
                 from_student=x['role'] == 'S')
        if x['place'] < 3:
            d['record_idx'] = x['place'] - 1
        else:
            d['data_idx'] = x['place'] - 3
        if x['conn']:
            d['connector'] = f'c{min(x["conn"], 3)}'
        if x['conn'] >= 3:
            d['connector_idx'] = 4 - x['conn']
        return d

    add = lambda n, listed=0: dict(type='Toy20Add', add=n,  # noqa
                                   listed=listed)
    deliveries = {}
    if c['m'] and c['alg'] in ('single', 'fpn'):
        deliveries['aug'] = dict(type='FunctionOutputs', func_path='c20.aug',
                                 max_keep_data=c['m'])
    return dict(
        type=kind, student_recorders=recorders('S'),
        teacher_recorders=teachers, distill_deliveries=deliveries,
        connectors=dict(c1=add(10), c2=[add(10), add(10)], c3=add(30, 1)),
        distill_losses={x['name']: dict(type='Toy20Loss', set=set,
                                        tag=x['name']) for x in names},
        loss_forward_mappings={x['name']: dict(a=operand(x['s']),
                                               b=operand(x['t']))
                               for x in names})


def config(rng):
    alg = rng.choice(['single', 'single', 'single', 'fpn', 'self', 'byot',
                      'free', 'free', 'dafl'])
    free = alg in ('free', 'dafl')
    solo = alg in ('self', 'byot')
    c = dict(alg=alg, tt=0, ne=rng.randint(0, 1), st=1, cs=1, stop=-1,
             first=rng.choice([0, 0, 0, 1, 3]), iters=rng.randint(1, 3), m=0,
             nt=rng.randint(1, 3) if free else 1, sit=1, sfirst=0)
    if alg == 'single':
        c['tt'] = rng.choice([0, 0, 1])
    if alg in ('single', 'self', 'byot'):
        c['st'], c['cs'] = rng.choice([(1, 1), (1, 0), (0, 1)])
    if alg in ('single', 'fpn'):
        c['m'] = rng.choice([0, 1, 2, 3])
        if c['cs'] or alg == 'fpn':
            c['stop'] = rng.choice([-1, 0, 1, 2, 3])
    if alg == 'free':
        c['sit'], c['sfirst'] = rng.randint(1, 3), rng.randint(0, 1)

    def operand(role):
        return dict(role=role, place=rng.randint(1, 4),
                    conn=rng.choice([0, 0, 1, 2, 3, 4]))

    roles = [f'T{i + 1}' for i in range(c['nt'])]

    def losses(lo):
        return [dict(name=f'loss_{x}', s=operand('S'),
                     t=operand(rng.choice(roles + ['S'])
                               if rng.random() < .2 else rng.choice(roles)))
                for x in 'abc'[:rng.randint(lo, 3)]]

    c['names'] = losses(1 if free or not c['cs'] else 0)
    c['gnames'] = losses(1) if free else []
    for x in c['gnames']:
        if rng.random() < .4:       # of the teacher only
            x['s'] = operand(rng.choice(roles))
    return c


def history(job):
    global WORLD
    seed, = job
    import torch
    from mmengine.model import BaseDataPreprocessor
    from mmengine.optim import OptimWrapper, OptimWrapperDict
    from mmrazor.engine import StopDistillHook
    from mmrazor.models import algorithms as A
    rng = random.Random(seed)
    torch.manual_seed(seed)
    c = config(rng)
    # the module that deliveries look up by name
    import c20
    world = c20.WORLD = WORLD = World()
    ev = world.ev
    free = c['alg'] in ('free', 'dafl')
    toy = lambda role: dict(type='Toy20', role=role, m=c['m'])  # noqa
    base = dict(architecture=toy('S'),
                data_preprocessor=BaseDataPreprocessor())
    try:
        if free:
            kw = {} if c['alg'] == 'dafl' and rng.random() < .5 else dict(
                student_iter=c['sit'], student_train_first=bool(c['sfirst']))
            a = (A.DataFreeDistillation if c['alg'] == 'free' else
                 A.DAFLDataFreeDistillation)(
                distiller(c, c['names'], 'd'), distiller(c, c['gnames'], 'g'),
                {f'T{i + 1}': dict(build_cfg=toy(f'T{i + 1}'))
                 for i in range(c['nt'])}, dict(type='Toy20Gen'), **kw,
                **base)
        elif c['alg'] in ('self', 'byot'):
            a = A.SelfDistill(
                distiller(c, c['names'], 'd', 'BYOTDistiller' if c['alg'] ==
                          'byot' else 'ConfigurableDistiller'),
                student_trainable=bool(c['st']),
                calculate_student_loss=bool(c['cs']), **base)
        else:
            a = (A.SingleTeacherDistill if c['alg'] == 'single' else
                 A.FpnTeacherDistill)(
                distiller(c, c['names'], 'd'), toy('T1'),
                teacher_trainable=bool(c['tt']),
                teacher_norm_eval=bool(c['ne']),
                student_trainable=bool(c['st']),
                calculate_student_loss=bool(c['cs']), **base)
    except Exception as e:
        return dict(par=c, ev=[dict(op='text', ok=0, what='building: %s: %s' %
                                    (type(e).__name__, str(e)[:100]))])

    def wrapper(role, owner, params):
        class SGD(torch.optim.SGD):

            def step(self, closure=None):
                g = owner.tag.grad
                ev.append(dict(op='upd', role=role, g=[] if g is None else
                               [int(i) for i in g.nonzero().flatten()]))
                super().step(closure)
        tag = [p for n, p in params if n.endswith('tag')]
        rest = [p for n, p in params if not n.endswith('tag')]
        return OptimWrapper(SGD([dict(params=tag, lr=0.)] +
                                ([dict(params=rest, lr=.1)] if rest else []),
                                lr=.1))

    if free:
        opt = OptimWrapperDict(
            architecture=wrapper('S', a.architecture,
                                 list(a.architecture.named_parameters())),
            generator=wrapper('G', a.generator,
                              list(a.generator.named_parameters())))
    else:
        opt = wrapper('S', a.architecture, list(a.named_parameters()))
    teachers = list(a.teachers.values()) if free else \
        [a.teacher] if hasattr(a, 'teacher') else []

    def state():
        return [({k: v.clone() for k, v in t.named_parameters()},
                 {k: v.clone() for k, v in t.named_buffers()})
                for t in teachers]

    def changed(x, y, i):
        return int(any(not torch.equal(p[i][k], q[i][k])
                       for p, q in zip(x, y) for k in p[i]))

    hook = StopDistillHook(stop_epoch=c['stop']) if c['stop'] >= 0 else None
    run = types.SimpleNamespace(model=a, logger=search.quiet())
    if rng.random() < .3:
        from mmengine.registry import MODEL_WRAPPERS
        run.model = MODEL_WRAPPERS.get('Toy20Wrap')(a)
    by_iter = rng.random() < .3
    size = rng.randint(1, 3)
    try:
        for ep in range(c['first'], c['first'] + rng.randint(1, 4)):
            run.epoch = ep
            a.train()
            if hook:
                hook.before_train_epoch(run)
            for _ in range(c['iters']):
                if rng.random() < .25:
                    a.eval()
                    was = state()
                    with torch.no_grad():
                        data = dict(inputs=torch.full((size, 1, 2, 2), 5.),
                                    data_samples=[0] * size)
                        m, = {t.m for t in [a.architecture]}
                        for t in [a.architecture, *teachers]:
                            t.m = 0
                        a.val_step(data)
                        if teachers and not free:
                            teachers[0].val_step(data)
                        for t in [a.architecture, *teachers]:
                            t.m = m
                    ev.append(dict(op='val', tb=changed(was, state(), 0) |
                                   changed(was, state(), 1)))
                    a.train()
                elif by_iter:
                    a.train()
                was = state()
                d = rng.randint(1, 90)
                ev.append(dict(op='begin', d=d))
                world.on = True
                losses = a.train_step(
                    dict(inputs=list(torch.full((size, 1, 2, 2), float(d))) if
                         0 else torch.full((size, 1, 2, 2), float(d)),
                         data_samples=[d] * size), opt)
                world.on = False
                ls = []
                for k, v in losses.items():
                    i = k.rfind('.') + 1
                    if k[i:] != 'loss':
                        ls.append(dict(pre=k[:i], key=k[i:],
                                       v=int(round(float(v)))))
                now = state()
                ev.append(dict(op='done', ls=ls, tw=changed(was, now, 0),
                               tb=changed(was, now, 1)))
    except Exception as e:
        import traceback
        ev.append(dict(op='text', ok=0, what='%s: %s at %s' % (
            type(e).__name__, str(e)[:100],
            traceback.extract_tb(e.__traceback__)[-1].name)))
    return dict(par=c, ev=ev)


def run(ctx):
    import mmrazor.engine  # noqa
    import mmrazor.models  # noqa
    register()
    rng = ctx.rng
    vlib.model(ctx, 'Distill', vlib.cfg(
        'Init', 'Nxt', dict(Configs='<- CfgDef'),
        invariants=['FreshLoss', 'Usable', 'TeacherFirst', 'StopsThen',
                    'Given', 'AllNamed'], view='Vars'),
        defs='CfgDef == ' + vlib.tla(
            [config(rng) for _ in range(40 if ctx.quick else 200)]))
    jobs = [(rng.randint(0, 1 << 30), )
            for _ in range(900 if ctx.quick else 12000)]
    vlib.validate(ctx, 'DistillTrace', net.pmap(history, jobs),
                  what='distillation', batch=120,
                  keyfn=lambda t, v: t['par'].get('alg'))
