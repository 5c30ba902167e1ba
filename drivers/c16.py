"""C16: greedy slimming delivers one subnet per target, and resuming changes
nothing (Slimming.tla)."""
import glob
import os
import random
import tempfile

import net
import search
import vlib

SIDE = 4


class Crash(BaseException):
    pass


def chain(c, seed):
    import torch
    import torch.nn as nn
    from mmengine.model import BaseModel
    from mmrazor.models.algorithms import BaseAlgorithm
    from mmrazor.models.mutators import OneShotChannelMutator
    torch.manual_seed(seed)
    full = [w[-1] for w in c['w']]
    chans = [c['cin'], *full, c['cout']]

    class Net(BaseModel):

        def __init__(self):
            super().__init__()
            for i, k in enumerate(c['k']):
                setattr(self, f'c{i}', nn.Conv2d(
                    chans[i], chans[i + 1], k, padding=k // 2,
                    stride=c['stride'][i], bias=bool(c['bias'][i])))

        def forward(self, inputs, data_samples=None, mode='tensor'):
            x = inputs
            for i in range(len(c['k'])):
                x = getattr(self, f'c{i}')(x)
            return [x] if mode == 'predict' else x

    class Algo(BaseAlgorithm):

        def __init__(self):
            super().__init__(Net())
            plain = OneShotChannelMutator(
                channel_unit_cfg=dict(type='OneShotMutableChannelUnit',
                                      default_args=dict(choice_mode='number',
                                                        candidate_choices=[1])),
                parse_cfg=dict(type='ChannelAnalyzer', tracer_type='FxTracer',
                               demo_input=(1, c['cin'], SIDE, SIDE)))
            plain.prepare_from_supernet(Net())
            names = [u.name for u in plain.mutable_units]
            units = {}
            for n in names:
                u = int(n.split('_')[0][1:])
                if c['ratio'] == 1:
                    arg = dict(candidate_choices=[x / full[u]
                                                  for x in c['w'][u]],
                               choice_mode='ratio', num_channels=full[u])
                else:
                    arg = dict(candidate_choices=list(c['w'][u]),
                               choice_mode='number', num_channels=full[u])
                units[n] = dict(init_args=arg)
            self.mutator = OneShotChannelMutator(
                channel_unit_cfg=dict(type='OneShotMutableChannelUnit',
                                      units=units),
                parse_cfg=dict(type='ChannelAnalyzer', tracer_type='FxTracer',
                               demo_input=(1, c['cin'], SIDE, SIDE)))
            self.mutator.prepare_from_supernet(self.architecture)
            self.place = {u.name: int(u.name.split('_')[0][1:])
                          for u in self.mutator.mutable_units}

        def active(self):
            """bins of the channels the convs are really run with."""
            res = []
            for i, w in enumerate(c['w']):
                m = getattr(self.architecture, f'c{i}')
                o = m.get_dynamic_params()[0].shape[0] \
                    if hasattr(m, 'get_dynamic_params') else m.out_channels
                res.append(w.index(o) + 1 if o in w else 0)
            return res

    return Algo()


def config(rng):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    w = [sorted(rng.sample([1, 2, 3, 4, 6, 8], rng.randint(1, 4)))
         for _ in range(n)]
    k = [rng.choice([1, 1, 3]) for _ in range(n + 1)]
    stride = [rng.choice([1, 1, 2]) for _ in range(n + 1)]
    side, s = [], SIDE
    for t in stride:
        s = (s - 1) // t + 1
        side.append(s)
    c = dict(w=w, k=k, stride=stride, side=side, cin=3,
             bias=[rng.randint(0, 1) for _ in range(n + 1)],
             cout=rng.randint(1, 4), ratio=rng.randint(0, 1))
    top, low = cost(c, [x[-1] for x in w]), cost(c, [x[0] for x in w])
    ts = set()
    for _ in range(rng.randint(1, 4)):
        ts.add(rng.choice([
            rng.randint(low, max(low, top)), rng.randint(low, max(low, top)),
            cost(c, [rng.choice(x) for x in w]), top + 5,
            low - 1 if rng.random() < .2 else low]))
    c['targets'] = sorted(ts, reverse=True)
    return c


def cost(c, w):
    ch = [c['cin'], *w, c['cout']]
    return sum(c['side'][i]**2 * (c['k'][i]**2 * ch[i] * ch[i + 1] +
                                  c['bias'][i] * ch[i + 1])
               for i in range(len(c['k'])))


def history(job):
    seed, = job
    from mmrazor.engine import AutoSlimGreedySearchLoop
    from mmrazor.structures import load_fix_subnet
    rng = random.Random(seed)
    c = config(rng)
    ev = []
    score = search.table(rng, 1000) if rng.random() < .8 else \
        (lambda s: (sum(s) * 7) % 5 / 4)
    n = rng.randint(1, 4)
    bs = rng.randint(1, 3)
    chance = rng.choice([0, 0, .05, .1, .2])
    names = lambda sub, place: [b for _, b in sorted(  # noqa
        (place[k], b) for k, b in sub.items())]
    crashes = 0

    class Ev(search.Evaluator):

        def evaluate(self, size):
            r = super().evaluate(size)
            e = ev[-1]
            e['b'] = e.pop('s')
            return r

    def point():
        nonlocal crashes
        if crashes < 4 and rng.random() < chance:
            crashes += 1
            raise Crash

    try:
        with tempfile.TemporaryDirectory() as d:
            latest = os.path.join(d, 'latest.pkl')
            while True:
                algo = chain(c, seed)
                runner = search.runner(algo, d)
                # the process may as well end when all is written
                if chance and rng.random() < .3:
                    runner.call_hook = lambda p: p == 'after_test' and point()
                loop = AutoSlimGreedySearchLoop(
                    runner, search.loader(n, bs),
                    Ev(algo, score, None, n, ev, interrupt=point),
                    target_flops=rng.sample(c['targets'], len(c['targets'])),
                    estimator_cfg=dict(
                        input_shape=(1, 3, SIDE, SIDE),
                        flops_params_cfg=dict(
                            units=None, as_strings=False,
                            input_shape=(1, 3, SIDE, SIDE))),
                    score_key='acc',
                    resume_from=latest if os.path.exists(latest) else None)
                try:
                    loop.run()
                except Crash:
                    ev.append(dict(op='crash'))
                    continue
                except RuntimeError as e:
                    if 'any valid model' in str(e):
                        ev.append(dict(op='stuck'))
                        return dict(par=c, ev=ev)
                    raise
                break
            ev.append(dict(op='end', found=[names(s, algo.place)
                                            for s in loop.searched_subnet],
                           cost=[int(f) for f in loop.searched_subnet_flops]))
            files = glob.glob(os.path.join(d, 'FLOPS_*'))
            ev.append(dict(op='files', n=len(files)))
            for f in files:
                fresh = chain(c, seed)
                load_fix_subnet(fresh, f)
                ev.append(dict(
                    op='file', b=fresh.active(),
                    cost=int(float(os.path.basename(f)[6:].split('M')[0]))))
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ev.append(dict(op='text', ok=0, what=f'{type(e).__name__}: {e} '
                       f'{tb.filename}:{tb.lineno}'[:200]))
    return dict(par=c, ev=ev)


def run(ctx):
    import mmrazor.engine  # noqa
    rng = ctx.rng
    cfgs = []
    for n in range(24 if ctx.quick else 150):
        c = config(rng)
        mul, size = [], 1
        for w in c['w']:
            mul.append(size)
            size *= len(w) + 1
        c['mul'] = mul
        c['crashes'] = 2
        sc = list(range(1, sum((len(w)) * m for w, m in zip(c['w'], mul)) + 1))
        rng.shuffle(sc)
        c['sc'] = sc
        cfgs.append(c)
    vlib.model(ctx, 'Slimming', vlib.cfg(
        'Init', 'Nxt', dict(Configs='<- CfgDef'),
        invariants=['Same', 'Within', 'Shrinks', 'Tight'], view='Vars'),
        defs='CfgDef == ' + vlib.tla(cfgs))
    jobs = [(rng.randint(0, 1 << 30), )
            for _ in range(500 if ctx.quick else 6000)]
    traces = net.pmap(history, jobs)
    vlib.validate(ctx, 'SlimmingTrace', traces, what='greedy slimming',
                  batch=60, timeout=800)
