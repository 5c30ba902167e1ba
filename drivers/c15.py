"""C15: greedy subnet sampling trains the best candidates one after the other
(Greedy.tla)."""
import os
import random
import tempfile
import types

import c14
import net
import search
import vlib


def history(job):
    seed, = job
    from mmengine import MessageHub, fileio
    from mmrazor.engine import GreedySamplerTrainLoop
    rng = random.Random(seed)
    random.seed(seed)
    ns = [rng.randint(2, 3) for _ in range(rng.randint(1, 3))]
    algo = search.algorithm(ns, seed)
    cost = [[search.op_cost(i)[0] for i in range(1, n + 1)] for n in ns]
    par = [[search.op_cost(i)[1] for i in range(1, n + 1)] for n in ns]
    base, pbase = search.base_cost()
    low = base + sum(min(c) for c in cost)
    high = base + sum(max(c) for c in cost)
    iters = rng.randint(1, 14)
    draws = rng.randint(1, 5)
    lo, hi = 0, high
    if rng.random() < .3:
        draws = rng.randint(4, 6)
        hi = (low + high) // 2
    p0, p1 = sorted(rng.choice([0, 0, 10, 50, 80, 100]) for _ in 'ab')
    a = rng.randint(0, iters)
    c = dict(n=ns, cost=cost, par=par, base=base, pbase=pbase, lo=lo, hi=hi,
             pool=rng.randint(1, 8), draws=draws, k=rng.randint(1, 4),
             sched=rng.choice(['linear', 'consine']), a=a,
             b=a + rng.randint(0, 8), p0=p0, p1=p1)
    ev = []
    score = search.table(random.Random(seed))
    n = rng.randint(1, 4)
    dl = search.loader(n, rng.randint(1, 3))

    def pool(cands):
        return [dict(s=search.index(algo, eval(k)),
                     x=int(round(100 * v['score'])))
                for item in cands.data for k, v in item.items()]

    draw = algo.mutator.sample_choices

    def sample(*_, **__):
        r = draw()
        ev.append(dict(op='sample', s=search.index(algo, r)))
        return r

    algo.mutator.sample_choices = sample
    if rng.random() < .3:
        algo.sample_subnet = sample
    with tempfile.TemporaryDirectory() as d:
        run = search.runner(algo, d)
        run.message_hub = MessageHub.get_current_instance()
        run.optim_wrapper = None
        if rng.random() < .4:
            run.val_begin = rng.randint(0, 3)
            run.val_interval = rng.randint(1, 4)
            run.val_loop = types.SimpleNamespace(run=lambda: algo.eval())
        loop = GreedySamplerTrainLoop(
            run, search.loader(64, 2), dl,
            search.Evaluator(algo, score, len(dl), n, ev), max_iters=iters,
            val_interval=rng.randint(1, 5), score_key='acc',
            constraints_range=dict(flops=(lo, hi)), num_candidates=c['pool'],
            num_samples=draws, top_k=c['k'], prob_schedule=c['sched'],
            schedule_start_iter=a, schedule_end_iter=c['b'],
            init_prob=p0 / 100, max_prob=p1 / 100,
            estimator_cfg=dict(
                input_shape=(1, 3, 4, 4),
                flops_params_cfg=dict(units=None, as_strings=False,
                                      input_shape=(1, 3, 4, 4))))

        def train_step(data, optim_wrapper=None):
            ev.append(dict(op='train', it=loop._iter, s=algo.active(),
                           mode=int(algo.training), pool=pool(loop.candidates),
                           p=int(round(loop.cur_prob * 1000000))))
            return dict()

        algo.train_step = train_step
        try:
            if rng.random() < .3:
                for it in range(c['b'] + 4):
                    loop.update_cur_prob(it)
                    ev.append(dict(op='prob', it=it, p=int(round(
                        loop.cur_prob * 1000000))))
            loop.run()
            ev.append(dict(op='saved', pool=pool(fileio.load(
                os.path.join(d, 'candidates.pkl')))))
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            ok = not any(x['op'] in ('train', 'eval') for x in ev) and \
                hi < high and isinstance(e, (IndexError, AssertionError))
            ev.append(dict(op='text', ok=int(ok), what=f'{type(e).__name__}: '
                           f'{e} {tb.filename}:{tb.lineno}'[:200]))
    return dict(par=c, ev=ev)


def run(ctx):
    import mmrazor.engine  # noqa
    rng = ctx.rng
    cfgs = [dict(space=3, k=k, size=size, draws=2, trains=4,
                 sc=rng.choice([[1, 2, 3], [2, 2, 1], [1, 3, 3]]))
            for k in (1, 2, 3) for size in (1, 2, 3)]
    vlib.model(ctx, 'Greedy', vlib.cfg(
        'Init', 'Nxt', dict(Configs='<- CfgDef'),
        invariants=['Sorted', 'Small', 'Descending', 'Once'], view='Vars'),
        defs='CfgDef == ' + vlib.tla(cfgs))
    jobs = [(rng.randint(0, 1 << 30), )
            for _ in range(300 if ctx.quick else 5000)]
    traces = net.pmap(history, jobs)
    vlib.validate(ctx, 'GreedyTrace', traces, what='greedy sampling',
                  batch=80, timeout=800)
