"""C14: evolution search keeps legal candidates and never loses the best
(Evolution.tla)."""
import os
import random
import re
import tempfile

import net
import search
import vlib


def history(job):
    seed, = job
    import torch
    from mmengine import fileio
    from mmrazor.engine import EvolutionSearchLoop
    from mmrazor.structures import Candidates, load_fix_subnet
    import numpy as np
    rng = random.Random(seed)
    random.seed(seed)
    np.random.seed(seed % (1 << 31))
    ns = [rng.randint(2, 3) for _ in range(rng.randint(2, 3))]
    algo = search.algorithm(ns, seed)
    cost = [[search.op_cost(i)[0] for i in range(1, n + 1)] for n in ns]
    par = [[search.op_cost(i)[1] for i in range(1, n + 1)] for n in ns]
    base, pbase = search.base_cost()
    low = base + sum(min(c) for c in cost)
    high = base + sum(max(c) for c in cost)
    lo, hi = 0, high
    free = 1
    if rng.random() < .6:
        free = 0
        hi = rng.randint(low, high)
        if rng.random() < .4:
            lo = rng.randint(0, low)
    nm, nc = rng.randint(0, 3), rng.randint(0, 3)
    size = max(1, nm + nc + rng.randint(0, 2))
    pm, pc = (rng.choice([0., 1., .5, .3]) for _ in 'ab')
    code = {0.: 0, 1.: 1}
    c = dict(n=ns, cost=cost, par=par, base=base, pbase=pbase, lo=lo, hi=hi,
             size=size, k=rng.randint(1, 4), nm=nm, nc=nc,
             pm=code.get(pm, 2), pc=code.get(pc, 2),
             epochs=rng.randint(1, 5), keep=rng.choice([0, 1, 2, 3]),
             free=free, init=[])
    ev = []
    score = search.table(random.Random(seed))
    n = rng.randint(1, 5)
    dl = search.loader(n, rng.randint(1, 3))

    def entries(cands):
        res = []
        for item in cands.data:
            for k, v in item.items():
                s = search.index(algo, eval(k))
                res.append(dict(s=s, x=int(round(100 * v['score'])),
                                f=whole(v['flops']), p=whole(v['params'])))
        return res

    def pool(cands):
        return [dict(s=e['s'], f=e['f'], p=e['p']) for e in entries(cands)]

    with tempfile.TemporaryDirectory() as d:
        kw = dict(flops=(lo, hi)) if rng.random() < .7 else dict(
            flops=(lo, hi), params=[0, 1 << 30])
        if lo == 0 and rng.random() < .3:
            kw['flops'] = hi
        init = None
        if rng.random() < .25:
            # candidates found by someone else
            good = []
            for _ in range(rng.randint(1, size)):
                s = [rng.randint(1, m) for m in ns]
                f = base + sum(t[i - 1] for t, i in zip(cost, s))
                if lo <= f <= hi:
                    q = pbase + sum(t[i - 1] for t, i in zip(par, s))
                    good.append((s, f, q))
            if good:
                cd = Candidates([{gid: f'k{s[g]}' for gid, g in algo.order}
                                 for s, f, q in good])
                for i, (s, f, q) in enumerate(good):
                    cd.set_resource(i, f, 'flops')
                    cd.set_resource(i, q, 'params')
                init = os.path.join(d, 'init.pkl')
                fileio.dump(cd, init)
                c['init'] = pool(cd)
        loop = EvolutionSearchLoop(
            search.runner(algo, d), dl,
            search.Evaluator(algo, score, len(dl), n, ev),
            max_epochs=c['epochs'], max_keep_ckpts=c['keep'],
            num_candidates=size, top_k=c['k'], num_mutation=nm,
            num_crossover=nc, mutate_prob=pm, crossover_prob=pc,
            constraints_range=kw, score_key='acc', init_candidates=init,
            estimator_cfg=dict(
                input_shape=(1, 3, 4, 4),
                flops_params_cfg=dict(units=None, as_strings=False,
                                      input_shape=(1, 3, 4, 4))))
        draw = algo.mutator.sample_choices

        def sample(*a, **k):
            r = draw(*a, **k)
            ev.append(dict(op='sample', s=search.index(algo, r)))
            return r

        algo.mutator.sample_choices = sample
        epoch = loop.run_epoch
        done = [0]

        def saved():
            if not done[0]:
                return
            files = sorted(
                int(re.match(r'search_epoch_(\d+)\.pkl', f).group(1))
                for f in os.listdir(d) if f.startswith('search_epoch'))
            last = fileio.load(os.path.join(
                d, f'search_epoch_{files[-1]}.pkl'))
            ev.append(dict(op='saved', e=last['_epoch'], files=files,
                           top=entries(last['top_k_candidates']),
                           pool=pool(last['candidates'])))

        def run_epoch():
            saved()
            epoch()
            done[0] += 1
            ev.append(dict(op='epoch', top=entries(loop.top_k_candidates),
                           pool=pool(loop.candidates)))

        loop.run_epoch = run_epoch
        weights = {k: v.clone() for k, v in algo.state_dict().items()}
        try:
            loop.run()
            saved()
            best = fileio.load(os.path.join(d, 'best_fix_subnet.yaml'))
            fresh = search.algorithm(ns, seed + 1)
            load_fix_subnet(fresh, best)
            left = [list(getattr(fresh.architecture, f'm{g}')._candidates)
                    for g in range(len(ns))]
            s = [int(x[0][1:]) if len(x) == 1 else 0 for x in left]
            pth = [f for f in os.listdir(d) if f.endswith('.pth')]
            sd = torch.load(os.path.join(d, pth[0]))['state_dict']
            want = {k: v for k, v in weights.items()
                    if not re.search(r'm\d\._candidates', k) or any(
                        f'm{g}._candidates.k{i}.' in k
                        for g, i in enumerate(s))}
            got = {k: v for k, v in sd.items()}
            y = len(pth) == 1 and set(got) == set(want) and all(
                torch.equal(got[k], want[k]) for k in got)
            ev.append(dict(op='best', s=s, y=int(y)))
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            ev.append(dict(op='text', ok=0, what=f'{type(e).__name__}: {e}'
                           f' {tb.filename}:{tb.lineno}'[:200]))
    return dict(par=c, ev=ev)


def whole(x):
    return int(x) if x == int(x) else -1


def run(ctx):
    import mmrazor.engine  # noqa
    rng = ctx.rng
    cfgs = []
    for k, nm, nc, size in ((1, 1, 0, 2), (2, 0, 1, 2), (1, 1, 1, 2),
                            (2, 1, 1, 3)):
        for pm, pc in ((2, 2), (0, 2), (1, 1)):
            cfgs.append(dict(
                n=[2, 2], cost=[[1, 2], [1, 3]], par=[[1, 2], [1, 3]],
                base=1, pbase=1, lo=0, hi=rng.choice([5, 6]), size=size, k=k,
                nm=nm, nc=nc, pm=pm, pc=pc, epochs=2 if ctx.quick else 3,
                keep=0, sc=[[rng.randint(0, 6), rng.randint(0, 6)]
                            for _ in 'ab']))
    vlib.model(ctx, 'Evolution', vlib.cfg(
        'Init', 'Nxt', dict(Configs='<- CfgDef'),
        invariants=['Never', 'AllFit', 'Full'], props=['Up'], view='Vars'),
        defs='CfgDef == ' + vlib.tla(cfgs))
    jobs = [(rng.randint(0, 1 << 30), )
            for _ in range(250 if ctx.quick else 4000)]
    traces = net.pmap(history, jobs)
    vlib.validate(ctx, 'EvolutionTrace', traces, what='evolution search',
                  batch=60, timeout=800)
