"""C06: the channel units found in a network are exactly its coupled classes
of channels (Net.tla)."""
import random

import net
import vlib

ALL = {'conv', 'bn', 'gn', 'lin', 'act', 'gap', 'flat', 'half', 'add', 'cat'}


e = net.ev
KNOWN = {    # the programs of the known findings, one each
    'layer-applied-to-its-own-result': (
        [e('conv', [0], 1, 4), e('conv', [1], 2, 4), e('conv', [2], 2, 4),
         e('conv', [3], 3, 2)], 3, 'BackwardTracer'),
    'concatenation-of-one-tensor': (
        [e('conv', [0], 1, 4), e('cat', [1, 1]), e('conv', [2], 2, 2)],
        3, 'BackwardTracer'),
    'concatenation-with-the-input': (
        [e('conv', [0], 1, 4), e('cat', [0, 1]), e('conv', [2], 2, 2)],
        3, 'BackwardTracer'),
    'concatenated-slice': (
        [e('conv', [0], 1, 3), e('conv', [1], 2, 8), e('half', [2], 1, 1),
         e('cat', [1, 3, 2]), e('conv', [4], 3, 6)], 3, 'FxTracer'),
    'slice-of-a-flattened-map': (
        [e('conv', [0], 1, 4), e('flat', [1], 1, 0, 4),
         e('half', [2], 1, 1), e('lin', [3], 2, 4)], 3, 'FxTracer'),
    'concatenation-across-groups': (
        [e('conv', [0], 2, 4), e('conv', [0], 3, 8), e('cat', [2, 1]),
         e('conv', [3], 4, 12, 4)], 3, 'BackwardTracer'),
    'input-without-3-channels': (
        [e('conv', [0], 1, 2), e('conv', [1], 2, 2, 2), e('cat', [2, 0]),
         e('conv', [3], 3, 4)], 2, 'FxTracer'),
}


def one(job):
    p, cin, tracer, seed, key = (job + (None, ))[:5]
    import torch
    torch.manual_seed(seed)
    random.seed(seed)
    m = net.Prog(cin, p, seed)
    m.train(seed % 3 != 0)
    before = net.snapshot(m)
    ev = list(p) + [dict(op='done')]
    try:
        ev.append(dict(op='units', units=net.analyze(m, tracer)))
    except Exception as e:
        ev.append(dict(op='failed', why=f'{type(e).__name__}: {e}'[:200]))
    same = net.unchanged(before, net.snapshot(m))
    ev.append(dict(op='same', ok=int(same)))
    return dict(par=dict(cin=cin, nl=net.nlayers(p), tracer=tracer,
                         style=seed, key=key or ''), ev=ev)


def run(ctx):
    import mmrazor.models  # noqa
    import mmrazor.structures  # noqa
    rng = random.Random(ctx.seed)
    progs = [(p, 3) for p in net.gen(ctx, 3, 3, 3, {2, 4}, ALL)]
    if ctx.quick:
        more = net.gen(ctx, 4, 3, 3, {2}, {'conv', 'bn', 'add', 'cat', 'act'})
        progs += [(p, 3) for p in rng.sample(more, min(len(more), 1500))]
    else:
        more = net.gen(ctx, 4, 3, 3, {2, 4}, ALL, 8, 900)
        progs += [(p, 3) for p in rng.sample(more, min(len(more), 40000))]
    ctx.note('exhaustive programs', n=len(progs))
    for i in range(2500 if ctx.quick else 40000):
        progs.append((net.random_program(rng, rng.randint(4, 10)), 3))
    jobs, left = [], 0
    for i, (p, cin) in enumerate(progs):
        for tr in (('BackwardTracer', 'FxTracer') if i % 4 == 0 else
                   (rng.choice(['BackwardTracer', 'FxTracer']),)):
            why = net.outside(p, tr)
            if why or not any(e['op'] in ('conv', 'lin', 'bn', 'gn')
                              for e in p):
                left += 1
                ctx.counts['outside ' + str(why)] += 1
                continue
            jobs.append((p, cin, tr, i))
    ctx.note('programs', analysed=len(jobs), outside=left)
    jobs += [(p, cin, tr, 1, k) for k, (p, cin, tr) in KNOWN.items()]
    traces = net.pmap(one, jobs)
    for t in traces:
        ctx.counts[t['par']['tracer']] += 1
        ctx.counts['failed' if t['ev'][-2]['op'] == 'failed' else
                   'with units' if t['ev'][-2]['units'] else 'no units'] += 1
    vlib.validate(ctx, 'NetTrace', traces, what='channel analysis', batch=700,
                  keyfn=lambda t, v: t['par']['key'] or None)
