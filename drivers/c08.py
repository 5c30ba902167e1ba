"""C08: an exported subnet is the searchable network at its choice, and
exporting changes nothing."""
import net
import prune
import vlib


def one(job):
    life = prune.Life(*job)
    if life.prepare():
        for t in range(2):
            life.choose()
            life.run()
            life.export()
        life.choose()
        life.masks()
        life.run()
    return life.trace


def mask_in_a_description():
    """The program of the known finding."""
    life = prune.Life([net.ev('conv', [0], 1, 4), net.ev('conv', [1], 2, 2)],
                      'FxTracer', 'l1', 1, cfg=dict(d=1, mn=1, rt=9))
    life.prepare()
    life.mut.units[0].current_choice = 2
    life.choose_record()
    life.export('mutable')
    life.trace['par']['key'] = 'mask-in-a-description'
    return life.trace


def run(ctx):
    import mmrazor.models  # noqa
    import mmrazor.structures  # noqa
    jobs = prune.programs(ctx, 700 if ctx.quick else 12000)
    traces = net.pmap(one, jobs) + [mask_in_a_description()]
    for t in traces:
        ctx.counts[t['par']['kind']] += 1
    vlib.validate(ctx, 'PruneTrace', traces, what='export', batch=100,
                  timeout=800, keyfn=lambda t, v: t['par'].get('key'))
