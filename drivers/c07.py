"""C07: every choice of widths gives a consistent, runnable network."""
import net
import prune
import vlib


def one(job):
    life = prune.Life(*job)
    if life.prepare():
        life.choose(full=True)
        life.masks()
        life.run()
        if life.kind != 'slim' and all(
                w == u.num_channels
                for w, u in zip(life.read()[0], life.mut.units)):
            # at full width the network is the original one
            life.run(ref=life.orig)
        for t in range(3):
            life.choose()
            life.masks()
            life.run()
            if life.rng.random() < .4:
                life.train_run()
        life.choose(full=True)
        life.masks()
        life.run()
    return life.trace


def run(ctx):
    import mmrazor.models  # noqa
    import mmrazor.structures  # noqa
    jobs = prune.programs(ctx, 1400 if ctx.quick else 20000)
    traces = net.pmap(one, jobs)
    for t in traces:
        last = t['ev'][-1]['op']
        ctx.counts[t['par']['kind'] + (' chosen' if last == 'run' else
                                       ' ' + last)] += 1
    vlib.validate(ctx, 'PruneTrace', traces, what='pruning', batch=200,
                  timeout=800)
