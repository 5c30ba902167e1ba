"""C09: unit configurations, choice templates and width requests round-trip."""
import net
import prune
import vlib


def one(job):
    life = prune.Life(*job)
    if life.prepare():
        life.choose()
        for t in range(3):
            life.round_trip()
            if life.rng.random() < .5:
                life.run()
            life.choose()
        life.masks()
        if life.rng.random() < .3:
            life.export()
    return life.trace


class Unit:
    """A unit whose width is asked for in all ways."""

    def __init__(self, init, cfgs):
        self.c = cfgs[init['c'] - 1]

    def make(self, cls, **kw):
        c = self.c
        return cls(c['n'], divisor=c['d'], min_value=c['mn'],
                   min_ratio=c['rt'] / 10, **kw)

    def step(self, e, t):
        from mmrazor.models import mutables as M
        c, r, w = self.c, e['r'], e['w']
        n = c['n']
        val = r['v'] if r['k'] == 'num' else r['v'] / r['q']
        for mode in ('number', 'ratio'):
            for cls in (M.SequentialMutableChannelUnit, M.L1MutableChannelUnit,
                        M.DMCPChannelUnit):
                if cls is M.L1MutableChannelUnit and r['k'] == 'num' and \
                        val == n:
                    continue
                u = self.make(cls, choice_mode=mode)
                if cls is M.L1MutableChannelUnit:
                    u._get_unit_norm = lambda: __import__('torch').arange(n) * .1
                u.current_choice = val
                for again in range(3):
                    got = width(u)
                    if got != w:
                        return (f'{cls.__name__} of {c} in {mode} mode asked '
                                f'for {val}: {got}, not {w}'
                                + (' (asked again)' if again else ''))
                    u.current_choice = u.current_choice if again else w / n
        for cls in (M.OneShotMutableChannelUnit, M.SlimmableChannelUnit):
            mode = 'number' if r['k'] == 'num' else 'ratio'
            u = self.make(cls, choice_mode=mode, candidate_choices=[
                val, n if mode == 'number' else 1.0])
            got = sorted(x if mode == 'number' else round(x * n)
                         for x in u.candidate_choices)
            top = [x for x in (w, )]
            if w not in got or len(got) != 2:
                return (f'{cls.__name__} of {c} offered {val}: candidates '
                        f'{got}, not {top}')
            for x in u.candidate_choices:
                u.current_choice = x
                num = x if mode == 'number' else round(x * n)
                if width(u) != num or u.current_choice != x:
                    return (f'{cls.__name__} of {c} set to {x}: '
                            f'{width(u)} {u.current_choice}')


def width(u):
    c, n = u.current_choice, u.num_channels
    m = int(u.mutable_channel.current_mask.sum())
    if isinstance(c, float):
        c = round(c * n, 6)
    return m if c == m else (c, m)


def run(ctx):
    import mmrazor.models  # noqa
    import mmrazor.structures  # noqa
    q = ctx.quick
    cfgs = [dict(n=n, d=d, mn=mn, rt=rt, qs=qs)
            for n in (range(1, 13) if q else range(1, 26))
            for d in ((1, 2, 3, 4, 8) if q else range(1, 9))
            for mn in sorted({1, 2 * d, *([] if q else [d, 3 * d])})
            for rt in ((9, 5) if q else (0, 5, 9, 10))
            for qs in [[n] if q else [n, 7, 10]]]
    g = vlib.graph(ctx, 'WidthsGraph', dict(Configs='<- CfgDef'), next='Nxt',
                   defs='CfgDef == ' + vlib.tla(cfgs),
                   invariants=['Inside', 'Again', 'Shape', 'Near'])
    vlib.replay(ctx, g, lambda s: Unit(s, cfgs), 1, 'width request')
    jobs = prune.programs(ctx, 700 if q else 12000)
    traces = net.pmap(one, jobs)
    for t in traces:
        ctx.counts[t['par']['kind']] += 1
    vlib.validate(ctx, 'PruneTrace', traces, what='round trip', batch=100,
                  timeout=800)
