"""C18: resource estimates are additive, repeatable and leave the model as it
was (Cost.tla, PruneTrace.tla)."""
import copy
import io
import random
import re

import net
import prune
import vlib

KINDS = dict(
    conv='Conv{}d', deconv='ConvTranspose2d', lin='Linear',
    bn='BatchNorm{}d', gn='GroupNorm', relu='ReLU', prelu='PReLU', elu='ELU',
    lrelu='LeakyReLU', relu6='ReLU6', max='MaxPool{}d', avg='AvgPool{}d',
    amax='AdaptiveMaxPool{}d', aavg='AdaptiveAvgPool{}d', up='Upsample')
KINDS['in'] = 'InstanceNorm{}d'
SIZES = {1: [[8], [13], [6]], 2: [[8, 8], [7, 10], [5, 6]],
         3: [[4, 5, 6], [6, 6, 6], [5, 4, 4]]}


def out(L, x):
    """Shape after a layer (only to generate networks that run)."""
    c, s = x
    k = L['k']
    if k in ('conv', 'max', 'avg'):
        return (L['o'] if k == 'conv' else c, [
            (n + 2 * p - d * (q - 1) - 1) // t + 1 for n, q, t, p, d in zip(
                s, L['ker'], L['st'], L['pad'], L['dil'])])
    if k == 'deconv':
        return L['o'], [(n - 1) * t - 2 * p + q for n, q, t, p in zip(
            s, L['ker'], L['st'], L['pad'])]
    if k in ('amax', 'aavg'):
        return c, L['ker']
    if k == 'up':
        return c, [n * t for n, t in zip(s, L['st'])]
    return (L['o'] if k == 'lin' else c), s


def network(rng, size):
    nd = rng.choice([1, 2, 2, 2, 3])
    cin = rng.randint(1, 4)
    nb = rng.randint(0, 3)
    w = dict(cin=cin, nd=nd, lay=[], steps=[],
             up=[rng.randint(0, b) for b in range(nb)])
    shapes = [[(cin, s) for s in SIZES[nd]]]    # per variable, per size

    def layer(k, **kw):
        one = [1] * nd
        L = dict(k=k, i=1, o=1, ker=one, st=one, pad=[0] * nd, dil=one, g=1,
                 b=0, blk=rng.randint(0, nb))
        L.update(kw)
        return L

    def apply(L, a, l=None):
        sh = [out(L, x) for x in shapes[a]]
        if any(n < 1 or n > 40 for _, s in sh for n in s):
            return
        if l is None:
            w['lay'].append(L)
            l = len(w['lay'])
        w['steps'].append(dict(op='lay', l=l, a=[a + 1]))
        shapes.append(sh)

    while len(w['steps']) < size:
        a = max(rng.randrange(len(shapes)), rng.randrange(len(shapes)))
        c, sp = shapes[a][0]
        flat = not sp
        ks = ['lin', 'relu', 'prelu', 'again'] if flat else \
            ['conv', 'conv', 'conv', 'bn', 'gn', 'in', 'relu', 'prelu', 'elu',
             'lrelu', 'relu6', 'max', 'avg', 'amax', 'aavg', 'again', 'again',
             'add', 'cat', 'flat'] + ['deconv', 'up'] * (nd == 2)
        k = rng.choice(ks)
        per = lambda *q: [rng.choice(q) for _ in range(nd)]  # noqa
        if k == 'conv':
            g = rng.choice([1, 1, 1, 2, c])
            if c % g:
                continue
            dw = g == c and rng.random() < .7
            apply(layer('conv', i=c, o=c if dw else g * rng.randint(1, 3),
                        ker=per(1, 2, 3), st=per(1, 1, 2), pad=per(0, 1),
                        dil=per(1, 1, 2), g=g, b=rng.randint(0, 1)), a)
        elif k == 'deconv':
            g = rng.choice([1, 1, 2])
            if c % g:
                continue
            apply(layer('deconv', i=c, o=g * rng.randint(1, 3),
                        ker=per(2, 3), st=per(1, 2), pad=per(0, 1), g=g,
                        b=rng.randint(0, 1)), a)
        elif k == 'lin':
            if any(x[0] != c for x in shapes[a]):
                continue
            apply(layer('lin', i=c, o=rng.randint(1, 5),
                        b=rng.randint(0, 1)), a)
        elif k in ('bn', 'gn', 'in'):
            if any(q == 1 for _, s in shapes[a] for q in s):
                continue
            gs = [g for g in range(1, c + 1) if c % g == 0]
            apply(layer(k, i=c, o=c, g=rng.choice(gs) if k == 'gn' else 1,
                        b=rng.randint(0, 1)), a)
        elif k in ('max', 'avg'):
            ker = per(2, 3)
            if any(n < q for _, s in shapes[a] for n, q in zip(s, ker)):
                continue
            apply(layer(k, ker=ker, st=per(1, 2), pad=per(0, 1)), a)
        elif k in ('amax', 'aavg'):
            apply(layer(k, ker=per(1, 1, 2, 3)), a)
        elif k == 'up':
            apply(layer(k, st=per(1, 2)), a)
        elif k == 'prelu':
            apply(layer(k, o=rng.choice([1, c]) if all(
                x[0] == c for x in shapes[a]) else 1), a)
        elif k in KINDS:
            apply(layer(k), a)
        elif k == 'again' and w['lay']:
            l = rng.randint(1, len(w['lay']))
            L = w['lay'][l - 1]
            if L['k'] in ('conv', 'deconv', 'lin', 'bn', 'gn', 'in') and \
                    any(x[0] != L['i'] for x in shapes[a]):
                continue
            if L['k'] == 'prelu' and L['o'] not in (1, c) or \
                    (L['k'] == 'lin') != flat and L['k'] in (
                        'lin', 'conv', 'deconv', 'bn', 'gn', 'in', 'max',
                        'avg', 'amax', 'aavg', 'up'):
                continue
            if L['k'] in ('in', 'gn') and any(q == 1 for _, s in shapes[a]
                                              for q in s):
                continue
            if L['k'] in ('max', 'avg') and any(
                    n < q for _, s in shapes[a] for n, q in zip(s, L['ker'])):
                continue
            if L['k'] == 'prelu' and flat and any(
                    x[0] != c for x in shapes[a]):
                continue
            apply(L, a, l)
        elif k == 'add':
            b = [v for v in range(len(shapes)) if shapes[v] == shapes[a]]
            w['steps'].append(dict(op='add', l=0, a=[
                a + 1, rng.choice(b) + 1]))
            shapes.append(shapes[a])
        elif k == 'cat':
            b = [v for v in range(len(shapes)) if
                 [s for _, s in shapes[v]] == [s for _, s in shapes[a]]]
            b = rng.choice(b)
            sh = [(x[0] + y[0], x[1]) for x, y in zip(shapes[a], shapes[b])]
            if sh[0][0] > 20:
                continue
            w['steps'].append(dict(op='cat', l=0, a=[a + 1, b + 1]))
            shapes.append(sh)
        elif k == 'flat':
            sh = []
            for c, s in shapes[a]:
                for n in s:
                    c *= n
                sh.append((c, []))
            if any(x[0] > 300 for x in sh):
                continue
            w['steps'].append(dict(op='flat', l=0, a=[a + 1]))
            shapes.append(sh)
    return w


def build(w):
    import torch
    import torch.nn as nn
    nd = w['nd']

    def module(L):
        k = L['k']
        cls = getattr(nn, KINDS[k].format(nd))
        t = tuple
        if k == 'conv':
            return cls(L['i'], L['o'], t(L['ker']), t(L['st']), t(L['pad']),
                       t(L['dil']), L['g'], bool(L['b']))
        if k == 'deconv':
            return cls(L['i'], L['o'], t(L['ker']), t(L['st']), t(L['pad']),
                       0, L['g'], bool(L['b']))
        if k == 'lin':
            return cls(L['i'], L['o'], bool(L['b']))
        if k == 'gn':
            return cls(L['g'], L['i'], affine=bool(L['b']))
        if k in ('bn', 'in'):
            return cls(L['i'], affine=bool(L['b']))
        if k in ('max', 'avg'):
            return cls(t(L['ker']), t(L['st']), t(L['pad']))
        if k in ('amax', 'aavg'):
            return cls(t(L['ker']))
        if k == 'up':
            return cls(scale_factor=t(float(s) for s in L['st']))
        if k == 'prelu':
            return cls(L['o'])
        return cls()

    class Net(nn.Module):

        def __init__(self):
            super().__init__()
            blocks, names = [self], ['']
            for b, u in enumerate(w['up']):
                m = nn.Module()
                blocks[u].add_module(f'b{b + 1}', m)
                names.append((names[u] + '.' if names[u] else '') +
                             f'b{b + 1}')
                blocks.append(m)
            flat, path = [], []
            for n, L in enumerate(w['lay']):
                m = module(L)
                blocks[L['blk']].add_module(f'l{n + 1}', m)
                flat.append(m)
                u = names[L['blk']]
                path.append((u + '.' if u else '') + f'l{n + 1}')
            self.__dict__['flat'] = flat
            self.__dict__['names'] = names, path

        def forward(self, x):
            v = [x]
            for e in w['steps']:
                x = v[e['a'][0] - 1]
                if e['op'] == 'lay':
                    y = self.flat[e['l'] - 1](x)
                elif e['op'] == 'add':
                    y = x + v[e['a'][1] - 1]
                elif e['op'] == 'cat':
                    y = torch.cat([x, v[e['a'][1] - 1]], 1)
                else:
                    y = torch.flatten(x, 1)
                v.append(y)
            return v[-1]

    return Net()


def settings(rng, w, p):
    """Some of the settings; each as [] (not given) or [value]."""
    some = lambda q, f: [f()] if rng.random() < q else []  # noqa
    s = dict(sp=some(p, lambda: rng.choice(SIZES[w['nd']])),
             batch=some(p, lambda: rng.choice([1, 1, 2, 3])),
             units=some(p, lambda: rng.choice(['none', 'K', 'M', 'G'])),
             str=some(p / 2, lambda: rng.randint(0, 1)),
             off=some(p / 2, lambda: rng.sample(sorted(KINDS),
                                                rng.randint(1, 5))),
             parts=some(p / 2, lambda: parts(rng, w)))
    if not s['sp'] or not s['batch']:   # they are given together
        s['sp'], s['batch'] = [], []
    return s


def parts(rng, w):
    ps = [dict(b=b + 1, l=0) for b in range(len(w['up']))] + \
        [dict(b=0, l=n + 1) for n in range(len(w['lay']))]
    rng.shuffle(ps)
    return ps[:rng.randint(1, 3)] if ps else []


def config(model, w, s):
    """Settings as get_model_flops_params takes them."""
    blocks, lays = model.names
    c = {}
    if s['sp']:
        c['input_shape'] = (s['batch'][0], w['cin'], *s['sp'][0])
    if s['units']:
        u = s['units'][0]
        c['units'] = None if u == 'none' else dict(flops=u, params=u)
    if s['str']:
        c['as_strings'] = bool(s['str'][0])
    if s['off']:
        c['disabled_counters'] = [KINDS[k].format(w['nd']) + 'Counter'
                                  for k in s['off'][0]]
    if s['parts']:
        c['spec_modules'] = [lays[p['l'] - 1] if p['l'] else blocks[p['b']]
                             for p in s['parts'][0]]
    return c


def number(x, units):
    """(value in thousandths or as it is, came as text)."""
    text = isinstance(x, str)
    if text:
        m = re.match(r'([\d.e+-]+) ?([KMG]?)(FLOPs)?$', x)
        if not m or m.group(2) != ('' if units == 'none' else units):
            return -1, 1
        x = float(m.group(1))
    return int(round(x * (1 if units == 'none' else 1000))), int(text)


def effective(field, call, sett, cons, default):
    for s in (call, sett, cons):
        if s[field]:
            return s[field][0]
    return default


def history(job):
    seed, = job
    import torch
    from mmrazor.models import ResourceEstimator
    rng = random.Random(seed)
    torch.manual_seed(seed)
    w = network(rng, rng.randint(1, 9))
    model = build(w)
    none = settings(rng, w, 0)
    cons, sett = settings(rng, w, .5), settings(rng, w, .5)
    # the constructor always says the input size, and has no other settings
    cons.update(sp=[rng.choice(SIZES[w['nd']])], batch=[rng.randint(1, 2)],
                off=[], parts=[])
    if cons['units'] == ['none']:
        cons['units'] = []
    kw = config(model, w, cons)
    if 'units' in kw:
        kw['units']['latency'] = 'ms'
    cfg = config(model, w, sett)
    ev = []
    est = ResourceEstimator(flops_params_cfg=cfg or None, **kw)
    for m in model.modules():
        m.training = rng.random() < .5
    calls = [none] + [settings(rng, w, .4) for _ in range(rng.randint(1, 4))]
    for _ in range(rng.randint(1, 5)):
        call = copy.deepcopy(rng.choice(calls))
        sep = rng.random() < .3
        if sep and not effective('parts', call, sett, none, []):
            continue
        off = effective('parts', call, sett, none, [])
        e = dict(op='est', call=call, sep=int(sep), res=[], ok=1, same=0,
                 str=0)
        ev.append(e)
        arg = config(model, w, call)
        given = copy.deepcopy(arg)
        if rng.random() < .15:
            arg.update(print_per_layer_stat=True, ost=io.StringIO())
            given.update(arg)
        before = net.snapshot(model)
        attrs = {n: dict(m.__dict__) for n, m in model.named_modules()}
        u = effective('units', call, sett, cons, 'M')
        try:
            if sep:
                r = est.estimate_separation_modules(
                    model, flops_params_cfg=arg or None)
                names = given.get('spec_modules') or config(
                    model, w, sett)['spec_modules']
                r = [r[n] for n in names]
            else:
                r = [est.estimate(model, flops_params_cfg=arg or None)]
            for x in r:
                f, t = number(x['flops'], u)
                p, _ = number(x['params'], u)
                e['res'].append(dict(f=f, p=p))
                e['str'] = t
            if arg != given:
                e['ok'] = 0
        except ZeroDivisionError:       # shares of nothing are printed
            ev.pop()
            break
        except Exception as ex:
            import traceback
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            e.update(ok=0, why=f'{type(ex).__name__}: {ex} '
                     f'{tb.filename}:{tb.lineno}'[:200])
        del off
        now = {n: dict(m.__dict__) for n, m in model.named_modules()}
        e['same'] = int(net.unchanged(before, net.snapshot(model)) and
                        all(now[n].keys() == attrs[n].keys() for n in now))
    return dict(par=dict(w=w, cons=cons, set=sett), ev=ev)


def life(job):
    """Estimates of a network prepared for pruning, at its choices, and of
    what it exports."""
    life = prune.Life(*job)
    if life.prepare():
        for t in range(3):
            life.choose()
            life.cost()
        life.run()
    return life.trace


def run(ctx):
    import mmrazor.models  # noqa
    rng = ctx.rng
    cfgs = []
    for _ in range(40 if ctx.quick else 100):
        w = network(rng, rng.randint(2, 5))
        cfgs.append(dict(w=w, sps=SIZES[w['nd']]))
    vlib.model(ctx, 'Cost', vlib.cfg(
        'Init', 'Nxt', dict(Configs='<- CfgDef'),
        invariants=['Additive', 'Split', 'Again', 'Positive'], view='Vars'),
        defs='CfgDef == ' + vlib.tla(cfgs))
    jobs = [(rng.randint(0, 1 << 30), )
            for _ in range(1200 if ctx.quick else 8000)]
    traces = [t for t in net.pmap(history, jobs) if t['ev']]
    vlib.validate(ctx, 'CostTrace', traces, what='estimates', batch=150,
                  timeout=800)
    jobs = [j for j in prune.programs(ctx, 500 if ctx.quick else 4000)
            if j[2] != 'dmcp']
    lives = net.pmap(life, jobs)
    for t in lives:
        ctx.counts[t['par']['kind']] += 1
    vlib.validate(ctx, 'PruneTrace', lives, what='estimates of prepared '
                  'networks', batch=100, timeout=800)
