"""Networks written as programs of Net.tla, built as real torch modules."""
import random

import torch
import torch.nn as nn
import torch.nn.functional as F


class Prog(nn.Module):
    """p: [dict(op, a, l, o, g)], vars numbered as in Net.tla; `style` picks
    equivalent ways of writing each step."""

    def __init__(self, cin, p, style=0, hw=2):
        super().__init__()
        self.p, self.cin, self.hw, self.style = p, cin, hw, style
        self.rec = None     # widths of the results, when asked for
        r = random.Random(style)
        width, self.how, nl = [cin], [], {}
        for e in p:
            x = width[e['a'][0]]
            op, name = e['op'], f'l{e["l"]}'
            how = r.randrange(4)
            if op in ('conv', 'lin', 'bn', 'gn') and name not in nl:
                nl[name] = 1
                if op == 'conv':
                    k = 1 if how % 2 else 3
                    m = nn.Conv2d(x, e['o'], k, padding=k // 2,
                                  groups=e['g'], bias=how < 2)
                elif op == 'lin':
                    m = nn.Linear(x, e['o'], bias=how < 2)
                elif op == 'bn':
                    m = nn.BatchNorm2d(x)
                else:
                    m = nn.GroupNorm(e['g'], x)
                if op in ('bn', 'gn'):
                    with torch.no_grad():
                        m.weight.uniform_(.5, 1.5)
                        m.bias.uniform_(-.5, .5)
                        if op == 'bn':
                            m.running_mean.uniform_(-.5, .5)
                            m.running_var.uniform_(.5, 1.5)
                self.add_module(name, m)
            elif op == 'act' and how == 0:
                self.add_module(f'act{len(width)}', nn.ReLU())
            elif op == 'act' and how == 1:
                self.add_module(f'act{len(width)}',
                                nn.MaxPool2d(3, 1, 1) if self.ismap(e['a'][0])
                                else nn.ReLU6())
            elif op == 'gap' and how < 2:
                self.add_module(f'gap{len(width)}', nn.AdaptiveAvgPool2d(1))
            self.how.append(how)
            width.append(
                e['o'] if op in ('conv', 'lin') else
                sum(width[v] for v in e['a']) if op == 'cat' else
                x * e['g'] if op == 'flat' else x // 2 if op == 'half' else x)
        self.width = width
        used = {v for e in p for v in e['a']}
        self.outs = [v for v in range(1, len(width)) if v not in used]

    def ismap(self, v):
        while v:
            e = self.p[v - 1]
            if e['op'] in ('gap', 'flat', 'lin'):
                return False
            v = e['a'][0]
        return True

    def forward(self, x):
        v = [x]
        for n, (e, how) in enumerate(zip(self.p, self.how)):
            op, a = e['op'], e['a']
            x = v[a[0]]
            if op in ('conv', 'lin', 'bn', 'gn'):
                y = getattr(self, f'l{e["l"]}')(x)
            elif op == 'act':
                y = (getattr(self, f'act{n + 1}')(x) if how < 2 else
                     F.relu(x) if how == 2 else x * 2)
            elif op == 'add':
                y = x
                for b in a[1:]:
                    y = torch.add(y, v[b]) if how == 0 else \
                        y * v[b] if how == 1 else y + v[b]
            elif op == 'cat':
                y = torch.cat([v[b] for b in a], dim=1)
            elif op == 'gap':
                y = (torch.flatten(getattr(self, f'gap{n + 1}')(x), 1)
                     if how < 2 else x.mean((2, 3)) if how == 2 else
                     F.adaptive_avg_pool2d(x, 1).flatten(1))
            elif op == 'flat':
                y = torch.flatten(x, 1) if how < 2 else x.flatten(1)
            elif op == 'half':
                y = torch.chunk(x, 2, 1)[e['o'] - 1]
            v.append(y)
            if self.rec is not None:
                self.rec.append(y.shape[1])
        outs = [v[i] for i in self.outs]
        return outs[0] if len(outs) == 1 else tuple(outs)


def ev(op, a, l=1, o=0, g=1):
    return dict(op=op, a=list(a), l=l, o=o, g=g)


def random_program(rng, n, cin=3, maxw=12, ops=None, hw=2):
    """A random legal program of n steps."""
    p, width, ismap, lay = [], [cin], [True], []

    def put(e, w, m):
        p.append(e)
        width.append(w)
        ismap.append(m)

    def pick(pred=lambda v: True):
        c = [v for v in range(len(width)) if pred(v)]
        if not c:
            return None
        # recent variables more often
        return c[max(rng.randrange(len(c)), rng.randrange(len(c)))]

    ops = ops or ('conv conv conv conv dw gconv bn bn act add add add cat cat '
                  'shared gap flat lin lin lin gn half').split()
    tries = 0
    while len(p) < n and tries < 300:
        tries += 1
        op = rng.choice(ops)
        new = len(lay) + 1
        if op in ('conv', 'dw', 'gconv'):
            x = pick(lambda v: ismap[v] and (op == 'conv' or v))
            if x is None:
                continue
            c = width[x]
            if op == 'conv':
                o, g = rng.choice([2, 3, 4, 4, 6, 8]), 1
            elif op == 'dw':
                if c < 2:
                    continue
                o = g = c
            else:
                gs = [g for g in (2, 3, 4) if c % g == 0 and c // g > 1]
                if not gs:
                    continue
                g = rng.choice(gs)
                o = g * rng.randint(2, 3)
            lay.append(('conv', c, o, g))
            put(ev('conv', [x], new, o, g), o, True)
        elif op == 'lin':
            x = pick(lambda v: not ismap[v])
            if x is None:
                continue
            o = rng.choice([2, 3, 4, 6, 8])
            lay.append(('lin', width[x], o, 1))
            put(ev('lin', [x], new, o), o, False)
        elif op == 'bn':
            x = pick(lambda v: ismap[v] and v)
            if x is None:
                continue
            lay.append(('bn', width[x], width[x], 1))
            put(ev('bn', [x], new, width[x]), width[x], True)
        elif op == 'gn':
            x = pick(lambda v: ismap[v] and v)
            if x is None:
                continue
            g = rng.choice([g for g in (1, 2, 3, 4) if width[x] % g == 0])
            lay.append(('gn', width[x], width[x], g))
            put(ev('gn', [x], new, width[x], g), width[x], True)
        elif op == 'shared':
            if not lay:
                continue
            li = rng.randrange(len(lay))
            k, c, o, g = lay[li]
            if k == 'gn':
                continue
            x = pick(lambda v: width[v] == c and ismap[v] == (k != 'lin')
                     and v)
            if x is None:
                continue
            put(ev(k, [x], li + 1, o, g), o, k != 'lin')
        elif op == 'act':
            x = pick(lambda v: v > 0)
            if x is None:
                continue
            put(ev('act', [x]), width[x], ismap[x])
        elif op in ('add', 'cat'):
            x = pick(lambda v: v > 0)
            if x is None:
                continue
            k = rng.choice([1, 1, 1, 2])
            c = [v for v in range(len(width)) if ismap[v] == ismap[x] and
                 (op == 'cat' or width[v] == width[x]) and
                 (v or rng.random() < .2) and
                 (op == 'cat' or v != x or rng.random() < .1)]
            if not c:
                continue
            a = [x] + [rng.choice(c) for _ in range(k)]
            rng.shuffle(a)
            w = sum(width[v] for v in a) if op == 'cat' else width[x]
            if w > 2 * maxw:
                continue
            put(ev(op, a), w, ismap[x])
        elif op == 'gap':
            x = pick(lambda v: ismap[v] and v)
            if x is None or len(p) < n // 2:
                continue
            put(ev('gap', [x]), width[x], False)
        elif op == 'flat':
            x = pick(lambda v: ismap[v] and v)
            if x is None or len(p) < n // 2 or width[x] * hw * hw > 32:
                continue
            put(ev('flat', [x], 1, 0, hw * hw), width[x] * hw * hw, False)
        elif op == 'half':
            x = pick(lambda v: v and width[v] % 2 == 0)
            if x is None or rng.random() < .7:
                continue
            put(ev('half', [x], 1, rng.randint(1, 2)), width[x] // 2,
                ismap[x])
    return p


def source(p, v, fx):
    """The variable whose channels v has, as far as the tracer can tell them
    apart."""
    while v:
        e = p[v - 1]
        if not fx and e['op'] in ('act', 'gap', 'flat'):
            v = e['a'][0]
        elif not fx and e['op'] == 'add' and \
                len({source(p, x, fx) for x in e['a']}) == 1:
            v = source(p, e['a'][0], fx)
        else:
            break
    return v


def made(p, v, op):
    """v is the result of op, but for operations without weights"""
    return v > 0 and (p[v - 1]['op'] == op or (
        p[v - 1]['op'] in ('act', 'gap', 'flat', 'half', 'add', 'cat') and
        any(made(p, a, op) for a in p[v - 1]['a'])))


def outside(p, tracer, cin=3):
    """Programs of the known findings."""
    bounds = [set()]    # where concatenations put variables together
    wide = [cin]
    fx = tracer == 'FxTracer'
    dep = [set()]       # layers a variable depends on
    on = {}             # layers a layer depends on
    for n, e in enumerate(p):
        d = set().union(*(dep[v] for v in e['a']))
        if e['op'] in ('conv', 'lin', 'bn', 'gn'):
            on.setdefault(e['l'], set()).update(d)
            d.add(e['l'])
        dep.append(d)
        x, w = e['a'][0], e['o']
        if e['op'] == 'cat':
            b, w = set(), 0
            for v in e['a']:
                b |= {w + k for k in bounds[v]} | {w}
                w += wide[v]
            bounds.append(b - {0})
        elif e['op'] in ('conv', 'lin') and not (1 < e['g'] == e['o'] ==
                                                 wide[x]):
            bounds.append(set())
            if e['g'] > 1 and any(k % (wide[x] // e['g'])
                                  for k in bounds[x]):
                return 'concatenation-across-groups'
        else:
            if e['op'] in ('half', 'flat'):
                bounds.append(set())
            else:
                bounds.append(set().union(*(bounds[v] for v in e['a'])))
            w = (wide[x] // 2 if e['op'] == 'half' else
                 wide[x] * e['g'] if e['op'] == 'flat' else wide[x])
        wide.append(w)
        if e['op'] in ('half', 'flat') and made(
                p, e['a'][0], 'flat' if e['op'] == 'half' else 'half'):
            return 'slice-of-a-flattened-map'
        if e['op'] == 'cat' and any(
                made(p, v, 'half') for v in e['a']):
            return 'concatenated-slice'
        if e['op'] == 'cat':
            s = [source(p, v, fx) for v in e['a']]
            if len(set(s)) < len(s):
                return 'concatenation-of-one-tensor'
            if not fx and 0 in s:
                return 'concatenation-with-the-input'
    if not fx:
        for a in on:        # cycles
            seen, todo = set(), set(on[a])
            while todo:
                b = todo.pop()
                if b not in seen:
                    seen.add(b)
                    todo |= on.get(b, set())
            if a in seen:
                return 'layer-applied-to-its-own-result'
    return None


def nlayers(p):
    return max([e['l'] for e in p] + [1])


def analyze(net, tracer):
    """The units found by the channel analysis, as in Net.tla."""
    from mmrazor.models.task_modules.tracer import ChannelAnalyzer
    a = ChannelAnalyzer((1, net.cin, net.hw, net.hw), tracer)
    res = a.analyze(net)
    return [unit(c) for c in res.values()]


def unit(c):
    ch = []
    for k in ('input_related', 'output_related'):
        for q in c['channels'][k]:
            if not q['name'].startswith('l'):
                continue        # parameterless nodes
            ch.append(dict(l=int(q['name'][1:]), s=q['start'], e=q['end'],
                           out=int(q['is_output_channel'])))
    return dict(n=c['init_args']['num_channels'], ch=ch)


def snapshot(net):
    return ({k: v.clone() for k, v in net.state_dict().items()},
            {n: (m.training, sorted(k for k in m.__dict__),
                 len(m._forward_hooks)) for n, m in net.named_modules()},
            {n: q.requires_grad for n, q in net.named_parameters()})


def unchanged(a, b):
    import torch
    return (a[1:] == b[1:] and a[0].keys() == b[0].keys() and
            all(torch.equal(a[0][k], b[0][k]) for k in a[0]))


def pmap(fn, items, procs=8, chunk=16):
    """fn over items in forked processes; fn must not need the parent."""
    import multiprocessing as mp
    with mp.get_context('fork').Pool(procs, _init) as pool:
        return pool.map(fn, items, chunk)


def _init():
    import logging
    import warnings
    import torch
    torch.set_num_threads(1)
    logging.disable(logging.WARNING)
    warnings.simplefilter('ignore')


def gen(ctx, depth, nl, cin, widths, ops, workers=4, timeout=600):
    """Every program of `depth` steps, from TLC; checks NetGen's invariants
    on all of them."""
    import vlib
    r = vlib.tlc('NetGen', vlib.cfg(
        consts=dict(Depth=depth, NL=nl, Cin=cin, Widths=vlib.tla(widths),
                    Ops=vlib.tla(ops)),
        invariants=['TypeOK', 'Runnable', 'WholeEnds', 'Additive']),
        workers=workers, timeout=timeout, mem='6g')
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.note('TLC NetGen', depth=depth, states=r.distinct)
    return [q['p'] for q in r.prints('PROG')]
