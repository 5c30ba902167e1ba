"""C05: search groups partition the searchable elements and their members
agree (Groups.tla)."""
import copy
import itertools
import random

import net
import supernets
import vlib


def op_cfgs(n):
    return {f'k{i}': dict(type='torchConv2d', kernel_size=1, in_channels=2,
                          out_channels=2) for i in range(1, n + 1)}


class Model:
    """A model with the configuration's elements at its places."""

    def __init__(self, c, seed=0):
        import torch.nn as nn
        from mmrazor.models.mutables import (
            DerivedMutable, MutableChannelContainer, OneShotMutableChannel,
            OneShotMutableChannelUnit, OneShotMutableValue)
        from mmrazor.registry import MODELS
        from mmrazor.models.architectures.dynamic_ops import DynamicConv2d
        rng = random.Random(seed)
        self.c = c
        self.els, self.names = [], []
        if not MODELS.get('torchConv2d'):
            MODELS.register_module(name='torchConv2d', module=nn.Conv2d)
        for e in c['els']:
            alias = e['alias'] or None
            n = e['n']
            if e['kind'] == 'value':
                m = OneShotMutableValue([2 * i for i in range(1, n + 1)],
                                        alias=alias)
            elif e['kind'] == 'chan':
                m = OneShotMutableChannel(
                    4, candidate_choices=list(range(1, n)) + [4])
            else:
                t = 'OneShotMutableOP' if e['kind'] == 'op' else \
                    rng.choice(['DiffMutableOP', 'OneHotMutableOP'])
                m = MODELS.build(dict(type=t, candidates=op_cfgs(n),
                                      alias=alias))
                m.current_choice = f'k{n}'
            self.els.append(m)
        self.net = nn.Module()
        self.net.chans = nn.Module()
        self.net.stem = nn.Conv2d(3, 3, 1)
        for k, w in enumerate(c['walk']):
            ms = [self.els[i - 1] for i in w['e']]
            if not w['d']:
                m = ms[0]
            elif len(ms) == 1 and c['els'][w['e'][0] - 1]['kind'] == \
                    'value' and rng.random() < .5:
                m = ms[0].derive_expand_mutable(3)
            else:
                m = DerivedMutable(
                    (lambda ms: lambda: [x.current_choice for x in ms])(ms),
                    source_mutables=ms)
            deep = rng.randint(0, 2)
            at, name = self.net, f'p{k:02d}'
            for d in range(deep):
                nxt = nn.Module()
                setattr(at, name.rsplit('.', 1)[-1], nxt)
                at, name = nxt, name + f'.x{d}'
            setattr(at, name.rsplit('.', 1)[-1], m)
            self.names.append(name)
        for i, e in enumerate(c['els']):
            if e['kind'] == 'chan':
                setattr(self.net.chans, f'a{i}', DynamicConv2d(3, 4, 1))
                setattr(self.net.chans, f'b{i}', DynamicConv2d(4, 3, 1))
        OneShotMutableChannelUnit._register_channel_container(
            self.net, MutableChannelContainer)
        for i, e in enumerate(c['els']):
            if e['kind'] == 'chan':
                for x, out in (('a', True), ('b', False)):
                    MutableChannelContainer.register_mutable_channel_to_module(
                        getattr(self.net.chans, f'{x}{i}'), self.els[i], out)

    def custom(self):
        return [[k['a'] or (self.names[k['s'] - 1] if k['s'] > 0 else 'no.')
                 for k in g] for g in self.c['custom']]


def index(m, x):
    """Number of a choice among the element's, from 1."""
    cs = getattr(m, 'candidate_choices', None)
    cs = list(m.choices if cs is None else cs)
    return cs.index(x) + 1 if x in cs else -1


def choice(m, i):
    cs = getattr(m, 'candidate_choices', None)
    return list(m.choices if cs is None else cs)[i - 1]


class Real:

    def __init__(self, model, custom):
        from mmrazor.models.mutators import NasMutator
        self.model, self.custom = model, custom
        self.els = model.els
        self.mut = NasMutator(custom_groups=copy.deepcopy(custom) or None)

    def cur(self):
        return [index(m, m.current_choice) for m in self.els]

    def prepare(self):
        try:
            self.mut.prepare_from_supernet(self.model.net)
        except AssertionError:
            return False
        return True

    def who(self, m):
        m = getattr(m, 'mutable_channel', m)
        return [i for i, e in enumerate(self.els) if e is m][0] + 1

    def groups(self):
        return [[self.who(m) for m in {id(m): m for m in ms}.values()]
                for ms in self.mut.search_groups.values()]

    def decode(self, choices):
        """choices by group name -> choice number per element."""
        v = [0] * len(self.els)
        if set(choices) != set(self.mut.search_groups):
            return v
        for n, ms in self.mut.search_groups.items():
            for m in ms:
                k = self.who(m)
                v[k - 1] = index(self.els[k - 1], choices[n])
        return v

    def encode(self, v):
        return {n: choice(self.els[self.who(ms[0]) - 1],
                          v[self.who(ms[0]) - 1])
                for n, ms in self.mut.search_groups.items()}

    def poke(self, e, x):
        self.els[e - 1].current_choice = choice(self.els[e - 1], x)


class Walk:
    """Replays Groups.tla."""

    def __init__(self, c, s0):
        self.c = c
        self.r = Real(Model(c, s0['k']), None)
        self.r = Real(self.r.model, self.r.model.custom())

    def step(self, e, t):
        r = self.r
        op = e['op']
        if op == 'prepare':
            ok = r.prepare()
            if ok != e['ok']:
                return f'prepare: {"accepted" if ok else "refused"}'
            if ok:
                g = [sorted(x) for x in r.groups()]
                if sorted(g) != sorted(sorted(x) for x in e['groups']):
                    return f'groups {g}'
        elif op == 'set':
            r.mut.set_choices(r.encode(e['v']))
        elif op == 'poke':
            r.poke(e['e'], e['x'])
        elif op == 'max':
            r.mut.set_max_choices()
        else:
            r.mut.set_min_choices()
        if r.cur() != t['cur']:
            return f'{op}: choices {r.cur()} instead of {t["cur"]}'
        if not t['on']:
            return
        if op in ('set', 'max', 'min') and \
                r.decode(r.mut.current_choices) != t['cur']:
            return 'reading the choices does not return what was set'
        plain = all(x['kind'] in ('value', 'chan') for x in self.c['els'])
        for kind in ('random', 'max', 'min') if plain else ('random', ):
            v = r.decode(r.mut.sample_choices(kind))
            for k, (x, el) in enumerate(zip(v, self.c['els'])):
                if not (1 <= x <= el['n'] if kind == 'random' else
                        x == (el['n'] if kind == 'max' else 1)):
                    return f'sample {kind}: {v}'
        if plain:
            if r.decode(r.mut.max_choices) != [
                    x['n'] for x in self.c['els']] or r.decode(
                        r.mut.min_choices) != [1] * len(v):
                return 'max_choices / min_choices'
        if r.cur() != t['cur']:
            return 'sampling changed the model'


def homogeneous(c):
    """Elements that may come together have the same kind and size."""
    def at(k):
        w = c['walk'][k['s'] - 1] if k['s'] > 0 else None
        return w['e'] if w else []
    by = {}
    for e in c['els']:
        if e['alias']:
            by.setdefault(e['alias'], set()).add((e['kind'], e['n']))
    if any(len(v) > 1 for v in by.values()):
        return False
    for g in c['custom']:
        s = set()
        for k in g:
            if k['a']:
                s |= by.get(k['a'], set())
            else:
                s |= {(c['els'][e - 1]['kind'], c['els'][e - 1]['n'])
                      for e in at(k)}
        if len(s) > 1:
            return False
    return True


def el(kind, n=2, alias=''):
    return dict(kind=kind, n=n, alias=alias)


def place(*e, d=False):
    return dict(e=list(e), d=d)


def key(a='', s=0):
    return dict(a=a, s=s)


def legal_config(c):
    """Every element is somewhere; of two elements that only a derived one
    knows, which has its name is left open, so no key names it."""
    seen = {e for w in c['walk'] for e in w['e']}
    if any(e['kind'] != 'chan' and i + 1 not in seen
           for i, e in enumerate(c['els'])):
        return False
    direct = {w['e'][0] for w in c['walk'] if not w['d']}
    amb = {k + 1 for k, w in enumerate(c['walk'])
           if w['d'] and len(set(w['e']) - direct) > 1}
    # a custom group may name every place of an element only once
    first = {}
    for k, w in enumerate(c['walk']):
        for e in w['e']:
            if not w['d'] and (e not in first or c['walk'][first[e] - 1]['d']):
                first[e] = k + 1
            first.setdefault(e, k + 1)
    for g in c['custom']:
        for k in g:
            if k['s'] and (k['s'] in amb):
                return False
    return homogeneous(c)


def random_config(rng, big=False, arch=False):
    while True:
        ne = rng.randint(2, 9 if big else 3)
        kinds = ['value', 'value', 'chan'] + (['diff'] * 2 if arch
                                            else ['op'])
        pool = ['', '', '', 'a', 'b', 'a.b'] if big else ['', '', 'a']
        els = []
        for _ in range(ne):
            k = rng.choice(kinds)
            a = rng.choice(pool) if k != 'chan' else ''
            els.append(el(k, rng.choice([1, 2, 3] if big else [2, 2, 3]),
                          a + k[0] if a else ''))
        rest = [i + 1 for i, e in enumerate(els) if e['kind'] != 'chan']
        if not rest:
            continue
        walk = [place(e) for e in rest if rng.random() < .8]
        for _ in range(rng.randint(0, 4 if big else 2)):
            walk.append(place(rng.choice(rest), d=rng.random() < .7))
        if rng.random() < .3 and len(rest) > 1:
            walk.append(place(*rng.sample(rest, 2), d=True))
        rng.shuffle(walk)
        # a second direct place of an element is no place of its own
        seen, w2 = set(), []
        for w in walk:
            if not w['d']:
                if w['e'][0] in seen:
                    continue
                seen.add(w['e'][0])
            w2.append(w)
        walk = w2
        keys = [key(a=e['alias']) for e in els if e['alias']] + \
            [key(s=k + 1) for k in range(len(walk))]
        custom = []
        if keys and rng.random() < .7:
            for _ in range(rng.randint(1, 3 if big else 2)):
                custom.append([rng.choice(keys) for _ in range(
                    rng.randint(1, 3))])
        if rng.random() < .05 and custom:
            custom[-1].append(key(s=-1))
        c = dict(els=els, walk=walk, custom=custom, arch=arch)
        if legal_config(c):
            return c


def canonical():
    v, d = el('value'), dict(d=True)
    base = [
        ([v, v], [place(1), place(2)], []),
        ([v, v], [place(1), place(2), place(1, **d)], []),
        ([v, v], [place(1, **d), place(1), place(2)], []),
        ([v, v], [place(1, **d), place(1, **d), place(2)], []),
        ([v, v], [place(1, 2, **d), place(2), place(1)], []),
        ([v, v], [place(1, 2, **d)], []),
        ([v, v, v], [place(1), place(2), place(3)],
         [[key(s=1), key(s=3)]]),
        ([el('value', 2, 'a'), el('value', 2, 'a'), v],
         [place(1), place(3), place(2), place(1, **d)], []),
        ([el('value', 2, 'a'), el('value', 2, 'a'), v],
         [place(1), place(3), place(2), place(1, **d)],
         [[key(a='a'), key(s=2)]]),
        ([el('value', 2, 'a'), v], [place(1), place(2), place(1, 2, **d)],
         []),
        ([el('op'), v, el('chan', 3)], [place(1), place(2)], []),
    ]
    return [dict(els=a, walk=b, custom=c, arch=False) for a, b, c in base]


def history(job):
    """A random history of a larger model, or of a real one."""
    seed, what = job
    rng = random.Random(seed)
    random.seed(seed)
    import numpy as np
    import torch
    np.random.seed(seed)
    torch.manual_seed(seed)
    if what == 'random':
        c = random_config(rng, True, rng.random() < .4)
        model = Model(c, seed)
        r = Real(model, model.custom())
    else:
        c, r = supernets.shipped(what.split('/')[0], '/' in what)
        c['key'] = '-'.join(what.split('/')) if '/' in what else ''
    ev = []
    ok = r.prepare()
    ev.append(dict(op='prepare', ok=ok, groups=r.groups() if ok else [],
                   cur=r.cur()))
    if ok:
        try:
            go(c, r, rng, ev)
        except Exception as e:
            ev.append(dict(op='text', ok=0,
                           what=f'{type(e).__name__}: {e}'[:200]))
    return dict(par=c, ev=ev)


def go(c, r, rng, ev):
    import torch
    plain = all(x['kind'] in ('value', 'chan') for x in c['els'])
    if c['arch']:
        r.mut.prepare_arch_params()
        ev.append(dict(op='arch', groups=[
            [r.who(m) for m in {id(m): m for m in
                                r.mut.search_groups[n]}.values()]
            for n in r.mut.arch_params if len(r.mut.arch_params[n]) ==
            r.mut.search_groups[n][0].num_choices]))
        with torch.no_grad():
            for p in r.mut.arch_params.values():
                p.copy_(torch.randn(p.shape))
    for _ in range(12):
        a = rng.random()
        if a < .4:
            if rng.random() < .5:
                v = r.mut.sample_choices()
                ev.append(dict(op='sample', kind='random', v=r.decode(v),
                               cur=r.cur()))
            else:
                x = [rng.randint(1, e['n']) for e in c['els']]
                v = r.encode(x)
            w = r.decode(v)
            r.mut.set_choices(v)
            ev.append(dict(op='set', v=w, cur=r.cur(),
                           read=r.decode(r.mut.current_choices)))
        elif a < .6:
            e = rng.randint(1, len(c['els']))
            x = rng.randint(1, c['els'][e - 1]['n'])
            r.poke(e, x)
            ev.append(dict(op='poke', e=e, x=x, cur=r.cur()))
        elif a < .8 and (plain or c['arch'] and all(
                x['kind'] != 'op' for x in c['els'])):
            m = rng.choice(['max', 'min'])
            getattr(r.mut, f'set_{m}_choices')()
            ev.append(dict(op=m, cur=r.cur(),
                           read=r.decode(r.mut.current_choices)))
        else:
            kind = rng.choice(['random', 'max', 'min']) if plain \
                else 'random'
            ev.append(dict(op='sample', kind=kind,
                           v=r.decode(r.mut.sample_choices(kind)),
                           cur=r.cur()))


def run(ctx):
    import mmrazor.models  # noqa
    import mmrazor.structures  # noqa
    cfgs = canonical()
    seen = {vlib.canon(c) for c in cfgs}
    while len(cfgs) < (200 if ctx.quick else 1500):
        c = random_config(ctx.rng)
        if vlib.canon(c) not in seen and len(c['els']) <= 3:
            seen.add(vlib.canon(c))
            cfgs.append(c)
    for b in range(0, len(cfgs), 300):
        part = cfgs[b:b + 300]
        g = vlib.graph(ctx, 'Groups', dict(Configs='<- CfgDef'),
                       next='Nxt', defs='CfgDef == ' + vlib.tla(part),
                       invariants=['Inv'], props=['SetAgrees'])
        vlib.replay(ctx, g, lambda s: Walk(part[s['k'] - 1], s), 60,
                    'search groups')
    jobs = [(ctx.seed * 10000 + i, 'random')
            for i in range(500 if ctx.quick else 8000)]
    for w in ('autoformer', 'bignas', 'spos'):
        with ctx.cut(f'{w} cannot be built'):
            supernets.build(w)
    jobs += [(s, w) for w in ('autoformer', 'bignas', 'spos')
             for s in range(2 if ctx.quick else 20)]
    jobs += [(1, 'bignas/last-expand-ratio')]
    traces = net.pmap(history, jobs)
    for t in traces:
        ctx.counts['refused' if not t['ev'][0]['ok'] else 'prepared'] += 1
    vlib.validate(ctx, 'GroupsTrace', traces, what='search groups',
                  batch=200, keyfn=lambda t, v: t['par'].get('key'))
