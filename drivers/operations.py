"""Real searchable operations against Operations.tla.  Focus: 'src' (C01),
'fix' (C02)."""
import math

import torch
import torch.nn as nn

import vlib

REFUSED = (ValueError, AssertionError, AttributeError, RuntimeError, KeyError)


class Mul(nn.Module):

    def __init__(self, w, **kw):
        super().__init__()
        self.w = nn.Parameter(torch.tensor(float(w)))

    def forward(self, x):
        return x * self.w


def cfg(kind, n, thr=4, arch=True, num=1):
    return dict(kind=kind, n=n, thr=thr, arch=arch, num=num)


class Obj:

    def __init__(self, c, rng, focus):
        from mmrazor import models as M
        from mmrazor.registry import MODELS
        if 'VerifMul' not in MODELS.module_dict:
            MODELS.register_module(name='VerifMul', module=Mul)
        self.c, self.rng, self.focus = c, rng, focus
        n = c['n']
        # also names that contain one another
        self.names = rng.choice([
            [rng.choice(['op', 'conv_', 'a']) + str(i)
             for i in range(1, n + 1)],
            ['mb_k3' + '_se' * i for i in range(n)],
            ['k3' + '_se' * i for i in reversed(range(n))],
            ['x' * i + 'k3' for i in range(n)],
            ['x' * i + 'k3' for i in reversed(range(n))]])
        ops = {self.names[i]: dict(type='VerifMul', w=2 ** (i + 1))
               for i in range(n)}
        k = c['kind']
        if k == 'one':
            if rng.random() < .5:
                self.m = M.OneShotMutableOP(ops)
            elif rng.random() < .5:
                self.m = M.OneShotMutableOP(nn.ModuleDict(
                    {a: Mul(b['w']) for a, b in ops.items()}))
            else:
                self.m = MODELS.build(dict(
                    type='OneShotProbMutableOP', candidates=ops,
                    choice_probs=[1 / n] * n))
        elif k == 'diff':
            self.m = M.DiffMutableOP(ops)
        elif k == 'hot':
            self.m = M.OneHotMutableOP(ops, fix_threshold=c['thr'] / 4)
        else:
            self.m = M.DiffChoiceRoute(
                nn.ModuleDict({a: Mul(b['w']) for a, b in ops.items()}),
                num_chosen=c['num'], with_arch_param=c['arch'])
        self.arch = nn.Parameter(torch.zeros(n))

    def name(self, v):
        return self.names[v - 1] if 1 <= v <= self.c['n'] else 'nothing'

    def x(self):
        if self.c['kind'] == 'route':
            return [torch.tensor(float(i + 1)) for i in range(self.c['n'])]
        return torch.tensor(1.)

    def do(self, e):
        op, m = e['op'], self.m
        self.out = 0
        try:
            if op == 'assign':
                m.current_choice = self.name(e['v'][0])
            elif op == 'fix':
                ch = [self.name(v) for v in e['v']]
                k = self.c['kind']
                m.fix_chosen(ch[0] if k == 'one' or (
                    k != 'route' and len(ch) == 1 and self.rng.random() < .5)
                    else ch)
            elif op == 'unfix':
                m.is_fixed = False
            elif op == 'fwd':
                self.out = q(m(self.x()))
            elif op == 'fwdp':
                self.arch.data = torch.tensor([math.log(p) for p in e['p']])
                self.out = q(m(self.x(), arch_param=self.arch))
            elif op == 'sample':
                s = m.sample_choice()
                self.out = self.names.index(str(s)) + 1 \
                    if str(s) in self.names else -1
            elif op == 'tops':
                s = m.sample_choice(torch.tensor([float(p) for p in e['p']]))
                s = [s] if isinstance(s, str) else s
                e['v'] = [self.names.index(i) + 1 for i in s]
        except REFUSED:
            return False
        return True

    def obs(self):
        m = self.m
        ch = m.current_choice
        ch = 0 if ch is None else self.names.index(ch) + 1 \
            if ch in self.names else self.c['n'] + 1
        keep = [int(n in m.choices) for n in self.names]
        if len(m.choices) != sum(keep) or \
                list(m.choices) != [n for n in self.names if n in m.choices]:
            keep = ['?']
        try:
            out = q(m(self.x()))
        except REFUSED:
            out = -1
        return dict(ch=ch, keep=keep, fx=bool(m.is_fixed), out=out)

    def step(self, e, t):
        ok = self.do(dict(e))
        o = self.obs()
        want = {k: t[k] for k in ('ch', 'keep', 'fx')}
        got = {k: o[k] for k in want}
        bad = None
        if ok != e['ok']:
            bad = f'{e["op"]} {"succeeded" if ok else "failed"}'
        elif ok and e['outs'] and self.out not in e['outs']:
            bad = f'{e["op"]}: output {self.out}, specification {e["outs"]}'
        elif got != want:
            bad = f'{e["op"]}: reports {got}, specification {want}'
        if bad:
            cat = 'fix' if self.wasfx or t['fx'] or \
                e['op'] in ('fix', 'unfix') else 'src'
            return bad if cat == self.focus else vlib.SKIP
        self.wasfx = t['fx']

    wasfx = False


def q(x):
    v = float(x) * 4
    return round(v) if abs(v - round(v)) < 1e-3 else -99


def random_trace(rng, focus, n):
    kind = rng.choice(['one', 'one', 'diff', 'hot', 'route'])
    k = rng.randint(1, 5) if kind in ('one', 'diff') else rng.randint(2, 4)
    c = cfg(kind, k, rng.choice([1, 2, 3, 4]), rng.random() < .7,
            rng.randint(1, k) if kind == 'route' else 1)
    o = Obj(c, rng, focus)
    ev, fixed = [], False
    for _ in range(n):
        ops = ['assign', 'fwd', 'unfix']
        if kind == 'one':
            ops += ['assign'] if o.m.is_fixed else ['sample', 'assign']
        else:
            ops += ['fwdp', 'fwdp'] if k <= 4 else []
            ops += ['tops'] if not o.m.is_fixed else []
        if rng.random() < (.35 if focus == 'fix' else .1):
            ops = ['fix']
        e = dict(op=rng.choice(ops), v=[], p=[])
        if e['op'] == 'assign':
            e['v'] = [rng.randint(1, k + (rng.random() < .2))]
        elif e['op'] == 'fix':
            m = rng.randint(1, k) if kind in ('diff', 'route') else 1
            e['v'] = rng.sample(range(1, k + 1), m)
            if rng.random() < .2:
                e['v'][rng.randrange(m)] = k + 1
        elif e['op'] == 'fwdp':
            p = [1] * k
            for _ in range(4 - k):
                p[rng.randrange(k)] += 1
            # quarters must add up to 4
            e['p'] = p
            if sum(p) != 4:
                continue
            if kind == 'hot' and sorted(p)[-1] == sorted(p)[-2] \
                    and c['thr'] == 0:
                continue
        elif e['op'] == 'tops':
            e['p'] = rng.sample(range(-5, 20), k)
        e['ok'] = o.do(e)
        e['out'] = o.out
        e['obs'] = o.obs()
        ev.append(e)
    return dict(par=dict(c, foc=focus), ev=ev)


def run_focus(ctx, focus):
    cfgs = [cfg('one', 1), cfg('one', 3), cfg('diff', 3), cfg('hot', 2, 2),
            cfg('hot', 3, 1), cfg('route', 3, num=2),
            cfg('route', 2, arch=False)]
    g = vlib.graph(ctx, 'Operations', dict(Configs='<- CfgDef'),
                   defs='CfgDef == ' + vlib.tla(cfgs),
                   invariants=['FixedComputesKept', 'UnknownNeverRuns'],
                   props=['FixedForEver', 'RefusedChangesNothing'],
                   timeout=300)
    vlib.replay(ctx, g,
                lambda s: Obj(cfgs[s['ci'] - 1], ctx.rng, focus), maxlen=25,
                desc='Operations', budget=20000 if ctx.quick else 300000)
    traces = [t for t in (ctx.guard(random_trace, ctx.rng, focus, 25,
                                    desc='random history')
                          for _ in range(300 if ctx.quick else 5000))
              if t and t['ev']]
    vlib.validate(ctx, 'OperationsTrace', traces,
                  what='recorded operation history')
    ctx.sample(traces[0]['ev'][:3])
