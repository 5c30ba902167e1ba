"""Real searchable values / channels and derived elements against
Elements.tla.  Focus: 'src' (C01), 'fix' (C02), 'der' (C03)."""
import vlib

REFUSED = (ValueError, AssertionError, AttributeError, RuntimeError, TypeError)


def val(kind, *cand):
    return dict(kind='val', n=0, cand=list(cand))


def chan(kind, n, *cand):
    return dict(kind=kind, n=n, cand=list(cand))


def der(op, *a, k=0, d=0):
    return dict(op=op, a=list(a), k=k, d=d)


def strip(c):
    return dict(src=[{k: v for k, v in s.items() if k != 'mode'}
                     for s in c['src']], der=c['der'])


class Obj:

    def __init__(self, cfg, rng, focus):
        self.cfg, self.rng, self.focus = cfg, rng, focus
        self.el = []
        for i, s in enumerate(cfg['src']):
            self.el.append(self.source(i, s))
        for d in cfg['der']:
            self.el.append(self.derived(d))

    def source(self, i, s):
        from mmrazor.models.mutables import (MutableValue, OneShotMutableValue,
                                             SimpleMutableChannel,
                                             SquentialMutableChannel)
        from mmrazor.models.mutables.mutable_channel import \
            OneShotMutableChannel
        if s['kind'] == 'val':
            ints = all(v % 4 == 0 for v in s['cand'])
            vals = [v // 4 if ints else v / 4 for v in s['cand']]
            r = self.rng.random()
            if r < .25 and not any(
                    d['op'] == 'mulval' and d['a'][1] == i + 1
                    for d in self.cfg['der']):
                return MutableValue(vals, default_value=vals[-1])
            self.rng.shuffle(vals)
            return OneShotMutableValue(vals)
        mode = s.get('mode', 'number')
        if s['kind'] == 'seq':
            return SquentialMutableChannel(s['n'], choice_mode=mode)
        if s['kind'] == 'osc':
            cand = [v if mode == 'number' else v / s['n'] for v in s['cand']]
            self.rng.shuffle(cand)
            return OneShotMutableChannel(s['n'], cand, choice_mode=mode)
        return SimpleMutableChannel(s['n'])

    def derived(self, d):
        from mmrazor.models.mutables import DerivedMutable
        a = self.el[d['a'][0] - 1]
        coin = self.rng.random()
        op, k = d['op'], d['k']
        plain = not isinstance(a, DerivedMutable)
        if op == 'same':
            return a.derive_same_mutable()
        if op == 'mul':
            ratio = k // 4 if k % 4 == 0 and coin < .7 else k / 4
            if plain and coin < .3:
                return a * ratio
            if plain and coin < .6:
                return ratio * a
            return a.derive_expand_mutable(ratio)
        if op == 'div':
            if d['d'] == 1 and coin < .5:
                return a.derive_divide_mutable(float(k))
            if d['d'] == 8 and coin < .3:
                return a.derive_divide_mutable(k)
            if plain and d['d'] == 8 and coin < .6:
                return a // self.rng.choice([k, float(k)])
            if plain and coin < .8:
                return a // (k, d['d'])
            return a.derive_divide_mutable(k, divisor=d['d'])
        if op == 'mulval':
            b = self.el[d['a'][1] - 1]
            if d['k']:      # the ratio given to derive_expand_mutable
                return a.derive_expand_mutable(b)
            if coin < .5:
                return b * a
            return a * b
        if op == 'cat':
            lst = [self.el[x - 1] for x in d['a']]
            return DerivedMutable.derive_concat_mutable(
                lst if coin < .5 else tuple(lst))
        assert op == 'repeat'
        return a.expand_mutable_channel(k)

    # ------------------------------------------------------------------
    def tochoice(self, i, v):
        s = self.cfg['src'][i]
        if s['kind'] == 'val':
            v = v[0]
            ints = all(c % 4 == 0 for c in s['cand'])
            return v // 4 if ints and v % 4 == 0 else v / 4
        if s['kind'] == 'simple':
            import torch
            t = torch.tensor(v)
            return self.rng.choice([t, t.bool(), t.float()])
        v = v[0]
        if s.get('mode') == 'ratio' and v > 0 and (
                s['kind'] == 'osc' or self.rng.random() < .8):
            return v / s['n']
        return v

    def do(self, e):
        op, i = e['op'], e['i'] - 1
        m = self.el[i] if i >= 0 else None
        self.out = []
        try:
            if op == 'assign':
                m.current_choice = self.tochoice(i, e['v'])
            elif op == 'fix':
                m.fix_chosen(self.tochoice(i, e['v']))
            elif op == 'fixasis':
                if self.cfg['src'][i]['kind'] == 'simple':
                    m.fix_chosen()
                elif self.rng.random() < .5:
                    m.fix_chosen()
                else:
                    m.fix_chosen(m.current_choice)
            elif op == 'unfix':
                m.is_fixed = False
            elif op == 'setder':
                m.current_choice = m.current_choice
            elif op == 'maskder':
                m.current_mask = None
            elif op == 'unfixder':
                m.is_fixed = bool(self.rng.getrandbits(1))
            elif op == 'fixder':
                m.fix_chosen(m.current_choice)
            elif op == 'enum':
                self.out = [int(4 * x) for x in m.choices]
            elif op == 'sample':
                x = m.sample_choice() if hasattr(m, 'sample_choice') \
                    else self.rng.choice(m.choices)
                self.out = [int(4 * x)]
        except REFUSED as ex:
            if op in ('enum', 'sample', 'fixder'):
                self.err = repr(ex)
            return False
        return True

    def report(self):
        res = []
        ns = len(self.cfg['src'])
        for i, m in enumerate(self.el):
            has, mk, ch = False, [], -1
            kind = self.cfg['src'][i]['kind'] if i < ns else 'der'
            c = m.current_choice
            if kind == 'val':
                ch = q4(c)
                cand = self.cfg['src'][i]['cand']
                if sorted(q4(x) for x in m.choices) != cand or \
                        m.num_choices != len(cand):
                    ch = -99
                if hasattr(m, 'max_choice') and (
                        q4(m.max_choice) != cand[-1] or
                        q4(m.min_choice) != cand[0]):
                    ch = -97
            else:
                if kind != 'der' or m.mask_fn is not None:
                    has = True
                    mk = [int(x) for x in m.current_mask]
                if kind in ('seq', 'osc'):
                    n = self.cfg['src'][i]['n']
                    ch = q4(c) if m.is_num_mode else 4 * round(c * n) \
                        if abs(c * n - round(c * n)) < 1e-6 else -99
                    if m.activated_channels * 4 != ch:
                        ch = -96
                elif kind == 'der':
                    op = self.cfg['der'][i - ns]['op']
                    if op == 'repeat' or (op == 'same' and False):
                        if [int(x) for x in c] != mk:
                            ch = -95
                    else:
                        ch = q4(c)
                elif kind == 'simple':
                    if [int(x) for x in c] != mk or \
                            m.activated_channels != sum(mk):
                        ch = -94
            if self.focus == 'fix' and m.is_fixed and kind != 'der':
                x = m.dump_chosen().chosen
                if q4(x) != (ch if kind == 'val' else 4 * sum(mk)):
                    ch = -93
            res.append(dict(v=dict(ch=ch, mk=mk, has=has),
                            fx=bool(m.is_fixed)))
        return res

    def step(self, e, t):
        ns = len(self.cfg['src'])
        isfix = e['op'] in ('fix', 'fixasis', 'unfix')
        cat = 'fix' if isfix else 'der' if e['op'] == 'enum' else 'src'
        bad = None
        ok = self.do(e)
        rep = self.report()
        if ok != e['ok']:
            bad = f'{e["op"]} {"succeeded" if ok else "failed"}'
        elif rep[:ns] != e['rep'][:ns]:
            bad = (f'{e["op"]}: elements report {rep[:ns]}, specification '
                   f'{e["rep"][:ns]}')
        elif rep[ns:] != e['rep'][ns:]:
            cat = 'der'
            bad = (f'{e["op"]}: derived elements report {rep[ns:]}, '
                   f'specification {e["rep"][ns:]}')
        if bad:
            return bad if cat == self.focus else vlib.SKIP


def q4(x):
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        return -99
    return int(4 * x) if 4 * x == int(4 * x) else -99


def configs(focus):
    V = val('val', 4, 8, 12)
    H = val('val', 2, 4, 6)
    res = []
    if focus in ('src', 'fix'):
        res += [
            dict(src=[V, val('val', 4, 10)], der=[der('mul', 1, k=8)]),
            dict(src=[chan('seq', 3), chan('osc', 4, 2, 4)],
                 der=[der('same', 1)]),
            dict(src=[dict(chan('seq', 4), mode='ratio'),
                      dict(chan('osc', 8, 2, 5, 8), mode='ratio')], der=[]),
            dict(src=[chan('simple', 3), chan('osc', 3, 3)],
                 der=[der('repeat', 1, k=2)]),
        ]
    else:
        res += [
            dict(src=[V, val('val', 8, 40)], der=[
                der('same', 1), der('mul', 2, k=6), der('div', 4, k=2, d=8),
                der('mul', 4, k=12), der('div', 1, k=2, d=1)]),
            dict(src=[H], der=[der('mul', 1, k=8), der('mul', 1, k=6),
                               der('mul', 2, k=2)]),
            dict(src=[chan('seq', 4), H], der=[
                der('mulval', 1, 2), der('cat', 1, 3), der('mul', 4, k=2),
                der('div', 4, k=2, d=2)]),
            dict(src=[chan('osc', 10, 3, 7, 10), chan('seq', 2)], der=[
                der('div', 1, k=2, d=8), der('div', 1, k=2, d=1),
                der('cat', 4, 2, 3), der('mul', 5, k=8),
                der('repeat', 2, k=3)]),
            dict(src=[chan('simple', 3)], der=[der('repeat', 1, k=2)]),
        ]
    return res


def random_config(rng, focus):
    src = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(['val', 'val', 'seq', 'seq', 'osc', 'simple'])
        if k == 'val':
            step = rng.choice([4, 4, 1, 2])
            src.append(val('val', *sorted(rng.sample(
                [step * x for x in range(1, 40)], rng.randint(1, 4)))))
        else:
            n = rng.choice([1, 2, 3, 5, 8, 10, 16, 22, 24, 36])
            cand = sorted(rng.sample(range(1, n + 1),
                                     rng.randint(1, min(n, 4)))) \
                if k == 'osc' else []
            s = chan(k, n, *cand)
            if focus != 'der' and k != 'simple' and rng.random() < .4:
                s['mode'] = 'ratio'
            src.append(s)
    ders = []
    info = []   # (is channel, scalar, size)
    for s in src:
        info.append((s['kind'] != 'val', s['kind'] != 'simple' and
                     s.get('mode') != 'ratio', s['n']))
    for _ in range(rng.randint(1, 6) if focus == 'der' else rng.randint(0, 2)):
        i = rng.randrange(len(info))
        isch, sc, n = info[i]
        if not sc:
            if i < len(src) and src[i]['kind'] in ('simple', 'seq'):
                k = rng.randint(1, 3)
                ders.append(der('repeat', i + 1, k=k))
                info.append((True, False, n * k))
            continue
        op = rng.choice(['same', 'mul', 'mul', 'div', 'mulval', 'cat',
                         'repeat'])
        if op == 'mul':
            k = rng.choice([2, 4, 6, 8, 12, 1])
            ders.append(der(op, i + 1, k=k))
            info.append((isch, True, n * k // 4))
        elif op == 'div':
            k = rng.choice([1, 2, 3, 4])
            d = rng.choice([1, 2, 4, 8, 8, 1])
            ders.append(der(op, i + 1, k=k, d=d))
            info.append((isch, True, n))
        elif op == 'mulval':
            vs = [j for j, s in enumerate(src) if s['kind'] == 'val']
            if not vs or i >= len(src) or not isch:
                continue
            ders.append(der(op, i + 1, rng.choice(vs) + 1))
            info.append((True, True, n * 8))
        elif op == 'cat':
            cs = [j for j, x in enumerate(info) if x[0] and x[1]]
            if not cs:
                continue
            a = [rng.choice(cs) + 1 for _ in range(rng.randint(1, 3))]
            ders.append(der(op, *a))
            info.append((True, True, sum(info[x - 1][2] for x in a)))
        elif op == 'same':
            ders.append(der(op, i + 1))
            info.append(info[i])
        elif op == 'repeat' and i < len(src) and src[i]['kind'] == 'seq':
            k = rng.randint(1, 3)
            ders.append(der(op, i + 1, k=k))
            info.append((True, False, n * k))
    return dict(src=src, der=ders)


def random_trace(rng, focus, n):
    cfg = random_config(rng, focus)
    # sources that derived values multiply must be one-shot values
    o = Obj(cfg, rng, focus)
    ns, ne = len(cfg['src']), len(cfg['src']) + len(cfg['der'])
    srcs = {i: sources(cfg, i) for i in range(1, ne + 1)}
    fixed = set()
    ev = []
    for _ in range(n):
        i = rng.randint(1, ns)
        s = cfg['src'][i - 1]
        ops = ['assign'] * 8 + ['read', 'fix', 'unfix', 'fixasis']
        if focus == 'fix':
            ops += ['fix', 'unfix', 'fixasis']
        if s['kind'] == 'val':
            ops += ['sample']
        if ne > ns:
            ops += ['setder', 'maskder', 'unfixder', 'fixder', 'enum', 'enum']
        op = rng.choice(ops)
        if op in ('fix', 'fixasis') and focus != 'fix' and rng.random() < .7:
            op = 'assign'
        if op == 'fixasis' and s['kind'] == 'val':
            continue
        if op == 'assign' and i in fixed:
            continue
        v = []
        if op in ('assign', 'fix'):
            if s['kind'] == 'val':
                x = rng.choice(s['cand']) if rng.random() < .8 else \
                    rng.randint(-4, 160)
            elif s['kind'] == 'simple':
                x = [rng.randint(0, 1) for _ in range(s['n'])]
            elif s['kind'] == 'osc' and rng.random() < .8:
                x = rng.choice(s['cand'])
            else:
                x = rng.randint(1, s['n'] + rng.randint(0, 2))
            v = x if s['kind'] == 'simple' else [x]
        if op in ('setder', 'maskder', 'unfixder', 'fixder', 'enum'):
            i = rng.randint(ns + 1, ne)
            if op == 'enum':
                if any(cfg['src'][j - 1]['kind'] != 'val' for j in srcs[i]):
                    continue
        e = dict(op=op, i=i, v=v)
        e['ok'] = o.do(e)
        e['out'] = list(o.out)
        if op in ('fix', 'fixasis') and e['ok']:
            fixed.add(i)
        e['rep'] = o.report() if rng.random() < .7 or focus == 'fix' else []
        ev.append(e)
    if not ev or not ev[-1]['rep']:
        ev.append(dict(op='read', i=1, v=[], ok=True, out=[],
                       rep=o.report()))
    return dict(par=dict(strip(cfg), foc=focus), ev=ev)


def sources(cfg, i):
    ns = len(cfg['src'])
    if i <= ns:
        return {i}
    return set().union(*(sources(cfg, a) for a in cfg['der'][i - ns - 1]['a']))


def captured_trace(rng):
    """derive_expand_mutable(another mutable)."""
    cfg = dict(src=[val('val', 4, 8, 12), val('val', 8, 12)],
               der=[der('mulval', 1, 2, k=1)])
    o = Obj(cfg, rng, 'der')
    ev = []
    for _ in range(8):
        i = rng.randint(1, 2)
        e = dict(op='assign', i=i, v=[rng.choice(cfg['src'][i - 1]['cand'])],
                 out=[])
        e['ok'] = o.do(e)
        e['rep'] = o.report()
        ev.append(e)
    return dict(par=dict(strip(cfg), foc='der'), ev=ev)


def captured_key(t, v):
    """The known finding is exactly: the ratio of the moment of creation (the
    largest choice) is used for ever."""
    rep = t['ev'][v['l'] - 1]['rep']
    if rep[2]['v']['ch'] == rep[0]['v']['ch'] * 12 // 16 * 4:
        return 'mutable-ratio-captured'


def run_focus(ctx, focus):
    import mmrazor.models.mutables.derived_mutable as dm
    dm.print_log = lambda *a, **k: None     # noise only
    cfgs = configs(focus)
    props = dict(src=['RefusedChangesNothing', 'LastAccepted'],
                 fix=['FixedForEver', 'RefusedChangesNothing'],
                 der=['DerivedIsReadOnly'])[focus]
    g = vlib.graph(ctx, 'Elements', dict(Configs='<- CfgDef'),
                   defs='CfgDef == ' + vlib.tla([strip(c) for c in cfgs]),
                   invariants=['ChoiceLegal', 'KeptAreFirst',
                               'DerivedConsistent', 'EnumHasCurrent'],
                   props=props, timeout=300)
    vlib.replay(ctx, g,
                lambda s: Obj(cfgs[s['ci'] - 1], ctx.rng, focus), maxlen=40,
                desc='Elements', budget=20000 if ctx.quick else 400000)
    traces = [t for t in (ctx.guard(random_trace, ctx.rng, focus, 30,
                                    desc='random history')
                          for _ in range(500 if ctx.quick else 6000)) if t]
    vlib.validate(ctx, 'ElementsTrace', traces, what='recorded history')
    ctx.sample(traces[0]['par'])
    if focus == 'der':
        traces = [t for t in (ctx.guard(captured_trace, ctx.rng,
                                        desc='ratio given as mutable')
                              for _ in range(10)) if t]
        vlib.validate(ctx, 'ElementsTrace', traces, keyfn=captured_key,
                      what='element expanded by another element')
