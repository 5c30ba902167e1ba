"""C17: Candidates lists."""
import copy
import json
import os
import pickle
import tempfile

import vlib

KEYS = ['score', 'flops', 'params', 'latency']
# subnets of different shapes; 5 equals 1 (another object)
SUBS = {
    1: {'1': 'choice1', '2': 'choice2'},
    2: {1: 'a', 'b': 2.5},
    3: {'width': (1, 2), 'list': [1, 2], 'n': None},
    4: {'backbone.conv1_(0, 3)_3': 8, "q'uote": -1, 'f': 0.125},
}
SC = dict(score=0.003, flops=0.5, params=1, latency=0.25)


class Obj:

    def __init__(self, rng):
        from mmrazor.structures import Candidates
        self.C, self.rng = Candidates, rng
        self.li = {1: Candidates(), 2: Candidates()}

    def item(self, it):
        s = copy.deepcopy(SUBS[it['sub']])
        if not it['m']:
            return s
        return {str(s): {x['k']: self.val(x['k'], x['v']) for x in it['m']}}

    def val(self, k, v):
        return v if v in (-1, 0) else v * SC[k]

    def unval(self, k, v):
        if v in (-1, 0):
            return int(v)
        x = v / SC[k]
        return int(round(x)) if abs(x - round(x)) < 1e-6 else -99

    def do(self, e):
        op, x, y, li = e['op'], e['x'], e['y'], self.li
        o = dict(e, ok=True, perm=[])
        arr = [self.item(i) for i in e['items']] if op != 'update' else None
        try:
            if op == 'new':
                if len(arr) == 1 and self.rng.random() < .5:
                    li[x] = self.C(arr[0])
                else:
                    li[x] = self.C(arr)
            elif op == 'append':
                r = li[x].append(arr[0])
            elif op == 'appendlist':
                li[x].append(arr)
            elif op == 'extend':
                if len(arr) == 1 and self.rng.random() < .5:
                    li[x].extend(arr[0])
                elif self.rng.random() < .5:
                    li[x].extend(self.C(arr))
                else:
                    li[x].extend(arr)
            elif op == 'insert':
                li[x].insert(e['a'], arr[0])
            elif op == 'extendlist':
                r = self.rng.random()
                if r < .3:
                    li[x] = li[x] + li[y]
                elif r < .6:
                    li[x].extend(list(li[y].data))
                else:
                    li[x].extend(li[y])
            elif op == 'appendc':
                li[x].append(li[y])
            elif op == 'slice':
                if self.rng.random() < .5:
                    li[x] = li[y][e['a']:e['b']]
                else:
                    li[x] = self.C(li[y].data[e['a']:e['b']])
            elif op == 'copy':
                li[x] = self.rng.choice([lambda c: c.copy(), copy.copy,
                                         self.C])(li[y])
            elif op == 'rebuild':
                li[x] = self.C(li[y].data[:])
            elif op == 'save':
                r = self.rng.random()
                if r < .3:
                    li[x] = copy.deepcopy(li[y])
                elif r < .6:
                    li[x] = pickle.loads(pickle.dumps(li[y]))
                elif r < .8:
                    from mmengine import fileio
                    with tempfile.TemporaryDirectory() as d:
                        p = os.path.join(d, 'c.pkl')
                        fileio.dump(dict(c=li[y].data), p)
                        li[x] = self.C(fileio.load(p)['c'])
                else:
                    li[x] = self.C(json.loads(json.dumps(li[y].data)))
            elif op == 'set':
                v = self.val(e['k'], e['v'])
                if e['k'] == 'score' and self.rng.random() < .5:
                    li[x].set_score(e['a'], v)
                elif e['k'] == 'flops' and self.rng.random() < .5:
                    li[x].set_resource(e['a'], v)
                else:
                    li[x].set_resource(e['a'], v, e['k'])
            elif op == 'update':
                rs = [{q['k']: self.val(q['k'], q['v']) for q in r}
                      for r in e['items']]
                if e['a'] == 0 and self.rng.random() < .5:
                    li[x].update_resources(rs)
                else:
                    li[x].update_resources(rs, start=e['a'])
            elif op == 'sort':
                old = [id(d) for d in li[x].data]
                if e['k'] == 'score' and e['a'] == 1 and \
                        self.rng.random() < .5:
                    li[x].sort_by()
                else:
                    li[x].sort_by(e['k'], reverse=bool(e['a']))
                used = set()
                for d in li[x].data:
                    k = [j for j, i in enumerate(old)
                         if i == id(d) and j not in used]
                    if not k:       # entries were copied: match by value
                        o['perm'] = None
                        break
                    used.add(k[0])
                    o['perm'].append(k[0] + 1)
            elif op == 'del':
                if self.rng.random() < .5:
                    del li[x][e['a']]
                else:
                    li[x].pop(e['a'])
        except (IndexError, AssertionError):
            o['ok'] = False
        return o

    def obs(self):
        """Both lists as their views show them; a text when the views do not
        agree with each other."""
        res = []
        for x in (1, 2):
            c = self.li[x]
            if type(c) is not self.C:
                return f'list {x} has become a {type(c).__name__}'
            n = len(c)
            subs = c.subnets if n else []
            if not n:
                try:
                    c.subnets
                    return 'an empty list delivers subnets'
                except AssertionError:
                    pass
            views = {k: c.resources(k) for k in KEYS[1:]}
            views['score'] = raw = [list(d.values())[0]['score']
                                    for d in c.data]
            if c.scores != [round(s, 2) for s in raw]:
                return f'scores {c.scores} of entries with scores {raw}'
            if c.resources() != views['flops']:
                return 'resources() is not the flops view'
            if any(len(v) != n for v in views.values()) or len(subs) != n:
                return (f'views of {n} entries have lengths '
                        f'{[len(v) for v in views.values()]}, {len(subs)}')
            out = []
            for i in range(n):
                sid = [k for k, s in SUBS.items() if s == subs[i]]
                out.append(dict(sub=sid[0] if sid else -1, m={
                    k: self.unval(k, views[k][i]) for k in KEYS}))
            res.append(out)
        return res

    def step(self, e, t):
        o = self.do(e)
        if o['ok'] != e['ok']:
            return f'{e["op"]} {"succeeded" if o["ok"] else "failed"}'
        got = self.obs()
        want = [[t['heap'][c - 1] for c in t['li'][x]] for x in (0, 1)]
        if got != want:
            return f'{e["op"]}: lists {got}, specification {want}'


def random_trace(rng, n):
    o = Obj(rng)
    ev = []
    shadow = {1: [], 2: []}     # entries as identities, for the guards only
    nid = [0]

    def ids(k):
        nid[0] += k
        return list(range(nid[0] - k, nid[0]))

    def item():
        m = []
        if rng.random() < .6:
            m = [dict(k=k, v=rng.randint(0, 60)) for k in
                 rng.sample(KEYS, rng.randint(1, 4))]
        return dict(sub=rng.choice(list(SUBS)), m=m)

    def once(c):
        return sum(v.count(c) for v in shadow.values()) == 1

    for _ in range(n):
        x, y = rng.choice([(1, 2), (2, 1), (1, 1), (2, 2)])
        L = shadow[x]
        e = dict(op='', x=x, y=y, a=0, b=0, items=[], k='', v=0)
        op = rng.choice('new append append appendlist extend insert insert '
                        'extendlist appendc slice copy rebuild save save set '
                        'set set set update update sort sort sort del'
                        .split())
        if len(L) > 12 and op in ('extendlist', 'appendc', 'appendlist'):
            op = 'slice'
        e['op'] = op
        if op in ('new', 'append', 'appendlist', 'extend', 'insert'):
            k = 1 if op in ('append', 'insert') else rng.randint(1, 4)
            e['items'] = [item() for _ in range(k)]
            new = ids(k)
            if op == 'new':
                shadow[x] = new
            elif op == 'insert':
                e['a'] = rng.randint(0, len(L))
                L[e['a']:e['a']] = new
            else:
                shadow[x] = L + new
        elif op in ('extendlist', 'appendc'):
            if not shadow[y]:
                continue
            shadow[x] = L + shadow[y]
        elif op == 'slice':
            a = rng.randint(0, len(shadow[y]))
            b = rng.randint(a, len(shadow[y]) + 2)
            e.update(a=a, b=b)
            shadow[x] = shadow[y][a:b]
        elif op in ('copy', 'rebuild'):
            shadow[x] = list(shadow[y])
        elif op == 'save':
            if len(set(shadow[y])) < len(shadow[y]):
                continue
            shadow[x] = ids(len(shadow[y]))
        elif op == 'set':
            i = rng.randint(-len(L) - 1, len(L))
            if -len(L) <= i < len(L) and not once(L[i]):
                continue
            e.update(a=i, k=rng.choice(KEYS), v=rng.randint(-1, 60))
        elif op == 'update':
            a = rng.randint(0, len(L))
            k = rng.randint(0, 3)
            if not all(once(c) for c in L[a:a + k]):
                continue
            e.update(a=a, items=[
                [dict(k=q, v=rng.randint(0, 60))
                 for q in rng.sample(KEYS, rng.randint(1, 3))]
                for _ in range(k)])
        elif op == 'sort':
            e.update(k=rng.choice(KEYS), a=rng.randint(0, 1))
        elif op == 'del':
            i = rng.randint(-len(L), len(L))
            e['a'] = i
            if -len(L) <= i < len(L):
                del L[i]
        r = o.do(e)
        r['obs'] = o.obs()
        if op == 'sort':
            if r['perm'] is None or len(r['perm']) != len(L):
                # entries were replaced: recover the order from the contents
                r['perm'] = match(ev[-1]['obs'][x - 1] if ev else [],
                                  r['obs'][x - 1])
            shadow[x] = [L[p - 1] for p in r['perm'] if p <= len(L)]
        ev.append(r)
    return dict(par=dict(n=0), ev=ev)


def match(old, new):
    used, perm = set(), []
    for d in new:
        k = [j for j, o in enumerate(old) if o == d and j not in used]
        if not k:
            return []
        used.add(k[0])
        perm.append(k[0] + 1)
    return perm


def run(ctx):
    big = not ctx.quick
    g = vlib.graph(ctx, 'Candidates', dict(
        Subs='{1, 2}' if big else '{1}', Vals='{5, 6}',
        Keys='{"score"}', MaxLen=2),
        invariants=['RefsLive'],
        props=['OnlyAddressed', 'SortKeeps', 'RefusedChangesNothing'],
        timeout=800, mem='8g')
    vlib.replay(ctx, g, lambda s: Obj(ctx.rng), maxlen=60,
                desc='Candidates', budget=60000 if ctx.quick else 600000)
    traces = [t for t in (ctx.guard(random_trace, ctx.rng, 40,
                                    desc='random history')
                          for _ in range(600 if ctx.quick else 6000)) if t]
    vlib.validate(ctx, 'CandidatesTrace', traces,
                  what='recorded Candidates history')
    ctx.sample(traces[0]['ev'][:3])
