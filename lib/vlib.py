"""Shared machinery: running TLC, state-graph walks, trace validation, verdicts.

Every check is `drivers/cNN.py` with a function run(ctx).  ctx collects what
was explored and the violations; finish() writes the evidence file, prints
VIOLATION / KNOWN-FINDING lines and gives the exit status.
"""
import collections
import contextlib
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = '/repo'
TLA_CP = ('/opt/veriftools/tla/tla2tools.jar:'
          '/opt/veriftools/tla/CommunityModules-deps.jar')


SKIP = object()     # step(): the real code leaves the specification in a way
#                     that is another property's business; end this walk


class Machinery(Exception):
    """The machinery itself failed (never a verdict about the code)."""


# ---------------------------------------------------------------- TLC

class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r'(\d+) states generated, (\d+) distinct states', out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        m = re.findall(r'depth of the complete state graph search is (\d+)',
                       out)
        self.depth = int(m[-1]) if m else 0
        self.ok = 'Model checking completed. No error has been found' in out
        m = re.search(r'Error: (.*)', out)
        self.error = m.group(1) if m else None

    def prints(self, tag):
        """Payloads of PrintT(tag \\o ToJson(..)) lines."""
        res = []
        pre = '"' + tag + ' '
        for line in self.out.splitlines():
            if line.startswith(pre):
                res.append(json.loads(json.loads(line)[len(tag) + 1:]))
        return res

    def coverage(self):
        """action -> (distinct, generated) from -coverage output."""
        cov = {}
        for m in re.finditer(r'^<(\w+) line [^>]*>: (\d+):(\d+)', self.out,
                             re.M):
            cov[m.group(1)] = (int(m.group(2)), int(m.group(3)))
        return cov


def tlc(module, cfg, env=None, workers=1, timeout=600, mem='3g', args=(),
        must_pass=True, defs=None):
    """Run TLC on spec/<module>.tla with the configuration text `cfg`; `defs`
    is TLA+ text of definitions the configuration substitutes for
    constants."""
    d = tempfile.mkdtemp(prefix='vtlc')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, 'run.cfg'), 'w') as f:
            f.write(cfg)
        if defs is not None:
            with open(os.path.join(d, 'MCrun.tla'), 'w') as f:
                f.write(f'---- MODULE MCrun ----\nEXTENDS {module}\n'
                        f'{defs}\n====\n')
            module = 'MCrun'
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{mem}', '-Xss16m',
               f'-Djava.io.tmpdir={d}', '-cp', TLA_CP,
               'tlc2.TLC', '-workers', str(workers), '-metadir',
               os.path.join(d, 'meta'), '-noGenerateSpecTE', '-config',
               'run.cfg', *args, module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout,
                               text=True)
        except subprocess.TimeoutExpired:
            raise Machinery(f'TLC timed out on {module}')
        res = TLCResult(p.stdout, p.returncode)
        if must_pass and not res.ok:
            tail = '\n'.join(l for l in p.stdout.splitlines()
                             if not l.startswith('"'))[-6000:]
            raise Machinery(f'TLC failed on {module}:\n{tail}')
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cfg(init='Init', next='Next', consts=None, invariants=(), props=(),
        view=None, action_constraint=None, constraint=None, spec=None,
        post=None, deadlock=False, extra=''):
    s = []
    if spec:
        s.append(f'SPECIFICATION {spec}')
    else:
        s += [f'INIT {init}', f'NEXT {next}']
    for k, v in (consts or {}).items():
        s.append(f'CONSTANT {k} {v}' if str(v).startswith('<-')
                 else f'CONSTANT {k} = {v}')
    for i in invariants:
        s.append(f'INVARIANT {i}')
    for i in props:
        s.append(f'PROPERTY {i}')
    if view:
        s.append(f'VIEW {view}')
    if action_constraint:
        s.append(f'ACTION_CONSTRAINT {action_constraint}')
    if constraint:
        s.append(f'CONSTRAINT {constraint}')
    if post:
        s.append(f'POSTCONDITION {post}')
    if not deadlock:
        s.append('CHECK_DEADLOCK FALSE')
    return '\n'.join(s) + '\n' + extra + '\n'


def tla(v):
    """Python value -> TLA+ expression text."""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla(x) for x in v) + '>>'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(sorted(tla(x) for x in v)) + '}'
    if isinstance(v, dict):
        return '[' + ', '.join(f'{k} |-> {tla(x)}'
                               for k, x in v.items()) + ']'
    raise Machinery(f'cannot express {v!r}')


def canon(v):
    return json.dumps(v, sort_keys=True)


# ------------------------------------------------- state graph and walks

class Graph:
    """Labelled state graph emitted by TLC through an ACTION_CONSTRAINT that
    prints  EDGE [lv, s, e, t]."""

    def __init__(self, edges):
        self.states, self.out, self.init = {}, collections.OrderedDict(), []
        seen = set()
        self.edges = []
        for ed in edges:
            s, t = canon(ed['s']), canon(ed['t'])
            self.states[s], self.states[t] = ed['s'], ed['t']
            k = (s, canon(ed['e']), t)
            if ed['lv'] == 1 and s not in self.init:
                self.init.append(s)
            if k in seen:
                continue
            seen.add(k)
            self.edges.append(k)
            self.out.setdefault(s, []).append((ed['e'], t, len(self.edges) - 1))

    def walks(self, maxlen, rng, budget=None):
        """Walks from initial states that cover every edge (or, with a
        budget, as many as fit), each at most maxlen long (a walk may exceed
        it to reach an uncovered edge deeper than that)."""
        covered = [False] * len(self.edges)
        # shortest way from the initial states
        dist, par = {}, {}
        dq = collections.deque()
        for i in self.init:
            dist[i] = 0
            dq.append(i)
        while dq:
            s = dq.popleft()
            for e, t, k in self.out.get(s, []):
                if t not in dist:
                    dist[t] = dist[s] + 1
                    par[t] = (s, e, t, k)
                    dq.append(t)
        order = sorted(range(len(self.edges)),
                       key=lambda k: dist.get(self.edges[k][0], 1 << 30))
        todo_out = {s: [x for x in o] for s, o in self.out.items()}
        for o in todo_out.values():
            rng.shuffle(o)
        steps = 0
        for k0 in order:
            if covered[k0]:
                continue
            if budget is not None and steps >= budget:
                break
            s, ejson, t = self.edges[k0]
            prefix = []
            cur = s
            while cur in par:
                prefix.append(par[cur])
                cur = par[cur][0]
            prefix.reverse()
            walk = [(p[1], p[2]) for p in prefix]
            start = cur
            for p in prefix:
                covered[p[3]] = True
            walk.append((json.loads(ejson), t))
            covered[k0] = True
            cur = t
            while len(walk) < maxlen:
                lst = todo_out.get(cur, [])
                nxt = None
                while lst:
                    c = lst.pop()
                    if not covered[c[2]]:
                        nxt = c
                        break
                if nxt is None:
                    # short look-ahead for an uncovered edge
                    nxtp = self._near(cur, covered, todo_out, 3)
                    if nxtp is None:
                        break
                    for c in nxtp:
                        covered[c[2]] = True
                        walk.append((c[0], c[1]))
                        cur = c[1]
                    continue
                covered[nxt[2]] = True
                walk.append((nxt[0], nxt[1]))
                cur = nxt[1]
            steps += len(walk)
            yield self.states[start], [(e, self.states[t]) for e, t in walk]
        self.covered = sum(covered)

    def _near(self, cur, covered, todo_out, depth):
        q = collections.deque([(cur, [])])
        seen = {cur}
        n = 0
        while q:
            s, p = q.popleft()
            if len(p) >= depth:
                continue
            for c in self.out.get(s, []):
                n += 1
                if n > 400:
                    return None
                if not covered[c[2]]:
                    return p + [c]
                if c[1] not in seen:
                    seen.add(c[1])
                    q.append((c[1], p + [c]))
        return None


def graph(ctx, module, consts, init='Init', next='Next', emit='Emit',
          view='Vars', invariants=(), constraint=None, timeout=600, mem='4g',
          props=(), defs=None):
    """Exhaustively explore spec/<module>.tla, check its invariants, and
    return the labelled state graph."""
    r = tlc(module, cfg(init, next, consts, invariants=invariants, view=view,
                        action_constraint=emit, constraint=constraint,
                        props=props),
            timeout=timeout, mem=mem, defs=defs)
    g = Graph(r.prints('EDGE'))
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.note_model(module, r, len(g.edges))
    return g


def model(ctx, module, cfgtext, **kw):
    """Exhaustive model checking run counted in the evidence."""
    r = tlc(module, cfgtext, **kw)
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.note_model(module, r, None)
    return r


# ------------------------------------------------- trace validation

def validate(ctx, module, traces, consts=None, batch=400, timeout=600,
             what='trace', mem='4g', keyfn=None):
    """Check recorded traces of the real code against spec/<module>.tla (a
    trace specification printing VERDICT [tr, l, bad] once per trace, bad=""
    when every step is a step of the specification).  Each trace is
    dict(par=..., ev=[...]).  Violations are reported to ctx."""
    from concurrent.futures import ThreadPoolExecutor
    groups = [traces[b:b + batch] for b in range(0, len(traces), batch)]

    def one(group):
        with tempfile.NamedTemporaryFile('w', suffix='.json',
                                         delete=False) as f:
            json.dump(group, f)
        try:
            return tlc(module, cfg('TraceInit', 'TraceNext', dict(
                {'Start': '<- TStart', 'Step': '<- TStep'}, **(consts or {}))),
                       env={'TRACE_FILE': f.name}, timeout=timeout, mem=mem)
        finally:
            os.unlink(f.name)

    with ThreadPoolExecutor(4) as ex:
        results = list(ex.map(one, groups))
    nbad = 0
    for group, r in zip(groups, results):
        ver = {}
        for v in r.prints('VERDICT'):
            ver.setdefault(v['tr'], v)
        for i, t in enumerate(group):
            v = ver.get(i + 1)
            if v is None:
                raise Machinery(f'{module}: no verdict for trace {i}')
            ctx.traces += 1
            ctx.events += v['l']
            if v['bad'] == 'skip':
                ctx.counts['aborted'] += 1
            elif v['bad'] != '':
                nbad += 1
                ev = t['ev'][v['l'] - 1] if 0 < v['l'] <= len(t['ev']) \
                    else None
                ctx.violation(
                    f'{what}: step {v["l"]} of a recorded history is not a '
                    f'step of {module}: {v["bad"]}',
                    dict(module=module, clause=v['bad'], step=v['l'],
                         event=ev, expected=v.get('exp'), trace=t),
                    key=keyfn(t, v) if keyfn else None)
        ctx.states += r.distinct
        ctx.transitions += r.generated
    ctx.note('trace validation', module=module, traces=len(traces))
    return nbad


def replay(ctx, g, make, maxlen=40, desc='replay', budget=None, keyfn=None):
    """Replay walks covering every edge of the specification's state graph
    through the real code.  make(state) builds the real object in that
    initial state; obj.step(event, expected_state) performs the event and
    returns None or the description of a disagreement."""
    n = steps = bad = 0
    for s0, walk in g.walks(maxlen, ctx.rng, budget):
        done = []
        try:
            obj = make(s0)
            for e, t in walk:
                done.append(e)
                r = obj.step(e, t)
                if r is SKIP:
                    ctx.counts['aborted'] += 1
                    break
                if r:
                    bad += 1
                    ctx.violation(
                        f'{desc}: after {len(done)} steps the real code '
                        f'disagrees with the specification: {r}',
                        dict(start=s0, events=done, expected=t),
                        key=keyfn(s0, done, r) if keyfn else None)
                    break
        except Machinery:
            raise
        except Exception as ex:  # noqa
            tb = traceback.format_exc()
            if '/repo/mmrazor/' not in tb:
                raise
            bad += 1
            ctx.violation(f'{desc}: unexpected {type(ex).__name__}: {ex}',
                          dict(start=s0, events=done, tb=tb),
                          key=keyfn(s0, done, str(ex)) if keyfn else None)
        finally:
            if hasattr(locals().get('obj'), 'close'):
                obj.close()
                obj = None
        n += 1
        steps += len(done)
        if n <= 1:
            ctx.sample(dict(start=s0, events=done[:12]))
        if bad > 30:
            break
    ctx.replayed(n, steps)
    ctx.note('replay', desc=desc, walks=n, steps=steps,
             edges=len(g.edges), covered=getattr(g, 'covered', None))
    return bad


# ------------------------------------------------- the check context

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f'{prop}/{seed}')
        self.quick = tier != 'thorough'
        self.states = self.transitions = self.traces = self.events = 0
        self.violations, self.findings = [], []
        self.notes, self.samples = [], []
        self.counts = collections.Counter()
        self.t0 = time.time()
        self.known = load_known(prop)
        self.outdir = os.path.join(VERIF, 'out', prop)
        shutil.rmtree(self.outdir, ignore_errors=True)
        os.makedirs(self.outdir, exist_ok=True)

    def note(self, what, **kw):
        self.notes.append(dict(what=what, **kw))

    def note_model(self, module, r, edges):
        self.notes.append(dict(what='model', module=module,
                               distinct=r.distinct, generated=r.generated,
                               depth=r.depth, edges=edges))

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)

    def replayed(self, n=1, steps=0):
        """n specification behaviours were replayed through the real code."""
        self.traces += n
        self.events += steps

    def elapsed(self):
        return time.time() - self.t0

    def violation(self, desc, data=None, key=None):
        """key identifies the failing input/call site/history, for the
        known-findings file."""
        if key is not None and key in self.known:
            if key not in [f[0] for f in self.findings]:
                self.findings.append((key, self.known[key]))
            return
        if len(self.violations) < 50:
            self.violations.append((desc, data, key))

    @contextlib.contextmanager
    def cut(self, desc, data=None, key=None):
        """Code under test: whatever it raises here breaks the property."""
        try:
            yield
        except Machinery:
            raise
        except Exception as e:  # noqa
            self.violation(f'{desc}: unexpected {type(e).__name__}: {e}',
                           dict(data=data, tb=traceback.format_exc()), key)

    def guard(self, fn, *a, desc='', data=None, key=None, **kw):
        """Run one conformance case; an exception that passes through the code
        under test is a violation, any other is a machinery failure."""
        try:
            return fn(*a, **kw)
        except Machinery:
            raise
        except Exception as e:  # noqa
            tb = traceback.format_exc()
            if '/repo/mmrazor/' not in tb:
                raise
            self.violation(
                f'{desc or fn.__name__}: unexpected '
                f'{type(e).__name__}: {e}', dict(data=data, tb=tb), key)
            return None

    def finish(self):
        ev = dict(
            property=self.prop, tier='quick' if self.quick else 'thorough',
            seed=self.seed, level='model_checking',
            coverage=dict(
                states=self.states, transitions=self.transitions,
                traces_validated_against_impl=self.traces,
                events_compared=self.events,
                counts=dict(self.counts),
                samples=self.samples[:8] or ['-'],
                runs=self.notes[:200]),
            violations=len(self.violations),
            known_findings=[k for k, _ in self.findings],
            wall_s=round(self.elapsed(), 1))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'),
                  'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k, d in self.findings:
            print(f'KNOWN-FINDING: property={self.prop} {d} [{k}]')
        for i, (desc, data, key) in enumerate(self.violations):
            p = os.path.join(self.outdir, f'violation{i}.json')
            with open(p, 'w') as f:
                json.dump(dict(property=self.prop, what=desc, key=key,
                               data=data), f, indent=1, default=str)
            if i < 10:
                print(f'VIOLATION property={self.prop} replay={p}')
                print('  ' + desc[:600].replace('\n', '\n  '))
        print(f'{self.prop}: states={self.states} '
              f'transitions={self.transitions} '
              f'traces={self.traces} events={self.events} '
              f'violations={len(self.violations)} '
              f'wall={self.elapsed():.1f}s')
        sys.stdout.flush()
        return 1 if self.violations else 0


def load_known(prop):
    """known_findings.txt:  `finding: property=<id> key=<key> <description>`
    lines suppress exactly that key; `fixed:` lines suppress nothing."""
    p = os.path.join(VERIF, 'known_findings.txt')
    res = {}
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    return res


def main(prop, run, level_tier=None):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(prop, tier, seed)
    try:
        import mmrazor.models  # noqa: F401  (parts of mmrazor need it first)
        run(ctx)
    except Machinery as e:
        print('MACHINERY', e)
        if not ctx.violations:
            sys.exit(2)
    except Exception as e:  # noqa
        tb = traceback.format_exc()
        if '/repo/mmrazor/' in tb:
            ctx.violation(f'unexpected {type(e).__name__}: {e}',
                          dict(tb=tb))
        else:
            print(tb)
            if not ctx.violations:
                sys.exit(2)
    sys.exit(ctx.finish())
