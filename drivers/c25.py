"""C25: deploying, saving and loading quantized networks (Deploy.tla)."""
import os
import random
import shutil
import tempfile
import warnings

import c19
import net
import vlib

OPS = ['cal', 'train', 'save', 'load', 'deploy', 'deploy', 'adopt']


def can(q, op):
    return dict(cal=True, train=q['ready'], save=q['ready'], load=q['file'],
                deploy=q['ready'], adopt=q['load'])[op]


def life(job):
    import torch
    from torch.ao.quantization import (disable_observer, enable_fake_quant,
                                       enable_observer)
    from torch.ao.quantization.fake_quantize import FakeQuantizeBase
    from mmrazor.models.fake_quants import (enable_param_learning,
                                            enable_static_estimate,
                                            enable_val)
    seed, = job
    rng = random.Random(seed)
    kind = rng.choice(['ptq', 'ptq', 'lsq'])
    c = dict(kind=kind)
    ev = []
    par = dict(key=kind, seed=seed)
    root = tempfile.mkdtemp(prefix='c25')
    probe = torch.randn(24, 3, 6, 6,
                        generator=torch.Generator().manual_seed(seed)) * 1.5
    seen = []

    def build(s):
        return c19.algorithm(c, seed, only=[
            'TorchNative', 'OpenVINO', 'TensorRT'], modes=False, weights=s)

    def still(m):
        m.apply(enable_fake_quant)
        m.apply(disable_observer)
        m.apply(enable_val)
        m.eval()

    def ident(y):
        tol = 1e-5 * float(y.abs().max()) + 1e-7
        for i, z in enumerate(seen):
            near = (y - z).abs() <= tol
            if float(near.float().mean()) > .7:
                return i + 1
        seen.append(y)
        return len(seen)

    def snapshot(m):
        return ({k: v.clone() for k, v in m.state_dict().items()},
                [x.training for x in m.modules()])

    def layers(m, d):
        src = dict(m.qmodels['predict'].named_modules(
            remove_duplicate=False))
        ls, ties = [], []
        for n, x in d.named_modules():
            if not hasattr(x, 'weight_fake_quant'):
                continue
            o = src[n]
            w, b = o.weight.detach(), o.bias
            b = torch.zeros(w.shape[0]) if b is None else b.detach()
            if hasattr(o, 'bn'):
                k = o.bn.weight / torch.sqrt(o.bn.running_var + o.bn.eps)
                w = w * k.view(-1, *[1] * (w.dim() - 1))
                b = (b - o.bn.running_mean) * k + o.bn.bias
            f = o.weight_fake_quant
            s, z = f.scale.detach().flatten(), f.zero_point.detach().flatten()
            if s.numel() > 1:
                shape = [-1] + [1] * (w.dim() - 1)
                s, z = s.view(shape), z.view(shape)
            lo, hi = (f.quant_min - z) * s, (f.quant_max - z) * s
            # (a weight may fall exactly between two points of the grid)
            far = (x.weight - torch.clamp(w, lo, hi)).abs() > .505 * s + 1e-7
            step = x.weight / s
            off = (step - torch.round(step)).abs() > 1e-2
            out = (x.weight < lo - .01 * s) | (x.weight > hi + .01 * s)
            far = (far | off | out).float().mean()
            there = torch.clamp(torch.round(w / s) + z, f.quant_min,
                                f.quant_max) - z
            ties.append(int(((x.weight / s - there).abs() > .5).any()))
            again = x.weight_fake_quant(x.weight)
            at = ((x.weight - again).abs() > 1e-3 * s + 1e-7).float().mean()
            ls.append(dict(
                k=n, grid=int(float(far) < .02), at=int(float(at) < .02),
                bias=int(torch.allclose(
                    b.float(), x.bias if x.bias is not None else
                    torch.zeros_like(b), rtol=1e-3, atol=1e-5)),
                norm=int(hasattr(x, 'bn'))))
        acts = 1
        for n, x in d.named_modules():
            if isinstance(x, FakeQuantizeBase) and 'weight_fake' not in n:
                o = src.get(n)
                acts = int(acts and o is not None and torch.allclose(
                    x.scale.flatten().float(),
                    o.scale.detach().flatten().float()) and torch.equal(
                        x.zero_point.flatten().float().round(),
                        o.zero_point.detach().flatten().float().round()) and
                    x.quant_min == o.quant_min and
                    x.quant_max == o.quant_max)
        return dict(op='layers', ls=ls, acts=acts), sum(ties)

    try:
        with warnings.catch_warnings(), torch.no_grad():
            warnings.simplefilter('ignore')
            m, par['how'] = build(seed)
            q = dict(ready=0, file=0, load=0)
            load, deps = None, []
            path = os.path.join(root, 'net.pth')
            for t in range(rng.randint(3, 9)):
                op = rng.choice([o for o in OPS if can(q, o)])
                if t == 0:
                    op = 'cal'
                if op == 'cal':
                    m.eval()
                    m.apply(enable_fake_quant)
                    m.apply(enable_observer)
                    m.apply(enable_static_estimate)
                    for _ in range(rng.randint(1, 3)):
                        m.calibrate_step(dict(
                            inputs=torch.randn(3, 3, 6, 6) * (1 + t),
                            data_samples=None))
                    m.sync_qparams('predict')
                    q['ready'] = 1
                elif op == 'train':
                    deps = []
                    m.train()
                    m.apply(enable_fake_quant)
                    m.apply(disable_observer if kind == 'lsq' else
                            enable_observer)
                    m.apply(enable_param_learning)
                    opt = torch.optim.SGD(m.parameters(), lr=.05)
                    for _ in range(rng.randint(1, 2)):
                        with torch.enable_grad():
                            y = m(torch.randn(3, 3, 6, 6), None, 'loss')
                            (y - 1).pow(2).mean().backward()
                        opt.step()
                        opt.zero_grad()
                    m.sync_qparams('loss')
                elif op == 'save':
                    still(m)
                    torch.save(m.state_dict(), path)
                    q['file'] = 1
                elif op == 'load':
                    load, _ = build(seed + 1)
                    load.load_state_dict(torch.load(path))
                    q['load'] = 1
                elif op == 'adopt':
                    m, load = load, None
                    q['load'] = 0
                elif op == 'deploy':
                    still(m)
                    was = snapshot(m)
                    d = m.get_deploy_model()
                    now = snapshot(m)
                    same = was[0].keys() == now[0].keys() and all(
                        torch.equal(v, now[0][k]) for k, v in was[0].items()
                    )
                    d.eval()
                    e, tie = layers(m, d)
                    # (rounded the other way: outputs are not compared)
                    deps.append((d, tie))
                    ev.append(dict(op='deploy'))
                    ev.append(dict(op='source', same=int(same)))
                    ev.append(e)
                if op != 'deploy':
                    ev.append(dict(op=op))
                outs = []
                for h, x in [('live', m), ('load', load)]:
                    if x is not None:
                        still(x)
                        outs.append(dict(h=h, id=ident(x(
                            probe, None, 'predict').clone())))
                for i, (d, tie) in enumerate(deps):
                    outs.append(dict(h=str(i + 1), id=0 if tie else ident(
                        d(probe).clone())))
                ev.append(dict(op='outs', outs=outs))
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ev.append(dict(op='text', ok=0, what='%s: %s (%s)' % (
            type(e).__name__, str(e)[:120], tb.name)))
        if os.environ.get('C25_TB'):
            traceback.print_exc()
    finally:
        shutil.rmtree(root)
    return dict(par=par, ev=ev)


def run(ctx):
    import mmrazor.engine  # noqa: F401
    import mmrazor.models  # noqa: F401
    import mmrazor.structures  # noqa: F401
    rng = ctx.rng
    vlib.model(ctx, 'Deploy', vlib.cfg(
        'Init', 'Nxt', dict(Configs='<- CfgDef'),
        invariants=['Known', 'SameVersion'],
        props=['DeployedStays', 'LiveOnlyLearns'], view='Vars'),
        defs='CfgDef == ' + vlib.tla([dict(max=5 if ctx.quick else 7)]))
    jobs = [(rng.randrange(10 ** 9), )
            for _ in range(150 if ctx.quick else 1500)]
    vlib.validate(ctx, 'DeployTrace', net.pmap(life, jobs),
                  what='deployments', batch=40,
                  keyfn=lambda t, v: t['par'].get('key'))
