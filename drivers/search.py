"""A small searchable algorithm, a runner and an evaluator for the search
loops (C14, C15, C16)."""
import random
import types

import torch
import torch.nn as nn


def quiet():
    return types.SimpleNamespace(info=lambda *a, **k: None,
                                 warning=lambda *a, **k: None)


class Data(torch.utils.data.Dataset):
    metainfo = dict()

    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return dict(inputs=torch.full((3, 4, 4), float(i)), data_samples=i)


def loader(n, batch):
    def collate(items):
        return dict(inputs=torch.stack([x['inputs'] for x in items]),
                    data_samples=[x['data_samples'] for x in items])
    return torch.utils.data.DataLoader(Data(n), batch_size=batch,
                                       collate_fn=collate)


CH = 4
SIDE = 4


def op_cost(k):
    """operations, parameters of candidate k (1x1, 3x3, 5x5, ... conv)."""
    p = (2 * k - 1) ** 2 * CH * CH + CH
    return p * SIDE * SIDE, p


def base_cost():
    p = 3 * CH + CH
    return p * SIDE * SIDE, p


def algorithm(ns, seed=0, kind='op'):
    """SPOS over len(ns) searchable operations with ns[g] candidates."""
    from mmengine.model import BaseModel
    from mmrazor.models.algorithms import BaseAlgorithm
    from mmrazor.models.mutators import NasMutator
    from mmrazor.registry import MODELS
    if not MODELS.get('torchConv2d'):
        MODELS.register_module(name='torchConv2d', module=nn.Conv2d)
    torch.manual_seed(seed)

    class Net(BaseModel):

        def __init__(self):
            super().__init__()
            self.stem = nn.Conv2d(3, CH, 1)
            for g, n in enumerate(ns):
                setattr(self, f'm{g}', MODELS.build(dict(
                    type='OneShotMutableOP', candidates={
                        f'k{i}': dict(type='torchConv2d', in_channels=CH,
                                      out_channels=CH, padding=i - 1,
                                      kernel_size=2 * i - 1)
                        for i in range(1, n + 1)})))

        def forward(self, inputs, data_samples=None, mode='tensor'):
            x = self.stem(inputs)
            for g in range(len(ns)):
                x = getattr(self, f'm{g}')(x)
            if mode == 'loss':
                return dict(loss=x.sum())
            return [x] if mode == 'predict' else x

    class Algo(BaseAlgorithm):

        def __init__(self):
            super().__init__(Net())
            self.mutator = NasMutator()
            self.mutator.prepare_from_supernet(self.architecture)

        def active(self):
            return [int(getattr(self.architecture, f'm{g}')
                        .current_choice[1:]) for g in range(len(ns))]

    a = Algo()
    a.order = []        # group id -> element
    for gid, ms in a.mutator.search_groups.items():
        for g in range(len(ns)):
            if any(m is getattr(a.architecture, f'm{g}') for m in ms):
                a.order.append((gid, g))
    return a


def index(algo, choices):
    """A dict of choices as a list of candidate numbers per element."""
    res = [0] * len(algo.order)
    for gid, g in algo.order:
        res[g] = int(str(choices[gid])[1:]) if gid in choices else 0
    return res if len(choices) == len(res) else res + [0]


class Evaluator:
    """Scores the choices that are active while the batches go through."""

    dataset_meta = None

    def __init__(self, algo, score, batches, n, ev, key='acc',
                 interrupt=None):
        self.algo, self.score, self.batches, self.n, self.ev = \
            algo, score, batches, n, ev
        self.key, self.seen = key, []
        self.interrupt = interrupt

    def process(self, data_samples=None, data_batch=None):
        self.seen.append((list(data_batch['data_samples']),
                          self.algo.active()))

    def evaluate(self, size):
        if self.interrupt:
            self.interrupt()
        act = self.algo.active()
        ok = size == self.n and \
            [i for b, _ in self.seen for i in b] == list(range(self.n)) and \
            all(a == act for _, a in self.seen) and \
            not self.algo.training
        self.seen = []
        x = self.score(act)
        self.ev.append(dict(op='eval', s=act, x=int(round(x * 100)),
                            all=int(ok)))
        return {self.key: x}


def runner(algo, work_dir, train=None):
    return types.SimpleNamespace(
        distributed=False, rank=0, epoch=0, iter=0, work_dir=work_dir,
        model=algo, logger=quiet(), visualizer=types.SimpleNamespace(),
        call_hook=lambda *a, **k: None, train_dataloader=train,
        build_evaluator=lambda x: x, val_loop=None, seed=0)


def table(rng, levels=60):
    """A score for every subnet, with ties."""
    memo, top = {}, rng.choice([3, 8, levels])

    def score(s):
        s = tuple(s)
        if s not in memo:
            memo[s] = rng.randint(0, top) / rng.choice([1, 2, 4])
        return memo[s]
    return score
