"""The searchable networks the repository ships, small, and their elements
found by a walk of our own (Groups.tla configurations)."""
import c05


def autoformer():
    arch = dict(mlp_ratios=[3.0, 3.5, 4.0], num_heads=[2, 3],
                depth=[2, 3], embed_dims=[16, 24, 32])
    return dict(type='mmrazor.AutoformerBackbone', arch_setting=arch,
                img_size=32, patch_size=16, qkv_bias=True)


def bignas():
    arch = dict(
        kernel_size=[[3, 5, 2], [3, 5, 2]],
        num_blocks=[[1, 2, 1], [1, 2, 1]],
        expand_ratio=[[1, 2, 1], [2, 3, 1], [1, 2, 1]],
        num_out_channels=[[16, 24, 8], [16, 24, 8], [24, 32, 8],
                          [32, 40, 8]])
    return dict(
        type='mmrazor.AttentiveMobileNetV3', arch_setting=arch,
        stride_list=[1, 2], with_se_list=[False, True],
        act_cfg_list=['HSwish', 'ReLU', 'ReLU', 'HSwish'],
        out_indices=(1, ),
        conv_cfg=dict(type='mmrazor.BigNasConv2d'),
        norm_cfg=dict(type='mmrazor.DynamicBatchNorm2d', momentum=0.0))


def spos():
    def ops(n):
        return dict(
            _scope_='mmrazor', type='OneShotMutableOP', candidates=dict(
                a=dict(type='ShuffleBlock', kernel_size=3,
                       norm_cfg=dict(type='BN')),
                b=dict(type='ShuffleBlock', kernel_size=5,
                       norm_cfg=dict(type='BN')),
                c=dict(type='ShuffleXception', norm_cfg=dict(type='BN'))))
    return dict(type='mmrazor.SearchableShuffleNetV2', widen_factor=.5,
                arch_setting=[[16, 2, ops(0)], [32, 2, ops(1)]])


def build(name):
    from mmrazor.registry import MODELS
    import mmcls.models  # noqa
    return MODELS.build(dict(autoformer=autoformer, bignas=bignas,
                             spos=spos)[name]())


class Found:
    """A configuration read off a model."""

    def __init__(self, model, everywhere=False):
        from mmrazor.models.mutables import DerivedMutable, MutableValue
        from mmrazor.models.mutables.mutable_channel import (
            BaseMutableChannel, MutableChannelContainer)
        from mmrazor.models.mutables.mutable_module import MutableModule
        self.net = model
        self.els, walk = [], []

        def num(m):
            for i, x in enumerate(self.els):
                if x is m:
                    return i + 1
            self.els.append(m)
            return len(self.els)

        def searched(m):
            return isinstance(m, (MutableValue, MutableModule))

        used = {}
        for n, m in model.named_modules():
            if searched(m):
                walk.append(c05.place(num(m)))
            elif isinstance(m, DerivedMutable):
                e = [num(s) for s in m.source_mutables if searched(s)]
                if e:
                    walk.append(c05.place(*e, d=True))
            if isinstance(m, MutableChannelContainer):
                for c in m.mutable_channels.values():
                    ss = c.source_mutables if isinstance(
                        c, DerivedMutable) else [c]
                    for s in ss:
                        if isinstance(s, BaseMutableChannel) and \
                                not n.endswith(('out_channels',
                                                'num_features')):
                            used.setdefault(id(s), s)
                    e = [num(s) for s in ss if searched(s)
                         and everywhere]
                    if e:
                        walk.append(c05.place(*e, d=True))
        chans = list(used.values())     # the next layer takes them
        els = []
        for m in self.els:
            els.append(c05.el(
                'value' if isinstance(m, MutableValue) else 'op',
                len(m.choices), m.alias or ''))
        for s in chans:
            els.append(c05.el('chan', len(s.candidate_choices)))
        self.els += chans
        self.cfg = dict(els=els, walk=walk, custom=[], arch=False)


def shipped(name, everywhere=False):
    m = Found(build(name), everywhere)
    for e in m.els:
        if e.current_choice is None or e.current_choice != c05.choice(
                e, len(c05_choices(e))):
            e.current_choice = c05.choice(e, len(c05_choices(e)))
    return m.cfg, c05.Real(m, None)


def c05_choices(m):
    cs = getattr(m, 'candidate_choices', None)
    return list(m.choices if cs is None else cs)
