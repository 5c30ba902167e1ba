"""C12: recorders."""
import interp
from interp import layers


def run(ctx):
    big = not ctx.quick
    n = 5 if big else 4
    configs = [
        # inputs and outputs of one function, one manager
        (layers(('in', 'f', 1), ('out', 'f', 1)), 1, 'f', {0, 1, 7, 8, 9}, n, 3,
         [((1,), ()), ((1,), (1,))]),
        # two stand-alone recorders of one function, nested
        (layers(('out', 'f', 1), ('in', 'f', 2)), 2, 'f', {0, 1, 9}, n, 3,
         [((), ()), ((1, 2), ()), ((), (2,)), ((), (1, 2))]),
        # two recorders of one method
        (layers(('in', 'm', 1), ('out', 'm', 2)), 2, 'm', {0, 1, 9}, n, 3,
         [((), ()), ((1,), (2,)), ((), (1,))]),
        (layers(('in', 'm', 1), ('out', 'm', 1), ('out', 'm', 1)), 1, 'm',
         {0, 1, 8}, n, 3, [((1,), ())]),
        # a method and the same method inherited by a subclass
        (layers(('out', 'i', 1), ('out', 'm', 2)), 2, 'mi', {0, 1}, n, 3,
         [((), ()), ((1, 2), ())]),
        # module hooks and parameters
        (layers(('in', 'x', 1), ('out', 'x', 1), ('pa', 'x', 1),
                ('out', 'x', 2)), 2, 'x', {0, 1, 8}, n, 3, [((1,), ())]),
        # different sources
        (layers(('in', 'f', 1), ('out', 'm', 1), ('out', 'g', 2)), 2, 'fgm',
         {0, 1}, n, 3, [((1,), ())]),
        # recorder around / below a delivery
        (layers(('out', 'f', 1), ('dl', 'f', 2, 1)), 2, 'f', {0, 1}, n, 3,
         [((), ())]),
    ]
    interp.check(ctx, configs, ['RecExact'],
                 ('rec', 'dl'), 400 if ctx.quick else 4000)
