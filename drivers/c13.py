"""C13: deliveries."""
import interp
from interp import layers


def run(ctx):
    big = not ctx.quick
    n = 5 if big else 4
    both = [((), ()), ((1, 2), ())]
    configs = [
        (layers(('dl', 'f', 1, 2)), 1, 'f', {0, 1, 7, 8}, n, 3,
         [((), ()), ((1,), ())]),
        (layers(('dl', 'm', 1, 1)), 1, 'm', {0, 1, 7, 8}, n, 3,
         [((), ()), ((1,), ()), ((), (1,))]),
        (layers(('dl', 'f', 1, 2), ('dl', 'f', 1, 1)), 1, 'f', {0, 1}, n, 3,
         [((1,), ())]),
        (layers(('dl', 'm', 1, 1), ('dl', 'm', 1, 2)), 1, 'm', {0, 1}, n, 3,
         [((1,), ())]),
        (layers(('dl', 'f', 1, 1), ('dl', 'f', 2, 2)), 2, 'f', {0, 1}, n, 3,
         both),
        (layers(('dl', 'm', 1, 1), ('dl', 'm', 2, 1)), 2, 'm', {0, 1}, n, 3,
         both),
        (layers(('dl', 'i', 1, 1), ('dl', 'm', 2, 1)), 2, 'mi', {0, 1}, n, 3,
         both),
        (layers(('dl', 'f', 1, 1), ('dl', 'm', 1, 2), ('dl', 'g', 1, 1)), 1,
         'fgm', {0, 1}, n - 1, 2, [((1,), ())]),
        (layers(('dl', 'f', 1, 1), ('in', 'f', 2)), 2, 'f', {0, 1}, n, 3,
         both),
    ]
    interp.check(ctx, configs,
                 [],
                 ('dl', 'rec'), 400 if ctx.quick else 4000)
