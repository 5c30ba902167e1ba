import elements
import operations


def run(ctx):
    elements.run_focus(ctx, 'fix')
    operations.run_focus(ctx, 'fix')
