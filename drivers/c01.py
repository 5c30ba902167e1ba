import elements
import operations


def run(ctx):
    elements.run_focus(ctx, 'src')
    operations.run_focus(ctx, 'src')
