import elements
def run(ctx):
    elements.run_focus(ctx, 'der')
