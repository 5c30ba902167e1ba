R = 'every transition of the state graph replayed on the real code, random histories of the real code validated against the specification'
CLAIMED.update({
    'C17': ('Candidates.tla', T + R),
    'C01': ('Elements.tla and Operations.tla', T + R),
    'C02': ('Elements.tla and Operations.tla', T + R),
    'C03': ('Elements.tla', T + R),
    'C04': ('Ranges.tla', T + R),
    'C24': ('Graphs.tla', T + R),
    'C06': ('Net.tla', 'TLC enumerates every network up to a bound (checking the model), each and larger random ones built as real networks and analysed, the returned units validated against the specification by TLC'),
    'C07': ('Net.tla and Widths.tla', 'lives (prepare, choose, sample, run) of real networks recorded and validated against the specification by TLC'),
    'C05': ('Groups.tla', T + R),
    'C09': ('Widths.tla, WidthsGraph.tla, Net.tla and PruneTrace.tla', 'TLC enumerates every width request of every small unit (checking the width rules), each replayed on the real units; lives (prepare, choose, write down, give to a fresh mutator, choose, run) of real networks recorded and validated by TLC'),
    'C10': ('IterPrune.tla', T + R),
    'C08': ('Net.tla, Widths.tla and PruneTrace.tla', 'lives (prepare, choose, export, load through a file, run) of real networks recorded and validated against the specification by TLC'),
    'C14': ('Evolution.tla', 'evolution searches of the real loop recorded (sampled, crossed, mutated, scored, kept) and validated against the specification by TLC, which also checks the model'),
    'C16': ('Slimming.tla', 'searches of the real loop, interrupted at random points and resumed, recorded and validated against the specification by TLC, which also checks that resuming changes nothing in the model'),
    'C18': ('Cost.tla, Net.tla and PruneTrace.tla', 'series of estimates of random networks of every supported layer, and of networks prepared for pruning at their choices, validated against the cost specification by TLC, which also checks that costs are additive'),
    'C11': ('Sandwich.tla', T + 'training steps of the real algorithms recorded (subnets passed, gradients at each update) and validated against the specification by TLC, which also checks the model'),
    'C20': ('Distill.tla', T + 'training runs of the real distillation algorithms recorded (passes, losses, updates) and validated against the specification by TLC, which also checks the model'),
    'C22': ('Loops.tla', T + 'runs of the real validation, calibration and combined training loops recorded and validated against the specification by TLC, which also checks the model'),
    'C23': ('Dumps.tla', T + 'training runs of a real runner with the hooks recorded, the files loaded into fresh models, and validated against the specification by TLC, which also checks the model'),
    'C19': ('Quant.tla', T + 'training runs, calibrations and validations of real quantized networks in a real runner recorded (what every fake quantizer, norm and scale did in each pass) and validated against the specification by TLC, which also checks the model'),
    'C21': ('Phases.tla', T + 'training runs of the real algorithms in a real runner recorded (passes, updates and the passes each takes its gradients from, fixed operations) and validated against the specification by TLC, which also checks the model'),
    'C15': ('Greedy.tla', 'training runs of the real greedy-sampling loop recorded and validated against the specification by TLC, which also checks the model'),
    'C25': ('Deploy.tla', T + 'histories of real quantized networks (calibrate, train, save, load, deploy) recorded with what every network computes, and validated against the specification by TLC, which also checks the model'),
})
