"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
M = 'mmrazor/models/'
def prop(id, title, statement, over, text, why, files, state, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop('C01', 'Searchable elements only ever hold a choice of their search space',
 'A searchable value or channel element always reports the last choice it accepted (before any, the largest value / all channels), '
 'a member of its declared search space, values reporting the smallest and largest one as minimum and maximum; the '
 'channels a channel element with a count or ratio choice keeps are exactly the first ones of the size its choice stands for (a count, or a ratio of a whole count). '
 'An assignment outside the declared candidates, or to a derived element, is rejected and leaves the reported choice, the kept channels and the fixed status '
 'of every element exactly as they were. A searchable operation executes the alternative it was last assigned (all of them, summed, before any assignment), '
 'refuses to execute one that it does not have, and samples only its own.',
 ['histories', 'inputs'],
 'every element kind, every declared search space, every sequence of legal and illegal assign / sample / read operations',
 'Tests set one or two choices per class on one search space; they never interleave rejected operations with accepted ones and never compare the whole reported state after each step.',
 [M+'mutables/mutable_value/mutable_value.py', M+'mutables/mutable_module/one_shot_mutable_module.py',
  M+'mutables/mutable_channel/sequential_mutable_channel.py', M+'mutables/mutable_channel/oneshot_mutable_channel.py',
  M+'mutables/mutable_channel/simple_mutable_channel.py', M+'mutables/derived_mutable.py'],
 [('choice', 'currently selected alternative', 'current_choice of every mutable'),
  ('mask', 'channels kept', 'current_mask of channel mutables')],
 [('assignment validation', M+'mutables/mutable_value/mutable_value.py'),
  ('prefix mask construction', M+'mutables/mutable_channel/sequential_mutable_channel.py')],
 ['current_choice', 'choices', 'min_choice/max_choice', 'current_mask', 'activated_channels', 'is_fixed'])

prop('C02', 'Fixing a searchable element is permanent and selects that alternative',
 'Fixing an element that is not fixed to one of its alternatives selects that alternative and makes it report being fixed; fixing it to something it '
 'does not have, fixing it again, or un-fixing it is refused without changing anything. The exported choice of a fixed value or channel element is the one '
 'it was fixed to. An operation element that is fixed retains only the chosen alternative(s) and from then on, whatever is assigned, computes exactly what they '
 'compute; one that fixes itself when the best alternative leads by its threshold fixes itself to that best one.',
 ['histories', 'inputs'],
 'every kind of element (value, one-shot op, differentiable op, one-hot op, route, channel), every alternative, every history of assignments before and attempts after fixing',
 'Tests fix one element once with one alternative; permanence is a statement about all later operations in any order.',
 [M+'mutables/base_mutable.py', M+'mutables/mutable_value/mutable_value.py',
  M+'mutables/mutable_module/one_shot_mutable_module.py', M+'mutables/mutable_module/diff_mutable_module.py',
  M+'mutables/mutable_channel/base_mutable_channel.py', M+'mutables/derived_mutable.py'],
 [('is_fixed', 'whether the element is fixed', 'BaseMutable.is_fixed'), ('chosen', 'retained alternative', 'dump_chosen()')],
 [('set-once fixed flag', M+'mutables/base_mutable.py'), ('pruning of unchosen candidates', M+'mutables/mutable_module')],
 ['is_fixed', 'dump_chosen', 'current_choice', 'choices', 'forward output'])

prop('C03', 'Derived choices always follow the elements they are derived from',
 'A value or channel derived from searchable elements (product, expansion, division to a divisor, concatenation, identity, or a '
 'chain of these) reports at every moment exactly the value and kept channels computed from the current choices of its sources (counts, not ratios), '
 'is fixed exactly when all its sources are, and enumerating the possible choices of an element derived from values gives one result per combination and leaves all sources as they were.',
 ['histories', 'inputs', 'programs'],
 'every derivation tree over searchable values and channels, every history of assignments to the sources interleaved with reads and enumerations',
 'Tests evaluate a few fixed derivations after one or two assignments; staleness only shows in longer interleavings of assignment and reading.',
 [M+'mutables/derived_mutable.py', M+'mutables/mutable_value/mutable_value.py',
  M+'mutables/mutable_channel/sequential_mutable_channel.py', M+'architectures/utils/mutable_register.py',
  M+'utils/make_divisible.py'],
 [('sources', 'elements a derived one depends on', 'DerivedMutable.source_mutables')],
 [('lazy choice/mask closures', M+'mutables/derived_mutable.py')],
 ['current_choice', 'current_mask', 'choices', 'is_fixed'])

prop('C04', 'Range-registered channel containers reflect exactly what was registered',
 'An index-range map keeps its ranges sorted and pairwise disjoint and refuses an overlapping or empty range without changing anything; a channel '
 'container keeps exactly the channels kept by the elements registered on its ranges, in range order, channels of unregistered ranges being always kept. '
 'This holds for any registration order and follows later changes of the registered elements (reading a container that has a gap '
 'puts an always-kept element into the gap, which then counts as registered).',
 ['histories', 'inputs'],
 'every sequence of range registrations (adjacent, gapped, overlapping, out of order, sub-dividing) and element assignments over any width',
 'Tests register two or three ranges in ascending order; gaps before the first range and out of order registration are not reached.',
 ['mmrazor/utils/index_dict.py', M+'mutables/mutable_channel/mutable_channel_container.py'],
 [('ranges', '(start,end) -> element', 'IndexDict / MutableChannelContainer.mutable_channels')],
 [('overlap refusal and sorting', 'mmrazor/utils/index_dict.py'), ('mask concatenation and gap filling', M+'mutables/mutable_channel/mutable_channel_container.py')],
 ['keys() order', 'current_mask', 'current_choice'])

prop('C05', 'Search groups partition the space and members always agree',
 'The search groups of a mutator put every searchable element of the model into exactly one group, elements sharing an alias or a '
 'custom group being together and all others alone. Setting choices gives every member of each group its group\'s '
 'choice, so that reading the choices back returns exactly what was set; random, maximal and minimal sampling yields '
 'one legal choice per group (the largest / smallest for max / min) and does not change the model.',
 ['programs', 'histories', 'configurations'],
 'every arrangement of searchable elements, aliases and custom groups, every history of sample / set / read operations',
 'Tests check group counts of a handful of hand-written models and one set/get; agreement of all members after arbitrary histories and arrangements is not covered.',
 [M+'mutators/group_mixin.py', M+'mutators/nas_mutator.py', M+'mutators/base_mutator.py',
  M+'mutators/channel_mutator/channel_mutator.py'],
 [('search_groups', 'group id -> elements', 'mutator.search_groups'), ('choices', 'group id -> choice', 'mutator.current_choices')],
 [('group building', M+'mutators/group_mixin.py'), ('set/sample', M+'mutators/nas_mutator.py')],
 ['search_groups', 'current_choices', 'sample_choices', 'set_choices', 'set_max_choices/set_min_choices'])

prop('C06', 'Channel dependency analysis finds exactly the coupled channels',
 'For any network on a 3-channel input built from convolutions (plain, grouped, depthwise), linear layers, batch / group normalisation, pooling, '
 'flattening, activation, addition, concatenation, slicing and shared modules, the channel units found for pruning put two layer channels into the '
 'same unit and position when and only when they are forced to be pruned together by the data flow, every prunable layer channel is listed exactly '
 'once, and a channel reaching the network input or output, or an operation that slices it or normalises it in groups, is never offered. '
 'The analysis leaves the network (weights, statistics, mode, attributes) as it was.',
 ['programs'],
 'all networks of the operator set up to a size bound, both tracers where supported',
 'Tests trace a fixed zoo of models and compare unit counts; they do not compare the partition itself and cannot enumerate topologies.',
 ['mmrazor/structures/graph/channel_flow.py', 'mmrazor/structures/graph/channel_graph.py',
  'mmrazor/structures/graph/channel_nodes.py', 'mmrazor/structures/graph/module_graph.py',
  M+'task_modules/tracer/channel_analyzer.py', M+'mutables/mutable_channel/units/channel_unit.py',
  M+'mutables/mutable_channel/units/mutable_channel_unit.py', M+'mutables/mutable_channel/units/utils.py'],
 [('units', 'sets of (layer, channel range, in/out)', 'ChannelMutator.units')],
 [('union-find channel flow', 'mmrazor/structures/graph/channel_flow.py'), ('forward probing of units', M+'mutables/mutable_channel/units/utils.py')],
 ['units and their input_related/output_related channels', 'is_mutable'])

prop('C07', 'Every choice of channel widths yields a consistent, runnable network',
 'After preparing a model for channel pruning, a requested width is brought to the nearest legal one and only its own unit changes; for every '
 'assignment of widths, requested or sampled, each layer consumes exactly the channels its '
 'producers keep, all layers of a unit keep the same channels, the forward pass succeeds, and the prepared model, given the original weights, computes what the '
 'original layers cut down to the kept channels compute (at full width: what the original model computes); training at a '
 'choice moves only the statistics of the kept channels.',
 ['programs', 'histories', 'inputs'],
 'all networks of the operator set up to a size bound, every unit kind, all width assignments in any order',
 'Tests run a forward at one random choice per zoo model; consistency must hold for the product of all unit choices and all topologies.',
 [M+'mutables/mutable_channel/units/mutable_channel_unit.py', M+'mutables/mutable_channel/units/sequential_mutable_channel_unit.py',
  M+'mutables/mutable_channel/units/l1_mutable_channel_unit.py', M+'mutables/mutable_channel/units/one_shot_mutable_channel_unit.py',
  M+'mutators/channel_mutator/channel_mutator.py', M+'architectures/dynamic_ops/bricks/dynamic_conv.py', M+'architectures/dynamic_ops/mixins/dynamic_conv_mixins.py',
  M+'architectures/dynamic_ops/bricks/dynamic_norm.py', M+'architectures/dynamic_ops/bricks/dynamic_linear.py'],
 [('masks', 'kept in/out channels of each layer', 'mutable_attrs of dynamic ops')],
 [('container registration', M+'mutables/mutable_channel/units/mutable_channel_unit.py'), ('weight slicing', M+'architectures/dynamic_ops/mixins')],
 ['in/out masks of every dynamic op', 'forward()', 'mutator.set_choices'])

prop('C08', 'An exported subnet is the supernet at that choice, and export changes nothing',
 'Exporting a subnet yields a static network that computes the same outputs as the searchable network at its current choices, has exactly the '
 'chosen widths, depths and operations, and leaves the searchable network (choices, weights, outputs, ability to switch) '
 'untouched. Loading the exported description into a freshly built searchable network reproduces the same static structure '
 '(and, with the same weights, the same outputs), also after the description went through a file.',
 ['programs', 'histories', 'inputs'],
 'every searchable layer kind and searchable network shape, every legal choice combination, every history of choices before export',
 'Tests export a few models at one choice and check shapes or a forward; equality of function for every layer kind and choice, and non-interference on the source, are not covered.',
 ['mmrazor/structures/subnet/fix_subnet.py', M+'architectures/dynamic_ops/bricks', M+'architectures/dynamic_ops/mixins'],
 [('fix_subnet', 'exported description', 'export_fix_subnet()[0]'), ('static model', 'sliced network', 'export_fix_subnet()[1]')],
 [('dynamic to static conversion', M+'architectures/dynamic_ops/mixins'), ('deepcopy before fixing', 'mmrazor/structures/subnet/fix_subnet.py')],
 ['export_fix_subnet', 'load_fix_subnet', 'to_static_op', 'forward outputs', 'state_dict shapes'])

prop('C09', 'Channel configurations round-trip',
 'The unit configuration, choice template and fixed-choice description produced by a channel mutator, given back to a fresh mutator on the same '
 'architecture, reproduce the same units, the same channel assignments and the same widths. For every number of channels, '
 'width requests expressed as count or as ratio (with a least width that is a multiple of the divisor) denote the same width after a round trip and are brought to the nearest legal width, never outside the unit.',
 ['configurations', 'inputs', 'histories'],
 'all networks of the operator set up to a bound, all unit kinds, all widths, both width modes, all divisors and minimum settings',
 'Tests round-trip one configuration at one choice; ratio rounding only fails for particular (width, total) pairs.',
 [M+'mutators/channel_mutator/channel_mutator.py', M+'mutables/mutable_channel/units/channel_unit.py',
  M+'mutables/mutable_channel/units/mutable_channel_unit.py', M+'mutables/mutable_channel/units/sequential_mutable_channel_unit.py',
  M+'mutables/mutable_channel/units/one_shot_mutable_channel_unit.py', M+'mutables/mutable_channel/units/slimmable_channel_unit.py',
  M+'utils/make_divisible.py'],
 [('config', 'unit name -> channels + init args + choice', 'mutator.config_template()')],
 [('config parsing and template generation', M+'mutators/channel_mutator/channel_mutator.py'), ('number/ratio conversion', M+'mutables/mutable_channel/units/sequential_mutable_channel_unit.py')],
 ['config_template', 'choice_template', 'current_choices', 'unit current_choice'])

prop('C10', 'Iterative pruning follows its schedule to exactly the target',
 'Iterative pruning changes widths only at the scheduled iterations (every step frequency, for the configured number of times, counted in epochs or '
 'iterations as configured); in a run that is not interrupted the widths move linearly from those at its start towards the target, never '
 'past it and never back, and from the last scheduled step on the network is exactly the target. Iterations, other modes and forwards in between never change widths.',
 ['schedules', 'histories', 'configurations'],
 'every step frequency, prune count, target (counts or ratios), epoch length and order of forward calls',
 'Tests run one schedule for a couple of epochs; off-by-one and drift errors depend on the combination of frequency, count, epoch length and target.',
 [M+'algorithms/pruning/ite_prune_algorithm.py', M+'algorithms/pruning/dcff.py'],
 [('widths', 'current width of each unit', 'mutator.current_choices'), ('iter', 'training iteration', 'message hub')],
 [('schedule', M+'algorithms/pruning/ite_prune_algorithm.py')],
 ['mutator.current_choices after each forward(mode=loss)'])

prop('C11', 'Width-sandwich training visits exactly the prescribed subnets each step',
 'One training step of a slimmable network trains every configured width once in order; one step of sandwich-rule training (autoslim, bignas) trains the '
 'largest subnet, the smallest and the configured number of sampled ones, smaller ones learning from what the '
 'largest produced in the same step. Losses are reported under distinct per-subnet names, parameters are updated as configured by gradient accumulation without '
 'losing or doubling any subnet\'s gradient, and the next step starts from the same rules whatever happened before.',
 ['schedules', 'histories', 'configurations'],
 'every number of sampled subnets / widths, accumulation setting and number of steps, interleaved with validation forwards',
 'Tests run one step and check the loss keys; which subnet was active during each forward and when the optimizer stepped is not observed.',
 [M+'algorithms/pruning/slimmable_network.py', M+'algorithms/nas/autoslim.py', M+'algorithms/nas/bignas.py',
  M+'utils/optim_wrapper.py', M+'utils/utils.py', M+'distillers/configurable_distiller.py'],
 [('active subnet', 'choices during each forward', 'mutator.current_choices'), ('grad/update events', 'optimizer wrapper calls', 'OptimWrapper')],
 [('train_step', M+'algorithms'), ('accumulation re-initialisation', M+'utils/optim_wrapper.py')],
 ['architecture forward calls', 'optim_wrapper backward/step', 'returned losses'])

prop('C12', 'Recorders capture exactly what ran inside their context and leave no trace',
 'A recorder holds exactly one record per completed call of its source made while its most recent context was open, in order of completion, each '
 'being that call\'s actual inputs or outputs, nothing from outside the context, and starts empty at each entry. When the context '
 'closes, normally or by an exception, the observed functions and methods are the original ones again and behave as if never recorded, whatever combination of recorders was open.',
 ['histories', 'fault_sequences', 'configurations'],
 'every set of recorders (several on one source included) and every sequence of enter / call / failing call / exit operations, managed or stand-alone',
 'Tests open one recorder, make a couple of calls and close it; combinations on the same source, exceptions and re-entry are not covered.',
 [M+'task_modules/recorder'],
 [('data_buffer', 'records of the current/most recent context', 'recorder.data_buffer'), ('patch', 'wrapper installed on the source', 'module/class attribute')],
 [('wrapping on enter and restoring on exit', M+'task_modules/recorder')],
 ['data_buffer', 'get_record_data', 'identity and behaviour of the source function'])

prop('C13', 'Deliveries hand over results first-in-first-out and restore the originals',
 'While recording, a delivery lets each call through and queues its result up to its capacity; while overriding, each call returns the oldest '
 'queued result without running the original. A call on a full (recording) or empty (overriding) queue fails without losing or inventing '
 'results, and when the context closes, normally or by an exception, the original functions are back whatever set of deliveries was open.',
 ['histories', 'fault_sequences', 'configurations'],
 'every capacity, every set of deliveries and every sequence of enter / call / mode switch / failing call / exit',
 'Tests run one teacher pass and one student pass; ordering with several queued items, failures in the middle and combined contexts are not covered.',
 [M+'task_modules/delivery'],
 [('queue', 'recorded results not yet delivered', 'delivery.data_queue'), ('override', 'mode', 'manager.override_data')],
 [('queueing wrapper', M+'task_modules/delivery')],
 ['returned values', 'data_queue', 'identity of the source function'])

prop('C14', 'Evolution search keeps legal candidates and never loses the best',
 'Every candidate that enters the pool satisfies the configured resource constraints and carries the resources and score measured with '
 'exactly its own choices; the pool is filled to its configured size each epoch, mutation and crossover only recombine choices of existing and freshly '
 'sampled candidates, and the best list holds the highest scores seen so far, so its best score never decreases and is what gets exported. '
 'Search state is saved every epoch with the configured number of files kept.',
 ['histories', 'schedules', 'configurations'],
 'every pool size, best-list size, mutation/crossover count and probability, constraint range, score landscape and random seed, over several epochs',
 'Tests run an epoch with mocked resources and scores and check lengths; the association between candidate, score and resources across epochs is not observed.',
 ['mmrazor/engine/runner/evolution_search_loop.py', 'mmrazor/engine/runner/utils/check.py', 'mmrazor/engine/runner/utils/genetic.py',
  'mmrazor/structures/subnet/candidate.py'],
 [('pool', 'candidates with scores/resources', 'loop.candidates'), ('top_k', 'best list', 'loop.top_k_candidates')],
 [('epoch procedure', 'mmrazor/engine/runner/evolution_search_loop.py'), ('constraint check', 'mmrazor/engine/runner/utils/check.py')],
 ['candidates', 'top_k_candidates', 'files in the work dir', 'choices at evaluation time'])

prop('C15', 'Greedy subnet sampling trains the best candidates one after the other',
 'Greedy-sampling training picks a batch of candidates only when the previous best list is used up, keeps the pool sorted by score and within its '
 'size, and trains the supernet with each member of the best list exactly once in score order. The probability of drawing '
 'from the pool moves monotonically from its initial to its final value over the configured interval and stays constant outside it.',
 ['histories', 'schedules', 'configurations'],
 'every pool size, sample count, best-list size, schedule kind and interval, score landscape and number of iterations',
 'Tests call the sampling method once and check lengths; use of the list across iterations is not observed.',
 ['mmrazor/engine/runner/subnet_sampler_loop.py', 'mmrazor/structures/subnet/candidate.py'],
 [('candidates', 'scored pool', 'loop.candidates'), ('top_k', 'subnets still to train', 'loop.top_k_candidates'), ('cur_prob', 'pool drawing probability', 'loop.cur_prob')],
 [('sample_subnet / update_cur_prob', 'mmrazor/engine/runner/subnet_sampler_loop.py')],
 ['choices set at each train step', 'cur_prob', 'candidates'])

prop('C16', 'Greedy slimming finds one subnet per target, and resuming changes nothing',
 'Greedy width search repeatedly removes one step from the single unit whose reduction scores best, until the model is within each target in '
 'descending order, and delivers exactly one subnet per target, each within its target and reported with its true cost. '
 'Interrupting the search at any point and resuming from the last saved state delivers the same subnets as an uninterrupted run.',
 ['crash_points', 'histories', 'configurations'],
 'every set of targets, number of units and widths, score landscape, and every interruption point',
 'Tests run once to one target without interruption.',
 ['mmrazor/engine/runner/autoslim_greedy_search_loop.py'],
 [('current_subnet', 'width index per unit', 'loop.current_subnet'), ('searched', 'found subnets', 'loop.searched_subnet')],
 [('greedy loop and checkpoint', 'mmrazor/engine/runner/autoslim_greedy_search_loop.py')],
 ['searched_subnet', 'searched_subnet_flops', 'saved state file', 'exported files'])

prop('C17', 'Candidate lists keep every subnet with its own score and resources',
 'A candidate list built, extended, appended to, inserted into, sliced, sorted, copied or saved keeps each subnet together with the score and '
 'resources that were set for it; sorting orders by the requested indicator and loses or duplicates nothing; indexed updates affect '
 'exactly the addressed entry even when equal subnets occur several times. The views of subnets, scores and resources always have the same length and order.',
 ['histories', 'inputs'],
 'every sequence of list operations over any subnets (equal ones included), scores and resources',
 'Tests run each operation once on a list of two; aliasing between equal or shared entries only shows in longer histories.',
 ['mmrazor/structures/subnet/candidate.py'],
 [('data', 'ordered entries', 'Candidates.data')],
 [('format and resource bookkeeping', 'mmrazor/structures/subnet/candidate.py')],
 ['subnets', 'scores', 'resources(key)', 'len', 'data'])

prop('C18', 'Resource estimation is additive, repeatable and leaves the model untouched',
 'The reported operation and parameter counts are those of the network that is currently selected, evaluated at the configured input size: they equal '
 'the sum over its layers, counting a layer once per use, change exactly with the selected widths, and do not depend on how often or in which '
 'order estimates were made before. Estimating adds nothing to the model (no hooks, attributes or changed weights) and does not alter its choices.',
 ['histories', 'programs', 'inputs'],
 'all networks of the supported layers, all width choices, all sequences of whole-model and per-module estimates with different settings',
 'Tests estimate once per model with one setting; history dependence and interaction between estimates is not covered.',
 [M+'task_modules/estimators', 'mmrazor/engine/hooks/estimate_resources_hook.py'],
 [('counters', 'per-layer counts during an estimate', 'module attributes'), ('cfg', 'estimator settings', 'ResourceEstimator')],
 [('hook based counting', M+'task_modules/estimators/counters/flops_params_counter.py')],
 ['estimate()', 'estimate_separation_modules()', 'module __dict__/hooks before and after'])

prop('C19', 'Quantizers are observed, learned and frozen in exactly the configured phases',
 'In quantization-aware training the value ranges are collected only before the configured epoch, never during validation, once collection is '
 'switched off, or from the dummy input a network is built with; the statistics of norms fused into quantized layers stop at the configured epoch, and simulated quantization stays on '
 'throughout (functions of a fixed range keep the parameters of that range). Learned-step '
 'quantization sets its scales from the first batch of the training only, also when the training is resumed, and learns them afterwards; post-training calibration collects from exactly the configured '
 'number of batches and from nothing else, and writes what it calibrated. After each training epoch all execution modes hold the same quantization parameters, '
 'and they and the float network validated beside them compute with the weights trained; each reports under its own name.',
 ['schedules', 'histories', 'configurations'],
 'every combination of begin epochs, epoch and batch counts, validation intervals, resume epochs, calibration steps, quantizers, observers and ranges',
 'Tests check flags once after setup calls; what each batch actually updates over a whole run is not observed.',
 ['mmrazor/engine/runner/quantization_loops.py', M+'fake_quants/lsq.py', M+'observers', M+'quantizers', M+'task_modules/tracer/fx/custom_tracer.py', M+'algorithms/quantization/mm_architecture.py'],
 [('flags', 'observer/fake-quant/learning enabled', 'FakeQuantize buffers'), ('ranges', 'observed min/max', 'observer buffers')],
 [('phase switching', 'mmrazor/engine/runner/quantization_loops.py'), ('qparam sync', M+'algorithms/quantization/mm_architecture.py')],
 ['what every observer, scale and fused norm did in each pass', 'scale/zero_point of each mode'])

prop('C20', 'Distillation runs teacher and student under the right roles each step',
 'In each distillation training step the networks run in the configured order, a single teacher before its student, on the same data (without data, on the same generated images). '
 'A teacher which is not trained runs without gradients and its weights are never changed by the step, nor its statistics when its norms are configured to stay in evaluation. '
 'Deliveries record during the teacher pass and override during the student pass; every configured distillation loss is computed from what teacher and student '
 'produced in this very step, and student and generator are each updated by their own losses only. From the epoch distillation stops at no distillation loss is computed; the own losses of the networks remain.',
 ['schedules', 'histories', 'configurations'],
 'every combination of student/teacher training flags, recorders, connectors, deliveries, stop epoch and interleaving of train and validation steps',
 'Tests run one loss forward per configuration; order of passes, data freshness across steps and the stop switch in a run are not observed.',
 [M+'algorithms/distill/configurable', M+'distillers/configurable_distiller.py', 'mmrazor/engine/hooks/stop_distillation_hook.py', 'mmrazor/engine/runner/distill_val_loop.py'],
 [('records', 'teacher/student records of the step', 'distiller recorders'), ('distillation_stopped', 'stop flag', 'algorithm')],
 [('loss forward', M+'algorithms/distill/configurable')],
 ['returned losses', 'teacher/student forward calls', 'teacher parameters and mode'])

prop('C21', 'Architecture-search phases alternate and end in one fixed architecture',
 'In staged architecture search, weights and architecture parameters are each updated only in the phases and epochs configured for them, and at '
 'the switch to fine-tuning every searchable operation is fixed to the alternative with the highest architecture weight and no further architecture update happens; in probabilistic width search '
 'the architecture is trained exactly every configured number of iterations after its start, with the widths sampled for that phase, towards the configured operation count. '
 'Every update takes gradients from its own batch and losses only (with look-ahead: of the weights one virtual step ahead, which are restored afterwards).',
 ['schedules', 'histories', 'configurations'],
 'every number of pre-train, search and fine-tune epochs, iterations per epoch, architecture parameter values and start iterations',
 'Tests run one step in each phase; the phase boundaries and the agreement of the final architecture with the learned weights are not covered.',
 [M+'algorithms/nas/dsnas.py', M+'algorithms/nas/darts.py', M+'algorithms/pruning/dmcp.py',
  M+'mutables/mutable_module/diff_mutable_module.py', M+'mutables/mutable_module/one_hot_mutable_module.py', M+'mutators/nas_mutator.py'],
 [('phase', 'pre-train/search/fine-tune', 'epoch vs configured boundaries'), ('arch_params', 'architecture weights', 'mutator.arch_params')],
 [('stage selection and fixing', M+'algorithms/nas/dsnas.py')],
 ['parameter changes per step', 'is_fixed and chosen op', 'arch gradients'])

prop('C22', 'Loops feed every batch once and report each subnet under its own name',
 'Combined training loaders pair batches of all their sources in order, one pair per step, and keep delivering pass after pass; validation loops evaluate '
 'every listed subnet (each width, largest / smallest / sampled, teacher and student) on the full data with exactly that subnet active and report '
 'its metrics under that subnet\'s name only. Statistics calibration sets each active normalisation layer to the sample-weighted average of the batch '
 'statistics of the first configured number of samples and leaves no hooks behind.',
 ['schedules', 'histories', 'configurations'],
 'every loader length combination, number of passes, list of subnets and calibration size',
 'Tests run one epoch with equal-length loaders and mocked evaluators.',
 ['mmrazor/engine/runner/darts_loop.py', 'mmrazor/engine/runner/slimmable_val_loop.py', 'mmrazor/engine/runner/subnet_val_loop.py',
  'mmrazor/engine/runner/distill_val_loop.py', 'mmrazor/engine/runner/utils/calibrate_bn_mixin.py', 'mmrazor/engine/runner/iteprune_val_loop.py'],
 [('position', 'next batch of each loader', 'IterMultiLoader / EpochMultiLoader'), ('metrics', 'name -> value', 'after_val_epoch metrics')],
 [('loops', 'mmrazor/engine/runner')],
 ['batches seen by the model', 'reported metrics', 'BN running statistics', 'forward hooks'])

prop('C23', 'Periodic subnet dumps happen on schedule and are loadable',
 'The subnet dump hook writes one file per scheduled epoch or iteration (and at the end when asked), named after that moment, each describing a complete legal '
 'subnet of the model that can be loaded back, and never changes the choices, fixed status or training of the model it observes. '
 'No more than the configured number of latest files is kept. Resource estimation follows its configured interval in the same way, and a probabilistic width search ends with '
 'the configured number of sampled subnets near its target, and the expected one, each loadable.',
 ['schedules', 'histories', 'configurations'],
 'every interval, run length, by-epoch or by-iteration mode and last-dump setting',
 'Tests run one short schedule and check that files exist.',
 ['mmrazor/engine/hooks/dump_subnet_hook.py', 'mmrazor/engine/hooks/estimate_resources_hook.py', 'mmrazor/engine/hooks/dmcp_subnet_hook.py'],
 [('files', 'dumped descriptions', 'out_dir')],
 [('interval logic', 'mmrazor/engine/hooks/dump_subnet_hook.py')],
 ['files written after each epoch/iteration', 'model choices and weights'])

prop('C25', 'A deployed quantized network is the calibrated one',
 'At any point of calibrating and training a quantized network, the network built for deployment computes in prediction exactly what the quantized network itself '
 'computes at that moment: its norms are merged, its weights are the quantized ones and stay on their grid, its activations are quantized by the calibrated parameters. Building it, saving or loading leaves the '
 'quantized network as it was, however often it is done, and calibrating on does not reach what was deployed before. A checkpoint loaded into a fresh algorithm of the same configuration gives a network computing and deploying the same as the one saved, and from which calibration and training go on.',
 ['histories', 'configurations'],
 'every history of calibrating, training, saving, loading and deploying, over quantizers, observers, learned scales, ranges and layer kinds',
 'Tests build one deployed network and assert types; nothing compares what it computes with what was calibrated, or checks the source afterwards.',
 [M+'algorithms/quantization/mm_architecture.py', M+'quantizers', M+'fake_quants', M+'observers', 'mmrazor/structures/quantization'],
 [('qmodels', 'quantized networks per mode', 'mm_architecture'), ('qparams', 'scales and zero points', 'fake quantizer buffers')],
 [('deploy', M+'quantizers/native_quantizer.py'), ('load', M+'algorithms/quantization/mm_architecture.py')],
 ['outputs of the quantized, loaded and deployed networks', 'weights, biases and quantization parameters of the deployed layers', 'state of the source before and after'])

prop('C24', 'Model graphs keep their structure under every edit and copy',
 'A network graph always has symmetric links (a node precedes another exactly when that one follows it), unique node names and edges only between its own nodes, '
 'through any sequence of additions, connections, disconnections, insertions, deletions and copies; a topological walk lists every reachable node '
 'once and after all its predecessors. Graphs extracted from a model contain each executed layer once per use with the data-flow edges of the execution.',
 ['histories', 'programs'],
 'every sequence of graph edits up to a bound, every traced network of the operator set',
 'Tests build a few graphs and compare node counts.',
 ['mmrazor/structures/graph/base_graph.py', 'mmrazor/structures/graph/module_graph.py', 'mmrazor/structures/graph/pseudo_fx_graph.py'],
 [('nodes', 'name -> node with prev/next lists', 'BaseGraph.nodes')],
 [('edge bookkeeping', 'mmrazor/structures/graph/base_graph.py')],
 ['nodes', 'prev_nodes/next_nodes', 'topo_traverse', 'copy_from'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
