prop('C01', 'Top-experts routing admits items greedily up to each expert\'s capacity',
     '''When each item selects its K best experts under a capacity limit, an expert
     never holds more items than its capacity, and offers are admitted in order of
     choice rank and then item priority (position, or highest gate first with batch
     priority), an offer being dropped only when its expert is already full.
     Every admitted item occupies exactly one buffer slot, unmodified, is combined
     with exactly its own gate value, and a dropped one contributes nothing; the
     two dispatcher implementations agree.''',
     ['inputs', 'configurations'],
     '''Every gate matrix (including ties and zeros), group size, number of experts,
     K, capacity and priority rule.''',
     '''The tests check a few fixed gate matrices; ties, over-capacity on second
     choices, priority reordering combined with K>1 and capacity 1 are not covered
     jointly, and the index implementation is compared on a handful of inputs.''',
     ['vmoe/moe.py'],
     [('get_top_experts_per_item_dispatcher', 'vmoe/moe.py'),
      ('_get_top_experts_per_item_common', 'vmoe/moe.py'),
      ('EinsumDispatcher / ExpertIndicesDispatcher', 'vmoe/moe.py')],
     ['dispatcher.dispatch()', 'dispatcher.combine()'],
     'exhaustive model traces replayed on the real dispatchers',
     '''All gate matrices over a small alphabet with ties for all S,E,K,C in bounds;
     the greedy allocator is the model and every one of its traces is replayed.
     Larger sizes and other gate values are outside the bound.''')

prop('C02', 'Experts-choice routing gives every expert its highest-scoring items',
     '''When each expert selects its best C items, every expert buffer holds exactly
     the C items of the group with the highest gates for it, each item at most once
     per expert and unmodified, and the outputs are combined with those same gates.
     The reported routing metrics (fewest and most experts of an item, lowest and
     highest selected gate, fraction of items with at least t experts) describe what
     was actually routed.''',
     ['inputs', 'configurations'],
     'Every gate matrix, group size, number of experts and capacity up to the group size.',
     'The tests use single random or fixed matrices and never enumerate ties or capacities.',
     ['vmoe/moe.py'],
     [('get_top_items_per_expert_dispatcher', 'vmoe/moe.py')],
     ['dispatcher.dispatch()', 'dispatcher.combine()', 'returned metrics'],
     'exhaustive model traces replayed on the real dispatcher',
     'All gate matrices over a small alphabet for all S,E,C in bounds, each replayed.')

prop('C03', 'An MoE layer outputs the gate-weighted sum of the experts an item is sent to',
     '''The output of a sparse MoE layer for an item is the sum, over the experts the
     item was dispatched to, of its combine weight times that expert's own function
     (with that expert's own parameters) applied to the item, regardless of group,
     expert or item position, dispatcher kind or how groups and experts are sharded
     over devices. Gradients through the layer are those of that formula, and
     auxiliary outputs of the experts are returned per expert, unmixed.''',
     ['inputs', 'configurations'],
     '''Every number of groups/experts/items, routing pattern, dispatcher kind, mesh
     and partition spec.''',
     'Tests run one or two shapes on one device layout.',
     ['vmoe/moe.py', 'vmoe/partitioning.py'],
     [('sparse_moe_spmd', 'vmoe/moe.py'), ('_dispatch / _receive', 'vmoe/moe.py'),
      ('EinsumDispatcher / ExpertIndicesDispatcher / Bfloat16Dispatcher', 'vmoe/moe.py')],
     ['output of the transformed layer', 'jax.grad of it'],
     'exhaustive enumeration of layouts and routing patterns on the real layer',
     'Real layer on 8 virtual devices; experts are distinguishable by value.')

prop('C04', 'Expert capacity is the requested share of tokens, rounded as asked',
     '''The capacity is tokens*factor/experts, rounded up (or to nearest, when asked)
     and then up to the requested multiple, and a capacity below one is rejected with
     an error. The routing algorithms use that capacity, or the explicitly given one,
     as the size of every expert buffer.''',
     ['inputs', 'configurations'],
     'Every number of tokens, experts, factor, rounding mode and multiple.',
     'The tests cover about ten tuples.',
     ['vmoe/moe.py'],
     [('compute_capacity', 'vmoe/moe.py')],
     ['return value', 'expert buffer size'],
     'exhaustive grid against exact rational arithmetic',
     'All tuples in a grid; float representation of the factor is taken as given.')

prop('C05', 'Router layers route by softmax gates and report the stated losses',
     '''A router layer's gates are the softmax over experts of its logits, plus
     Gaussian noise of standard deviation noise_std/experts that is independent per
     item and expert only when the layer is stochastic (a deterministic layer draws
     no randomness). Every group is routed on its own, by those gates, and the
     reported importance, load and load-balancing losses follow their published
     formulas per group; the auxiliary loss is their weighted sum.''',
     ['inputs', 'configurations'],
     'Every logit matrix, noise value, number of groups/items/experts, capacity and loss weights.',
     'Tests check shapes and a few constants with mocked dispatchers.',
     ['vmoe/nn/routing.py', 'vmoe/moe.py'],
     [('NoisyTopExpertsPerItemRouter', 'vmoe/nn/routing.py'),
      ('NoisyTopItemsPerExpertRouter', 'vmoe/nn/routing.py')],
     ['dispatcher.dispatch()/combine()', 'returned metrics'],
     'exhaustive enumeration of logits and noise answers on the real layers',
     '''All logit matrices (and gating-noise matrices, answered by the harness) over
     small alphabets; float comparison against a float64 evaluation.''')

prop('C09', 'A sharded checkpoint restores every array exactly, in any layout',
     '''Saving a tree of arrays and restoring it yields the same structure, shapes,
     dtypes and bytes, whatever the device layout at save time, the (possibly
     different) layout requested at restore time, the number of checkpoint shards and
     the chunk sizes (no stored chunk exceeds the asked size). Restoring places each array in the requested sharding, and
     a mismatching tree, shape or dtype is reported, not silently accepted.''',
     ['inputs', 'configurations'],
     'Every array shape, dtype, source layout, target layout, shard count and chunk limit.',
     'Tests mock devices and use one or two layouts.',
     ['vmoe/checkpoints/partitioned.py', 'vmoe/checkpoints/base.py',
      'vmoe/checkpoints/serialization.py'],
     [('save_checkpoint / restore_checkpoint', 'vmoe/checkpoints/partitioned.py'),
      ('LazyArrayChunks', 'vmoe/checkpoints/types.py')],
     ['restored arrays', 'files on disk'],
     'exhaustive enumeration of source x target layouts on the real code',
     'Real save and restore on 8 virtual devices for every pair of layouts in the alphabet.')

prop('C10', 'Processes saving together store every element once and all read it back',
     '''When several processes save one distributed tree, each slice of each array is
     written by exactly one process (no slice missing, none duplicated in the data
     files), the set of files is the announced one, and any number of processes can
     then restore it with every process seeing exactly the saved values. This holds
     whichever process is slow.''',
     ['configurations', 'schedules'],
     'Every process grid, layout, shard count, and arrival order of the processes.',
     'The tests run in a single process with mocks.',
     ['vmoe/checkpoints/partitioned.py', 'vmoe/multihost_utils.py'],
     [('save_checkpoint', 'vmoe/checkpoints/partitioned.py'),
      ('_slice_and_save slices by process', 'vmoe/checkpoints/partitioned.py')],
     ['files on disk', 'restored arrays in each process'],
     'exhaustive enumeration on real multi-process JAX',
     'Up to 4 real processes over loopback; layouts and late process enumerated.')

prop('C11', 'A crash never makes recovery use an incomplete checkpoint',
     '''Whatever the point at which a process dies while saving or removing
     checkpoints, the latest complete checkpoint found afterwards restores exactly
     the values saved for that step, a checkpoint whose save had finished is still
     found and intact, and a partially written or partially removed one is never
     reported as complete. A save that hits an I/O error reports it, a refused
     overwrite leaves the existing checkpoint intact, and checkpoints with other
     prefixes in the same directory do not interfere.''',
     ['crash_points', 'fault_sequences', 'schedules', 'histories'],
     '''Every interleaving of the writer tasks, every crash point between (and torn
     write within) file-system operations, every I/O error position, and histories
     of crash and retry.''',
     'The tests list a few hand-made directories and never interrupt a save.',
     ['vmoe/checkpoints/base.py', 'vmoe/checkpoints/partitioned.py'],
     [('write to temp file then rename', 'vmoe/checkpoints/base.py save_checkpoint'),
      ('iterate_complete_steps_for_prefix', 'vmoe/checkpoints/base.py'),
      ('remove_checkpoints', 'vmoe/checkpoints/base.py')],
     ['find_latest_complete_checkpoint_for_prefix', 'restore_checkpoint'],
     'explicit-state crash-point enumeration on the real code under a controlled scheduler',
     '''Every schedule prefix of the real save/remove code up to 4 tasks is a crash
     point; recovery is executed in each distinct directory state. Process crashes,
     not power loss.''')

prop('C12', 'An asynchronous save stores the values passed at the call',
     '''Once a save has been started, nothing the caller does with its arrays
     afterwards (updating, donating, deleting them, starting the next save) and no
     order of execution of the background tasks changes what is stored: the finished
     checkpoint contains the values at the time of the call. A restore likewise
     returns the same values in the requested placement for every order of its
     reader tasks.''',
     ['schedules', 'histories'],
     'Every interleaving (within a preemption bound) of caller actions and background tasks.',
     'Tests run one uncontrolled schedule with a caller that does nothing in between.',
     ['vmoe/checkpoints/partitioned.py', 'vmoe/checkpoints/base.py'],
     [('copy to host before returning', 'vmoe/checkpoints/partitioned.py save_checkpoint'),
      ('local buffers filled by reader tasks', 'vmoe/checkpoints/partitioned.py')],
     ['restored arrays'],
     'preemption-bounded stateless exploration of the real code',
     'All schedules within the preemption bound at file-system operations and caller actions; CPU devices.')

prop('C13', 'Serialized data reads back as the same values and types',
     '''Serializing a tree to bytes (or a file) and deserializing it returns equal
     values with the same dtypes, shapes and structure: arrays of every dtype
     including empty and scalar ones, numpy and python scalars, complex numbers,
     slices, index tables and array chunks, also when arrays are large enough to be
     split. Serialization does not modify its input.''',
     ['inputs'],
     'Every leaf type, dtype, shape, nesting and splitting limit.',
     'Tests check one value per type and never split an array.',
     ['vmoe/checkpoints/serialization.py', 'vmoe/checkpoints/types.py'],
     [('_msgpack_ext_pack / _msgpack_ext_unpack', 'vmoe/checkpoints/serialization.py')],
     ['from_bytes(to_bytes(x))'],
     'exhaustive enumeration of values and limits on the real code',
     'All leaf kinds x dtypes x shapes in the alphabet, all splitting limits listed.')

prop('C14', 'Parameters are updated exactly as the optimizer configuration says',
     '''In every history of updates a parameter moves by -lr*(direction + decay*value):
     direction is the configured optimizer (SGD, momentum, Adam, factored RMS)
     applied to the gradients, each first scaled by the factor of the first pattern
     matching its name and then clipped (global norm or absolute value); decay is the
     factor of the first matching pattern; lr is the schedule's value for the number
     of updates so far, recorded in the optimizer state. Frozen (or not trainable)
     parameters never change, names are matched per parameter regardless of key
     order, and contradictory options are rejected.''',
     ['histories', 'configurations', 'inputs'],
     'Every option combination, parameter naming/order and sequence of gradients.',
     'Tests minimise one function with five configurations and check options one at a time.',
     ['vmoe/train/optimizer.py'],
     [('create_optimizer (chain of transformations)', 'vmoe/train/optimizer.py'),
      ('first-match pattern lists', 'vmoe/train/optimizer.py')],
     ['parameters after apply_updates', 'optimizer state'],
     'explicit-state exploration of update histories, every model trace replayed',
     '''Float64 model of the optimizer; all option combinations of the lists and all
     gradient histories up to the depth are replayed on the real optimizer.''')

prop('C15', 'Learning-rate schedules follow their documented curve at every step',
     '''At every step, including the last ones and any step after the end, a schedule
     returns the documented value: linear warmup from 0 to the peak, then the
     constant/linear/polynomial/cosine/exponential/inverse-square-root decay, the
     cooldown to 0, and the end value afterwards; it is never negative, NaN or above
     the peak, whether or not it is jitted. The length defaults to the total number
     of steps, and unknown schedules and impossible lengths are rejected.''',
     ['inputs', 'configurations'],
     'Every schedule, warmup/decay/cooldown length, peak and end value, power, and step.',
     'Tests evaluate one configuration per schedule, not jitted, on at most 15 steps.',
     ['vmoe/train/schedule.py'],
     [('create_learning_rate_schedule', 'vmoe/train/schedule.py'),
      ('big_vision_rsqrt_schedule', 'vmoe/train/schedule.py')],
     ['return value of the schedule'],
     'exhaustive enumeration of configurations and steps against the closed form',
     'All lengths up to the bound and all steps; float32 tolerance.')

prop('C06', 'Ensemble routing keeps the ensemble members separate',
     '''With M ensemble members, item i of a group belongs to member i mod M, its gates
     are the softmax over the experts of that member's block only, computed with that
     member's own router parameters and noise, and it is never sent to another
     member's expert; routing, capacity and importance loss of one member do not
     depend on the inputs or parameters of the others. Grouping the tokens keeps the
     M copies of a token together, loses none, and ungrouping is its inverse. Sizes
     that do not divide are rejected.''',
     ['inputs', 'configurations'],
     'Every input matrix, M, number of experts, K, capacity, batch, tokens and group size.',
     'Tests check shapes and one random input for a few sizes.',
     ['vmoe/nn/ensemble_routing.py'],
     [('NoisyTopExpertsPerItemEnsembleRouter', 'vmoe/nn/ensemble_routing.py'),
      ('reshape_to/from_group_size_representation', 'vmoe/nn/ensemble_routing.py')],
     ['dispatcher.dispatch()/combine()', 'metrics', 'reshaped arrays'],
     'exhaustive enumeration of inputs and configurations on the real router',
     'All input matrices over the alphabet; every reshape on index-tagged tokens.')

prop('C07', 'The soft router mixes items and slots by convex combinations',
     '''Every slot of every expert receives a convex combination of the items of its
     own group, and every item a convex combination of all slot outputs of its group;
     the weights are the softmax over items, respectively over slots, of scale times
     the cosine similarity of item and slot vectors, plus noise only when stochastic.
     The number of slots is the given one or the rounded share of the items, and the
     reported weight and similarity metrics are the minimum/mean/maximum they are
     named after.''',
     ['inputs', 'configurations'],
     'Every item and slot matrix, scale, number of groups, items, experts and slots.',
     'Tests check shapes and that weights sum to one on one input.',
     ['vmoe/projects/soft_moe/router.py'],
     [('SoftRouter', 'vmoe/projects/soft_moe/router.py'),
      ('cosine_psim / get_metrics', 'vmoe/projects/soft_moe/router.py')],
     ['dispatcher.dispatch()/combine()', 'metrics'],
     'exhaustive enumeration of inputs on the real router',
     'All item matrices over the alphabet for all sizes in bounds; bfloat16 tolerance.')

prop('C08', 'Optimal-transport routers route by balanced (sparse) transport plans',
     '''The optimal-transport routers choose by a non-negative plan computed for each
     group on its own: for the KL and quadratic variants the balanced plan (items sum
     to one, experts get equal shares) closest to the logits or gates; for the k-sparse
     variants a plan with at most K experts per item, or at most capacity items per
     expert, with exact sums on that side. Items are sent to the best pairs of the
     plan under the capacity and combined with the softmax gates (or with the plan when
     asked); noise is added only when stochastic, and reported counts and losses
     describe the plan.''',
     ['inputs', 'configurations'],
     'Every logit matrix, number of items/experts, K, capacity, router and solver option.',
     'Tests check shapes and marginals of one random input.',
     ['vmoe/projects/sparsity_constrained_ot/kl_projection_routing.py',
      'vmoe/projects/sparsity_constrained_ot/ksparse_projection_routing.py',
      'vmoe/projects/sparsity_constrained_ot/sparse_projection_routing.py',
      'vmoe/projects/sparsity_constrained_ot/ot_routing.py'],
     [('_replace_combine_weights', 'ot_routing.py'),
      ('plan solvers', 'kl/ksparse/sparse_projection_routing.py')],
     ['dispatcher.dispatch()/combine()', 'metrics'],
     'exhaustive enumeration of logits on the real routers against independent solvers',
     '''All logit matrices over the alphabet; plans compared with float64 Sinkhorn and
     Dykstra solutions; solver iterations high enough to converge.''')

prop('C16', 'Evaluation metrics are exact means over the valid examples',
     '''Every time an evaluation is due, each dataset's reported loss and precision are
     the mean, over all and only its examples marked valid, of the loss and of whether
     the predicted label is one of the true labels, with the parameters given at that
     step. They do not depend on how examples are split in batches, where padding is,
     the number of devices, the other datasets or previous evaluations. A stochastic
     model gets a different random key for every batch and name, reproducibly from
     the seed.''',
     ['inputs', 'configurations', 'histories'],
     '''Every dataset content, padding pattern, batch size, number of batches and
     datasets, mesh, schedule and history of evaluations.''',
     'Tests evaluate one random dataset with one fixed mask and check which keys are written.',
     ['vmoe/evaluate/evaluator.py'],
     [('EvaluateMultipleDatasets', 'vmoe/evaluate/evaluator.py'),
      ('evaluate_step / EvalState', 'vmoe/evaluate/evaluator.py')],
     ['write_scalars() of the metric writer'],
     'exhaustive enumeration of contents and masks on the real evaluator',
     'All masks and small contents in histories of evaluations by the same action.')

prop('C17', 'The input pipeline delivers every example exactly once per evaluation',
     '''Over all processes, one pass over an evaluation dataset delivers every example of
     the split that passes the filter exactly once, with its own features, marked
     valid (unless it has no labels and that is asked for), plus padding marked
     invalid; all processes do the same number of steps, with full batches, and a
     pass can be repeated. Training data is endless, without padding, drawn from the
     process's own share, each example once per epoch up to the shuffle buffer.
     Batch sizes that do not divide over processes and devices are rejected.''',
     ['inputs', 'configurations'],
     '''Every split size, number of processes, process index, batch size, cache,
     prefetch and parallelism setting, and filter.''',
     '''Tests use one three-example dataset with a mocked builder in one process, and
     three values of the padding formula.''',
     ['vmoe/data/input_pipeline.py', 'vmoe/data/builder.py'],
     [('get_dataset', 'vmoe/data/input_pipeline.py'),
      ('TfdsBuilder / _get_num_fake_examples', 'vmoe/data/builder.py')],
     ['batches returned by the DatasetIterator of every process'],
     'exhaustive enumeration of configurations on the real pipeline',
     'A real TFDS dataset on disk; quick runs two cache/filter variants per configuration.')

prop('C18', 'Prefetching to devices delivers the same batches, in order, correctly sharded',
     '''Prefetching an iterator of batches to the devices yields every batch exactly once
     and in the original order for any buffer size, then ends, without reading further
     ahead than the buffer size. Each array is the global concatenation of the
     processes' batches in mesh order with the same row order in all the features, so
     examples and labels stay together; string and ragged features are left alone,
     batches that cannot be split over the devices are rejected, and shape, dtype and
     sharding are those announced for the dataset.''',
     ['inputs', 'configurations', 'histories'],
     'Every sequence of batches, buffer size, feature set, mesh and number of processes.',
     'Tests prefetch one range of numbers on one device with fixed sizes.',
     ['vmoe/data/pjit_utils.py', 'vmoe/data/input_pipeline.py'],
     [('prefetch_to_device', 'vmoe/data/pjit_utils.py'),
      ('get_dataset_shape_dtype_struct', 'vmoe/data/pjit_utils.py')],
     ['batches yielded by the prefetched iterator', 'reads of the source iterator'],
     'exhaustive enumeration of sequences, buffers and meshes on the real iterator',
     'Eight virtual devices plus real multi-process runs over small meshes.')

prop('C19', 'The logical device mesh covers every device once with equal expert partitions',
     '''The automatic logical mesh contains every device exactly once, in an array of
     (number of partitions, replicas) with axes "expert" and "replica". For every
     feasible number of partitions the devices of a process stay together in a
     contiguous tile, all processes build the same mesh, more partitions than devices
     are clipped to the number of devices, and infeasible numbers are rejected.''',
     ['configurations'],
     'Every hardware mesh (hosts, cores and grid shapes), process layout and number of partitions.',
     'Tests check a handful of TPU layouts.',
     ['vmoe/partitioning.py'],
     [('get_auto_logical_mesh / get_logical_mesh', 'vmoe/partitioning.py'),
      ('get_logical_mesh_tile_by_process', 'vmoe/partitioning.py')],
     ['the returned Mesh'],
     'exhaustive enumeration of hardware meshes on the real functions',
     'Stand-in devices with process index, coordinates and core; full grids only.')

prop('C20', 'Sharding specs come from the first matching rule; all else is replicated',
     '''Given an ordered list of (regex, partition spec) rules, each leaf of a tree gets
     the spec of the first rule whose pattern is found in its slash-separated path;
     leaves that match none, and leaves with at most one element, are replicated. The
     tree structure is preserved, and a spec written as strings, tuples, lists or None
     means the same sharding. Predicates built from patterns accept a name exactly when
     some pattern is found in it.''',
     ['inputs', 'configurations'],
     'Every tree of arrays, order of rules, pattern and written form of the specs.',
     'Tests use two or three fixed trees with non-overlapping rules.',
     ['vmoe/partitioning.py', 'vmoe/utils.py'],
     [('tree_axis_resources_from_regexes', 'vmoe/partitioning.py'),
      ('parse_partition_spec', 'vmoe/partitioning.py'), ('make_match_fn_from_regex_list', 'vmoe/utils.py')],
     ['returned tree of specs', 'returned predicate'],
     'exhaustive enumeration of trees and rule lists on the real functions',
     'All ordered rule lists up to the bound over a pattern alphabet, all small trees.')

prop('C21', 'Adversarial attacks stay in the epsilon ball and their statistics are exact',
     '''The PGD attack returns images within epsilon (in max norm) of the originals, made
     by the given number of updates of stepsize times the sign of the gradient of the
     loss of each image, whatever else is in the batch, and a stochastic model gets new
     random keys at every update. The reported statistics (correct and changed
     predictions, losses, counts, routing overlap between clean and attacked images)
     accumulate over batches and only over valid images. The combine weights reported
     for an MoE layer are those used to combine its outputs, with either dispatcher,
     and example storages keep every stored example in order.''',
     ['inputs', 'configurations', 'histories'],
     'Every image, gradient sign, number of updates, epsilon, validity mask, batch split and routing.',
     'Tests check shapes, types, and single random batches.',
     ['vmoe/projects/adversarial_attacks/'],
     [('make_pgd_attack / stateless_attack_pgd', 'vmoe/projects/adversarial_attacks/attacks.py'),
      ('statistics and storage', 'vmoe/projects/adversarial_attacks/runner.py'),
      ('get_combine_weights', 'vmoe/projects/adversarial_attacks/restore.py')],
     ['attacked images', 'AttackState', 'returned weights'],
     'exhaustive enumeration of images, masks and routings on the real attack',
     'Small linear models with exactly known gradients; vit_jax replaced by stand-ins.')

prop('C22', 'Initialization maps every checkpoint array to its target, and only there',
     '''Initializing from a checkpoint (V-MoE, ViT or Orbax, however its arrays were
     sharded when saved) applies to each stored array the first rule whose pattern is
     found in its name: dropped, or renamed and transformed (reshape, squeeze, stack in
     natural order of the names, expand and tile, linear zoom also of position
     embedding grids with or without class token), and puts it in the target array of
     that name with the target's dtype and sharding. All the other target values are
     kept. Unmatched sources or targets and dtype or shape mismatches are refused or
     tolerated as asked; unknown targets and targets matched twice are always refused.''',
     ['inputs', 'configurations'],
     '''Every source and target tree, ordered list of rules, transformation, shapes,
     dtypes, shardings and options.''',
     'Tests map two or three fixed trees, with the readers of checkpoints mocked.',
     ['vmoe/initialization/'],
     [('map_state_dict', 'vmoe/initialization/mapping.py'),
      ('transformations', 'vmoe/initialization/rules.py'),
      ('initialize_from_*', 'vmoe/initialization/initialization.py')],
     ['the returned tree, or the exception'],
     'exhaustive enumeration of rule lists and transformations on the real mapping',
     '''All short rule lists over an alphabet of rules, compared with a reference mapping
     in numpy; real checkpoints on disk for the three readers.''')

prop('C23', 'A training step applies the mean gradient of the batch, once, with fresh keys',
     '''One training step updates the parameters with the optimizer given the gradient of
     the mean total loss (main plus auxiliary) over the batch, the same for any number of
     microsteps; reported metrics are means over the batch and the global norms those of
     gradients, updates and new parameters. Each microstep, attack update and step gets
     new random keys, none is used twice, and the given state is not modified. Mixup
     replaces each example by a convex combination with its next ones of the same
     device, with the same weights for images and labels, largest on itself, sampled per
     example, device or batch as asked; adversarial training changes images within
     epsilon along the gradient. The number of steps covers the epochs asked for.''',
     ['inputs', 'configurations', 'histories'],
     '''Every batch, batch size, number of microsteps, mesh, mixup granularity, size and
     concentration, attack setting and sequence of steps.''',
     '''Tests compare two microsteps on zeros, check shapes of mixed arrays with mocked
     weights, and one attack.''',
     ['vmoe/train/trainer.py', 'vmoe/train/train_state.py', 'vmoe/utils.py'],
     [('train_step / accumulate_gradients_and_metrics', 'vmoe/train/trainer.py'),
      ('mixup / wrap_train_step_with_mixup', 'vmoe/train/trainer.py'),
      ('wrap_train_step_with_adversarial_attack', 'vmoe/train/trainer.py'),
      ('apply_gradients_and_compute_global_norms', 'vmoe/train/train_state.py')],
     ['new state and metrics', 'examples and keys seen by the model'],
     'exhaustive enumeration of batches, microsteps and histories on the real step',
     '''Model with known gradients evaluated in float64; keys and examples recorded by
     callbacks; mixing matrices recovered exactly from identity inputs.''')

prop('C24', 'A restarted training continues the same trajectory from its last checkpoint',
     '''However often training is killed and restarted, and on whatever mesh, it continues
     after the last complete checkpoint with exactly the state saved there (parameters,
     optimizer, random keys, step), so that with the same batches every metric, evaluation
     and checkpoint is the same as without crashes. Step s uses the s-th batch since the
     (re)start, checkpoints are those due (first, every N, last, minus the ones to
     discard), and the last step is always saved and evaluated. Initialization from a
     pre-trained checkpoint happens only when there is nothing to restore, and arrays it
     does not provide are created from scratch, with the required sharding. The seed decides
     all random draws: same seed, same run; each training step has its own noise.''',
     ['histories', 'crash_points', 'configurations'],
     '''Every crash point of a run, sequence of crashes, mesh, checkpoint and evaluation
     period, retention option and training option.''',
     '''The tests of the training loop are skipped in the repository, those of restoring
     mock the checkpoint manager.''',
     ['vmoe/train/trainer.py'],
     [('train_and_evaluate', 'vmoe/train/trainer.py'),
      ('restore_or_create_train_state / create_or_reuse_train_state', 'vmoe/train/trainer.py'),
      ('create_checkpoint_manager', 'vmoe/train/trainer.py')],
     ['metrics written', 'checkpoints on disk'],
     'exhaustive crash-point enumeration of real training runs, with restarts',
     '''Runs are real processes killed at enumerated events including file operations of
     the checkpoints, compared bit by bit with an uninterrupted run.''')

prop('C25', 'Few-shot accuracies are those of ridge regression on k examples per class',
     '''The few-shot accuracy reported for a dataset and k shots is that, on all and only
     its valid test examples, of L2-regularized least squares (almost unregularized bias)
     on standardized features of k valid training examples of each class (all of them,
     when there are fewer). The examples are chosen at random, reproducibly from the seed
     (and from the step when asked to), differently for each of the seeds. For each number
     of shots a single L2 is used in all the datasets, the one of best mean rank. Results
     do not depend on batch size, padding, devices or prefetching; each batch gets new
     random keys; every evaluation due reads all the data from the start, and is written
     once, with the mean over seeds of the main task.''',
     ['inputs', 'configurations', 'histories'],
     '''Every dataset, class sizes, shots, L2 candidates, batching and padding, mesh,
     number of seeds and sequence of evaluations.''',
     '''Tests run the evaluation on mocked constant features, or check single helpers on
     one random array.''',
     ['vmoe/evaluate/fewshot.py'],
     [('FewShotPeriodicAction', 'vmoe/evaluate/fewshot.py'),
      ('_compute_fewshot_metrics / _precompute_cache', 'vmoe/evaluate/fewshot.py'),
      ('_find_best_l2_reg', 'vmoe/evaluate/fewshot.py')],
     ['metrics written', 'keys and batches seen by the model'],
     'exhaustive enumeration of small datasets and evaluation histories on the real action',
     '''Accuracies compared with those float64 ridge regression gives over all choices of
     examples; every order of the accuracies of three L2 candidates in two or three
     datasets; histories of evaluations with recording iterators.''')

prop('C26', 'V-MoE models compute the documented function of their parameters',
     '''A Vision Transformer (V-MoE or ensemble of V-MoEs) outputs the documented function
     of its parameters: non-overlapping patches embedded in row-major order, class token
     first, learned / 2D sin-cos / no position embedding, pre-norm blocks with residuals
     whose MLP is an MoE exactly in the listed layers (tokens of consecutive images
     grouped by group_size, experts with their own or shared initial values as asked),
     final norm, token / first / average / attention pooling, and head (initially zero
     plus bias). An ensemble returns M consecutive rows per image, row m using only the
     experts and router of member m. All the options hold for ensembles too. The
     auxiliary loss is the sum over MoE layers, whose metrics are reported by block.
     Dropout and router noise apply only when not deterministic (the router can override
     it), independently per example, reproducibly from their own keys.''',
     ['inputs', 'configurations'],
     '''Every image batch, parameter values, layers with MoE, router, group size, classifier,
     position embedding, number of members and other options of the model.''',
     '''Tests of the models check shapes of initialized parameters, and do not run where
     vit_jax is not installed (they are not among the stable tests).''',
     ['vmoe/nn/vit_moe.py', 'vmoe/nn/vit_moe_ensemble.py', 'vmoe/utils.py'],
     [('VisionTransformerMoe / EncoderMoe / EncoderBlock / MlpMoeBlock', 'vmoe/nn/vit_moe.py'),
      ('MapHead / add_position_emb', 'vmoe/nn/vit_moe.py'),
      ('VisionTransformerMoeEnsemble / EncoderMoeEnsemble', 'vmoe/nn/vit_moe_ensemble.py')],
     ['outputs, metrics and initial parameters of the models'],
     'exhaustive enumeration of model configurations against a float64 reference model',
     '''Every pair (thorough: every combination) of MoE layers, router, position embedding
     and classifier, on the real model with all the parameters different, compared with
     an independent numpy model of the same parameters.''')

prop('C27', 'A processing string applies its operations in order, each as documented',
     '''A preprocessing string "op|op(args)|..." applies its operations from left to right
     with exactly the given literal arguments, each reading and writing only its own
     keys: central crops, resizing (bilinear by default, keeping the type; smaller side
     with aspect ratio kept), value ranges (per channel, clipped when asked), one-hot and
     multi-hot labels with on/off values, copies, flattening, decoding. keep never removes
     the validity mask, and ignore_no_labels only adds restrictions to it. Random flips
     give the image or its mirror image; random crops are parts of the image with area
     within the given bounds and aspect ratio in 3/4..4/3, then resized as asked.''',
     ['programs', 'inputs'],
     '''Every sequence of operations, arguments, image size and type, number of labels and
     random draw.''',
     '''Tests check one output shape or value per operation.''',
     ['vmoe/data/pp_ops.py', 'vmoe/data/input_pipeline.py', 'vmoe/utils.py'],
     [('operations', 'vmoe/data/pp_ops.py'),
      ('get_data_process_fn', 'vmoe/data/input_pipeline.py'),
      ('parse_call', 'vmoe/utils.py')],
     ['the processed examples'],
     'exhaustive enumeration of processing strings up to a length, run inside tf.data',
     '''All sequences of one or two operations (thorough: three) out of an alphabet of 27,
     on examples of several sizes, compared with numpy; recovered rectangles of random
     crops of coordinate-coded images.''')

prop('C28', 'Contrastive training pulls each image to its own text, with all its losses',
     '''The logits of a two-tower model are scale times the cosine of each image and each text,
     plus the bias (when there is one); given one modality alone it returns the same unit
     embeddings as in the joint call. The main loss is the mean over images of the sum over
     texts of -log sigmoid of the logit (its own text) or minus the logit (other texts), and
     the auxiliary losses of both towers are added to it. A training step applies the mean
     gradient once, also with microsteps, which keep images with their texts, and fresh keys.
     Retrieval and zero-shot evaluations happen in the first, last, every N and listed steps,
     with the current parameters, no noise, and metrics and duration per task. A crashed and
     restarted run continues the same trajectory.''',
     ['inputs', 'configurations', 'histories', 'crash_points'],
     '''Every pair of towers, batch, number of microsteps, mesh, evaluation schedule and crash
     point.''',
     '''Tests only check shapes of the outputs of the two towers.''',
     ['vmoe/projects/contrastive/models.py', 'vmoe/projects/contrastive/trainer.py',
      'vmoe/projects/contrastive/evaluators.py'],
     [('TwoTower / TextTransformer', 'vmoe/projects/contrastive/models.py'),
      ('train_step / sigmoid_loss / train_and_evaluate', 'vmoe/projects/contrastive/trainer.py'),
      ('ZeroShotPeriodicAction / RetrievalPeriodicAction',
       'vmoe/projects/contrastive/evaluators.py')],
     ['logits', 'updated parameters', 'metrics written', 'checkpoints'],
     'exhaustive enumeration of configurations and crash points of real runs',
     '''Products of tower options against a float64 reference; training steps against known
     gradients; evaluation histories with recording evaluators; whole runs killed at
     enumerated events and restarted, compared with uninterrupted ones.''')


prop('C29', 'Every shipped configuration describes a run that can be built and executed',
     '''Every shipped configuration (each module with get_config, each model name it accepts)
     describes a run that the trainers build and execute: its fields are accepted, labels of all
     its datasets are as wide as its classes, images of all its datasets (also few-shot) are of
     the size of the model's, no example is both trained and evaluated on. MoE layers are those stated, their
     expert parameters and nothing else are partitioned among experts, partitions = experts.
     Evaluation and few-shot models use the same parameters. A description such as
     "ViT-B/16, E=8, K=2, Every 2, 300 Epochs" or "soft-s16" gives the sizes, patch, MoE layers,
     experts, K and epochs it names; others are rejected. Fine-tuning takes all but the head from
     the checkpoint, resizing position embeddings; runs end with finite losses and all the
     evaluations.''',
     ['configurations', 'inputs'],
     '''Every configuration module, every model name, every description of the grammar.''',
     '''Tests only build the configurations; no test runs one or abstractly executes one.''',
     ['vmoe/configs', 'vmoe/projects/soft_moe/configs', 'vmoe/projects/adversarial_attacks/configs',
      'vmoe/train/trainer.py'],
     [('get_config of each module', 'vmoe/configs/vmoe_paper/pretrain_imagenet21k.py'),
      ('get_config', 'vmoe/projects/soft_moe/configs/pretrain_jft4b.py'),
      ('get_vmoe_config / get_optimizer_config', 'vmoe/configs/vmoe_paper/common.py'),
      ('get_fewshot', 'vmoe/configs/common_fewshot.py')],
     ['shapes and partitioning of the training state', 'metrics written', 'initial parameters'],
     'exhaustive enumeration of configurations, built at full size and executed when shrunk',
     '''Every configuration and variant is built at full size by abstract evaluation of the real
     training and evaluation steps (no numbers computed), and the partitioning of every leaf is
     compared with the experts it states; then shrunk (4 layers, 16 units) and executed by the
     real train_and_evaluate with stand-in datasets. All the descriptions of a grammar of 1296
     per module are parsed and compared.''')


prop('C30', 'Losses and predictions are those of the probabilities of the model',
     '''Softmax (sigmoid) training and evaluation losses are the cross entropies of labels and
     softmax (sigmoid, summed over classes) probabilities, one per example; predictions are the
     most probable class. With ensembles (rows of an example are consecutive, one per member)
     there is one training loss per member against the label of its example, while the evaluation
     loss and prediction are of the mean probability of the members, whatever their order, one
     per example; an ensemble of one is the plain loss. All losses and gradients are finite and
     exact for large logits and for zero, soft or multiple labels, in jit, in any batch, masked in
     evaluation steps per example and averaged over examples and members in training steps.
     Unknown losses are rejected.''',
     ['inputs', 'configurations'],
     '''Every loss, ensemble size, logits of each member and label.''',
     '''Tests compare a few random logits; they do not reach saturated logits, zero labels, or
     ensembles within training and evaluation steps.''',
     ['vmoe/evaluate/ensemble.py', 'vmoe/train/trainer.py', 'vmoe/evaluate/evaluator.py'],
     [('get_loss_fn', 'vmoe/train/trainer.py'),
      ('ensemble_softmax_xent_eval / label_pred_ensemble_softmax', 'vmoe/evaluate/ensemble.py'),
      ('evaluate_step', 'vmoe/evaluate/evaluator.py')],
     ['losses', 'gradients', 'predictions', 'sums of evaluation steps'],
     'exhaustive enumeration of logits and labels of a finite alphabet through the real losses',
     '''All tuples of logits of an alphabet (with saturated ones) for up to 3 members x 3 classes,
     with all labels of a list, against a float64 reference (losses, gradients, predictions,
     permutations of members); all masks and image tuples of evaluation and training steps.''')


prop('C31', 'Progress reports and summaries give the values of the step they name',
     '''Training progress is reported in the last step, every N steps, in listed steps and when
     the given time has passed since the last report (never in the first call, which starts the
     clock), only by the chosen process (0 by default, or all); it gives the metrics of that
     step, nested names joined by "/", as floats, once. Summaries give, for each array of the new
     training state or gradients whose name a rule's pattern finds, the result of its
     transformations in order (over the given axes or all), named by array, transformations and
     index; every matching rule counts; more values than the limit are an error. Costs are the
     positive costs per step and device times steps and all devices.''',
     ['histories', 'configurations', 'inputs'],
     '''Every configuration and history of steps and times, process, tree of arrays and rules.''',
     '''Tests sample one history and a few rules.''',
     ['vmoe/train/periodic_actions.py', 'vmoe/train/tree_summarizer.py', 'vmoe/train/trainer.py',
      'vmoe/utils.py'],
     [('ReportProgress / SingleProcessPeriodicAction', 'vmoe/train/periodic_actions.py'),
      ('TreeSummarizer', 'vmoe/train/tree_summarizer.py'),
      ('create_progress_hook / create_tree_summarizer / make_train_cost_fn / train_step',
       'vmoe/train/trainer.py')],
     ['scalars written', 'return values', 'metrics of training steps'],
     'exhaustive enumeration of histories of steps and of rules on the real code',
     '''Histories: all (first step, length, period, listed steps, time increments, process, with
     or without metrics) within bounds, compared at each step with a small model. Summaries:
     products of patterns, operations, axes, limits and pairs of rules on trees, against a numpy
     reference; training steps with summaries against known gradients and momentum.''')


prop('C32', 'Call strings, overrides, patterns, zips and random keys mean what they say',
     '''A call string names a callable (in the default module, or by its full dotted name) with
     literal arguments; anything else (nested calls, expressions, unknown names) is an error.
     Models are built from the name and fields of a configuration; the configuration, also when
     locked, and the base of an override are never modified, and the result of an override is the
     base with exactly the overridden fields changed, sharing nothing with it. A list of patterns
     matches names which any of them finds. Safe zip and map give the rows of iterables lazily and
     fail if and only if lengths differ. Partial classes bind arguments without changing them.
     Random keys are reproducible, distinct by name and seed, and split into distinct keys.
     Products with zero are zero, with finite gradients.''',
     ['inputs', 'configurations'],
     '''Every call string, tuple of lengths, list of patterns, configuration, override, set of
     names, seed and number of splits.''',
     '''Tests sample a few strings, lengths and keys.''',
     ['vmoe/utils.py', 'vmoe/train/trainer.py'],
     [('parse_call / SafeZipIterator / make_match_fn_from_regex_list / partialclass', 'vmoe/utils.py'),
      ('make_rngs / tree_rngs_split / multiply_no_nan', 'vmoe/utils.py'),
      ('create_flax_model / override_base_config', 'vmoe/train/trainer.py')],
     ['parsed calls', 'rows and errors', 'built models', 'keys'],
     'exhaustive enumeration of bounded inputs on the real code against simple references',
     '''Products of names x depths x argument lists for call strings; all tuples of lengths up to
     3 of up to 4 iterables of 4 kinds; all pairs of patterns x names up to 3 letters; products
     of bases x overrides; all ordered subsets of 4 names x seeds x splits; all pairs of 9
     numbers (zeros, infinities, NaN).''')


prop('C33', 'Evaluating an attack on a checkpoint reports its effect on all the examples',
     '''run_pgd_attack restores the parameters of the given checkpoint, partitioned as configured
     (params_axis_resources, num_expert_partitions up to the number of devices), in the configured
     model with deterministic=True, and attacks every example of the dataset for num_updates steps
     of max_epsilon / num_updates in the sign of the gradient of the configured loss (plus the
     auxiliary loss only if attack_auxiliary_loss). It writes at step 0 the error and mean loss
     over the dataset before the attack, and at num_updates those after it, the fraction of
     changed predictions and, per MoE layer, one minus the mean overlap of the selected experts;
     and saves the totals in pgd_state.npz. None depends on the batch size, padding, prefetching,
     devices or partitions. If asked, images, labels, losses, predictions and routing before and
     after are stored, once for each example and in order, whatever the transfer period. Random
     models (extra_rng_keys) use numbers determined by the seed, new in each batch.''',
     ['inputs', 'configurations'],
     '''Every model with supported routers (or none), checkpoint, dataset, batch size, loss, number
     of updates, epsilon, partitions, prefetching and storage options.''',
     '''The test of the library replaces the restored model by a mock and checks shapes only.''',
     ['vmoe/projects/adversarial_attacks/lib.py', 'vmoe/projects/adversarial_attacks/restore.py',
      'vmoe/projects/adversarial_attacks/attacks.py'],
     [('run_pgd_attack / ExampleStorage', 'vmoe/projects/adversarial_attacks/lib.py'),
      ('restore_from_config / create_mesh', 'vmoe/projects/adversarial_attacks/restore.py')],
     ['scalars written', 'files saved', 'shardings of the restored parameters'],
     'exhaustive enumeration of bounded configurations end to end on the real code against a '
     'reference that attacks each example alone',
     '''Combinations of numbers of layers, dispatchers, losses, epsilons and updates with dataset
     and batch sizes, partitions, prefetching and storage periods (an orthogonal subset in the
     quick tier, six times more in the thorough one), run on 4 virtual devices from a checkpoint
     on disk; scalars, saved totals and stored rows are compared with a single-example
     reference.''')
