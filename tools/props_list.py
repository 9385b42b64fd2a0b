P_('C01', 'Checkpoint files appear atomically',
   'At every instant, also if the process is killed or the write fails, a file visible under a final checkpoint name holds the complete bytes of one save; '
   'partially written data only ever exists under temporary names. A failed or interrupted write never replaces a previously saved file.',
   ['crash_points', 'fault_sequences', 'inputs'], 'for every checkpoint file written by the library, every crash instant and every failing write',
   'The tests only look at the directory after successful saves; they never stop a save half way or make a write fail.',
   ['vmoe/checkpoints/base.py', 'vmoe/checkpoints/partitioned.py', 'vmoe/checkpoints/periodic_actions.py'],
   [('write to .tmp.* then rename', 'vmoe/checkpoints/base.py save_checkpoint'), ('only module that writes files', 'vmoe/checkpoints/base.py')],
   'value-flow analysis of every file-writing call site: who-may-write rule plus must-write-temp-then-rename ordering',
   'Every write site of the package is enumerated; write-close-rename ordering and source/destination names are decided.')
P_('C02', 'Only complete steps are offered for resuming',
   'Listing the steps available under a prefix never returns a step for which any temporary (unfinished) file still exists, returns every step whose files are all finished, '
   'and returns them in increasing numeric order, so the latest complete step is the newest step that can really be restored.',
   ['crash_points', 'histories', 'inputs'], 'for every directory content that saves, removals and crashes can leave behind',
   'The tests use two or three hand-made directory listings.',
   ['vmoe/checkpoints/base.py'], [('iterate_complete_steps_for_prefix', 'vmoe/checkpoints/base.py'), ('find_latest_complete_checkpoint_for_prefix', 'vmoe/checkpoints/base.py')],
   'value-flow analysis of the set computation (difference by step, sort key, max)',
   'The returned set is decided as a term: all finished steps minus all steps with temporary files, ordered by the step number.')
P_('C03', 'Checkpoint encoding and decoding are inverse',
   'Every value the checkpoint encoder accepts (arrays, scalars, complex, shapes, slices, slice grids, array chunks and shard indexes) is decoded to a value of the same type with the same contents, '
   'whatever its size, dtype and position in the tree.',
   ['inputs', 'programs'], 'for every supported type, every field value, every array size and subchunk boundary',
   'The tests round-trip a handful of small values; large (multi-chunk) arrays, bfloat16 fields and unusual nesting are not reached.',
   ['vmoe/checkpoints/serialization.py', 'vmoe/checkpoints/types.py'],
   [('extension codes', 'vmoe/checkpoints/serialization.py _MsgpackExtType'), ('subchunk tiling', 'vmoe/checkpoints/serialization.py _lazy_array_chunks_encode')],
   'term rewriting: decoder composed with encoder, per type, over the source-derived value-flow terms',
   'decode(encode(x)) is rewritten to x field by field for every supported type; codes distinct; subchunk ranges tile the array.')
P_('C04', 'Sharded save and restore move every element to its own place',
   'Restoring a partitioned checkpoint rebuilds every array exactly: when an array is cut into chunks the chunks tile it without gaps or overlaps, and every element read from a chunk is '
   'placed at the same global position it was saved from, whatever the sharding, the chunk size and the array shape, also when saved and restored with different shardings.',
   ['inputs', 'configurations'], 'for every array shape, every saving and restoring sharding, every maximum chunk size and number of checkpoint shards',
   'The tests use a few 2-d arrays on emulated device grids; the space of shapes x shardings x chunk sizes is unbounded.',
   ['vmoe/checkpoints/partitioned.py', 'vmoe/checkpoints/types.py'],
   [('slice intersection and local offsets', 'vmoe/checkpoints/partitioned.py _restore_local_buffers, _intersect_slicend'), ('chunk splitting', 'vmoe/checkpoints/partitioned.py _split_slicend')],
   'value-flow terms of all slice arithmetic compared with the normal form of intersection/offset/tiling; loop-coverage analysis',
   'Intersection is [max of starts, min of stops), offsets subtract the start of the container they index, splits tile their dimension, all chunks and buffers are visited.')
P_('C05', 'Each chunk is written once, by its owner, where the index says',
   'When several processes save a partitioned checkpoint, every chunk is stored by exactly one process, in the shard file that the index names for it, and all processes derive the same '
   'assignment; a reader looks for every chunk in exactly those files.',
   ['histories', 'configurations', 'schedules'], 'for every number of processes and checkpoint shards, every device assignment and every dictionary order',
   'The tests run one process and mock the process index for a few fixed cases.',
   ['vmoe/checkpoints/partitioned.py'],
   [('shard ownership i % process_count', 'vmoe/checkpoints/partitioned.py save_checkpoint, _find_smallest_ckpt_shard'), ('index and file names', 'vmoe/checkpoints/partitioned.py _create_map_filepath_to_data, _make_index_info')],
   'value-flow analysis: writer and reader use the same ownership predicate, file-name term, sorted iteration and paired index',
   'Ownership predicate, deterministic (sorted) assignment order, pairing of slices and shards in the index, and writer/reader file names are decided as terms.')
P_('C06', 'Expert dispatch and combine are exact inverse layouts',
   'Every dispatcher sends item s of group g to exactly the (expert, slot) given by its dispatch weights or indices, with experts on the leading axis, and combine reads every expert output back from '
   'exactly that place: combine(f(dispatch(x))) is the weighted sum over experts and slots of f applied to the same item, for any number of groups, experts, capacity and trailing shape; '
   'indices outside the capacity contribute nothing; the bfloat16 wrapper and the SPMD lift change neither.',
   ['inputs', 'configurations'], 'for every number of groups (multiple of the experts or not), group size, experts, capacity, selected experts and item shape',
   'The tests check a few tiny arrays; the reshape/transposition identities must hold for all sizes and both layout paths.',
   ['vmoe/moe.py'], [('_dispatch / _receive layouts', 'vmoe/moe.py'), ('einsum and scatter/gather dispatchers', 'vmoe/moe.py EinsumDispatcher, DenseEinsumDispatcher, ExpertIndicesDispatcher'), ('lift', 'vmoe/moe.py sparse_moe_spmd')],
   'abstract interpretation in an index-notation array domain: normal form of dispatch and of combine∘dispatch layouts compared with a specification program, sizes symbolic',
   'Element (g, s) goes to and comes from the same (expert, slot) for symbolic sizes in both layout paths of all three dispatchers; lift maps experts over axis 0.')
P_('C07', 'Items are combined with their own gate value',
   'For every routing algorithm and dispatcher, the weight with which an expert output is combined is the gating value of that very (item, expert) pair if the pair was assigned a slot and zero otherwise, '
   'also when items are reordered for batch priority.',
   ['inputs', 'configurations'], 'for every gate matrix, number of selected experts, capacity and priority mode',
   'The tests use fixed tiny gate matrices.',
   ['vmoe/moe.py'], [('combine_weights', 'vmoe/moe.py _get_top_experts_per_item_*, _get_top_items_per_expert_*')],
   'index-notation abstract interpretation: normal form of combine weights equals gate times assignment indicator',
   'combine_weights[s,e,c] = gates[s,e] * dispatch[s,e,c] (einsum) and gates[s, chosen expert] (indices) as normal forms.')
P_('C08', 'Expert buffers are filled in priority order up to capacity',
   'Top-experts-per-item routing gives each item its highest-gate experts; all first choices come before all second choices, and within one rank items come in array order or, with batch priority, by decreasing '
   'largest gate; an item gets the next free slot of the expert and is dropped iff the slot is not below the capacity; no two items share a slot. Top-items-per-expert routing fills every expert with its highest-gate items.',
   ['inputs', 'configurations'], 'for every gate matrix, number of selected experts, capacity and priority mode',
   'The tests compare with a few hand-computed assignments.',
   ['vmoe/moe.py'], [('cumulative position in the queue', 'vmoe/moe.py _get_top_experts_per_item_common'), ('top items', 'vmoe/moe.py _get_top_items_per_expert_einsum_dispatcher')],
   'index-notation abstract interpretation: normal form of slot assignment compared with a queue specification program',
   'The assignment is the specification queue (rank-major, priority order, cumulative count) for symbolic sizes in both priority modes and both dispatchers.')
P_('C09', 'Expert capacity is what was asked for',
   'An explicitly given capacity is used as it is; a capacity factor is converted to tokens x factor / experts (times selected experts for top-experts routing), rounded as requested and then rounded up to the requested multiple; '
   'giving both or neither, an unknown rounding mode, or a resulting capacity below one is an error.',
   ['inputs', 'configurations'], 'for every group size, number of experts, factor, rounding mode and multiple',
   'The tests use a handful of factors.',
   ['vmoe/moe.py'], [('compute_capacity', 'vmoe/moe.py'), ('capacity arguments', 'vmoe/moe.py get_top_experts_per_item_dispatcher, get_top_items_per_expert_dispatcher')],
   'value-flow terms of the capacity computation on every path compared with normal forms',
   'Terms, arguments and rejection conditions decided for all modes and paths.')
P_('C10', 'Routers are deterministic when asked, and route by the gates they computed',
   'With the deterministic flag set, or with a zero noise level, no router draws random numbers, so equal inputs are routed equally; otherwise the routing gates are the softmax over the experts of the '
   'router logits plus normal noise of the configured scale drawn from the "gating" stream. Exactly those gates, with the configured options, reach the dispatcher of their own group.',
   ['inputs', 'configurations', 'schedules'], 'for every input, router class, noise level and setting of the deterministic flag',
   'The tests call the routers with one or two settings and small inputs; determinism and use of the right gates have to hold in every mode.',
   ['vmoe/nn/routing.py', 'vmoe/nn/ensemble_routing.py', 'vmoe/projects/soft_moe/router.py', 'vmoe/projects/sparsity_constrained_ot'],
   [('NoisyTopExpertsPerItemRouter, NoisyTopItemsPerExpertRouter', 'vmoe/nn/routing.py'), ('deterministic passed to the router', 'vmoe/nn/vit_moe.py MlpMoeBlock')],
   'reachability of random draws per configuration and index-notation normal form of the gates handed to the dispatcher',
   'Random draws are unreachable in deterministic modes; gates in the normal form equal the published formula and reach the dispatcher unchanged, for every router class.')
P_('C11', 'Auxiliary losses follow their formulas and are all collected',
   'Every router reports an auxiliary loss in every mode; it is the sum of the enabled losses, each with its own weight and each following its published formula (importance: squared coefficient of '
   'variation of the summed gates; load: the same of the probability of being selected under fresh noise; and so on), averaged over groups; the model adds the losses of all of its blocks.',
   ['inputs', 'configurations'], 'for every gate matrix, loss weight, noise level and number of MoE layers',
   'The tests check the losses on a few matrices, mostly with default weights.',
   ['vmoe/nn/routing.py', 'vmoe/nn/vit_moe.py', 'vmoe/projects'],
   [('_importance_auxiliary_loss, _load_auxiliary_loss', 'vmoe/nn/routing.py'), ('extract_metrics / sum of losses', 'vmoe/nn/vit_moe.py EncoderMoe')],
   'index-notation abstract interpretation: normal form of each loss compared with a specification program',
   'Loss terms equal the specification normal forms per mode; weighting and collection decided as terms.')
P_('C12', 'Ensemble members never mix',
   'In the efficient ensemble of experts the copies of one input stay together: regrouping and ungrouping are inverse, a member is routed only to its own block of experts, and training loss and '
   'evaluation pair every prediction with the label of its own image and average probabilities over the members of that image only.',
   ['inputs', 'configurations'], 'for every batch size, ensemble size, number of experts and group size',
   'The tests use one ensemble size and tiny batches.',
   ['vmoe/nn/ensemble_routing.py', 'vmoe/nn/vit_moe_ensemble.py', 'vmoe/evaluate/ensemble.py'],
   [('group representation', 'vmoe/nn/ensemble_routing.py'), ('losses', 'vmoe/evaluate/ensemble.py')],
   'index-notation abstract interpretation: layout functions compared with the member-major specification',
   'Layouts, block-diagonal gates and label pairing are decided for symbolic sizes.')
P_('C13', 'Soft MoE mixes with the right softmax and MoE blocks keep their tokens',
   'The soft router dispatches with a softmax over the items of the group and combines with a softmax over all slots of all experts, of the same normalised and scaled logits; the MoE block groups '
   'tokens, applies the experts and puts every output token back at the position of its input token.',
   ['inputs', 'configurations'], 'for every input shape, number of experts and slots, scale, noise level and group size',
   'The tests check shapes and a few values.',
   ['vmoe/projects/soft_moe/router.py', 'vmoe/nn/vit_moe.py'],
   [('SoftRouter', 'vmoe/projects/soft_moe/router.py'), ('MlpMoeBlock', 'vmoe/nn/vit_moe.py')],
   'index-notation abstract interpretation: normal form of the dispatch and combine weights compared with a specification program',
   'Softmax axes, scale, logits sharing and token layout are decided as normal forms for symbolic sizes.')
P_('C14', 'No PRNG key is used twice',
   'In every step function (training, contrastive training, microsteps, evaluation, few-shot, adversarial training, mixup) a PRNG key is consumed at most once: the keys given to the model come from the '
   'incoming state, are derived by a split, differ in every microstep and update, and the keys stored in the new state are fresh children that the step did not use; named streams and their splits are '
   'pairwise different; few-shot keys and example selection depend on seed, sub-seed and (if requested) step. The state passed in is not changed.',
   ['histories', 'inputs'], 'for every number of steps, microsteps, attack updates, streams and sub-seeds',
   'Reusing a key changes no shape and no tested value; the trainer tests do not even run here, and no test compares the randomness of two steps.',
   ['vmoe/train/trainer.py', 'vmoe/projects/contrastive/trainer.py', 'vmoe/evaluate/evaluator.py', 'vmoe/evaluate/fewshot.py', 'vmoe/projects/adversarial_attacks/attacks.py', 'vmoe/utils.py'],
   [('key splitting per step', 'vmoe/train/trainer.py train_step, accumulate_gradients_and_metrics, wrap_train_step_with_mixup'), ('streams', 'vmoe/utils.py make_rngs, tree_rngs_split')],
   'linearity (single-use) analysis of PRNG keys over value-flow terms, through closures, tree maps and fori_loop carries',
   'Every use of a key on every path is enumerated; no key has two uses, loop-carried keys are fresh children, new states carry unused children.')
P_('C15', 'Each remaining training step runs once; checkpoints hold the state they name',
   'A run executes exactly the steps after the restored step up to the requested total, each on its own next training batch and starting from the result of the previous step. Every checkpoint pairs a step number with '
   'the state after that step and with the matching data position (step x batch size); the initial and the final state are always saved, and the run does not end before the last save is complete. The number of steps follows from '
   'steps or epochs (rounded up), and giving both or neither is refused.',
   ['histories', 'crash points', 'configurations'], 'for every initial step, total, interruption and restart, batch size and checkpoint interval, in both trainers',
   'The trainer tests mock most of the loop (and cannot run here); none compares checkpoint label, state and data position over interrupted runs.',
   ['vmoe/train/trainer.py', 'vmoe/projects/contrastive/trainer.py'],
   [('train_and_evaluate, create_checkpoint_manager, get_train_steps_and_epochs', 'vmoe/train/trainer.py'), ('train_and_evaluate', 'vmoe/projects/contrastive/trainer.py')],
   'value-flow (gated SSA) analysis of the training loops: loop bounds, state threading, pairing of label, state and position at each save, dominance of waits',
   'Bounds, threading, every save site and every wait decided on every path of both training functions.')
P_('C16', 'Evaluation and reporting see the step they claim',
   'Every periodic hook runs in every iteration with the number of the step just finished and the parameters (or metrics) that step produced, is due at least on the first and last step and on the configured steps, evaluates '
   'synchronously a deterministic copy of the model built from the base configuration with its overrides (which are not modified), on the evaluation data sets, with the evaluation loss and label prediction of the configured loss; '
   'training uses the non-deterministic model and the training loss.',
   ['histories', 'configurations'], 'for every step, hook, model override and loss configuration, in both trainers',
   'An off-by-one step, stale parameters or the wrong model copy change no type or shape, and the hooks are mocked in the tests.',
   ['vmoe/train/trainer.py', 'vmoe/projects/contrastive/trainer.py', 'vmoe/evaluate', 'vmoe/train/periodic_actions.py'],
   [('create_*_hook, get_loss_fn, override_base_config, create_flax_model', 'vmoe/train/trainer.py'), ('hooks', 'vmoe/projects/contrastive/trainer.py')],
   'value-flow analysis of hook creation and hook call sites in both training loops',
   'Every hook factory and call site: step, values, step sets, model flags, losses and data decided on every path.')
P_('C20', 'Donated buffers are never used again',
   'Whatever is donated to a compiled function (train state, images, labels and texts in training; evaluation state and batch in evaluation) is not read, saved, reported or kept after that call; the donated state is '
   'replaced by the result; model parameters are not donated by the evaluation, which needs them again.',
   ['histories', 'schedules'], 'for every iteration and every effect after the donating call',
   'CPU back ends ignore donation, so tests pass while accelerators fail or read overwritten memory.',
   ['vmoe/train/trainer.py', 'vmoe/projects/contrastive/trainer.py', 'vmoe/evaluate/evaluator.py'],
   [('donate_argnums of the train step', 'vmoe/train/trainer.py train_and_evaluate'), ('donate_argnums of the eval step', 'vmoe/evaluate/evaluator.py make_eval_step_pjit, evaluate_dataset')],
   'ownership (use-after-move) analysis over value-flow terms of the loops that call donating functions',
   'Every later effect in the iteration, every loop-carried value and every effect after the loop examined for reads of donated values.')
P_('C17', 'Optimizer update rules: order, masks, decay and scaling by parameter name',
   'Gradients are scaled per parameter, clipped (by global norm if given, else by absolute value), transformed by the named optimizer, weight-decayed, multiplied by minus the learning rate of the schedule, and '
   'last zeroed for frozen parameters. Weight decay adds factor * parameter, gradient scaling multiplies by a factor; factors come from the first pattern found in the parameter name '
   '(0 resp. 1 when none is). Updates, parameters and masks are paired by name. Frozen patterns zero what they match, trainable patterns what they do not match; both together are refused.',
   ['inputs', 'configurations'], 'for every parameter tree, pattern list, decay, clipping and optimizer configuration',
   'Tests check a few shapes of tree and single patterns; the order of stages and pairing of names show only for particular combinations.',
   ['vmoe/train/optimizer.py'],
   [('create_optimizer and its stages', 'vmoe/train/optimizer.py')],
   'value-flow analysis of the composed transformation: order of stages, formulas as normal forms, pairing by parameter name',
   'Every stage of the chain per optimizer and option; formulas and pairing decided for symbolic trees and patterns.')
P_('C18', 'A train step optimizes the mean loss once; accumulation is equivalent',
   'The objective is the mean of the per-example loss plus the auxiliary loss of the same forward pass with the given parameters; its gradient at the current parameters goes unmodified to the optimizer with the current optimizer state, the new parameters and '
   'optimizer state go into the new state, and the step counter grows by one. With microsteps, every example is used exactly once, images and labels of the same examples go together, and gradients and metrics are the '
   'averages over microsteps, so the result equals the full-batch step. Batches that do not divide are refused.',
   ['inputs', 'configurations'], 'for every batch, number of microsteps and model, in the supervised and contrastive trainers',
   'Trainer tests cannot run here; accumulation is compared with the plain step for one toy model only.',
   ['vmoe/train/trainer.py', 'vmoe/train/train_state.py', 'vmoe/projects/contrastive/trainer.py'],
   [('train_step, accumulate_gradients_and_metrics, apply_gradients', 'vmoe/train/trainer.py'), ('train_step', 'vmoe/projects/contrastive/trainer.py')],
   'value-flow analysis of the step functions: normal form of the objective, of the update and of the accumulated sums, index coverage of the microsteps',
   'Objective, gradient, update and accumulation terms of both train steps decided on every path for symbolic sizes.')
P_('C32', 'Learning-rate schedules: warm-up, decay length and end points',
   'A learning-rate schedule starts its warm-up at 0, reaches the peak exactly at the end of warm-up, and (cosine, linear, polynomial, rsqrt) decays over the configured decay_steps or, when absent, over the whole training length; the linear and polynomial decays run from peak to end value; '
   'the rsqrt schedule is continuous at its phase boundaries, decays as 1/sqrt(1 + steps since warm-up / timescale) and cools down linearly to 0. Constants are constant schedules and unknown names are refused.',
   ['inputs', 'configurations'], 'for every step and every combination of warm-up, cool-down, peak, end value and length',
   'Tests sample a few steps of a few settings; boundary mistakes show only at the phase boundaries of particular settings.',
   ['vmoe/train/schedule.py'],
   [('create_learning_rate_schedule, warmup_polynomial_decay, big_vision_rsqrt_schedule', 'vmoe/train/schedule.py')],
   'value-flow analysis of schedule construction: phase boundaries and per-phase closed forms compared as normal forms',
   'Every schedule name and every combination of phases; boundaries and formulas compared with the specification.')
P_('C19', 'Mixup mixes images and labels alike, each example dominated by itself',
   'With mixup on, example b of a device becomes the sum over i of weight_i times example b+i (cyclically, within the same device), with one draw of Dirichlet weights shared by images and labels, sorted so that the largest '
   'weight stays with the original example, and shared per batch, device or example according to the granularity; examples keep their position. The wrapped step gets the other arguments, and its state and metrics are '
   'returned. With concentration None or 0 nothing changes; invalid granularities, axes and concentrations are refused.',
   ['inputs', 'configurations'], 'for every batch size, device count, array rank, number of mixed examples and granularity',
   'Trainer tests (which cannot run here) check one small example with mocked weights.',
   ['vmoe/train/trainer.py'],
   [('mixup, wrap_train_step_with_mixup', 'vmoe/train/trainer.py')],
   'index-notation (symbolic-size) normal forms of the mixed arrays compared with a specification program',
   'All granularities and weight layouts; number of mixed examples symbolic and 2, 3.')
P_('C21', 'Training starts from latest checkpoint, else initialization, else scratch',
   'If a checkpoint exists (also one of step 0) the state and data position of the latest one are restored unchanged, with the shapes, dtypes and shardings the initializer and partitioning rules prescribe; otherwise the configured '
   'initialization is applied, and exactly the arrays it leaves undefined come from the initializer, all others being kept; without initialization everything comes from the initializer. The initial state holds the '
   'variables of the model, the optimizer planned for the training steps and the configured random streams from the seed. Reported costs are per-device cost x step x devices.',
   ['histories', 'inputs', 'configurations'], 'for every checkpoint history, initialization, state tree and partitioning, in both trainers',
   'Trainer tests (which cannot run here) mock the checkpoint manager; partial initialization is tested on one tiny tree.',
   ['vmoe/train/trainer.py', 'vmoe/projects/contrastive/trainer.py'],
   [('restore_or_create_train_state, create_or_reuse_train_state, make_create_train_state_fn, initialize_train_state_from_checkpoint, make_train_cost_fn', 'vmoe/train/trainer.py')],
   'value-flow analysis per branch; lookup semantics of the merged state for a symbolic array name',
   'Every branch of checkpoint / initialization presence; merged state decided for a symbolic key; both trainers\' wiring.')
P_('C23', 'Evaluation metrics are averages over exactly the valid examples',
   'The loss and precision reported for a data set are its sums over all of its batches divided by its number of valid examples: every batch is used once, each valid example counts once with its own label and its own '
   'prediction, padding counts nowhere (neither in the sums nor in the number). Every evaluation of a data set starts from zero and from the beginning of the data, uses the parameters it is given and reports under the name of that data set '
   'for the step it is called with; the contrastive evaluators likewise report each task and direction under its own name.',
   ['inputs', 'histories', 'configurations'], 'for every data set, number and size of batches, padding, loss shape and repetition of the evaluation',
   'The tests evaluate tiny data sets once with constant mocks; padding that is counted or sums that leak between data sets or evaluations do not show.',
   ['vmoe/evaluate/evaluator.py', 'vmoe/projects/contrastive/evaluators.py'],
   [('evaluate_step, EvalState.update, evaluate_dataset, EvaluateMultipleDatasets', 'vmoe/evaluate/evaluator.py'), ('ZeroShotPeriodicAction, RetrievalPeriodicAction', 'vmoe/projects/contrastive/evaluators.py')],
   'index-notation normal form of the accumulated sums, and value-flow analysis of the loop over batches and data sets',
   'Sums of one step, threading over batches, fresh start, reset, names and step of the reported metrics decided on every path.')
P_('C30', 'Adversarial attacks stay in their budget and are reported truthfully',
   'A PGD attack changes every pixel of an image by at most max_epsilon: it makes num_updates updates of max_epsilon / num_updates each, in the direction that increases the loss of the current '
   'image under its own labels. The statistics of a run count every valid example exactly once and padding never (number of images, correct predictions, changed predictions, losses, expert '
   'overlap), keep the values before and after the attack apart, and the reported error, loss, prediction and routing changes are those sums per attacked image; stored examples are complete and under their own names. '
   'Adversarial training makes each step on images attacked once, with the configured budget, against the current parameters, and is off when the budget or the number of updates is not positive. '
   'The attacked model is the configured one with the parameters of the given checkpoint, run deterministically, on the configured dataset read once.',
   ['inputs', 'programs', 'histories'], 'for every model, loss, image batch, validity mask, number of updates, epsilon, router and number of batches',
   'The tests attack one toy model with a fixed batch and compare a few numbers.',
   ['vmoe/projects/adversarial_attacks', 'vmoe/train/trainer.py'],
   [('training', 'vmoe/train/trainer.py wrap_train_step_with_adversarial_attack'), ('update loop', 'vmoe/projects/adversarial_attacks/attacks.py stateless_attack_pgd'), ('statistics', 'vmoe/projects/adversarial_attacks/attacks.py stateful_attack, AttackState'),
    ('reports', 'vmoe/projects/adversarial_attacks/lib.py run_pgd_attack'), ('model', 'vmoe/projects/adversarial_attacks/restore.py restore_from_config')],
   'value-flow normal form of the update (step times rounds) and index-notation normal forms of the accumulated sums compared with specification programs; flow of the sums to the reports',
   'The per-pixel change is bounded by max_epsilon, the attacked objective is the loss of the current image, each statistic equals its specification for masked and unmasked batches, and each report reads its own sum.')
P_('C22', 'Evaluation reads every example once; training data never ends',
   'For every data set, split, batch size and number of processes, the evaluation pipeline delivers each example of the split exactly once over all processes, processed by the described operations in '
   'order, with its valid flag as the processing left it; every process delivers the same number of full batches, completed with padding examples whose valid flag is off. The training pipeline '
   'repeats and shuffles the data forever and processes it afresh in every epoch. Data sets are built from the name, split and options asked for, and never shared between different data sets.',
   ['inputs', 'configurations'], 'for every data set size, batch size, process count, caching mode and processing string (outside pre_filter_fn and ignore_errors, which drop examples on request)',
   'The tests build one tiny data set on one process.',
   ['vmoe/data/input_pipeline.py', 'vmoe/data/builder.py'],
   [('pipeline', 'vmoe/data/input_pipeline.py get_dataset'), ('padding arithmetic', 'vmoe/data/builder.py _get_num_fake_examples'), ('per-process shares', 'vmoe/data/builder.py TfdsBuilder')],
   'abstract interpretation of the data set operation chain on every path; normal forms of the padding arithmetic and of the per-process splits',
   'On every path of get_dataset: multiplicity, processing, padding, batching and caching of the chain; padding count, shares and counts of each process; builder cache keys; order of the operations.')
P_('C24', 'Prefetching delivers every batch once, in order, on the right devices',
   'Iterating through the device prefetcher yields exactly the batches of the underlying iterator, once each and in order, whatever the buffer size and wherever the data ends. Each batch becomes '
   'global arrays whose i-th piece along the first axis lies on the i-th local device of the mesh, whose global first axis is the local one times the number of processes, and whose announced '
   'shapes, types and shardings are the ones delivered.',
   ['inputs', 'configurations', 'histories'], 'for every iterator length, buffer size, mesh and array shape',
   'The tests prefetch three batches with two buffer sizes on one process.',
   ['vmoe/data/pjit_utils.py'], [('queue', 'vmoe/data/pjit_utils.py prefetch_to_device'), ('device pieces', 'vmoe/data/pjit_utils.py put_to_devices')],
   'queue-protocol (typestate) analysis plus value-flow terms of pieces, shapes and shardings',
   'Every draw enters the queue once, leaves in order, the queue is refilled and drained; pieces and devices are paired index by index; shapes and shardings agree.')
P_('C26', 'The device mesh uses every device once, with the asked number of partitions',
   'The logical mesh has one row per partition and one column per replica, holds every given device exactly once, and has exactly the asked number of partitions (the number of devices, if more are '
   'asked for); a number of partitions that does not divide the axes of the hardware evenly is rejected, never rounded. Partitions are placed along the preferred hardware axes first (devices of a '
   'process; x, y, core on one plane; z, y, x, core on a cube), and if the devices of some process would be scattered over the mesh, the mesh is tiled by process so that they form a contiguous block.',
   ['inputs', 'configurations'], 'for every number of partitions, hardware shape of rank 2 and 4, and distribution of the devices over processes',
   'The tests build a handful of meshes with mocked devices.',
   ['vmoe/partitioning.py'], [('mesh', 'vmoe/partitioning.py get_logical_mesh_default, get_logical_mesh_tile_by_process'), ('placement', 'vmoe/partitioning.py get_auto_logical_mesh*')],
   'index-notation tensor domain over the reshapes and transposes, compared with specification programs; path conditions of rejections',
   'The device at every (partition, replica) position is the specified function of its hardware coordinates, for symbolic axis lengths; everything impossible is rejected.')
P_('C27', 'The first matching rule decides how a parameter is divided over devices',
   'For every leaf of the tree, the partition specification is the one of the first rule whose regular expression is found anywhere in the slash-joined name of the leaf, and it applies only to arrays of '
   'more than one element; every other leaf is replicated. The result has the structure of the given tree, empty parts included; a rule may give a specification as None, one axis name, a tuple or a '
   'parsed specification, with the same meaning.',
   ['inputs', 'configurations'], 'for every tree of arrays and every list of rules',
   'The tests apply three rules to one tree.',
   ['vmoe/partitioning.py'], [('rules', 'vmoe/partitioning.py tree_axis_resources_from_regexes'), ('parsing', 'vmoe/partitioning.py parse_partition_spec')],
   'search-loop (first-match) normal form and symbolic dictionary lookup over value-flow terms',
   'The specification found under any name is the first match of the rules in order, under exactly the stated condition.')
P_('C25', 'A function named by a string is found, with exactly its literal arguments',
   'Parsing a string that names a callable yields the object of that name — from the default module (given as a module or by name) for a bare name, from the imported module for a dotted name — with exactly '
   'the positional and keyword arguments written in the string, which may only be literals: nothing in the string is ever evaluated as code, and any other kind of expression is rejected. A partial class '
   'passes its own positional arguments before those of the call, and keyword arguments of the call override its own.',
   ['inputs'], 'for every string and every default module; for every combination of base and call arguments',
   'The tests parse a handful of strings.',
   ['vmoe/utils.py'], [('parsing', 'vmoe/utils.py parse_call'), ('partial classes', 'vmoe/utils.py partialclass')],
   'value-flow terms per syntactic form of the expression, path conditions of the rejection, effect check (no evaluation)',
   'For a name, a dotted name and calls of both: module, name and arguments returned are those of the expression, each argument passing only through literal evaluation; other forms raise.')
P_('C34', 'Lock-step iteration notices sequences of different length',
   'Zipping or mapping over several iterables in lock step yields the tuples (results) of the i-th elements in order, ends only when all iterables end together, and raises an error whenever one of '
   'them is exhausted while another still has elements: nothing is silently truncated.',
   ['inputs'], 'for every number of iterables and all lengths',
   'The tests use two short sequences.',
   ['vmoe/utils.py'], [('iterator', 'vmoe/utils.py SafeZipIterator.__next__')],
   'exhaustive case analysis of one iteration step over value-flow terms with exceptional edges, for which iterators are exhausted',
   'For one to three iterators and every combination of exhausted ones: the step returns all elements in order, stops, or raises the error, as specified.')
P_('C28', 'Initialization copies each source array to the target its rule names',
   'Initializing from a checkpoint copies every array of the source to the target named by the first rule whose regular expression is found in its name: renamed by substitution, dropped if the rule has no '
   'replacement, and transformed as the rule says (reshape, squeeze, stack in the natural order of the source names, expand and tile, linear zoom, zoom of ViT position embeddings with or without class '
   'token). The new values have shape, type and sharding of the target; all other target values are kept. A missing target, two sources for one target, an empty part matched with an array, and '
   'impossible zooms and unknown rules are rejected; unmatched sources or targets and wrong types or shapes are errors exactly when asked for (all but unmatched sources by default). The arrays of the checkpoint are read with '
   'their own shapes and types, divided over the mesh by the given axis resources; only the sources some rule matches are used, and legacy files of bfloat16 stored as raw bytes are reinterpreted.',
   ['inputs', 'configurations'], 'for every source and target tree, every list of rules and every strictness',
   'The tests map a handful of small trees with one rule kind each.',
   ['vmoe/initialization/mapping.py', 'vmoe/initialization/rules.py', 'vmoe/initialization/initialization.py'],
   [('mapping loop', 'vmoe/initialization/mapping.py _flat_state_dict_mapping_build'), ('application', 'vmoe/initialization/mapping.py _flat_state_dict_mapping_apply'), ('rules', 'vmoe/initialization/rules.py')],
   'value-flow terms of one iteration of the mapping loop for every kind of rule, first-match normal form, path conditions of the rejections, symbolic dictionary lookup, index notation of the transformations',
   'Each kind of rule gives its target and transformation; rejections cover the stated conditions; kept and new values of the applied tree; transformation formulas; strictness flags flow to their own checks.')
P_('C33', 'Few-shot accuracy is ridge regression on k valid examples of each class',
   'The few-shot accuracy reported for k shots is that of a linear ridge regression of the classes (targets plus or minus one, whitened features, constant bias feature) fitted on at most k training examples of '
   'every class, chosen by the seed, and measured on all test examples, both restricted to valid examples and whitened with the statistics of the training examples. One regulariser per number of shots is chosen '
   'for all data sets together, by the best mean rank of accuracy, and exactly the results with it are reported, per data set and seed, and averaged over seeds for the main task; data iterators are reset for the next '
   'evaluation.',
   ['inputs', 'configurations'], 'for every data set, feature size, number of classes, shots, regularisers, seeds and padding pattern',
   'The tests fit two tiny regressions whose accuracy is one half.',
   ['vmoe/evaluate/fewshot.py'],
   [('regression', 'vmoe/evaluate/fewshot.py _precompute_cache, _eig_fewshot_acc_fn'), ('selection', 'vmoe/evaluate/fewshot.py _compute_fewshot_metrics, _compute_representation'), ('choice and report', 'vmoe/evaluate/fewshot.py _find_best_l2_reg, FewShotPeriodicAction')],
   'index-notation normal forms of the regression (eigendecomposition opaque) compared with specification programs; value-flow terms of selection, choice and report',
   'The weights equal the ridge solution in primal and dual form given the spectral theorem; the selection, masks, whitening, choice of regulariser and every reported number are the specified terms.')
P_('C36', 'Preprocessing operations do what they say, to the key they are told',
   'Every preprocessing operation reads the key it is told (or its default key), writes its result to the key it is told, and leaves every other entry of the example as it was. Central crops are centred, '
   'resizing uses the asked size, method and keeps the type, the smaller side is resized to the asked size keeping the aspect ratio, random crops take position and size from one random box of the asked area, '
   'value ranges are mapped linearly (and clipped only if asked), labels are encoded as one-hot or merged multi-hot vectors with the asked on and off values, and examples without labels become invalid and never valid again.',
   ['inputs', 'configurations'], 'for every example, image size, type and operation argument',
   'The tests run each operation once on one image.',
   ['vmoe/data/pp_ops.py'],
   [('keys', 'vmoe/data/pp_ops.py InKeyOutKey'), ('operations', 'vmoe/data/pp_ops.py')],
   'value-flow terms of programs that use each operation, compared with specification programs; symbolic dictionary lookup of every other key; count of random draws',
   'For each operation: key combinations, untouched entries, formula for symbolic sizes and arguments, defaults.')
P_('C29', 'All processes take part in every barrier and collective step',
   'In a run with several processes, every process reaches the same barriers, training and evaluation steps and checkpoint operations, in the same order and under the same names: none of them depends on the index of the process. '
   'A barrier only succeeds if all processes are in the barrier of that name. A directory that one process creates is used only after a barrier, a checkpoint whose saving depends on whether it exists is saved only after all processes have looked, a run ends only after all processes have finished saving, and every shared '
   'file (metrics, attack statistics) is written by exactly one process, all others under names of their own process.',
   ['schedules', 'configurations', 'histories'], 'for every number of processes and every interleaving of them',
   'The tests run one process; a branch that only one process takes deadlocks only with several.',
   ['vmoe/multihost_utils.py', 'vmoe/train/trainer.py', 'vmoe/projects/contrastive/trainer.py', 'vmoe/checkpoints/partitioned.py', 'vmoe/app.py', 'vmoe/projects/adversarial_attacks/lib.py'],
   [('barrier', 'vmoe/multihost_utils.py sync_devices'), ('uses', 'vmoe/train/trainer.py train_and_evaluate, create_checkpoint_manager'), ('directory', 'vmoe/checkpoints/partitioned.py _make_dir_sync')],
   'effect and control-dependence analysis: path conditions of collective operations are free of the process index; ordering of effects; value-flow of the barrier',
   'Every barrier and collective call site of the analysed entry points, its condition and name; creation-barrier-use order; one writer for each shared file.')

P_('C37', 'The networks are wired as specified: blocks, MoE layers, positions, heads',
   'Every encoder block is pre-norm attention and pre-norm MLP, each with a residual connection; attention uses all options given (heads, dropout, query-key normalisation, determinism). '
   'An encoder adds the selected position embedding once, runs exactly num_layers blocks, uses the MoE MLP in exactly the blocks listed in moe.layers and the dense MLP elsewhere, normalises at the end, and reports the sum of the auxiliary losses of all blocks. '
   'The MoE block routes and computes the same tokens with separate weights per expert, and builds the router from exactly its options. The ensemble encoder does the same, repeating the batch once, before the first MoE block. '
   'Image patches become one token each, the class token is first when used, the pooling is the one selected, and the head has the asked size. Sin-cos positions are those of each patch row and column. '
   'The two-tower model normalises both embeddings, the logit of image i and text j is their scaled dot product plus bias, the contrastive losses pair image i with text i, and the auxiliary losses of both towers reach the training loss.',
   ['inputs', 'configurations'], 'for every number of layers, set of MoE layers, image and token count, pooling and position option, tower',
   'The tests check output shapes of a few configurations; two blocks wired differently have the same shapes.',
   ['vmoe/nn/vit_moe.py', 'vmoe/nn/vit_moe_ensemble.py', 'vmoe/nn/models.py', 'vmoe/projects/contrastive/models.py', 'vmoe/projects/contrastive/trainer.py'],
   [('blocks', 'vmoe/nn/vit_moe.py EncoderBlock, MlpMoeBlock, EncoderMoe, MapHead, VisionTransformerMoe'), ('ensemble', 'vmoe/nn/vit_moe_ensemble.py EncoderMoeEnsemble'), ('towers', 'vmoe/projects/contrastive/models.py TextTransformer, TwoTower')],
   'value-flow terms of every layer application (what it is applied to, the options it gets), index-notation normal forms of token, position, pooling and logit arrays compared with specification programs',
   'Every layer application of the encoder blocks, encoders, heads and towers with its options; the MoE-layer test for a generic block index; the position, pooling, logit and loss arrays for symbolic sizes.')

P_('C35', 'Array summaries report every matching array, transformed and named as asked',
   'For every leaf of the summarised tree and every rule whose pattern is found anywhere in the slash-joined name of the leaf, the transformations of the rule are applied in order (mean, std, sum, min, max, Frobenius norm, over all or exactly the listed axes), '
   'and every element of the result is reported exactly once under the name of the leaf, the suffix of each transformation, and the indices of the dimensions with more than one element. '
   'Unknown operations, and results with more than max_summary_values values, are refused. The train steps summarise the updated state and the gradients, and report the summaries with the metrics.',
   ['inputs', 'configurations'], 'for every tree, rule list, array shape and sequence of transformations',
   'The tests summarise a handful of small arrays.',
   ['vmoe/train/tree_summarizer.py', 'vmoe/train/trainer.py', 'vmoe/projects/contrastive/trainer.py'],
   [('summaries', 'vmoe/train/tree_summarizer.py TreeSummarizer'), ('use', 'vmoe/train/trainer.py create_tree_summarizer, train_step')],
   'value-flow terms for symbolic arrays and patterns; index-notation normal forms against specification programs; enumeration of rule matches as path conditions',
   'Every operation over all axes and over one; element names for six shapes; eight combinations of three matching rules; the refusals; both train steps.')

P_('C38', 'Saving, restoring and removing checkpoints do what their arguments say',
   'A save (synchronous, asynchronous, of several files, or sharded) replaces an existing file exactly if overwrite is set (the default), creates the missing directory exactly if makedirs is set (the default) and before the first file is opened there; '
   'in a sharded save one process creates it and all wait for it. Several trees are each written to their own file. Restoring reads the requested file, and returns the plain state dict without a target and an object of the structure of the target otherwise; restoring several files pairs each with its own target. '
   'A sharded restore reads <prefix>.index, follows the version recorded there (no version: the legacy layout, which needs a target; unsupported versions are refused), takes the shard count from the index, restores every array with its recorded shape and the sharding of the target (replicated if it has none), refuses an index of another structure than the target, and returns arrays in the positions of their leaves. '
   'No stored chunk has more than max_chunk_bytes (unless one item is larger). Removal removes exactly the given files for which match_fn holds.',
   ['inputs', 'configurations'], 'for every combination of options, target, recorded version and set of files',
   'The tests call the savers with default options in existing temporary directories and restore with one version.',
   ['vmoe/checkpoints/base.py', 'vmoe/checkpoints/partitioned.py'],
   [('one file', 'vmoe/checkpoints/base.py save_checkpoint, save_checkpoint_async, save_multiple_checkpoints_async, restore_checkpoint, restore_multiple_checkpoints, remove_checkpoints'), ('sharded', 'vmoe/checkpoints/partitioned.py save_checkpoint, restore_checkpoint, _restore_checkpoint_from_index, _create_map_slicend_to_array_shards')],
   'value-flow analysis per combination of the boolean options: effects (open, rename, makedirs, barrier, pool task) with path conditions and order; case analysis on the recorded version and target',
   'All four overwrite/makedirs combinations of the four savers, the three version cases with and without target, the restore and removal functions, the chunk limit.')

P_('C31', 'Shipped configurations name things that exist, fit the code and fit each other',
   'Every get_config below vmoe/**/configs, for every value of its argument that it distinguishes, returns a configuration that the training or attack programs can run: every option has a reader and every option of a section is one that its consumer '
   '(model, encoder, experts, router, dispatcher, optimizer, gradient clipping, learning-rate schedule, data pipeline, periodic hooks, mixup, initialization, summaries) accepts, with the mandatory ones present; models, routers, dispatchers, losses, '
   'optimizers, schedules, initializations, preprocessing operations and transformation rules named there exist; the random streams that the configured parts draw from are asked for; and the values are consistent: the labels have as many classes as the model, '
   'images can be cut into patches and tokens into groups, sizes and value ranges are the same in training and evaluation, expert layers are among the layers of the encoder, the experts can be spread over the partitions and are placed on the expert axis, '
   'validation examples are not trained on, and warm-up is shorter than training.',
   ['configurations'], 'for every shipped configuration and every argument it distinguishes',
   'No test builds the shipped configurations, since the models and datasets they describe do not fit a unit test.',
   ['vmoe/configs', 'vmoe/projects/soft_moe/configs', 'vmoe/projects/adversarial_attacks/configs', 'vmoe/train/trainer.py', 'vmoe/nn', 'vmoe/data/pp_ops.py'],
   [('configurations', 'every get_config'), ('consumers', 'signatures, dataclass fields and name tables of the functions the sections are passed to')],
   'abstract interpretation of the configurations into a tree of options; matching against the signatures and tables of the consumers in the current source; constant folding for the consistency of values',
   'All branches of each get_config for names and options; the defaults and every alternative of the argument for the values. Options handed on to Big Vision (not installed) are not judged.')
P_('C39', 'A run is put together from its configuration as written',
   'Every part of a training run is made from the option of the configuration that describes it (with the documented default where it is optional) and from the working directory, mesh and writer of the run: '
   'data sets, number of steps or epochs, batch size and number of examples, checkpoint manager and directory (made by one process while the others wait), model, optimizer, input shapes, random streams and seed, initializer, partitioning rules, initialization, '
   'prefetching, loss (per-example softmax, sigmoid or ensemble cross-entropy, or the sigmoid contrastive loss; unknown names are refused), microsteps and summaries. Adversarial attack and mixup wrap the step exactly if configured, mixup outermost, with '
   'their own options. The step is compiled for the shapes of the training data and keeps the placement of the state. The step reports the global norms of gradients, updates and parameters as global_norm/<name>. Metrics are reported as train/<name> together with the cost so far, compilation time and costs under their own names at the first step. '
   'Each program runs its own main function with the flags, a mesh of num_expert_partitions over all devices that is active meanwhile, and a writer of which only the first process writes and which is flushed at the end.',
   ['configurations'], 'for every configuration, mesh and working directory',
   'The tests run train_and_evaluate once with a tiny configuration in which most of the options have their default value, and look at none of the parts.',
   ['vmoe/train/trainer.py', 'vmoe/projects/contrastive/trainer.py', 'vmoe/app.py', 'vmoe/train/main.py'],
   [('assembly', 'vmoe/train/trainer.py train_and_evaluate'), ('assembly of contrastive runs', 'vmoe/projects/contrastive/trainer.py train_and_evaluate'), ('losses', 'vmoe/train/trainer.py get_loss_fn'), ('application', 'vmoe/app.py run')],
   'value-flow provenance: each argument of each part of the run is traced to the option and default it comes from; case analysis over the optional wrappers of the train step; event order for directory, mesh and writer',
   'Every argument listed in the statement is exactly the term of its option; the wrapped step under all four combinations; refusals; pairing of report names and values.')

P_('C40', 'Optimal-transport routers dispatch by a plan with the asked-for marginals',
   'In every router of the optimal-transport project, each group of items gets its own transportation plan from the gating logits: every item sends a total of 1 and every expert receives group_size / num_experts. '
   'The KL routers project the logits (with noise of noise_std / num_experts from the "gating" stream unless deterministic or without noise) with Sinkhorn or LBFGS as asked; the sparse ones project the softmax of the logits with the '
   'quadratic transport, the k-sparse ones with at most num_selected_experts experts per item or the capacity of an expert per expert. The solver runs with the iterations, learning rate and implicit differentiation of the router. '
   'Exactly the plan decides the dispatching, per group, with the options of the router; the combine weights are the softmax gates of the same logits (noisy ones with noise) at what was dispatched if use_softmax_combine_weights is set, else those of the plan; '
   'bfloat16 is applied last and only if asked for. Dispatchers other than einsum are refused when weights are replaced, and inputs that are not three-dimensional and impossible numbers of selected experts always. '
   'The auxiliary loss is the sum of the weighted importance and load losses of the gates (zero for the others), and item and expert counts are those of the plan.',
   ['inputs', 'configurations'], 'for every input, number of experts, group size and router option',
   'The tests run each router on one group with equal numbers and no noise or bfloat16, most with the plan replaced by a mock, and look at neither losses nor counts.',
   ['vmoe/projects/sparsity_constrained_ot/ot_routing.py', 'vmoe/projects/sparsity_constrained_ot/kl_projection_routing.py', 'vmoe/projects/sparsity_constrained_ot/ksparse_projection_routing.py', 'vmoe/projects/sparsity_constrained_ot/sparse_projection_routing.py'],
   [('combine weights', 'vmoe/projects/sparsity_constrained_ot/ot_routing.py _replace_combine_weights'), ('KL plan', 'vmoe/projects/sparsity_constrained_ot/kl_projection_routing.py _get_kl_projection_algorithm'), ('k-sparse plan', 'vmoe/projects/sparsity_constrained_ot/ksparse_projection_routing.py _get_sparsity_constrained_ot_algorithm'), ('sparse plan', 'vmoe/projects/sparsity_constrained_ot/sparse_projection_routing.py _get_squared_l2_ot_algorithm')],
   'symbolic tensor dataflow: the arguments of the transport solver, the similarity, the marginals and the combine weights are compared as index expressions with a specification program; case analysis over the options',
   'Similarity, sign, orientation, marginals, sparsity bound, maximised function, solver options, dispatcher arguments, combine weights with and without dispatch weights, bfloat16, losses, counts and refusals, in the deterministic, noiseless and noisy case.')
