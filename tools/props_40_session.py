AM = ['pelicun/assessment.py', 'pelicun/base.py', 'pelicun/file_io.py', 'pelicun/uq.py',
      'pelicun/model/pelicun_model.py', 'pelicun/model/demand_model.py', 'pelicun/model/asset_model.py',
      'pelicun/model/damage_model.py', 'pelicun/model/loss_model.py']
AN = ('The steps of assessments run through the Python interface with generated models on a simulated disk, with simulated clock, entropy, '
      'interrupts at function entries and kills at file operations; ')
AA = ' Sampled, not exhaustive. Generated models stand in for the real library; one thread per process.'

prop('A01', 'Assessments in one process do not affect each other',
     'When several assessments live in one process and their steps are interleaved in any order, also if they share the configuration dictionary and the input tables, each one delivers exactly the samples, losses and log lines that it delivers alone in a process of its own, step by step or by the few calls that run all of its steps. '
     'The state of the global random generators does not matter either.',
     ['schedules', 'inputs'],
     'for all interleavings of the steps of any number of assessments, all configurations, shared or separate inputs',
     'Tests run one assessment at a time; state shared through modules, class attributes, default arguments or the objects of the user shows only in particular interleavings.',
     AM, [('options, logger and generator of each assessment', 'base.Options, base.Logger'),
          ('models of each assessment', 'assessment.AssessmentBase.__init__'),
          ('random variables', 'uq.RandomVariableRegistry')],
     observe=['samples, parameters and log of every assessment'],
     tech='a seeded scheduler interleaves the steps of several assessments; each is compared exactly with the same assessment alone',
     note=AN + 'interleaved assessments are compared exactly with the same ones alone in fresh processes.' + AA)

prop('A02', 'An assessment continued from saved samples ends as if never interrupted',
     'Demand, component quantity, damage and loss samples that are saved without an error and loaded by another process let that process finish the assessment with the same aggregate losses, to the precision of the tables, as one process that does everything. '
     'A save that fails or is cut short raises an error or leaves the complete table, and repeating it after any number of kills gives the complete table.',
     ['crash_points', 'fault_sequences', 'histories'],
     'for every stage and every file operation as the point at which a process is killed or fails, and every sequence of such processes',
     'Tests save and load samples within one process and without failures.',
     AM, [('demands', 'DemandModel.save_sample, load_sample'), ('quantities', 'AssetModel.save_cmp_sample, load_cmp_sample'),
          ('damage', 'DamageModel.save_sample, load_sample'), ('losses', 'LossModel.save_sample, load_sample'),
          ('tables and units', 'file_io.save_to_csv, load_data')],
     observe=['saved tables and aggregate losses'],
     tech='chains of simulated processes that are killed or fail at numbered file operations and continue from saved samples',
     note=AN + 'saved tables and final losses are compared with an undisturbed process.' + AA +
     ' Quantities have one block per component, because saved quantities do not carry blocks.')

prop('A03', 'Repeated, revised, failed or interrupted steps leave no trace',
     'However often the steps of an assessment are repeated, also with other demands, quantities, damage processes, loss map policies or sample sizes in between, and whichever of them were interrupted by the user or failed on a file before they were repeated, the final samples and losses equal those of an assessment that performs each step once with the final inputs. '
     'Parameters of a component that were loaded once keep their precedence, as documented.',
     ['histories', 'fault_sequences', 'crash_points'],
     'for all sequences of repeated and revised steps, and every function entry or file operation as the point of an interrupt or error',
     'Tests perform every step once on a fresh assessment; state left behind by earlier or unfinished steps is not sampled.',
     AM, [('conversion of parameter units', 'loss_model.RepairModel_Base.convert_loss_parameter_units'),
          ('loading of models', 'load_model_parameters, load_cmp_model, load_model'),
          ('demand sample and units', 'DemandModel.load_sample, generate_sample, clone_demands'),
          ('calculation', 'DamageModel.calculate, LossModel.calculate')],
     observe=['samples and losses at the end'],
     tech='histories of repeated, revised, interrupted and failing steps compared exactly with one pass over the final inputs',
     note=AN + 'the final state is compared exactly with a fresh assessment that does every step once.' + AA +
     ' The generator is seeded before every step, so that only state other than the position of the generator matters; scaling is repeated only together with the calculation of losses.')

prop('A04', 'Losses follow from demands, damage and the tables of the user',
     'In every realization each component loses what its consequence table or loss function gives for its own damaged quantity or demand, in the units, with the loss map and policy, economies of scale, scaling factors and demand expressions of the user. '
     'Totals are the sums of these losses (times combined by their rule), loss combinations replace the losses they combine by the value of their own table, and realizations whose total exceeds a replacement threshold take the replacement consequence. '
     'Interrupted or failed steps that are repeated change nothing of this.',
     ['inputs', 'fault_sequences'],
     'for all assets, consequence and loss-function models, loss maps, policies, scaling tables, combinations and thresholds, and all points of an interrupt or file error',
     'Tests compare a few fixed inputs, mostly with one or two components; mixtures of kinds of components, mappings, units and thresholds are not sampled.',
     AM, [('repair consequences', 'loss_model.RepairModel_DS'), ('loss functions', 'loss_model.RepairModel_LF'),
          ('loss map', 'LossModel.add_loss_map'), ('scaling', 'LossModel.consequence_scaling'),
          ('aggregation and replacement', 'LossModel.aggregate_losses'), ('demand expressions', 'demand_model._assemble_required_demand_data')],
     observe=['loss samples, aggregate losses and exceedance flags of every realization'],
     tech='every realization of seeded assessments, some interrupted or failing, compared with an independent reference of the losses',
     note=AN + 'each loss and total is compared with an independent model evaluated on the demands and damage of that realization.' + AA +
     ' Losses with dispersion are only bounded; tables are compared to 3e-5 because pelicun keeps six digits of converted tables.')

prop('A05', 'Configuration, tables and results belong to the user',
     'No step of an assessment or of a whole damage and loss calculation changes the configuration dictionaries, data frames, arrays or files that the user passed to it. '
     'Overwriting these objects after the step that takes them, or overwriting returned results, does not change any later result.',
     ['histories', 'inputs'],
     'for all configurations and inputs, every step, and every object passed in or returned',
     'Tests build fresh inputs for every call and never look at them again.',
     AM, [('configuration', 'base.Options, assessment.AssessmentBase.__init__, base.merge_default_config'),
          ('tables', 'file_io.load_data'), ('results', 'save_sample, save_cmp_sample, aggregate_losses'),
          ('calibration and damage process', 'DemandModel.calibrate_model, DamageModel.calculate')],
     observe=['objects passed in and returned, later results'],
     tech='all objects of the user fingerprinted around every step, then overwritten; results compared exactly with an undisturbed run',
     note=AN + 'user objects are fingerprinted before and after every step and overwritten afterwards.' + AA)

prop('A06', 'The same seed gives the same results in any process',
     'With a seed in the configuration, an assessment or a whole damage and loss calculation delivers the same bytes in every interpreter: whatever the hash seed of strings, system entropy, state of global random generators, date, time zone, locale, order of directory listings, folder and entry point, '
     'with or without a log file and verbose messages, and from tables in memory or in files.',
     ['schedules', 'inputs'],
     'for all configurations and all environments of the process',
     'Tests run in one interpreter and compare with stored values at best; the order of sets changes from one process to the next.',
     AM, [('random generator', 'base.Options.seed, rng'), ('order of components', 'LossModel.add_loss_map, list_unique_component_ids'),
          ('required demands', 'demand_model._get_required_demand_type'), ('sampling', 'uq.RandomVariableRegistry.generate_sample')],
     observe=['samples, losses and result files'],
     tech='each calculation repeated in interpreters with other hash seeds and simulated environments, compared exactly',
     note=AN + 'results are compared exactly between interpreters started with different hash seeds.' + AA +
     ' Five hash seeds.')

DM = ['pelicun/model/demand_model.py', 'pelicun/model/pelicun_model.py', 'pelicun/uq.py', 'pelicun/file_io.py', 'pelicun/base.py']
DN = ('Demand models of generated raw demands (units, locations, failed analyses, families, limits) are calibrated, sampled, saved and loaded on a simulated disk, '
      'with simulated clock and entropy; ')

prop('A07', 'A saved demand model generates the same demands in any process',
     'A demand model that is saved without an error and loaded, by its file prefix or from tables the user reads from the files, generates with the same seed and settings the same demands in the same units, to the precision of the files, as the model that was saved, whatever the loading process did before. '
     'This also holds for models that are saved again, on and on. '
     'A save that fails or is cut short raises an error or leaves the complete model, and repeating it after any number of kills leaves the complete model.',
     ['crash_points', 'fault_sequences', 'histories'],
     'for all mixtures of fitted and empirical demands, units, limits and sample sizes, every file operation as the point of an error or kill, and all chains of processes that load and save',
     'Tests save and load one model with one mixture of families in one process and without failures.',
     DM, [('saving', 'DemandModel.save_model'), ('loading', 'DemandModel.load_model'),
          ('units of parameters', 'PelicunModel._convert_marginal_params'), ('sampling', 'DemandModel.generate_sample, _create_RVs')],
     observe=['saved files and generated demands'],
     tech='chains of simulated processes that save, load and sample a demand model, killed or failing at numbered file operations',
     note=DN + 'samples and files are compared with those of an undisturbed process.' + AA +
     ' Models whose correlation matrix is singular are compared by their files only.')

prop('A08', 'Generated demands follow the raw demands and the calibration',
     'Whatever was loaded, calibrated, generated, cloned or interrupted before, demands generated after a calibration have the columns and units of the raw demands (clones included) and one row per realization; only analyses that succeeded and lie within the limits are used; empirical demands take raw values, row by row when the raw order is kept. '
     'Fitted demands have the moments and correlation of the raw demands with the additional uncertainty asked for, stay within the truncation limits, and take one value from every stratum in Latin hypercube sampling. '
     'Units of demands and limits do not matter.',
     ['inputs', 'histories', 'fault_sequences'],
     'for all raw demands, units, families and limits per type, sampling methods and sizes, clones, and all earlier or interrupted steps',
     'Tests compare a few parameters of fixed inputs and never recalibrate, interrupt or mix units and families.',
     DM, [('raw demands', 'DemandModel.load_sample'), ('calibration', 'DemandModel.calibrate_model, uq.fit_distribution_to_sample'),
          ('sampling', 'DemandModel.generate_sample, uq.RandomVariableRegistry.generate_sample, RandomVariableSet.apply_correlation'),
          ('clones', 'DemandModel.clone_demands')],
     observe=['generated demands, saved parameters and correlation'],
     tech='histories with earlier, revised and interrupted steps, final demands compared with a reference computed from the raw demands',
     note=DN + 'every generated demand is compared with the raw demands and the parameters that follow from them.' + AA +
     ' Parameters fitted with limits are not recomputed; the sample is compared with the saved ones.')

prop('A09', 'Random quantities, capacities and losses follow their distributions',
     'Whatever the families, parameters, truncation limits, units and scaling of capacities (also by realization), component quantities, the damage of every block, the choice between the damage states of a limit state and the dispersion of losses follow the distributions of the input: with Latin hypercube sampling the N realizations take one value from each of N equally likely strata, with Monte Carlo sampling they stay within bounds that chance does not exceed. '
     'Cost and time of the same damage have the correlation asked for. '
     'Different performance groups, blocks, damage states and decision variables are independent.',
     ['inputs', 'histories', 'fault_sequences'],
     'for all families, parameters, limits, units, blocks, weights, scaling, correlations, sampling methods, sizes and seeds, and after interrupted or failed steps that are repeated',
     'Tests compare a few moments of fixed inputs with wide tolerances and never mix families, truncation, units, blocks and scaling.',
     AM, [('quantities', 'AssetModel.load_cmp_model, generate_cmp_sample'), ('capacities', 'DamageModel_DS._create_dmg_RVs, _generate_dmg_sample, _evaluate_damage_state'),
          ('dispersion of losses', 'RepairModel_DS._create_DV_RVs, RepairModel_LF._create_DV_RVs'),
          ('random variables', 'uq.RandomVariableRegistry.generate_sample, inverse_transform of every family, scale_distribution')],
     observe=['quantities, damage and losses of every realization'],
     tech='sampling runs on the seeded generator behind the seam, with interrupted and repeated steps; every value is mapped through an independent distribution function onto the strata it has to occupy',
     note=AN + 'every random variable is recovered from quantities, damage and losses and compared with its distribution.' + AA +
     ' Weibull variables are not part of any model that the library accepts with units.')
