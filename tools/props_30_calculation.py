C = ['pelicun/tools/DL_calculation.py', 'pelicun/assessment.py']
CM = [*C, 'pelicun/model/demand_model.py', 'pelicun/model/asset_model.py',
      'pelicun/model/damage_model.py', 'pelicun/model/loss_model.py', 'pelicun/uq.py',
      'pelicun/file_io.py', 'pelicun/base.py', 'pelicun/auto.py']
CN = ('Whole damage and loss calculations run through main or run_pelicun with generated models, assets and demands on a simulated disk, '
      'with simulated clock, entropy, directory order and kills; ')
CA = (' Sampled, not exhaustive. A small generated damage and loss library stands in for the real one; '
      'capacities have almost no dispersion unless stated so that a reference can predict the states.')

prop('C01', 'A calculation does not depend on what ran before it in the process',
     'A damage and loss calculation with a given configuration and seed delivers the same bytes in every requested result whatever calculations ran or failed before it in the same process or the same output folder, '
     'whatever the state of the global random generators, the time and the order in which directories are listed, and whether it is started through the command line or as a function. '
     'Without a seed the same holds for the same system entropy.',
     ['histories', 'inputs'],
     'for all sequences of calculations (any mix of configurations, outputs, settings, auto-population and folders) in one process',
     'Tests run each calculation once with one configuration; leftovers of module state, random state and files only show in particular sequences.',
     [*CM, 'pelicun/settings/default_config.json'],
     [('default outputs and settings', 'DL_calculation._parse_config_file'), ('removal of earlier results', 'DL_calculation._remove_existing_files'),
      ('auto-population scripts', 'auto.auto_populate'), ('options and random generator', 'base.Options')],
     observe=['files in the output folder'],
     tech='histories of calculations in one process, each compared byte by byte with the same calculation alone in a fresh process',
     note=CN + 'every result is compared with the same calculation alone in a fresh process.' + CA)

prop('C02', 'The output folder holds exactly the requested results of the last run',
     'After a successful calculation the output folder holds every result that the configuration or the command line asks for, in the formats asked for, plus the summary, and no result of an earlier calculation or of a kind not asked for. '
     'Files of the user in that folder are left untouched. '
     'When nothing is lost the tables per component may be absent.',
     ['histories', 'inputs'],
     'for all combinations of requested results, formats, settings and routes, and all earlier calculations in the same folder',
     'Tests check a few files of one calculation in a fresh folder.',
     C, [('selection of outputs', 'DL_calculation._parse_config_file'), ('writing', 'DL_calculation._*_save'),
         ('JSON and CSV', '_create_json_files_if_requested, _remove_csv_files_if_not_requested'),
         ('removal of earlier results', '_remove_existing_files')],
     observe=['names of the files in the output folder'],
     tech='histories of calculations with different requests in shared folders, file names compared with the request',
     note=CN + 'the files present are compared with those requested.' + CA)

prop('C03', 'Disk errors and kills never pass as results of a calculation',
     'When a file operation fails or the process is killed during a calculation, the calculation raises an error or delivers exactly the results it would have delivered without the fault; a calculation that ends normally never lacks a requested result. '
     'Configuration, demand and model files are never changed. '
     'Repeating a calculation after any sequence of such failures gives exactly the results of a clean run.',
     ['fault_sequences', 'crash_points', 'histories'],
     'for every file operation of a calculation as the point of an error, a short write or a kill, and every sequence of such failures before the repetition',
     'No test makes a file operation fail or stops a calculation half-way.',
     [*C, 'pelicun/file_io.py'],
     [('writing of results', 'DL_calculation._*_save'), ('conversion to JSON', '_create_json_files_if_requested'),
      ('initialisation of the folder', '_remove_existing_files')],
     observe=['outcome, output folder and inputs of each calculation'],
     tech='errors, short writes and kills injected at numbered file operations, then clean repetitions compared byte by byte',
     note=CN + 'faults strike at numbered file operations and the calculation is then repeated.' + CA)

prop('C04', 'All results of one calculation agree with each other',
     'JSON and CSV forms of a result hold the same values and units; statistics, grouped results, aggregate losses and the summary follow from the samples delivered next to them; every sample has one row per realization. '
     'The quantities of a component in its damage states add up to the quantity of the component wherever it is applicable. '
     'Replacement excludes every other loss from the aggregate.',
     ['inputs'],
     'for all models, assets, demands, sample sizes, settings and requested results',
     'Tests compare selected tables of a few fixed inputs; rounding, grouping and index handling differ with the shape of the input.',
     CM, [('statistics', 'base.describe'), ('JSON', 'DL_calculation.convert_df_to_dict'), ('grouping', 'DL_calculation._damage_save, _loss_save'),
          ('aggregation', 'LossModel.aggregate_losses'), ('quantities', 'damage_model.prepare_dmg_quantities')],
     observe=['all files in the output folder'],
     tech='all tables of each seeded calculation recomputed from the samples next to them',
     note=CN + 'every table is recomputed from the samples delivered with it.' + CA)

prop('C05', "Each realization's damage and losses follow from its own demands",
     'In every realization a performance group takes the demand at its location and direction (offsets and non-directional multipliers applied, units converted), is in the damage state of the highest limit state whose capacity is exceeded, unless a damage process moves it, and loses what its consequence model gives for the damaged quantity with the chosen economies of scale. '
     'Coupled demands keep the order of the realizations, resampled ones come from the input, residual drifts follow from the peak and yield drifts. '
     'Collapse and irreparable damage cascade and are replaced as configured.',
     ['inputs'],
     'for all models, assets (locations, directions, blocks, units, several instances), demands, damage processes, capacity scaling, loss maps and options',
     'Tests check single steps with single components or statistics of one component; the interplay of offsets, directions, units, blocks, processes and economies of scale is not sampled.',
     CM, [('required demands', 'demand_model._get_required_demand_type, _assemble_required_demand_data'),
          ('damage states', 'damage_model._evaluate_damage_state'), ('damage processes', 'damage_model.perform_dmg_task'),
          ('consequences', 'loss_model.RepairModel_DS.calculate'), ('replacement', 'assessment.calculate_loss')],
     observe=['demand, component, damage, loss and aggregate samples'],
     tech='every realization of each seeded calculation compared with an independent reference model',
     note=CN + 'damage states, quantities and losses of every realization are compared with an independent model.' + CA +
     ' Realizations within 0.2 % of a capacity are not compared; dispersed consequences are only bounded.')
