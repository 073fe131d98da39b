F = ['pelicun/tools/regional_sim.py']
REG = ('The real regional simulation runs with forked workers that stop at each file operation until the scheduler lets '
       'them go on; a small library with almost no dispersion gives a reference value for every number; ')
RASSUME = (' Sampled, not exhaustive. The chunk size is reduced through the guarded hook so that small inventories use many chunks. '
           'The synthetic library stands in for the real one.')

prop('R01', 'Regional results do not depend on cores, scheduling or file order',
     'For the same configuration and input files, the regional simulation writes the same demand, damage, repair cost and repair time files '
     'for every number of cores, every order in which the chunks run and finish, every interleaving of the workers and every order in which the directory lists the intermediate files. '
     'An earlier simulation in the same folder does not change them either.',
     ['schedules', 'histories', 'inputs'],
     'for all numbers of cores, assignments of chunks to workers, interleavings at file operations, completion orders and directory orders',
     'The unit tests mock the pool or run one chunk on one schedule; the order of completion and of directory listings on the test machine is always the same.',
     F, [('combination of part files', 'regional_sim'), ('one chunk and its part files', 'process_and_save_chunk'),
         ('pool', 'regional_sim: Parallel(n_jobs)')],
     observe=['demand.csv, damage.csv, repair_costs.csv, repair_times.csv'],
     hook='PELICUN_DST_BATCH_SIZE reduces the chunk size (default 1000)',
     tech='byte comparison of the outputs of the same input under different seeded schedules, and against a reference model',
     note=REG + 'outputs of several schedules are compared byte by byte.' + RASSUME)

prop('R02', 'Each selected building appears exactly once with its own results',
     'A successful regional simulation reports every building of the inventory, or of the filter, exactly once and in that order, with no gaps, for every realization. '
     "Each row holds the results of that building alone: demands from its nearest grid points in the requested units, the damage state its archetype has under them, and the consequences of that damage for its own archetype or occupancy.",
     ['inputs', 'schedules'],
     'for all inventories (any order and numbering of buildings, any mix of archetypes and occupancies, buildings never damaged, any chunk boundary), grids, filters, intensity measures in any order and sample sizes',
     'The tests use one small inventory in one chunk or mock the chunk function; whether rows stay with their building depends on sorting, chunking, grouping and recombination together.',
     F + ['pelicun/tools/NNR.py', 'pelicun/auto.py'],
     [('sorting by occupancy, chunking, reindexing', 'regional_sim'), ('loss by occupancy group', '_calculate_losses_hazus_eq'),
      ('loss by component', '_calculate_losses_general'), ('mapping of intensities', 'NNR')],
     observe=['demand.csv, damage.csv, repair_costs.csv, repair_times.csv'],
     hook='PELICUN_DST_BATCH_SIZE reduces the chunk size (default 1000)',
     tech='every output value compared with an independent reference model over seeded inventories and schedules',
     note=REG + 'every value of every building is compared with an independent computation.' + RASSUME +
     ' Buildings within 0.2 % of a fragility threshold, or with tied neighbours, are not compared.')

prop('R03', 'A failing worker or disk never yields regional results with gaps',
     'When any file operation or worker fails, the regional simulation raises an error or still writes complete and correct results; it always ends. '
     'A failure before the results are written leaves those of an earlier simulation as they were, inputs are never changed and temporary files are removed. '
     'Repeating the simulation after the failure, also after the process was killed, gives exactly the results it would have given without it.',
     ['fault_sequences', 'crash_points', 'schedules'],
     'for every file operation and scheduling step of the simulation as the point of an error, a short write, or the death of a worker or of the main process',
     'No test makes a worker or a file operation fail.',
     F, [('temporary folder', 'regional_sim'), ('error propagation from the pool', 'regional_sim'), ('stale outputs', 'regional_sim')],
     observe=['outputs, temporary folder and exit of each simulated run'],
     hook='PELICUN_DST_BATCH_SIZE reduces the chunk size (default 1000)',
     tech='errors, short writes and kills injected at numbered file operations and scheduling steps, then a clean repetition',
     note=REG + 'faults strike at numbered file operations or scheduling steps and the run is then repeated.' + RASSUME)

prop('R04', 'An impossible regional request is rejected before results are touched',
     'A configuration that asks for building IDs missing from the inventory, an unreadable filter, intensity measures missing from the grid, or no intensity measures at all is rejected with a ValueError. '
     'No result file of an earlier simulation is created, changed or removed by it.',
     ['inputs', 'histories'],
     'for all inventories and requests with one impossible part, with or without earlier results',
     'Tests check the exception for single mocked requests, not what happens to results already present.',
     F, [('validation', 'regional_sim, parse_id_filter')],
     tech='impossible requests issued after earlier simulations; result files compared before and after',
     note=REG + 'impossible requests are issued in folders with and without earlier results.' + RASSUME)
