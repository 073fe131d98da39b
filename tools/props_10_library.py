F = ['pelicun/tools/dlml.py']
NET = ('The real command line, import hook, downloader and cache run against a simulated GitHub, '
       'clock and disk; ')
ASSUME = (' Sampled, not exhaustive. Trusts the in-process GitHub model and the disk model '
          '(completed calls are durable, one process at a time uses the directory).')

prop('L01', 'A successful library update leaves exactly the requested revision',
     'Whenever an update of the model library reports success, every file listed by the requested '
     'release or commit is present with exactly the bytes of that revision, and the list itself is that '
     "revision's. This holds whatever sequence of updates, downgrades, interruptions, "
     'local file damage and remote changes came before it.',
     ['histories', 'fault_sequences', 'crash_points'],
     'for all histories of installs, upgrades, downgrades, sideways moves, killed and failed updates, '
     'damaged or deleted local files and caches, pushes and releases during the update',
     'The unit tests mock the comparison, the hashes or the files, one transition at a time; the claim is about '
     'chains of transitions in which the skip decision of one update rests on what earlier, possibly '
     'interrupted, updates left behind.',
     F, [('skip decision from comparison, cache and local hash', 'download_data_files'),
         ('release and tag resolution', '_resolve_version_to_commit_sha'),
         ('changed-file set incl. reversed comparison', '_get_changed_files')],
     state=[('.dlml_cache.json', 'installed commit, version and file hashes', 'download_data_files, save_cache')],
     observe=['files under the data directory after exit status 0'],
     tech='byte-exact comparison of the installed tree with the simulated repository after each reported success',
     note=NET + 'installed bytes are compared with the revision after every success.' + ASSUME +
     ' Local damage is only required to be repaired by an update that moves to another revision or bypasses the cache.')

prop('L02', 'A failed or killed library update is never mistaken for a finished one',
     'An update that fails or is killed at any point does not report success and is never later taken for a finished '
     'installation of the revision it was fetching. Once the faults stop, the next update succeeds and installs the exact revision; '
     'without a fault, an update of an existing revision does not fail.',
     ['crash_points', 'fault_sequences', 'histories'],
     'for every network call and file-system call of an update as the point of failure or death, then any later sequence of operations',
     'The tests fail one mocked request and check the exception; no test kills the process between two writes or '
     'looks at the next update after a partial one.',
     F + ['pelicun/cli.py'],
     [('manifest and cache written in an order that makes interruption visible', 'download_data_files'),
      ('error propagation to the exit status', 'dlml_update, cli.main')],
     tech='kill and error injection at every network and file call, recovery checked after the faults stop',
     note=NET + 'updates are failed or killed at any call and then retried with faults off.' + ASSUME)

prop('L03', 'The first import installs the library completely or fails clearly',
     'When no library is present, importing the package either ends with every file of the latest release in place, or '
     'raises an import error. A partly downloaded library is never accepted by this or any later import, and without a fault '
     'the import does not fail.',
     ['fault_sequences', 'crash_points', 'histories'],
     'for every failing or killed call during the automatic download, then any number of later imports',
     'The tests replace the download by a mock that succeeds or raises; they never leave a partial library behind and import again.',
     F + ['pelicun/__init__.py'],
     [('presence of the manifest as the proxy for an installation', 'check_dlml_data'),
      ('translation to ImportError', 'pelicun/__init__.py')],
     tech='imports as simulated processes with faults and kills at every call; completeness checked after each accepted import',
     note=NET + 'imports are killed or failed at any call; every accepted import is checked for completeness.' + ASSUME)

prop('L04', 'The library version check never blocks or changes an installed library',
     'With a library installed, importing the package succeeds and leaves the model files untouched whatever happens to the version check: '
     'no network, error or malformed responses, a full or read-only disk, an unreadable or damaged cache file, clock changes.',
     ['fault_sequences', 'histories'],
     'for all network and disk faults and all damage to the cache file, at any import in any history',
     'One test injects a single mocked exception type; the guarantee is over every failure the check can meet.',
     F + ['pelicun/__init__.py'],
     [('exception net around the check', 'check_dlml_data'), ('errors recorded in the result', 'check_dlml_version'),
      ('tolerant cache reader', 'load_cache')],
     tech='imports under standing and one-shot network, disk and cache faults',
     note=NET + 'every import with a library present must succeed and leave the model files byte-identical.' + ASSUME)

prop('L05', 'The library version is checked once a day, not more and not less',
     'After a check has been recorded, further imports within one day send no request; the first import at least one day after the last '
     'contact does ask for the latest release, with exactly one request. A check that failed also counts.',
     ['histories', 'fault_sequences', 'schedules'],
     'for all sequences of imports, updates, failures and clock movements, including instants just before, on and just after the end of the period',
     'Tests use one fixed old or recent timestamp with a mocked writer; they never run the recorded value through a sequence of imports.',
     F, [('daily period', 'check_dlml_version')],
     state=[('last_version_check', 'local time of the last check', '.dlml_cache.json')],
     tech='simulated clock placed around the boundary of the daily period; requests counted per import',
     note=NET + 'requests of every import are counted against the simulated clock.' + ASSUME +
     ' After the clock was set back, no claim is made until it passes the recorded time again.')

prop('L06', 'An update notice appears exactly when a newer library release exists',
     'When an import checks the latest release successfully, it shows one notice naming the installed and the latest version if and only if the latest '
     'release is newer than the installed one (an installation from a commit always counts as older). Imports before the next check repeat the same answer, '
     'and a failed check shows no notice.',
     ['histories', 'inputs'],
     'for all histories of installs by version or commit, cache bypassing, releases and re-releases between imports',
     'Tests compare a few version pairs with a mocked cache; the notice depends on what every earlier operation recorded.',
     F, [('version comparison', 'check_dlml_version'), ('notice', 'check_dlml_data'), ('recorded version', 'download_data_files')],
     tech='notices compared with a reference comparison of installed and published versions along simulated histories',
     note=NET + 'each notice is compared with a reference model of what is installed and published.' + ASSUME)

prop('L07', 'An update does not download unchanged intact files again',
     'When the previous installation is recorded and the repository can tell the differences completely, an update downloads only files that differ between '
     'the two revisions or whose local copy is missing or damaged, each at most once.',
     ['histories', 'inputs'],
     'for all pairs of revisions reachable by upgrade, downgrade or commit moves, after any history that ended in a recorded installation',
     'Tests check one skip with mocked hashes; whether skipping works along real chains depends on what each update records for the next.',
     F, [('skip decision and recorded hashes', 'download_data_files'), ('reversed comparison', '_get_changed_files')],
     tech='transfers of each update compared with the difference between the two simulated revisions',
     note=NET + 'transfers are compared with the true difference of the two revisions.' + ASSUME)

prop('L08', 'The access token goes only to the API host and is never kept or shown',
     'When an access token is provided, every API request carries it, no request to any other host does, and it never appears in a URL, in output, logs, warnings or '
     'error messages, or in any file written.',
     ['histories', 'fault_sequences'],
     'for all histories and all failure paths, whose messages are the likely leak',
     'No test sets a token and inspects the other host, the messages of failing requests or the files on disk.',
     F + ['pelicun/cli.py'],
     [('headers only for API calls', 'download_data_files, check_dlml_version'), ('raw downloads without headers', '_download_file')],
     tech='every request header, output stream and stored byte searched for the token in each simulated run',
     note=NET + 'all requests, outputs and files are searched for the token after each operation.' + ASSUME)
