"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=' '.join(qtext.split())),
                  why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe, hook_needed=None)))


TESTS = """The stable tests are single-process getdist unit tests on freshly built sample objects; no test runs any grid
or queue command, """

prop('C01', 'The job index survives a crash or a failed disk write',
     """If a command that updates a grid's job index (submitting with runbatch or runMPI, or cancelling with deleteJobs) is
     killed at any point, or one of its disk writes fails, the index left on disk is readable and equals what it was before
     or after one of that command's complete per-command updates: no job recorded earlier by another command is lost, and
     every job whose submission command had completed is in it; a job the queue manager accepted is missing from it only if the
     kill or failure hit before or while the index was updated, never because another file could not be written. A failed write is reported as an error by that command, and
     later commands run normally on what was left.""",
     ['crash_points', 'fault_sequences', 'histories'],
     """every kill point and every failing or short write in any sequence of submit / cancel commands on one grid""",
     TESTS + "and none kills a process or fails a write.",
     ['python/paramgrid/jobqueue.py', 'python/runbatch.py', 'python/deleteJobs.py', 'python/runMPI.py'],
     [('job index written to a temporary file then moved into place', 'python/paramgrid/jobqueue.py:saveJobIndex')],
     ['the job index file on disk', 'exit status of the command', 'what the next runningJobs/runbatch --not_queued sees'],
     [dict(name='jobIndex.pyobj', meaning='job ids, names and settings of submitted jobs', where='grid directory (or ./scripts)')])

prop('C02', 'Concurrent submit and cancel commands never lose a job record',
     """When several submit and cancel commands run at the same time on one grid and all finish normally, the job index at the
     end holds exactly the jobs that were submitted and not cancelled: each accepted job under the id the queue manager gave
     it, with its job name and run names, and each cancelled job absent. No interleaving of the commands loses a record,
     resurrects a cancelled one, or corrupts the file.""",
     ['schedules', 'histories'], """every interleaving of the file and queue-manager operations of two to four commands""",
     TESTS + "and none runs two processes.",
     ['python/paramgrid/jobqueue.py', 'python/runbatch.py', 'python/deleteJobs.py'],
     [('read-modify-write of the index', 'python/paramgrid/jobqueue.py:addJobIndex, deleteJobs')],
     ['the job index file after all commands end', 'the queue manager'])

prop('C03', 'Each selected run is submitted exactly once, and what is submitted is recorded',
     """For one runbatch (or runMPI) invocation, every run the command selects appears in exactly one submitted job, each job
     script holds one complete run command per run with every setting placeholder filled in, and a job is recorded in the
     index, with its run names, if and only if the queue manager accepted it, under the id it returned. A submission the queue
     manager refuses is never recorded and never reported as success; --dryrun submits and writes nothing; --no_sub writes the
     script but submits and records nothing; with --not_queued no run that is already queued or running is submitted again.""",
     ['histories', 'fault_sequences', 'configurations'],
     """every grid, selection, number of runs per job, combined job, job template, queue manager, and every history of earlier
     submissions, completions and queue-manager failures""",
     TESTS + "no test talks to a queue manager.",
     ['python/runbatch.py', 'python/runMPI.py', 'python/paramgrid/jobqueue.py', 'job_script'],
     [('grouping of runs into jobs', 'python/runbatch.py:submitJob, jobName'),
      ('script generation and submission', 'python/paramgrid/jobqueue.py:submitJob, replacePlaceholders'),
      ('queued-name filter', 'python/paramgrid/jobqueue.py:queue_job_names')],
     ['scripts received by the queue manager', 'job index', 'exit status'])

prop('C04', 'Job listings match the queue manager exactly',
     """runningJobs (and the queue query behind --not_queued and deleteJobs) reports exactly the jobs that are both recorded in
     the grid's index and present in the queue manager for this user: --running lists those running, --queued those not
     running, and neither option lists both. This holds for the PBS, Open Grid Scheduler and MOAB listing formats whatever
     other users' or other grids' jobs are present, and a failing queue query is an error, never an empty list.""",
     ['histories', 'configurations', 'fault_sequences'],
     """every queue content (states, foreign jobs, host suffixes, empty queue) over time, each listing format, each failure of
     the query command""",
     TESTS + "no queue manager exists in the tests.",
     ['python/paramgrid/jobqueue.py', 'python/runningJobs.py'],
     [('parsing of qstat/showq output', 'python/paramgrid/jobqueue.py:queue_job_details')],
     ['standard output of runningJobs', 'return value of the queue query'])

prop('C05', 'deleteJobs cancels exactly the selected live jobs and forgets nothing else',
     """deleteJobs --confirm cancels exactly the jobs in the index that match the given selection (ids, id range, id minimum, or
     run filters, restricted by --queued/--running) and are live in the queue, and removes from the index only selected jobs
     that were cancelled or are no longer live. Without --confirm nothing is cancelled and the index is unchanged. If
     cancelling a job fails, the command reports an error and no job that is still live disappears from the index.""",
     ['histories', 'fault_sequences', 'configurations'],
     """every history of submissions, resubmissions of the same run, completions, selections and cancel failures""",
     TESTS + "nothing covers cancelling.",
     ['python/deleteJobs.py', 'python/paramgrid/jobqueue.py'],
     [('selection of job ids', 'python/deleteJobs.py; python/paramgrid/jobqueue.py:deleteJobs'),
      ('index removal', 'python/paramgrid/jobqueue.py:jobIndex.delId')],
     ['cancel commands received by the queue manager', 'job index'])

prop('C06', 'Run selection follows the chains\' actual state',
     """A run is (re)submitted by runbatch exactly when the state of its files says it qualifies under the given options:
     --notexist / --notall N when chains are missing, --checkpoint_run [R] only when stopped for at least five minutes, not
     finished, has a checkpoint and convergence worse than R, --converge / --parent_converge by the last analysed convergence,
     --importance_ready / --importance_changed / --parent_stopped by the parent chain, --minimize options by the minimum file,
     and --filters applies the grid's Python filters to exactly the qualifying filter runs, submitting nothing.
     In particular a chain that is still being written, or that has finished, is never resubmitted by --checkpoint_run.""",
     ['histories', 'configurations', 'schedules'],
     """every history of sampler progress (writes, checkpoints, convergence updates, finish, kill), clock position and option set""",
     TESTS + "and none has a chain directory that changes over time.",
     ['python/runbatch.py', 'python/paramgrid/batchjob.py', 'python/paramgrid/batchjob_args.py'],
     [('file-state predicates', 'python/paramgrid/batchjob.py:jobItem.chainExists, notRunning, convergeStat, chainFinished, parentChanged, wantCheckpointContinue'),
      ('option logic', 'python/runbatch.py main loop'), ('name/data/parameter filters', 'python/paramgrid/batchjob_args.py:filteredBatchItems')],
     ['set of runs submitted or listed by --dryrun'])

prop('C07', 'Parallel grid analysis: every chain analysed once, within the process limit',
     """runGridGetdist starts exactly one analysis for every selected run whose chains exist (with --notexist: and has no
     results; with --update_only: and has no results or chains newer than its results), never runs more than --procs analyses
     at the same time, and always terminates once they do, whatever order and time they finish in, including failures and
     crashes. Each analysis gets its own settings file naming that run's chain, its output directory and its burn-in
     handling.""",
     ['schedules', 'histories', 'fault_sequences', 'configurations'],
     """every order and duration of analyses, failures, process limits, selections and file ages""",
     TESTS + "the grid driver is never run.",
     ['python/runGridGetdist.py', 'python/paramgrid/batchjob.py', 'python/getdist/command_line.py'],
     [('process pool loop', 'python/runGridGetdist.py'), ('staleness test', 'python/paramgrid/batchjob.py:getDistNeedsUpdate')],
     ['analysis processes started', 'settings files', 'result files'])

prop('C08', 'Cached sample loading is indistinguishable from loading the files',
     """Loading samples by file root (directly or through a grid item) gives the same rows, weights, likelihoods, parameter
     names, ranges, analysis settings and derived results as reading the current files with the same arguments and no cache,
     after any history of chain appends, rewrites, additions or removals of chain or auxiliary files, different settings used
     by earlier loads, and loads by other processes that were killed, ran concurrently or hit disk errors.""",
     ['histories', 'schedules', 'crash_points', 'fault_sequences'],
     """every history of file changes and loads, by several processes, with kills and write failures, clock jumps and coarse time
     stamps""",
     TESTS + "each loads a chain at most once from files that never change.",
     ['python/getdist/mcsamples.py', 'python/getdist/chains.py', 'python/getdist/__init__.py'],
     [('cache validity by modification time and stored settings', 'python/getdist/mcsamples.py:loadMCSamples')],
     ['the returned samples object and its statistics'])

prop('C09', 'Reading chains that are still being written yields only complete rows',
     """Loading (or running the analysis command on) a chain set while samplers are appending to it, or after they were killed,
     sees for each chain file a prefix of the rows written to it, in order, no fewer than were complete when the load started,
     with burn-in removal applied to that prefix, and each row's weight, likelihood and parameters kept together. A row that
     was only partly written is never silently turned into sample values.""",
     ['schedules', 'histories', 'crash_points'],
     """every interleaving of the reader's and samplers' file operations, and every torn last line""",
     TESTS + "no test reads a file that is being written.",
     ['python/getdist/chains.py', 'python/getdist/mcsamples.py'],
     [('chain file discovery and reading', 'python/getdist/chains.py:chainFiles, loadNumpyTxt, loadChains'), ('burn-in removal', 'python/getdist/chains.py:removeBurn, removeBurnFraction')],
     ['rows of the loaded samples object', 'row counts printed by the analysis command'])

prop('C10', 'Building a grid is restartable and never touches existing chains',
     """makeGrid writes, for every run and importance run of the settings, the ini file that the settings prescribe; if it is
     killed at any point or a write fails, running it again gives exactly the files an uninterrupted run gives, and no chain,
     checkpoint or result file already in the grid directory is changed or removed. Rebuilding or extending a grid (changed
     settings, added sub-grids) keeps commands working on the runs that exist.""",
     ['crash_points', 'fault_sequences', 'configurations', 'histories'],
     """every settings file in the generator's range, kill point, failing write and history of rebuilds""",
     TESTS + "no grid is built.",
     ['python/paramgrid/gridconfig.py', 'python/paramgrid/batchjob.py', 'python/makeGrid.py', 'python/addGridBatch.py', 'python/getdist/inifile.py'],
     [('grid construction', 'python/paramgrid/gridconfig.py:makeGrid'), ('items and importance items', 'python/paramgrid/batchjob.py:batchJob.makeItems')],
     ['ini files', 'list of runs seen by later commands', 'existing chain files'])

prop('C11', 'The stored grid description never misleads later commands',
     """Every grid command works from the grid that is on disk: if the stored grid description is missing, unreadable or cut
     short by a crash, commands either rebuild it from the grid's own settings, listing every run that has chains, or stop with
     an error; they never act on a run list belonging to another grid or a half-written one. Several grids used in one process,
     or by several processes at once, never mix.""",
     ['crash_points', 'histories', 'schedules', 'fault_sequences'],
     """every kill point while the description is written, every sequence of reads of several grids, concurrent readers""",
     TESTS + "no grid is read.",
     ['python/paramgrid/batchjob.py', 'python/paramgrid/gridconfig.py', 'python/getdist/chain_grid.py'],
     [('stored description and rebuild', 'python/paramgrid/batchjob.py:readobject, saveobject; python/paramgrid/gridconfig.py:makeGrid')],
     ['output of listGrid', 'items of the grid object'])

prop('C12', 'Grid copies are faithful and failures are reported',
     """copyGridFiles that exits successfully has produced, in the target directory or zip file, exactly the selected runs' files
     (chains with --chains, results with --dist, configuration unless --no_config) with identical content, except that
     non-importance chains have exactly the requested burn-in fraction removed and are then marked as burn-removed. The source
     grid is never modified, --dryrun writes nothing to the target, and any read or write error (full disk, short write)
     makes the command fail rather than leave a silently truncated copy. extractDistFiles obeys the same rules for result files.""",
     ['inputs', 'fault_sequences', 'configurations'],
     """every grid content, option set and failing read or write""",
     TESTS + "no file copying is tested.",
     ['python/copyGridFiles.py', 'python/extractDistFiles.py', 'python/paramgrid/batchjob_args.py'],
     [('file selection and copy', 'python/copyGridFiles.py:fileMatches, doCopy, writeIni')],
     ['target tree or zip content', 'source tree', 'exit status'])

prop('C13', 'cleanup deletes only what was selected',
     """cleanup --confirm deletes exactly the files of the selected runs that match the given extensions, chain number and
     emptiness conditions, and no file of a run that was not selected (other than importance runs of a selected run), nor
     anything outside those runs' chain and result directories. Without --confirm it deletes nothing, and a delete error or
     kill part way never removes anything else.""",
     ['inputs', 'configurations', 'fault_sequences', 'crash_points'],
     """every grid whose run names may be prefixes of each other, option set and failing delete""",
     TESTS + "nothing covers deletion.",
     ['python/cleanup.py', 'python/paramgrid/batchjob_args.py', 'python/paramgrid/batchjob.py'],
     [('pattern match', 'python/cleanup.py')], ['files removed', 'standard output'])

prop('C14', 'Renaming parameters changes only names and labels',
     """renameParam --confirm renames exactly the given parameters (and labels) in the selected runs' parameter-name and
     best-fit files and leaves every other byte of meaning (order, derived marks, values, other runs' files, chains) as it was;
     without --confirm no file changes. A failing write is reported, and running the command again completes the renaming.""",
     ['inputs', 'fault_sequences', 'configurations'],
     """every parameter list, mapping, selection and failing write""",
     TESTS + "the command is never run.",
     ['python/renameParam.py', 'python/getdist/paramnames.py', 'python/getdist/types.py'],
     [('rewrite of .paramnames and .minimum', 'python/renameParam.py')], ['parameter-name and best-fit files'])

prop('C15', 'Saved results are complete or the failure is reported, and they load back',
     """Every save operation of the analysis library and command (statistics tables, covariance, chains, parameter names, ranges,
     ini files, stored sample objects) that returns without error has written the complete result, and reading it back gives the
     same values to the written precision. If the disk is full or a write fails at any point, the operation raises or the
     command exits with an error.""",
     ['fault_sequences', 'inputs'], """every save operation, and a failure at every write, close or rename it performs""",
     "The tests write a few files to a healthy disk; none fails a write, and few read results back.",
     ['python/getdist/mcsamples.py', 'python/getdist/chains.py', 'python/getdist/types.py', 'python/getdist/paramnames.py',
      'python/getdist/parampriors.py', 'python/getdist/covmat.py', 'python/getdist/inifile.py', 'python/getdist/command_line.py'],
     [('text writers and readers', 'saveAsText/loadFromFile methods')], ['written files', 'exceptions / exit status'])

prop('C16', 'Commands never modify or remove the chains they work on',
     """Chain files, parameter-name, range, covariance, best-fit and checkpoint files produced by samplers are never written,
     truncated, renamed or removed by any analysis, listing, submission, copying or grid-building command, at any moment and
     whatever fails. Only cleanup --confirm may remove them and only renameParam --confirm may rewrite name and best-fit files.""",
     ['histories', 'fault_sequences', 'schedules'], """every mix of commands, options, failures and kills""",
     TESTS + "nothing watches the input files.",
     ['python/getdist/command_line.py', 'python/runGridGetdist.py', 'python/runbatch.py', 'python/copyGridFiles.py', 'python/checkConverge.py', 'python/getdist/mcsamples.py'],
     [('outputs go to separate directories and names', 'python/runGridGetdist.py; python/getdist/command_line.py')], ['every mutating file operation'])

prop('C17', 'Results never depend on earlier queries or on changes already made',
     """After any history of operations on a samples object (queries of statistics and densities, reweighting, filtering, thinning,
     adding derived parameters, changing settings or ranges, burn-in removal, deleting parameters, copying, storing and reloading,
     operations that raised), every statistic, limit, covariance and density returned equals what a freshly built object with
     the same samples, weights, names, ranges and settings returns.""",
     ['histories', 'crash_points'], """every sequence of mutating and querying operations, including ones that fail part way and
     store/reload across a process restart""",
     "The tests query freshly built objects and rarely mutate one after querying it.",
     ['python/getdist/chains.py', 'python/getdist/mcsamples.py'],
     [('cache invalidation', 'python/getdist/chains.py:_weightsChanged, setSamples; python/getdist/mcsamples.py:updateBaseStatistics, updateSettings')],
     ['returned statistics and densities'])

prop('C18', 'Status reports show the grid as it is on disk',
     """checkConverge and listGrid report, for exactly the runs the filters select and in grid order, the state their files are in:
     runs without chains as not existing, each run's last analysed convergence (only runs worse than --converge R), the checkpoint
     convergence of unfinished runs (--checkpoint, restricted by --running / --not_running, where running means written in the last
     five minutes), and chains lagging by over ten minutes or with a file missing as stuck. While samplers and analyses are rewriting
     those files each line is one that was true at some moment of the report; a file caught half written never hides or falsifies
     other runs, and a read error is reported.""",
     ['schedules', 'histories', 'fault_sequences'], """every interleaving of a report with samplers starting, appending, finishing and analyses rewriting results;
     unreadable files; all option and filter combinations""",
     "No test runs the status commands at all, let alone on changing files.",
     ['python/checkConverge.py', 'python/listGrid.py', 'python/paramgrid/batchjob.py', 'python/paramgrid/batchjob_args.py'],
     [('run state', 'python/paramgrid/batchjob.py:jobItem.chainExists, notRunning, chainsDodgy, convergeStat, R'), ('selection', 'python/paramgrid/batchjob_args.py:filteredBatchItems, sortedParamtagDict')],
     ['printed report'])

prop('C19', 'A plotting session shows the samples of the run it was asked for',
     """In a plotting session (grids, chain directories, directory trees and paths in any combination and order) every name gives the
     samples of the run of that name in the first location that has it, analysed with the session's settings and only that location's
     and run's own settings, at every moment of every history of requests, removals, resets and reloads: samples are loaded once
     until removed, reset or reloaded, a reset starts afresh, settings objects of the caller stay as they were, and a request that
     fails (no such run, unreadable file, interruption) or another session working on the same files never makes a later request
     return other samples, other settings or a mixture.""",
     ['histories', 'schedules', 'fault_sequences', 'crash_points'], """every sequence of session operations, over every layout of locations with equal names,
     with chains being replaced between loads, read errors, kills and a second session on the same files""",
     "The tests make one plotter over one directory and ask for each run once.",
     ['python/getdist/plots.py', 'python/getdist/chain_grid.py', 'python/getdist/chains.py', 'python/paramgrid/batchjob.py'],
     [('sessions', 'python/getdist/plots.py:MCSampleAnalysis'), ('finding runs', 'python/getdist/chain_grid.py:ChainDirGrid; python/getdist/chains.py:findChainFileRoot, chainFiles; python/paramgrid/batchjob.py:resolveRoot')],
     ['returned samples, statistics, densities and settings'])

prop('C20', "Result tables show each run's own current results",
     """makeTables and makeParamCompare give, for exactly the runs the filters and options select and in grid order, each run's own
     results as they are on disk: every value, limit and best fit under its own parameter and heading (to the precision shown, at the
     chosen confidence limit), chi-squares, mean chi-squares and convergence of that run, and chi-square differences and parameter shifts
     relative to the run the options name as reference (same data in the base or given model, data added, replaced or ignored) and to no
     other. While results are rewritten each number is one the file held during the command; a run whose results cannot be read is
     reported and never takes another run's numbers, and a table that cannot be written completely is never reported as made.""",
     ['configurations', 'schedules', 'fault_sequences', 'crash_points'], """every grid, option and filter combination, every state of completeness of the result files,
     analyses rewriting them during the command, read and write errors, kills""",
     "No test makes a table from a grid.",
     ['python/makeTables.py', 'python/makeParamCompare.py', 'python/getdist/types.py', 'python/paramgrid/batchjob.py', 'python/paramgrid/batchjob_args.py'],
     [('tables', 'python/makeTables.py; python/makeParamCompare.py; python/getdist/types.py:ResultTable, MargeStats, BestFit, NumberFormatter'), ('results of a run', 'python/paramgrid/batchjob.py:jobItem.loadJobItemResults')],
     ['LaTeX tables', 'printed comparison', 'exit status'])

prop('C21', "Settings files mean what they say and survive being changed and saved",
     """Reading a settings (.ini) file gives exactly its own settings, those of the files it INCLUDEs and, for names not set
     otherwise, those of the files it DEFAULTs to, at any depth, each file named relative to the one that refers to it, with placeholders
     replaced from the environment; a setting given twice, a missing file or a failed read is an error and never a partial or silently
     different set of settings. Every typed query gives the stored value, the default if it is not set, or an error. Settings that
     are changed and saved, to the file they were read from unless another is named, read back as the same settings in the same order with
     the same references, no other file is touched, and a save that cannot be completed is reported.""",
     ['histories', 'configurations', 'fault_sequences', 'crash_points'], """every tree of settings files and every session of reads, queries, changes, saves and
     further reads, with failed and short reads, full disks, failed and torn writes, and kills""",
     "The tests save one dictionary of settings and read it back.",
     ['python/getdist/inifile.py'],
     [('reading', 'python/getdist/inifile.py:IniFile.readFile, expand_placeholders'), ('saving', 'python/getdist/inifile.py:IniFile.saveFile, fileLines'), ('queries', 'python/getdist/inifile.py:IniFile.asType, bool, split')],
     ['settings, comments, references', 'files on disk', 'errors'])

prop('C22', "Comparison plots show exactly the runs asked for",
     """makePlots makes one figure for every run, parameter combination or comparison (of data combinations, importance samplings, other
     parameterizations, or with one data set replaced by another) that the grid, the filters and the options select among runs with chains,
     and no other; each figure shows exactly the runs that belong to it, run of the name first, every curve drawn from that run's own chains as they are when
     it is made, with the parameters, labels, layout and file formats asked for. A comparison that lacks runs is left out or drawn with those there are, as asked;
     a figure whose chains cannot be read or that cannot be written is reported, never made with another run's samples or left partial as a success.""",
     ['configurations', 'schedules', 'fault_sequences', 'crash_points'], """every grid, option and filter combination, every state of its chains, repeated and
     simultaneous commands with chains replaced between them, read and write errors and kills""",
     "No test makes plots from a grid.",
     ['python/makePlots.py', 'python/paramgrid/batchjob.py', 'python/paramgrid/batchjob_args.py', 'python/getdist/plots.py', 'python/getdist/chain_grid.py'],
     [('selection and names of figures', 'python/makePlots.py; python/paramgrid/batchjob_args.py:sortedParamtagDict, filterForDataCompare'), ('runs by name', 'python/paramgrid/batchjob.py:normed_name_item, normalizeDataTag; python/getdist/plots.py:MCSampleAnalysis')],
     ['figure files', 'runs, parameters and samples drawn', 'exit status'])

prop('C23', "Commands that show single results give the run's own values",
     """chainPeek shows all values so far of the named parameter in the numbered chain of the named run (a line being written is not used);
     extractBestFitParams and extractBestFitCAMB give the best-fit values of exactly the parameters and settings of that run, and makeLatex the asked
     confidence limit of every asked parameter, under its own label, name or snippet file, to the precision shown. A parameter, chain, limit or file that is not there,
     or a file that cannot be read or written, is an error, and never the values of another parameter, chain, run or limit.""",
     ['inputs', 'schedules', 'fault_sequences', 'crash_points'], """every run and result file, every argument list, with samplers and analyses
     writing the files meanwhile, read and write errors, kills""",
     "No test runs these commands.",
     ['python/chainPeek.py', 'python/extractBestFitParams.py', 'python/extractBestFitCAMB.py', 'python/makeLatex.py', 'python/getdist/types.py', 'python/getdist/chains.py'],
     [('commands', 'python/chainPeek.py; python/extractBestFitParams.py; python/extractBestFitCAMB.py; python/makeLatex.py'), ('result files', 'python/getdist/types.py:BestFit, MargeStats'), ('chain files', 'python/getdist/chains.py:loadNumpyTxt')],
     ['printed values', 'files written', 'exit status'])

prop('C24', "Cobaya chains are read as the description of the run says",
     """A Cobaya run is found by its root or by a wildcard (a name or a directory of its own, given by a relative or absolute path, alone, in a list, or below
     nested directories) and read with exactly the parameters, order, labels, renames, limits, fixed values, sampler and burn-in that its own full
     description (updated.yaml, full.yaml) gives, after the params, priors, likelihoods and label that post-processing added and removed, whatever
     way the description is written; burn-in already removed by post-processing is not removed twice. Each sample has the values, weight and likelihood of its row, by the header
     of its file; saved and read back, all stays the same. The description passed by a user is not changed. A file that cannot be read is an error, never another run's names or samples.""",
     ['inputs', 'configurations', 'histories', 'schedules', 'fault_sequences', 'crash_points'], """every description and chain layout, every order of loads through
     each entry point, cached or not, while samplers append rows in pieces and replace descriptions, with read and write errors and kills""",
     "The tests read one Cobaya root with two parameters.",
     ['python/getdist/cobaya_interface.py', 'python/getdist/yaml_tools.py', 'python/getdist/paramnames.py', 'python/getdist/parampriors.py', 'python/getdist/mcsamples.py', 'python/getdist/chain_grid.py', 'python/getdist/command_line.py'],
     [('description of the run', 'python/getdist/cobaya_interface.py; python/getdist/yaml_tools.py'), ('names and limits', 'python/getdist/paramnames.py:ParamNames.loadFromFile; python/getdist/parampriors.py:ParamBounds.loadFromFile'), ('finding chains', 'python/getdist/mcsamples.py:loadMCSamples, getRootFileName; python/getdist/chain_grid.py'), ('samples', 'python/getdist/cobaya_interface.py:MCSamplesFromCobaya')],
     ['samples, names, limits and settings', 'listings', 'files written', 'description passed in'])

# ---- stated, not claimed (see MANIFEST not_applicable) ----
prop('C30', 'Density estimates and limits are statistically accurate',
     """1D and 2D kernel density estimates, credible intervals and convergence statistics approximate those of the underlying
     distribution to the documented accuracy for any sample set.""",
     ['inputs'], 'every sample set', 'Tests compare a handful of Gaussian mixtures.',
     ['python/getdist/mcsamples.py', 'python/getdist/kde_bandwidth.py'], [('KDE', 'python/getdist/mcsamples.py')], ['densities'])
prop('C31', 'The sampler\'s chains converge to the posterior and restart from checkpoints',
     """The Fortran sampler's chains have the posterior as stationary distribution and continue correctly from a checkpoint after
     a kill at any point.""",
     ['crash_points', 'schedules'], 'every kill point and MPI schedule', 'The sampler has no test here.',
     ['source/MCMC.f90', 'source/GeneralTypes.f90'], [('checkpoint write', 'source')], ['chain files'])
prop('C32', 'Plots show the numbers they are given',
     """Figures render the correct values, labels and limits for every sample set and layout.""",
     ['inputs'], 'every plot call', 'Tests only check that plotting does not raise.',
     ['python/getdist/plots.py', 'python/getdist/types.py'], [('plotting', 'python/getdist/plots.py')], ['figures'])
prop('C33', 'The GUI always shows the selected chains',
     """The desktop GUI's lists and plots always reflect the currently selected chains and settings.""",
     ['histories'], 'every sequence of user actions', 'The GUI has no tests that run here.',
     ['python/getdist/gui/mainwindow.py'], [('GUI state', 'python/getdist/gui/mainwindow.py')], ['window contents'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
