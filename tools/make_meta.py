"""Writes sim/meta.json: the per-property words used in MANIFEST.json and the evidence files."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOBQ = ['python/paramgrid/jobqueue.py', 'python/paramgrid/batchjob.py', 'python/paramgrid/batchjob_args.py', 'python/getdist/inifile.py']
QSTUB = ['queue manager commands (qsub/qstat/qdel, msub/showq/canceljob): sim/cluster.py',
         'file system contents and time stamps: real files in a scratch directory, every call through the simulator',
         'clock, sleep, pids, host and user names: simulated']
FSTUB = QSTUB[1:]
LIM = 'Seeded search, not enumeration: what it reports is what it explored (see the evidence file). '
M = {
    'C01': dict(technique='histories of submit/cancel commands; the victim is killed, or a write of it fails, at seeded steps; index and queue compared with a reference ledger',
                nontrivial='a victim command ran under the plan', real=['python/runbatch.py', 'python/runMPI.py', 'python/deleteJobs.py'] + JOBQ, stub=QSTUB,
                note='kill at any intercepted step, failing/short/torn writes, full disk; no power loss.'),
    'C02': dict(technique='2-4 concurrent commands interleaved at every file and queue operation by a seeded scheduler; final index compared with the queue manager\'s own record',
                nontrivial='more than one command ran', real=['python/runbatch.py', 'python/deleteJobs.py', 'python/runningJobs.py'] + JOBQ, stub=QSTUB + ['flock: simulated lock table'],
                note='processes of one host; file locking between hosts (NFS) is not simulated.'),
    'C03': dict(technique='generated grids, templates, selections and queue histories with refused or failing submissions and script writes; scripts and index compared with a reference expansion',
                nontrivial='something was submitted', real=['python/runbatch.py', 'python/runMPI.py', 'job_script templates'] + JOBQ, stub=QSTUB, note='job scripts are read, not executed.'),
    'C04': dict(technique='simulated queue managers in three listing formats with foreign jobs, state changes and failing queries; output compared with the queue\'s contents',
                nontrivial='the queue was not empty', real=['python/runningJobs.py'] + JOBQ, stub=QSTUB, note='listing formats as the code documents them; user names up to 8 characters.'),
    'C05': dict(technique='histories of submissions, completions and cancel commands with refused/failing cancels, kills and write errors; cancels received and index compared with a reference selection',
                nontrivial='a cancel command ran', real=['python/deleteJobs.py'] + JOBQ, stub=QSTUB, note='as C01.'),
    'C06': dict(technique='simulated samplers and clock produce chain directories at any age and state (also while being written); selection compared with a reference predicate',
                nontrivial='a selection was made', real=['python/runbatch.py'] + JOBQ, stub=QSTUB + ['samplers: write chain, checkpoint and convergence files'], note='ages around the five-minute limit are covered on both sides.'),
    'C07': dict(technique='analyses are simulated processes of seeded duration and outcome, some real; starts, overlap, end and settings compared with a reference',
                nontrivial='an analysis started', real=['python/runGridGetdist.py', 'python/GetDist.py and getdist (a share of the runs)'] + JOBQ, stub=FSTUB + ['the other analyses: processes that take a seeded time and end well, badly or by a signal'],
                note='progress is bounded: the driver must end within the step limit once analyses end.'),
    'C08': dict(technique='loader processes run over a changing chain directory with kills, concurrent loaders, disk faults, clock jumps and coarse time stamps; each load compared with a load without cache',
                nontrivial='a load was compared after a change', real=['python/getdist/mcsamples.py', 'python/getdist/chains.py', 'python/getdist/paramnames.py', 'python/getdist/parampriors.py', 'python/getdist/inifile.py'],
                stub=FSTUB + ['grid item: a small object with the attributes the loader uses'], note='a same-size rewrite within one time-stamp tick of an earlier load is not expected to be noticed.'),
    'C09': dict(technique='sampler processes append rows (torn at any byte, killed, resumed) while reader processes load, interleaved by a seeded scheduler; rows compared with the ledger of rows written',
                nontrivial='a read ran', real=['python/getdist (loading and the analysis command)'], stub=FSTUB + ['samplers: append rows in the sampler\'s format'], note='a torn row completed by a newline and all columns is undetectable and not generated.'),
    'C10': dict(technique='makeGrid/addGridBatch killed or failed at seeded steps, then run again; files compared with an uninterrupted run and a reference model of the settings',
                nontrivial='a grid was built', real=['python/makeGrid.py', 'python/addGridBatch.py', 'python/paramgrid/gridconfig.py'] + JOBQ[1:], stub=FSTUB, note='settings files come from a generator.'),
    'C11': dict(technique='several grids read, rebuilt, damaged and listed by processes that are killed or run concurrently; listings compared with the grid on disk',
                nontrivial='a grid was listed', real=['python/listGrid.py', 'python/makeGrid.py', 'python/paramgrid/batchjob.py', 'python/paramgrid/gridconfig.py', 'python/getdist/chain_grid.py'], stub=FSTUB, note='one known finding is listed (stale-rebuild).'),
    'C12': dict(technique='copy commands over generated grids with failing reads, short/torn writes and full disks; target tree or zip compared with a reference copy',
                nontrivial='there was something to copy', real=['python/copyGridFiles.py', 'python/extractDistFiles.py', 'zipfile', 'shutil'] + JOBQ[1:], stub=FSTUB, note='see DESIGN.md for the two warnings that are not failures.'),
    'C13': dict(technique='cleanup over generated grids with prefix-sharing names, failing deletes and kills; files removed compared with a reference selection',
                nontrivial='something had to be deleted', real=['python/cleanup.py'] + JOBQ[1:], stub=FSTUB + ['deletes happen in the scratch directory, as an unprivileged user; any other path is refused by the simulator'], note='exploration only.'),
    'C14': dict(technique='renameParam over generated grids with failing writes and kills, then run again; files compared with a reference renaming',
                nontrivial='a file had to change', real=['python/renameParam.py', 'python/getdist/paramnames.py', 'python/getdist/types.py'] + JOBQ[1:], stub=FSTUB, note='exploration only.'),
    'C15': dict(technique='every save operation with a failing, short or torn write, close, rename or full disk at seeded steps; success must mean complete files that read back equal',
                nontrivial='a save ran', real=['python/getdist (all writers and readers)', 'python/GetDist.py'], stub=FSTUB, note='values compared to the written precision.'),
    'C16': dict(technique='mixes of all commands with kills and disk faults while samplers write; every mutating file operation is watched against the set of sampler files',
                nontrivial='a command ran', real=['all grid and analysis commands'] + JOBQ, stub=QSTUB + ['samplers'], note='outputs the user directs into the chain directory are excluded.'),
    'C17': dict(technique='seeded histories of changes, queries, failing calls, process restarts from stored objects (thorough: interruptions at any line); every result compared with a newly made object',
                nontrivial='at least one change or query was compared', real=['python/getdist (samples, densities, plotter caches)'], stub=['figures are drawn with matplotlib\'s Agg backend and read back', 'file system: scratch directory'],
                note='results compared to 2e-5 relative (looser where the code iterates).'),
    'C18': dict(technique='reports run while simulated samplers and analyses rewrite the files they read, with read errors; every line checked against the recorded history of the files',
                nontrivial='a report was checked', real=['python/checkConverge.py, listGrid.py, python/paramgrid'], stub=['samplers and analyses (write rows, converge_stat and .converge files)'],
                note='while a file is half written any statement about its own value is accepted.'),
    'C19': dict(technique='seeded histories of session operations over generated layouts of grids, directories and paths, with chains replaced between loads, read errors, kills and two sessions interleaved; samples and settings compared with a reference resolution and a fresh load',
                nontrivial='samples of a session were compared', real=['python/getdist/plots.py (sessions)', 'python/getdist/chain_grid.py', 'python/getdist/mcsamples.py', 'python/getdist/chains.py', 'python/paramgrid/batchjob.py'], stub=FSTUB,
                note='where a grid lists a run without chains, or a name is ambiguous in a tree, an error or a later location is accepted.'),
    'C20': dict(technique='tables made from generated result files of generated grids, with every option, while simulated analyses rewrite the files, with read and write errors and kills; the LaTeX is parsed and every number compared with the recorded history of the files',
                nontrivial='a table was checked', real=['python/makeTables.py, makeParamCompare.py', 'python/getdist/types.py', 'python/paramgrid'], stub=['analyses (write .margestats, .likestats, .converge, .minimum)', 'pdflatex'],
                note='a run with a missing or half-written result file may be reported as an error instead.'),
    'C22': dict(technique='seeded grids, chains and option combinations; makePlots runs, once or two at a time, with chains replaced between commands, read and write errors and kills; every figure file is compared with the panels, runs and samples it should hold',
                nontrivial='a figure was compared', real=['python/makePlots.py', 'python/paramgrid', 'python/getdist/plots.py (sessions, parameters, layout)', 'python/getdist/mcsamples.py, chains.py (reading)'],
                stub=['drawing: a recording plotter writes the panels, runs and sample ranges of every figure instead of an image'],
                note='the drawing itself is replaced by a record.'),
    'C23': dict(technique='commands that show single results run on generated runs while simulated samplers and analyses write the same files, with read and write errors and kills; every printed or written value is compared with the recorded history of the files',
                nontrivial='all commands of the run were judged', real=['python/chainPeek.py, extractBestFitParams.py, extractBestFitCAMB.py, makeLatex.py', 'python/getdist (result and chain files)'], stub=['samplers and analyses (write chains, .minimum and .margestats)'],
                note='a result file met while it is being rewritten may be reported as an error.'),
    'C24': dict(technique='generated Cobaya descriptions and chains read through every entry point in generated sessions, while simulated samplers append rows in pieces and replace descriptions, with read and write errors and kills; names, limits, settings and samples compared with a reference reader of the description',
                nontrivial='a Cobaya chain was read and compared', real=['python/getdist/cobaya_interface.py, yaml_tools.py, paramnames.py, parampriors.py', 'python/getdist/mcsamples.py, chains.py, chain_grid.py, command_line.py'], stub=['Cobaya (its output files; its collection of samples is a small stand-in)'],
                note='the default burn-in of nested samplers, ambiguous names in nested trees and other samplers are left open.'),
    'C21': dict(technique='generated trees of settings files that include and default each other, read, queried, changed, saved and read again in generated sessions, with read errors, short reads, full disks, failed and torn writes and kills; every value, error and file compared with a reference reader',
                nontrivial='a settings file was read', real=['python/getdist/inifile.py'], stub=[],
                note='a save that fails may leave its own target unfinished; a default met before the setting that overrides it may be reported as a duplicate.'),
}
out = {}
for k, m in M.items():
    if not m['technique']:
        continue
    out[k] = dict(technique=m['technique'], level_note=LIM + m['note'][0].upper() + m['note'][1:], nontrivial=m['nontrivial'], real=m['real'], stub=m['stub'])
json.dump(out, open(V + '/sim/meta.json', 'w'), indent=1)
