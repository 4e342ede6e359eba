"""Writes known_findings.json: the findings that are recorded, and the defects repaired by 'fix:' commits in /repo (a fixed entry suppresses nothing)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
    dict(property='C11', sig='stale-rebuild',
         what='a command that finds the stored grid description missing and rebuilds it while makeGrid runs with changed settings on the '
              'same grid can store its rebuild of the earlier settings over the description makeGrid has just written; later commands list '
              'the earlier settings\' runs until makeGrid is run again'),
    dict(property='C10', sig='subgrid-filter',
         what='addGridBatch of a grid whose settings file defines its importance filters (batchjob.importanceFilter subclasses): the stored '
              'description then needs the added grid\'s settings module, which later commands do not find, so they rebuild the description without '
              'the added grid and without the runs that have no chains'),
]
FIXED = """
1aa57a0 C10 storing a grid description failed when the getdist cache directory did not exist yet
5ce74f7 C03 queue manager output was handled as bytes, so submission and queue queries failed
f0dd73e C01 a kill or full disk while the job index was rewritten left it unreadable
114b399 C05 removing one of several jobs of the same run removed the wrong record
0b417f2 C01 a job script that could not be written completely was submitted, and a submitted job was not recorded
0691c6a C02 commands updating the job index at the same time lost records
057170a C05 deleteJobs selected other jobs than the ids, ranges and states given
aefe1d0 C03 long combined job names could not be made (md5 of text)
c2cb5eb C03 --not_queued was ignored with --importance_minimize, so queued runs were submitted again
dcd8f03 C04 job ids cut short by the queue listing were not recognised
eccc485 C06 chainNames for a given number of chains counted from 0, so --notall looked for the wrong files
598c718 C06 whether a run is running or changed was decided from one chain only
a43a1c7 C06 an empty .converge_stat stopped the command with an exception
e261608 C07 --base_ini given as a relative path was not found by the analyses
3629806 C12 failed writes of chains with burn-in removed went unreported
63f2e73 C12 copyGridFiles --dryrun removed an existing target
24cf77c C12 copyGridFiles failed when python had left a cache directory in config
bc3384f C14 renameParam did not update best-fit files, and a failed write lost the original
00fa2de C14 renameParam ran name and label together in best-fit files, and did not label renamed parameters there
3ee2fd1 C13 cleanup removed files of runs whose names begin with a selected run's name
6bd5e89 C10 rebuilding a grid lost config.ini when writing it failed
259aa9b C11 a failed save of the grid description left an unreadable one
21624d5 C11 a rebuild of the description used another grid's settings
6d8c45b C11 half-written settings and colliding temporary files
497ded3 C16 copying onto a linked copy wrote into the source grid's chains
2713281 C16 copying a grid onto itself truncated its chains
0e31966 C08 cached samples were used for other settings and files than they were made from
7114ca8 C08 chains in the current directory could not be loaded by name
6ed760b C09 a partly written last line was read as sample values
765f3a1 C09 parameters fixed in only one chain were deleted from all
d99d40b C09 the analysis command removed burn-in twice
cf359a2 C15 samples saved as text with a name ending .txt, or with make_dirs in the current directory, could not be loaded back
4d93233 C15 a 1x1 covariance matrix could not be read back
0585d0b C15 thinned output had other samples than those selected, with values run together
7795585 C15 lists saved in .ini files did not read back as the same lists
2f31b02 C15 the analysis command exited successfully after reporting an error
69c4582 C15 combined chains without likelihoods could not be separated again
f590bc6 C17 making samples with ignore_rows changed the settings dictionary given
6362761 C17 statistics asked for after a change were those from before it
4433b43 C17 getCorrelatedVariable2DPlots failed unless the correlation matrix had been asked for before
42daeb3 C17 getBounds depended on which densities had been asked for before
ddbc6c0 C17 reweighting and cooling changed arrays other objects use
8e8a3ac C17 after filtering by index the separate chains were split at the old rows
cff9e51 C17 after thinning or burn-in removal the separate chains were split at the old rows
50d9e01 C17 addDerived that failed left the new parameter half added
854eedb C17 results from before settings or sampler were changed
ba7812c C17 statistics left half updated by a failure were used
ab84186 C17 samples read again were split like the chains read before
55f0cdd C17 plotting a normalized density changed the samples' density
dada55c C17 plots made after the samples were changed showed the old samples
33e215e C17 an interruption left means without the mean likelihood
769338f C17 an interrupted getVars left half filled variances in use
83561e6 C18 one incomplete .converge file made checkConverge fail for the whole grid
93a9f87 C18 listGrid --notexist listed runs that have chains
231bf2c C19 samples asked for by path were those of another chain of the same name already loaded
486e26a C19 getdist.ini of one chain directory was applied to chains of other locations
41d8277 C19 resetting a session kept its earlier settings and changed the caller's
1753099 C19 a chain named with leading directories was only looked for in the first chain directory
35304d2 C19 two chains of the same name below a directory got the same name in the session
1165b70 C10 a group of runs given its data sets when made could not be used
a334714 C20 makeTables --all_limits wrote only the first table when the output goes to another directory
0ee32c1 C20 makeTables --columns failed
4c32565 C20 tables of best fits only could not be made
28f1df4 C20 values of compared results appeared under other headings when one of them lacks the parameter
9ff967c C20 shifts were written with a broken sigma
051aeca C20 makeParamCompare failed to write its table to the current directory
6e9f263 C21 settings saved without a name overwrote a file included by the one they were read from
dab1ba7 C21 the comment of an unused default was given to the next setting
f8735b6 C15 plot scripts written with another out_root plotted a chain of that name, not the one read
a1bc3fa C22 makePlots failed for 2D and triangle plots
1113c6e C22 --outtag and the plotted parameter were left out of the names of 2D and triangle plots
c7a1b24 C22 comparisons with a run that has no chains yet stopped the whole command
039751f C23 chainPeek showed the likelihood for an unknown parameter, and chain 1 for any chain
4edf446 C24 burn-in already skipped when post-processing was removed again
8784182 C24 reading names and ranges changed the description passed in
ed77b7f C24 priors with the default loc or scale had no range
aba333c C24 wildcards in a chain root never found Cobaya chains
3e20f8d C19 chains below a directory given by a relative path were not found
c477fa8 C24 Cobaya chains in a directory of their own were looked for elsewhere
1daf0bf C24 a parameter set by a function object could not be read
"""
fixed = []
for line in FIXED.strip().splitlines():
    h, p, what = line.split(' ', 2)
    fixed.append('fixed: property=%s %s %s' % (p, h, what))
with open(V + '/known_findings.json', 'w') as f:
    json.dump(dict(findings=FINDINGS, fixed=fixed), f, indent=1)
