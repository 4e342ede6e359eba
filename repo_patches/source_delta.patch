From 1aa57a0f3eb32f46947d8040f19d98d59adc14b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 01/80] fix: create the getdist cache directory before storing
 a grid description in it

makeGrid.py failed with FileNotFoundError for a user whose cache directory did not exist yet.
---
 python/paramgrid/batchjob.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index d36129f..a9542ba 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -14,9 +14,10 @@ from getdist.mcsamples import loadMCSamples
 
 def grid_cache_file(directory):
     directory = os.path.abspath(directory)
-    if getdist.cache_dir:
+    cache_dir = getdist.make_cache_dir()
+    if cache_dir:
         import hashlib
-        return os.path.join(getdist.cache_dir, '_batch_'
+        return os.path.join(cache_dir, '_batch_'
                             + hashlib.md5(directory.encode('utf-8')).hexdigest()[:10]) + '.pyobj'
     return os.path.join(directory, 'batch.pyobj')
 
-- 
2.43.0


From 5ce74f73ea65b5f74b619ec802930db2d7afc539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 02/80] fix: read queue manager output as text

Under Python 3 str(bytes) gave job ids such as "b'1000.head\\n'" and one-line listings, so queued and
running jobs were never recognised.
---
 python/paramgrid/jobqueue.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 6d316be..1328d66 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -72,7 +72,7 @@ class jobSettings(object):
             grid_engine = 'MOAB'
         else:
             try:
-                help_info = str(subprocess.check_output('qstat -help', shell=True)).strip()
+                help_info = subprocess.check_output('qstat -help', shell=True, universal_newlines=True).strip()
                 if 'OGS/GE' in help_info: grid_engine = 'OGS'  # Open Grid Scheduler, as on StarCluster
             except:
                 pass
@@ -307,7 +307,8 @@ def submitJob(jobName, paramFiles, sequential=False, msg=False, **kwargs):
         if len(paramFiles) > 1:
             open(scriptRoot + '.batch', 'w').write("\n".join(paramFiles))
         if not kwargs.get('no_sub', False):
-            res = str(subprocess.check_output(replacePlaceholders(j.qsub, vals) + ' ' + scriptName, shell=True)).strip()
+            res = subprocess.check_output(replacePlaceholders(j.qsub, vals) + ' ' + scriptName, shell=True,
+                                          universal_newlines=True).strip()
             if not res:
                 print('No qsub output')
             else:
@@ -330,11 +331,11 @@ def queue_job_details(batchPath=None, running=True, queued=True, warnNotBatch=Tr
         print('No existing job index found')
         return []
     if spawn.find_executable("showq") is not None:
-        res = str(subprocess.check_output('showq -U $USER', shell=True)).strip()
+        res = subprocess.check_output('showq -U $USER', shell=True, universal_newlines=True).strip()
         runningTxt = ' Running '
     else:
         # e.g. Sun Grid Engine/OGS
-        res = str(subprocess.check_output('qstat -u $USER', shell=True)).strip()
+        res = subprocess.check_output('qstat -u $USER', shell=True, universal_newlines=True).strip()
         runningTxt = ' r '
     res = res.split("\n")
     names = []
-- 
2.43.0


From f0dd73e0609a5f0d63c382ac211fd52e2264845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:28 +0000
Subject: [PATCH 03/80] fix: replace the job index atomically

A kill between removing the old index and moving the new one into place lost every recorded job.
---
 python/paramgrid/jobqueue.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 1328d66..0cf85bc 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -6,7 +6,6 @@ import numpy as np
 import re
 import pickle
 import time
-import shutil
 import multiprocessing
 
 from distutils import spawn
@@ -174,8 +173,7 @@ def saveJobIndex(obj, batchPath=None):
     with open(fname + '_tmp', 'wb') as output:
         pickle.dump(obj, output, pickle.HIGHEST_PROTOCOL)
     # try to prevent corruption from error mid-write
-    if os.path.exists(fname): os.remove(fname)
-    shutil.move(fname + '_tmp', fname)
+    os.replace(fname + '_tmp', fname)
 
 
 def addJobIndex(batchPath, j):
-- 
2.43.0


From 114b399d04bc066f878cbdfcbdc2aeb88da1ca7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:28 +0000
Subject: [PATCH 04/80] fix: forget a job without losing or tripping over later
 jobs for the same run

Removing a job from the index raised KeyError, or dropped the entry of the newer job, when the same run or job
name had been submitted again.
---
 python/paramgrid/jobqueue.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 0cf85bc..4598c36 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -150,9 +150,10 @@ class jobIndex(object):
             j = self.jobSettings.get(jobId)
             if j is not None:
                 for rootname in j.names:
-                    del (self.rootNames[rootname])
+                    # may now refer to a later job for the same run
+                    if self.rootNames.get(rootname) == jobId: del (self.rootNames[rootname])
                 del (self.jobSettings[jobId])
-                del (self.jobNames[j.jobName])
+                if self.jobNames.get(j.jobName) == jobId: del (self.jobNames[j.jobName])
                 self.jobSequence = [s for s in self.jobSequence if s != jobId]
 
 
-- 
2.43.0


From 0b417f29c7fb111e886d20fb38a65e973c85bcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:12 +0000
Subject: [PATCH 05/80] fix: report failed writes of job scripts instead of
 submitting them cut short

The files were left to be closed by garbage collection, where a write error (e.g. disk full) is ignored and the
truncated script was submitted. The accepted job is recorded before the informational .sub file is written.
---
 python/paramgrid/jobqueue.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 4598c36..e006653 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -302,9 +302,11 @@ def submitJob(jobName, paramFiles, sequential=False, msg=False, **kwargs):
         script = replacePlaceholders(template, vals)
         scriptRoot = './scripts/' + jobName
         scriptName = scriptRoot + '_subscript'
-        open(scriptName, 'w').write(script)
+        with open(scriptName, 'w') as out:
+            out.write(script)
         if len(paramFiles) > 1:
-            open(scriptRoot + '.batch', 'w').write("\n".join(paramFiles))
+            with open(scriptRoot + '.batch', 'w') as out:
+                out.write("\n".join(paramFiles))
         if not kwargs.get('no_sub', False):
             res = subprocess.check_output(replacePlaceholders(j.qsub, vals) + ' ' + scriptName, shell=True,
                                           universal_newlines=True).strip()
@@ -317,8 +319,9 @@ def submitJob(jobName, paramFiles, sequential=False, msg=False, **kwargs):
                     res = m.group(1)
                 j.jobId = res
                 j.subTime = time.time()
-                open(scriptRoot + '.sub', 'w').write(res)
                 addJobIndex(kwargs.get('batchPath'), j)
+                with open(scriptRoot + '.sub', 'w') as out:
+                    out.write(res)
 
 
 def queue_job_details(batchPath=None, running=True, queued=True, warnNotBatch=True):
-- 
2.43.0


From 0691c6a5edf7e6ba97c52067966641dbf5685778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:39 +0000
Subject: [PATCH 06/80] fix: lock the job index while changing it, so
 concurrent commands do not lose job records

---
 python/paramgrid/jobqueue.py | 61 ++++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 13 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index e006653..49ae8df 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -11,6 +11,11 @@ import multiprocessing
 from distutils import spawn
 import six
 
+try:
+    import fcntl
+except ImportError:
+    fcntl = None
+
 
 def addArguments(parser, combinedJobs=False):
     parser.add_argument('--nodes', type=int)
@@ -157,6 +162,28 @@ class jobIndex(object):
                 self.jobSequence = [s for s in self.jobSequence if s != jobId]
 
 
+class jobIndexLock(object):
+    """
+    Hold this while reading, changing and saving the index, so that changes by other commands are not lost
+    """
+
+    def __init__(self, batchPath):
+        self.fileName = os.path.join(batchPath, 'jobIndex.lock')
+
+    def __enter__(self):
+        self.lockFile = None
+        if fcntl is not None:
+            self.lockFile = open(self.fileName, 'a')
+            try:
+                fcntl.flock(self.lockFile, fcntl.LOCK_EX)
+            except (IOError, OSError) as e:
+                print('Cannot lock job index: %s' % e)  # e.g. file system does not support it
+        return self
+
+    def __exit__(self, *args):
+        if self.lockFile is not None: self.lockFile.close()
+
+
 def loadJobIndex(batchPath, must_exist=False):
     if batchPath is None: batchPath = './scripts/'
     fileName = os.path.join(batchPath, 'jobIndex.pyobj')
@@ -179,21 +206,23 @@ def saveJobIndex(obj, batchPath=None):
 
 def addJobIndex(batchPath, j):
     if batchPath is None: batchPath = './scripts/'
-    index = loadJobIndex(batchPath)
-    index.addJob(j)
-    saveJobIndex(index, batchPath)
+    with jobIndexLock(batchPath):
+        index = loadJobIndex(batchPath)
+        index.addJob(j)
+        saveJobIndex(index, batchPath)
 
 
 def deleteJobNames(batchPath, jobNames):
     if batchPath is None: batchPath = './scripts/'
-    index = loadJobIndex(batchPath)
-    if not index:
-        raise Exception('No existing job index found')
-    if isinstance(jobNames, six.string_types): jobNames = [jobNames]
-    for name in jobNames:
-        jobId = index.jobNames.get(name)
-        index.delId(jobId)
-    saveJobIndex(index, batchPath)
+    with jobIndexLock(batchPath):
+        index = loadJobIndex(batchPath)
+        if not index:
+            raise Exception('No existing job index found')
+        if isinstance(jobNames, six.string_types): jobNames = [jobNames]
+        for name in jobNames:
+            jobId = index.jobNames.get(name)
+            index.delId(jobId)
+        saveJobIndex(index, batchPath)
 
 
 def deleteRootNames(batchPath, rootNames):
@@ -230,6 +259,7 @@ def deleteJobs(batchPath, jobIds=None, rootNames=None, jobNames=None, jobId_minm
                 jobIds.append(jobIdStr)
 
     validIds = queue_job_details(batchPath, running=not queued, queued=not running)[0]
+    removeIds = []
     for jobId in jobIds:
         j = index.jobSettings.get(jobId)
         if j is not None:
@@ -241,11 +271,16 @@ def deleteJobs(batchPath, jobIds=None, rootNames=None, jobNames=None, jobId_minm
                     else:
                         qdel = 'qdel'
                     subprocess.check_output(qdel + ' ' + str(jobId), shell=True)
-                index.delId(jobId)
+                removeIds.append(jobId)
             elif jobId in validIds:
                 print('...', j.jobName, jobId)
 
-    if confirm: saveJobIndex(index, batchPath)
+    if confirm:
+        with jobIndexLock(batchPath):
+            index = loadJobIndex(batchPath)  # may have changed since loaded above
+            for jobId in removeIds:
+                index.delId(jobId)
+            saveJobIndex(index, batchPath)
     return jobIds
 
 
-- 
2.43.0


From 057170a726f826b16be55d0a2751b818577655bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:52 +0000
Subject: [PATCH 07/80] fix: deleteJobs deletes the selected jobs only, and all
 of them

---
 python/deleteJobs.py         | 11 ++++++-----
 python/paramgrid/jobqueue.py | 32 ++++++++++++++++++++------------
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/python/deleteJobs.py b/python/deleteJobs.py
index 4629ade..81eae3b 100644
--- a/python/deleteJobs.py
+++ b/python/deleteJobs.py
@@ -18,16 +18,17 @@ Opts.parser.add_argument('--confirm', action='store_true')
 
 
 if batch:
+    opts = {'confirm': args.confirm, 'running': args.running, 'queued': args.queued}
     if args.delete_id_range is not None:
-        jobqueue.deleteJobs(args.batchPath, jobId_minmax=args.delete_id_range, confirm=args.confirm)
-    if args.delete_id_min is not None:
-        jobqueue.deleteJobs(args.batchPath, jobId_min=args.delete_id_min, confirm=args.confirm)
+        jobqueue.deleteJobs(args.batchPath, jobId_minmax=args.delete_id_range, **opts)
+    elif args.delete_id_min is not None:
+        jobqueue.deleteJobs(args.batchPath, jobId_min=args.delete_id_min, **opts)
     elif args.delete_ids is not None:
-        jobqueue.deleteJobs(args.batchPath, args.delete_ids, confirm=args.confirm)
+        jobqueue.deleteJobs(args.batchPath, args.delete_ids, **opts)
     else:
         items = [jobItem for jobItem in Opts.filteredBatchItems()]
         batchNames = set([jobItem.name for jobItem in items] + [jobItem.name + '_minimize' for jobItem in items])
-        jobqueue.deleteJobs(args.batchPath, rootNames=batchNames, confirm=args.confirm)
+        jobqueue.deleteJobs(args.batchPath, rootNames=batchNames, **opts)
 
     if not args.confirm: print('jobs not actually deleted: add --confirm to really cancel them')
 
diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 49ae8df..3c451df 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -229,6 +229,14 @@ def deleteRootNames(batchPath, rootNames):
     deleteJobs(batchPath, rootNames=rootNames)
 
 
+def jobIdNumber(jobId):
+    parts = jobId.split('.')
+    if len(parts) == 1 or parts[0].isdigit():
+        return int(parts[0])
+    else:
+        return int(parts[1])
+
+
 def deleteJobs(batchPath, jobIds=None, rootNames=None, jobNames=None, jobId_minmax=None, jobId_min=None, confirm=True,
                running=False, queued=False):
     if batchPath is None: batchPath = './scripts/'
@@ -236,29 +244,27 @@ def deleteJobs(batchPath, jobIds=None, rootNames=None, jobNames=None, jobId_minm
     if not index:
         raise Exception('No existing job index found')
     if jobIds is None: jobIds = []
-    if isinstance(jobIds, six.string_types): jobIds = [jobIds]
+    if isinstance(jobIds, (six.string_types, int)): jobIds = [jobIds]
+    wantedIds = [str(jobId) for jobId in jobIds]
+    jobIds = [jobId for jobId in index.jobSettings
+              if wantedIds and (jobId in wantedIds or str(jobIdNumber(jobId)) in wantedIds)]
     if rootNames is not None:
         if isinstance(rootNames, six.string_types): rootNames = [rootNames]
-        for name in rootNames:
-            jobId = index.rootNames.get(name)
-            if not jobId in jobIds: jobIds.append(jobId)
+        for jobId, j in list(index.jobSettings.items()):
+            if set(j.names).intersection(rootNames) and not jobId in jobIds: jobIds.append(jobId)
     if jobNames is not None:
         if isinstance(jobNames, six.string_types): jobNames = [jobNames]
-        for name in jobNames:
-            jobId = index.jobNames.get(name)
-            if not jobId in jobIds: jobIds.append(jobId)
+        for jobId, j in list(index.jobSettings.items()):
+            if j.jobName in jobNames and not jobId in jobIds: jobIds.append(jobId)
     if jobId_minmax is not None or jobId_min is not None:
         for jobIdStr, j in list(index.jobSettings.items()):
-            parts = jobIdStr.split('.')
-            if len(parts) == 1 or parts[0].isdigit():
-                jobId = int(parts[0])
-            else:
-                jobId = int(parts[1])
+            jobId = jobIdNumber(jobIdStr)
             if (jobId_minmax is not None and (jobId_minmax[0] <= jobId <= jobId_minmax[1]) or
                 jobId_min is not None and jobId >= jobId_min) and not jobIdStr in jobIds:
                 jobIds.append(jobIdStr)
 
     validIds = queue_job_details(batchPath, running=not queued, queued=not running)[0]
+    liveIds = queue_job_details(batchPath, warnNotBatch=False)[0] if queued or running else validIds
     removeIds = []
     for jobId in jobIds:
         j = index.jobSettings.get(jobId)
@@ -271,6 +277,8 @@ def deleteJobs(batchPath, jobIds=None, rootNames=None, jobNames=None, jobId_minm
                     else:
                         qdel = 'qdel'
                     subprocess.check_output(qdel + ' ' + str(jobId), shell=True)
+                elif jobId in liveIds:
+                    continue
                 removeIds.append(jobId)
             elif jobId in validIds:
                 print('...', j.jobName, jobId)
-- 
2.43.0


From aefe1d0449f91a63c70c2cc8b312961f1a5d4226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:31 +0000
Subject: [PATCH 08/80] fix: job name of many combined runs in Python 3

---
 python/runbatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/runbatch.py b/python/runbatch.py
index 6b2213d..effe07f 100644
--- a/python/runbatch.py
+++ b/python/runbatch.py
@@ -74,7 +74,7 @@ def jobName():
     if len(iniFiles) < 2 or len(s) < 70: return s
     base = os.path.basename(iniFiles[0])
     if len(base) > 70: base = base[:70]
-    return base + '__' + hashlib.md5(s).hexdigest()[:16]
+    return base + '__' + hashlib.md5(s.encode('utf-8')).hexdigest()[:16]
 
 
 def submitJob(ini):
-- 
2.43.0


From c2cb5ebbc956e0ba841ea5410b6dedfaccd07c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:31 +0000
Subject: [PATCH 09/80] fix: --not_queued with --importance_minimize looks for
 the queued minimization

---
 python/runbatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/runbatch.py b/python/runbatch.py
index effe07f..a0d347a 100644
--- a/python/runbatch.py
+++ b/python/runbatch.py
@@ -37,7 +37,7 @@ if args.not_queued:
 
 
 def notQueued(name):
-    if args.minimize: name += '_minimize'
+    if isMinimize: name += '_minimize'
     return not name in queued
 
 
-- 
2.43.0


From dcd8f0358448040c4c8c5b4183eccb684bf8914f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:29 +0000
Subject: [PATCH 10/80] fix: recognise this batch's jobs when the queue listing
 cuts their ids short

---
 python/paramgrid/jobqueue.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 3c451df..3fc45d3 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -229,12 +229,13 @@ def deleteRootNames(batchPath, rootNames):
     deleteJobs(batchPath, rootNames=rootNames)
 
 
-def jobIdNumber(jobId):
+def jobNumber(jobId):
+    # ids can be number, number.server or server.number
     parts = jobId.split('.')
     if len(parts) == 1 or parts[0].isdigit():
-        return int(parts[0])
+        return parts[0]
     else:
-        return int(parts[1])
+        return parts[1]
 
 
 def deleteJobs(batchPath, jobIds=None, rootNames=None, jobNames=None, jobId_minmax=None, jobId_min=None, confirm=True,
@@ -247,7 +248,7 @@ def deleteJobs(batchPath, jobIds=None, rootNames=None, jobNames=None, jobId_minm
     if isinstance(jobIds, (six.string_types, int)): jobIds = [jobIds]
     wantedIds = [str(jobId) for jobId in jobIds]
     jobIds = [jobId for jobId in index.jobSettings
-              if wantedIds and (jobId in wantedIds or str(jobIdNumber(jobId)) in wantedIds)]
+              if wantedIds and (jobId in wantedIds or jobNumber(jobId) in wantedIds)]
     if rootNames is not None:
         if isinstance(rootNames, six.string_types): rootNames = [rootNames]
         for jobId, j in list(index.jobSettings.items()):
@@ -258,7 +259,7 @@ def deleteJobs(batchPath, jobIds=None, rootNames=None, jobNames=None, jobId_minm
             if j.jobName in jobNames and not jobId in jobIds: jobIds.append(jobId)
     if jobId_minmax is not None or jobId_min is not None:
         for jobIdStr, j in list(index.jobSettings.items()):
-            jobId = jobIdNumber(jobIdStr)
+            jobId = int(jobNumber(jobIdStr))
             if (jobId_minmax is not None and (jobId_minmax[0] <= jobId <= jobId_minmax[1]) or
                 jobId_min is not None and jobId >= jobId_min) and not jobIdStr in jobIds:
                 jobIds.append(jobIdStr)
@@ -394,12 +395,13 @@ def queue_job_details(batchPath=None, running=True, queued=True, warnNotBatch=Tr
             jobId = items[0]
             j = index.jobSettings.get(jobId)
             if j is None:
-                jobId = items[0].split('.')
-                if jobId[0].upper() == 'TOTAL': continue
-                if len(jobId) == 1 or jobId[0].isdigit():
-                    jobId = jobId[0]
-                else:
-                    jobId = jobId[1]
+                if items[0].split('.')[0].upper() == 'TOTAL': continue
+                jobId = jobNumber(items[0])
+                # listing can give just the number, or cut short a long id
+                for indexId in index.jobSettings:
+                    if jobNumber(indexId) == jobId:
+                        jobId = indexId
+                        break
                 j = index.jobSettings.get(jobId)
             if j is None:
                 if warnNotBatch: print('...Job ' + jobId + ' not in this batch, skipping')
-- 
2.43.0


From eccc4854e6b8d940bdcb22c379a1a10bc1dc7e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:34 +0000
Subject: [PATCH 11/80] fix: chainNames for a given number of chains counts
 from 1

---
 python/paramgrid/batchjob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index a9542ba..cc3012f 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -337,7 +337,7 @@ class jobItem(propertiesItem):
 
     def chainNames(self, num_chains=None):
         if num_chains:
-            return [self.chainName(i) for i in range(num_chains)]
+            return [self.chainName(i + 1) for i in range(num_chains)]
         else:
             i = 1
             chains = []
-- 
2.43.0


From 598c7182683ee4399e71301286a682fd3cde3022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:34 +0000
Subject: [PATCH 12/80] fix: decide from all of a run's chains whether it is
 running or has changed

---
 python/paramgrid/batchjob.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index cc3012f..672145f 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -352,6 +352,9 @@ class jobItem(propertiesItem):
     def chainFileDate(self, chain=1):
         return os.path.getmtime(self.chainName(chain))
 
+    def chainFileDates(self):
+        return [os.path.getmtime(fname) for fname in self.chainNames()]
+
     def chainsDodgy(self, interval=600):
         dates = []
         i = 1
@@ -362,7 +365,7 @@ class jobItem(propertiesItem):
 
     def notRunning(self):
         if not self.chainExists(): return False  # might be in queue
-        lastWrite = self.chainFileDate()
+        lastWrite = max(self.chainFileDates())
         return lastWrite < time.time() - 5 * 60
 
     def chainMinimumExists(self):
@@ -408,10 +411,10 @@ class jobItem(propertiesItem):
 
     def getDistNeedsUpdate(self):
         return self.chainExists() and (
-                not self.getDistExists() or self.chainFileDate() > os.path.getmtime(self.distRoot + '.margestats'))
+                not self.getDistExists() or max(self.chainFileDates()) > os.path.getmtime(self.distRoot + '.margestats'))
 
     def parentChanged(self):
-        return not self.chainExists() or self.chainFileDate() < self.parent.chainFileDate()
+        return not self.chainExists() or min(self.chainFileDates()) < max(self.parent.chainFileDates())
 
     def R(self):
         if self.result_converge is None:
-- 
2.43.0


From a43a1c73534f6b078b1df96734ccf64fcf20d78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:19 +0000
Subject: [PATCH 13/80] fix: convergence file found empty while the sampler
 rewrites it

---
 python/paramgrid/batchjob.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index 672145f..78f6d32 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -389,6 +389,7 @@ class jobItem(propertiesItem):
         textFileHandle = open(fname)
         textFileLines = textFileHandle.readlines()
         textFileHandle.close()
+        if not textFileLines: return None, None  # just being rewritten
         return float(textFileLines[0].strip()), len(textFileLines) > 1 and textFileLines[1].strip() == 'Done'
 
     def chainFinished(self):
-- 
2.43.0


From e2616083ed8e7335f98f3064f9eb3674aa3808e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:15 +0000
Subject: [PATCH 14/80] fix: --base_ini given relative to the current directory
 is found by the analyses

---
 python/runGridGetdist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/runGridGetdist.py b/python/runGridGetdist.py
index 1a78c2d..206868b 100644
--- a/python/runGridGetdist.py
+++ b/python/runGridGetdist.py
@@ -69,7 +69,7 @@ for jobItem in Opts.filteredBatchItems():
     elif os.path.exists(custom_plot):
         ini.includes.append(custom_plot)
     if os.path.exists(args.base_ini):
-        ini.defaults.append(args.base_ini)
+        ini.defaults.append(os.path.abspath(args.base_ini))
     elif os.path.exists(batch.commonPath + args.base_ini):
         ini.defaults.append(batch.commonPath + args.base_ini)
     else:
-- 
2.43.0


From 3629806b7330d01935c3f76212f54dd9f5acbbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:36 +0000
Subject: [PATCH 15/80] fix: copyGridFiles reports failed writes of chains with
 burn-in removed

---
 python/copyGridFiles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/copyGridFiles.py b/python/copyGridFiles.py
index 909466d..0e031bb 100644
--- a/python/copyGridFiles.py
+++ b/python/copyGridFiles.py
@@ -79,7 +79,8 @@ def doCopy(source, dest, f, hasBurn=False):
                 zipper.write(source + f, destf)
         else:
             if lines:
-                open(target_dir + destf, 'w').writelines(lines)
+                with open(target_dir + destf, 'w') as out:
+                    out.writelines(lines)
             else:
                 if args.sym_link:
                     if os.path.islink(target_dir + destf): os.unlink(target_dir + destf)
-- 
2.43.0


From 63f2e73f2ffb6a2ed1574070adffce928fd17d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:36 +0000
Subject: [PATCH 16/80] fix: copyGridFiles --dryrun leaves an existing target
 as it is

---
 python/copyGridFiles.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/copyGridFiles.py b/python/copyGridFiles.py
index 0e031bb..166d227 100644
--- a/python/copyGridFiles.py
+++ b/python/copyGridFiles.py
@@ -39,13 +39,14 @@ if args.max_age_days:
 
 sizeMB = 0
 
+zipper = None
 if args.zip:
-    zipper = zipfile.ZipFile(args.target_dir, 'w', compression=zipfile.ZIP_DEFLATED, allowZip64=True)
+    if not args.dryrun:
+        zipper = zipfile.ZipFile(args.target_dir, 'w', compression=zipfile.ZIP_DEFLATED, allowZip64=True)
     target_dir = None
 else:
-    zipper = None
     target_dir = os.path.abspath(args.target_dir) + os.sep
-    batchjob.makePath(target_dir)
+    if not args.dryrun: batchjob.makePath(target_dir)
 
 if args.sym_link and (args.remove_burn_fraction or args.zip): raise Exception('option not compatible with --sym_link')
 
@@ -114,7 +115,7 @@ for jobItem in Opts.filteredBatchItems():
         distfiles = 0
         doneProperties = False
         outdir = jobItem.relativePath
-        if not args.zip: batchjob.makePath(target_dir + outdir)
+        if not args.dryrun and not args.zip: batchjob.makePath(target_dir + outdir)
         if args.chains and jobItem.chainExists() and (not args.max_age_days or datetime.fromtimestamp(jobItem.chainFileDate()) > max_age):
             i = 1
             while os.path.exists(jobItem.chainRoot + '_%d.txt' % i):
@@ -137,7 +138,7 @@ for jobItem in Opts.filteredBatchItems():
                     doCopy(jobItem.chainPath, outdir, f)
         if args.dist and os.path.exists(jobItem.distPath):
             outdir += 'dist' + os.sep
-            if not args.zip: batchjob.makePath(target_dir + outdir)
+            if not args.dryrun and not args.zip: batchjob.makePath(target_dir + outdir)
             for f in os.listdir(jobItem.distPath):
                 if fileMatches(f, jobItem.name) and (not args.max_age_days or
                                                      datetime.fromtimestamp(
-- 
2.43.0


From 24cf77cf3b98af50b11c0c800c8a715e68afb75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:36 +0000
Subject: [PATCH 17/80] fix: copyGridFiles works when python has left a cache
 directory in config

---
 python/copyGridFiles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/copyGridFiles.py b/python/copyGridFiles.py
index 166d227..0fe4569 100644
--- a/python/copyGridFiles.py
+++ b/python/copyGridFiles.py
@@ -105,7 +105,8 @@ if not args.no_config:
     config_path = os.path.join(batch.batchPath, 'config/')
     if not args.dryrun and not args.zip: batchjob.makePath(target_dir + 'config')
     for f in os.listdir(config_path):
-        doCopy(config_path, 'config/', f)
+        if os.path.isfile(config_path + f):  # not __pycache__
+            doCopy(config_path, 'config/', f)
 
 for jobItem in Opts.filteredBatchItems():
     if args.converge == 0 or jobItem.hasConvergeBetterThan(args.converge):
-- 
2.43.0


From bc3384fe4c621b7e58d34bca6b2b933c6d5e4544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:36 +0000
Subject: [PATCH 18/80] fix: renameParam updates best-fit files, and keeps the
 original if writing fails

---
 python/renameParam.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/python/renameParam.py b/python/renameParam.py
index 6214da6..9f37204 100644
--- a/python/renameParam.py
+++ b/python/renameParam.py
@@ -34,6 +34,12 @@ if args.old_new:
         mapper[old] = (new, None)
 
 
+def replaceFile(fname, save):
+    # original is kept until the new file is complete
+    save(fname + '_tmp')
+    os.replace(fname + '_tmp', fname)
+
+
 for jobItem in Opts.filteredBatchItems():
     name = jobItem.chainRoot + '.paramnames'
     if os.path.exists(name):
@@ -54,7 +60,7 @@ for jobItem in Opts.filteredBatchItems():
                     p.label = plab.label
         if has:
             print(jobItem.chainRoot)
-            if args.confirm: names.saveAsText(name)
+            if args.confirm: replaceFile(name, names.saveAsText)
         bestfit = jobItem.chainRoot + '.minimum'
         if os.path.exists(bestfit):
             lines = open(bestfit).readlines()
@@ -87,7 +93,12 @@ for jobItem in Opts.filteredBatchItems():
                 lines[i] = "".join(items) + "\n"
             if has:
                 print(bestfit)
-                if args.confirm: open(bestfit).write("".join(lines))
+                if args.confirm:
+                    def saveLines(fname):
+                        with open(fname, 'w') as out:
+                            out.write("".join(lines))
+
+                    replaceFile(bestfit, saveLines)
 
 if args.confirm:
     print('Done. Re-run getdist to update getdist outputs.')
-- 
2.43.0


From 00fa2de46b9e6fc90abdbd4f4bfba4aae94107d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:36 +0000
Subject: [PATCH 19/80] fix: renameParam keeps name and label apart in best-fit
 files, and labels renamed parameters there too

---
 python/renameParam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/renameParam.py b/python/renameParam.py
index 9f37204..b28c142 100644
--- a/python/renameParam.py
+++ b/python/renameParam.py
@@ -77,8 +77,9 @@ for jobItem in Opts.filteredBatchItems():
                 if new:
                     newname, lab = new
                     items[5] = newname
-                    items[6] = ' ' * (len(items[6]) + len(name) - len(newname))
+                    items[6] = ' ' * max(1, len(items[6]) + len(name) - len(newname))
                     has = has or newname != name
+                    name = newname
                 if labels:
                     plab = labels.parWithName(name)
                     if plab: lab = plab.label
-- 
2.43.0


From 3ee2fd1b2cacdacf9cf42304bcfa79cb72de75ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:06 +0000
Subject: [PATCH 20/80] fix: cleanup leaves runs whose names extend a selected
 run's name

---
 python/cleanup.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/cleanup.py b/python/cleanup.py
index d5af6a4..a5334e0 100644
--- a/python/cleanup.py
+++ b/python/cleanup.py
@@ -29,14 +29,22 @@ if args.chainnum is not None:
     args.ext = ['_' + args.chainnum + '.' + ext for ext in args.ext]
 else: args.ext = ['.' + ext for ext in args.ext] + ['_*.' + ext for ext in args.ext]
 
+def otherRuns(jobItem):
+    # runs in the same directory with longer names, other than importance runs of this one
+    return [x.name for x in batch.items(wantImportance=True) if x.chainPath == jobItem.chainPath
+            and x.name.startswith(jobItem.name + '_') and x not in jobItem.importanceJobsRecursive()]
+
+
 for jobItem in Opts.filteredBatchItems():
     if (args.converge == 0 or not jobItem.hasConvergeBetterThan(args.converge, returnNotExist=True)) and os.path.exists(jobItem.chainPath):
         dirs = [jobItem.chainPath]
         if args.dist: dirs = []
         if os.path.exists(jobItem.distPath): dirs += [jobItem.distPath]
+        others = otherRuns(jobItem)
         for adir in dirs:
             files = sorted(os.listdir(adir))
             for f in files:
+                if any(f.startswith((x + '.', x + '_')) for x in others): continue
                 for ext in args.ext:
                     if fnmatch.fnmatch(f, jobItem.name + ext):
                         fname = adir + f
-- 
2.43.0


From 6bd5e89e146339429fedcc6de842015b7272fdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:48 +0000
Subject: [PATCH 21/80] fix: rebuilding a grid keeps config.ini if writing it
 fails

---
 python/paramgrid/batchjob.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index 78f6d32..e802f18 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -560,6 +560,7 @@ class batchJob(propertiesItem):
             shutil.copy(setting_file, self.batchPath + 'config')
             props = self.propertiesIni()
             props.params['setting_file'] = os.path.split(setting_file)[-1]
-            props.saveFile()
+            props.saveFile(self.propertiesIniFile() + '_tmp')
+            os.replace(self.propertiesIniFile() + '_tmp', self.propertiesIniFile())
         makePath(self.batchPath + 'iniFiles')
         makePath(self.batchPath + 'postIniFiles')
-- 
2.43.0


From 259aa9b0c5e9e47045bc2693d3644deeb7501370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:48 +0000
Subject: [PATCH 22/80] fix: a failed save of a grid description keeps the one
 stored before

---
 python/paramgrid/batchjob.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index e802f18..a50d290 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -58,8 +58,9 @@ def readobject(directory=None):
 
 
 def saveobject(obj, filename):
-    with open(filename, 'wb') as output:
+    with open(filename + '_tmp', 'wb') as output:
         pickle.dump(obj, output, pickle.HIGHEST_PROTOCOL)
+    os.replace(filename + '_tmp', filename)
 
 
 def makePath(s):
-- 
2.43.0


From 21624d52c32faa7d7aab043fea43de694a22c153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:02 +0000
Subject: [PATCH 23/80] fix: rebuilding a grid description uses this grid's
 settings, not another grid's of the same name

---
 python/paramgrid/gridconfig.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/paramgrid/gridconfig.py b/python/paramgrid/gridconfig.py
index a76490b..56918ec 100644
--- a/python/paramgrid/gridconfig.py
+++ b/python/paramgrid/gridconfig.py
@@ -84,7 +84,9 @@ def makeGrid(batchPath, settingName=None, settings=None, readOnly=False, interac
             readOnly = True
             sys.path.insert(0, batchPath + 'config')
             sys.modules['batchJob'] = batchjob  # old name
-            settings = __import__(IniFile(batchPath + 'config/config.ini').params['setting_file'].replace('.py', ''))
+            settingName = IniFile(batchPath + 'config/config.ini').params['setting_file'].replace('.py', '')
+            sys.modules.pop(settingName, None)  # may be another grid's settings with the same name
+            settings = __import__(settingName)
         else:
             settings = __import__(settingName, fromlist=['dummy'])
 
-- 
2.43.0


From 6d8c45b8ef772972a3853527cfca1a5352322e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:57 +0000
Subject: [PATCH 24/80] fix: rebuilding a grid never leaves a half-written
 settings file in its config, nor do two processes saving its description
 collide

---
 python/paramgrid/batchjob.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index a50d290..2bc527c 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -58,9 +58,10 @@ def readobject(directory=None):
 
 
 def saveobject(obj, filename):
-    with open(filename + '_tmp', 'wb') as output:
+    tmp = '%s_tmp%u' % (filename, os.getpid())
+    with open(tmp, 'wb') as output:
         pickle.dump(obj, output, pickle.HIGHEST_PROTOCOL)
-    os.replace(filename + '_tmp', filename)
+    os.replace(tmp, filename)
 
 
 def makePath(s):
@@ -558,7 +559,9 @@ class batchJob(propertiesItem):
         if setting_file:
             makePath(self.batchPath + 'config')
             setting_file = setting_file.replace('.pyc', '.py')
-            shutil.copy(setting_file, self.batchPath + 'config')
+            target = os.path.join(self.batchPath, 'config', os.path.split(setting_file)[-1])
+            shutil.copy(setting_file, target + '_tmp')
+            os.replace(target + '_tmp', target)
             props = self.propertiesIni()
             props.params['setting_file'] = os.path.split(setting_file)[-1]
             props.saveFile(self.propertiesIniFile() + '_tmp')
-- 
2.43.0


From 497ded3080fbf358602ee2677ad24e5daa4dc359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:17 +0000
Subject: [PATCH 25/80] fix: copyGridFiles onto an earlier --sym_link copy does
 not write through the links into the original chains

---
 python/copyGridFiles.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/copyGridFiles.py b/python/copyGridFiles.py
index 0fe4569..3126dbc 100644
--- a/python/copyGridFiles.py
+++ b/python/copyGridFiles.py
@@ -79,12 +79,13 @@ def doCopy(source, dest, f, hasBurn=False):
             else:
                 zipper.write(source + f, destf)
         else:
+            # earlier --sym_link copy; don't write through to the original
+            if os.path.islink(target_dir + destf): os.unlink(target_dir + destf)
             if lines:
                 with open(target_dir + destf, 'w') as out:
                     out.writelines(lines)
             else:
                 if args.sym_link:
-                    if os.path.islink(target_dir + destf): os.unlink(target_dir + destf)
                     os.symlink(os.path.realpath(source + f), target_dir + destf)
                 else:
                     shutil.copyfile(source + f, target_dir + destf)
@@ -98,6 +99,7 @@ def writeIni(iniName, props):
     if args.zip:
         zipper.writestr(outdir + iniName, "\n".join(props.fileLines()))
     else:
+        if os.path.islink(target_dir + outdir + iniName): os.unlink(target_dir + outdir + iniName)
         props.saveFile(target_dir + outdir + iniName)
 
 
-- 
2.43.0


From 2713281fe21bbc415205af75530053a02b3ea7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:42 +0000
Subject: [PATCH 26/80] fix: copyGridFiles refuses to copy a grid onto itself
 (burn-in removal would cut the original chains)

---
 python/copyGridFiles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/copyGridFiles.py b/python/copyGridFiles.py
index 3126dbc..a714719 100644
--- a/python/copyGridFiles.py
+++ b/python/copyGridFiles.py
@@ -46,6 +46,7 @@ if args.zip:
     target_dir = None
 else:
     target_dir = os.path.abspath(args.target_dir) + os.sep
+    if os.path.realpath(target_dir) == os.path.realpath(batch.batchPath): raise Exception('target_dir is the grid itself')
     if not args.dryrun: batchjob.makePath(target_dir)
 
 if args.sym_link and (args.remove_burn_fraction or args.zip): raise Exception('option not compatible with --sym_link')
-- 
2.43.0


From 0e31966f5ece6909023fb246abc6da9250c888c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:15 +0000
Subject: [PATCH 27/80] fix: cached samples are used only if the files and
 settings they came from are the current ones, whatever other processes do to
 the cache

---
 python/getdist/mcsamples.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 78da13a..bf9d455 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -73,7 +73,6 @@ def loadMCSamples(file_root: str, ini: Union[None, str, IniFile] = None,
     if not os.path.exists(path):
         os.mkdir(path)
     cachefile = os.path.join(path, cache_name) + '.py_mcsamples'
-    samples = MCSamples(file_root, jobItem=jobItem, ini=ini, settings=settings)
     if os.path.isfile(file_root + '.paramnames'):
         allfiles = files + [file_root + '.ranges', file_root + '.paramnames', file_root + '.properties.ini']
     else:  # Cobaya
@@ -83,15 +82,22 @@ def loadMCSamples(file_root: str, ini: Union[None, str, IniFile] = None,
             os.path.join(folder, f) for f in os.listdir(folder) if (
                     f.startswith(prefix) and
                     any(f.lower().endswith(end) for end in ['updated.yaml', 'full.yaml']))]
-    if not no_cache and os.path.exists(cachefile) and last_modified(allfiles) < os.path.getmtime(cachefile):
+    # state of the files before anything is read from them, so that any later change is noticed
+    used_files = set(allfiles + [file_root + ext for ext in ('.ranges', '.paramnames', '.properties.ini',
+                                                            '.updated.yaml', '__full.yaml')])
+    file_states = [(f, os.path.getsize(f), os.path.getmtime(f)) for f in sorted(used_files) if os.path.exists(f)]
+    samples = MCSamples(file_root, jobItem=jobItem, ini=ini, settings=settings)
+    # a cached result can only be used if it came from the same files with the same settings
+    samples.cache_key = (file_states, dict(samples.ini.params), samples.batch_path,
+                         getattr(jobItem, 'isImportanceJob', None))
+    if not no_cache and os.path.exists(cachefile):
         try:
             with open(cachefile, 'rb') as inp:
                 cache = pickle.load(inp)
-            if cache.version == pickle_version and samples.ignore_rows == cache.ignore_rows \
-                    and samples.min_weight_ratio == cache.min_weight_ratio:
-                changed = len(samples.contours) != len(cache.contours) or \
-                          np.any(np.array(samples.contours) != np.array(cache.contours))
-                cache.updateSettings(ini=ini, settings=settings, doUpdate=changed)
+            if last_modified(allfiles) < os.path.getmtime(cachefile) \
+                    and cache.version == pickle_version and samples.ignore_rows == cache.ignore_rows \
+                    and samples.min_weight_ratio == cache.min_weight_ratio and samples.cache_key == cache.cache_key:
+                cache.jobItem = jobItem
                 return cache
         except Exception:
             pass
@@ -99,10 +105,20 @@ def loadMCSamples(file_root: str, ini: Union[None, str, IniFile] = None,
         raise IOError('No chains found: ' + file_root)
     samples.readChains(files)
     if no_cache:
-        if os.path.exists(cachefile):
+        try:
             os.remove(cachefile)
+        except FileNotFoundError:
+            pass
     else:
-        samples.savePickle(cachefile)
+        # other processes may be loading or storing the same samples
+        tmpfile = '%s.%s' % (cachefile, os.getpid())
+        try:
+            samples.savePickle(tmpfile)
+            os.replace(tmpfile, cachefile)
+        except BaseException:
+            if os.path.exists(tmpfile):
+                os.remove(tmpfile)
+            raise
     return samples
 
 
-- 
2.43.0


From 7114ca8a5f6c8b89e192d48fa97349d09262f45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:16 +0000
Subject: [PATCH 28/80] fix: chains in the current directory can be loaded by
 name

---
 python/getdist/chains.py    | 2 +-
 python/getdist/mcsamples.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 1a8507c..66a439c 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -98,7 +98,7 @@ def chainFiles(root, chain_indices=None, ext='.txt', separator="_",
         basename = os.path.basename(root)
         reg_exp = re.compile(re.escape(basename) + '(' + re.escape(separator) + '(?P<num>[0-9]+))?' + re.escape(ext))
     files = []
-    for f in os.listdir(folder):
+    for f in os.listdir(folder or '.'):
         match = reg_exp.fullmatch(f)
         if match:
             index = int(match.group("num") or 0)
diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index bf9d455..f2768f2 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -70,7 +70,7 @@ def loadMCSamples(file_root: str, ini: Union[None, str, IniFile] = None,
         path = cache_dir
     else:
         cache_name = name
-    if not os.path.exists(path):
+    if path and not os.path.exists(path):
         os.mkdir(path)
     cachefile = os.path.join(path, cache_name) + '.py_mcsamples'
     if os.path.isfile(file_root + '.paramnames'):
@@ -79,7 +79,7 @@ def loadMCSamples(file_root: str, ini: Union[None, str, IniFile] = None,
         folder = os.path.dirname(file_root)
         prefix = os.path.basename(file_root)
         allfiles = files + [
-            os.path.join(folder, f) for f in os.listdir(folder) if (
+            os.path.join(folder, f) for f in os.listdir(folder or '.') if (
                     f.startswith(prefix) and
                     any(f.lower().endswith(end) for end in ['updated.yaml', 'full.yaml']))]
     # state of the files before anything is read from them, so that any later change is noticed
-- 
2.43.0


From 6ed760b65384f0cfd78600a964f79dc294fdda20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:03 +0000
Subject: [PATCH 29/80] fix: a line that is still being written is not read as
 samples, nor are lines with missing values, and files without rows yet are
 skipped

---
 python/getdist/chains.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 66a439c..fdefda6 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1,3 +1,4 @@
+import io
 import os
 import numpy as np
 import re
@@ -125,16 +126,27 @@ def loadNumpyTxt(fname, skiprows=None):
     :param skiprows: The number of rows to skip at the begging of the file
     :return: numpy array of the data values
     """
+    with open(fname, 'rb') as f:
+        text = f.read()
+    # the last line may still be being written, so only use it once it is ended
+    text = text[:text.rfind(b'\n') + 1]
+    if not any(line.split(b'#')[0].strip() for line in text.split(b'\n')[int(skiprows or 0):]):
+        return np.empty((0, 0))
     try:
         if pandas:
-            return pandas.read_csv(fname, delim_whitespace=True, header=None, dtype=np.float64,
-                                   skiprows=skiprows, comment='#').values
+            values = pandas.read_csv(io.BytesIO(text), delim_whitespace=True, header=None, dtype=np.float64,
+                                     skiprows=skiprows, comment='#').values
+            if np.any(np.isnan(values[:, -1])):  # can also be because values are missing in some lines
+                columns = {len(line.split(b'#')[0].split()) for line in text.split(b'\n')[int(skiprows or 0):]}
+                if len(columns - {0}) > 1:
+                    raise ValueError('lines with different numbers of columns')
+            return values
         else:
             global _pandas_suggestion
             if _pandas_suggestion:
                 _pandas_suggestion = False
                 logging.warning('Install pandas for faster reading from text files')
-            return np.atleast_2d(np.loadtxt(fname, skiprows=skiprows or 0))
+            return np.atleast_2d(np.loadtxt(io.BytesIO(text), skiprows=skiprows or 0))
     except ValueError:
         print('Error reading %s' % fname)
         raise
-- 
2.43.0


From 765f3a17bedfacd559f1af493bb3c31ea1e3fb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:03 +0000
Subject: [PATCH 30/80] fix: only parameters fixed in all the chains are
 deleted, not those fixed in the first (or everything if it has one row)

---
 python/getdist/chains.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index fdefda6..b7cb718 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1506,8 +1506,9 @@ class Chains(WeightedSamples):
             fixed, values = super().deleteFixedParams()
             self.chains = None
         else:
-            fixed, values = self.chains[0].deleteFixedParams()
-            for chain in self.chains[1:]:
+            # only those that are the same in all of the chains
+            fixed, values = WeightedSamples(samples=np.vstack([chain.samples for chain in self.chains])).deleteFixedParams()
+            for chain in self.chains:
                 chain.changeSamples(np.delete(chain.samples, fixed, 1))
         if hasattr(self, 'ranges'):
             for ix, value in zip(fixed, values):
-- 
2.43.0


From d99d40b9c148db547ba8f46189f2dc0f4725842e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:09 +0000
Subject: [PATCH 31/80] fix: getdist removes burn in once, and not from chains
 it was already removed from

---
 python/getdist/command_line.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/python/getdist/command_line.py b/python/getdist/command_line.py
index df61b80..38f2327 100644
--- a/python/getdist/command_line.py
+++ b/python/getdist/command_line.py
@@ -66,11 +66,6 @@ def getdist_script(args, exit_on_error=True):
         do_error('Chain Root file name not given ')
     rootname = os.path.basename(in_root)
 
-    if args.ignore_rows is not None:
-        ignorerows = args.ignore_rows
-    else:
-        ignorerows = ini.float('ignore_rows', 0.0)
-
     samples_are_chains = ini.bool('samples_are_chains', True)
 
     paramnames = ini.string('parameter_names', '')
@@ -78,6 +73,12 @@ def getdist_script(args, exit_on_error=True):
     # Create instance of MCSamples
     mc = MCSamples(in_root, ini=ini, files_are_chains=samples_are_chains, paramNamesFile=paramnames)
 
+    if args.ignore_rows is not None:
+        ignorerows = args.ignore_rows
+    else:
+        # as set in ini, unless the chains have settings of their own (e.g. burn in already removed)
+        ignorerows = mc.ignore_lines or mc.ignore_frac
+
     if ini.bool('adjust_priors', False) or ini.bool('map_params', False):
         do_error('To adjust priors or define new parameters, use a separate python script; '
                  'see the python getdist docs for examples')
@@ -143,9 +144,10 @@ def getdist_script(args, exit_on_error=True):
         if chain_files:
             break
 
-    mc.loadChains(in_root, chain_files)
+    mc.loadChains(in_root, chain_files, ignore_lines=int(ignorerows))
 
-    mc.removeBurnFraction(ignorerows)
+    if ignorerows < 1:
+        mc.removeBurnFraction(ignorerows)
     if chains.print_load_details:
         if ignorerows:
             doprint('Removed %s as burn in' % ignorerows)
-- 
2.43.0


From cf359a2bed9fb274c8af8b16ba64ad2816b09060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:16 +0000
Subject: [PATCH 32/80] fix: samples saved as text with a name ending .txt, or
 with make_dirs in the current directory, can be loaded back

---
 python/getdist/chains.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index b7cb718..013bd21 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1056,10 +1056,10 @@ class WeightedSamples:
             loglikes = self.loglikes
         else:
             loglikes = np.zeros(self.numrows)
-        if make_dirs and not os.path.exists(os.path.dirname(root)):
-            os.makedirs(os.path.dirname(root))
+        if make_dirs and os.path.dirname(root):
+            os.makedirs(os.path.dirname(root), exist_ok=True)
         if root.endswith('.txt'):
-            root = root[:-3]
+            root = root[:-4]
         # noinspection PyTypeChecker
         np.savetxt(root + ('' if chain_index is None else '_' + str(chain_index + 1)) + '.txt',
                    np.hstack((self.weights.reshape(-1, 1), loglikes.reshape(-1, 1), self.samples)),
@@ -1527,7 +1527,7 @@ class Chains(WeightedSamples):
         """
         super().saveAsText(root, chain_index, make_dirs)
         if not chain_index:
-            self.saveTextMetadata(root)
+            self.saveTextMetadata(root[:-4] if root.endswith('.txt') else root)
 
     def saveTextMetadata(self, root):
         """
-- 
2.43.0


From 4d9323394a0d814d38e5970ca538664571817392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:16 +0000
Subject: [PATCH 33/80] fix: covariance of a single parameter loads back as a
 matrix

---
 python/getdist/covmat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/covmat.py b/python/getdist/covmat.py
index d4a4e99..926a3cd 100644
--- a/python/getdist/covmat.py
+++ b/python/getdist/covmat.py
@@ -36,7 +36,7 @@ class CovMat:
             else:
                 raise Exception('.covmat must now have parameter names header')
             # noinspection PyTypeChecker
-            self.matrix = np.loadtxt(f)
+            self.matrix = np.loadtxt(f, ndmin=2)
 
     def saveToFile(self, filename):
         """
-- 
2.43.0


From 0585d0ba360fda8bdd1669e24d341077656be244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:16 +0000
Subject: [PATCH 34/80] fix: thinned output has the selected samples, one per
 line with separated values

---
 python/getdist/mcsamples.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index f2768f2..63d227c 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -570,21 +570,18 @@ class MCSamples(Chains):
             logging.info('Cooled thinned output with temp: %s', cool)
         MaxL = np.max(self.loglikes)
         with open(fname, 'w', encoding='utf-8') as f:
-            i = 0
             for thin in thin_ix:
                 if cool != 1:
                     newL = self.loglikes[thin] * cool
                     f.write("%16.7E" % (
                         np.exp(-(newL - self.loglikes[thin]) - MaxL * (1 - cool))))
                     f.write("%16.7E" % newL)
-                    for j in range(nparams):
-                        f.write("%16.7E" % (self.samples[i][j]))
                 else:
-                    f.write("%f" % 1.)
-                    f.write("%f" % (self.loglikes[thin]))
-                    for j in range(nparams):
-                        f.write("%16.7E" % (self.samples[i][j]))
-                i += 1
+                    f.write("%16.7E" % 1.)
+                    f.write("%16.7E" % (self.loglikes[thin]))
+                for j in range(nparams):
+                    f.write("%16.7E" % (self.samples[thin][j]))
+                f.write("\n")
         print('Wrote ', len(thin_ix), ' thinned samples')
 
     def getCovMat(self):
-- 
2.43.0


From 77955855db38c411c06f563bb99bd8f1531e5008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:16 +0000
Subject: [PATCH 35/80] fix: lists saved in .ini files are read back as the
 same lists

---
 python/getdist/inifile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index 7d38a7e..d039b11 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -147,6 +147,8 @@ class IniFile:
                 return value
             if type(value) == bool:
                 return str(value)[0]
+            if isinstance(value, (list, tuple, np.ndarray)):
+                return " ".join([asIniText(x) for x in value])
             return str(value)
 
         parameterLines = []
@@ -262,7 +264,7 @@ class IniFile:
 
         if not default:
             default = []
-        return self.split(name, default, tp=bool)
+        return self.split(name, default, tp=lambda s: s[0] == 'T' if isinstance(s, str) else bool(s))
 
     def string(self, name, default=None, allowEmpty=True):
         """
-- 
2.43.0


From 2f31b02e3437c86576a04d656648308393f560f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:37 +0000
Subject: [PATCH 36/80] fix: getdist exits with an error status when it reports
 an error

---
 python/getdist/command_line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/command_line.py b/python/getdist/command_line.py
index 38f2327..0c7dac9 100644
--- a/python/getdist/command_line.py
+++ b/python/getdist/command_line.py
@@ -15,7 +15,7 @@ def getdist_script(args, exit_on_error=True):
     def do_error(msg):
         if exit_on_error:
             print(msg)
-            sys.exit()
+            sys.exit(1)
         raise ValueError(msg)
 
     result = []
-- 
2.43.0


From 69c45822184d32018bd71bf49bdf785730f5ea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:02 +0000
Subject: [PATCH 37/80] fix: combined chains without likelihoods can be
 separated again

---
 python/getdist/chains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 013bd21..710ce5e 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1480,7 +1480,8 @@ class Chains(WeightedSamples):
         else:
             for off1, off2 in zip(self.chain_offsets[:-1], self.chain_offsets[1:]):
                 chainlist.append(WeightedSamples(samples=self.samples[off1:off2], weights=self.weights[off1:off2],
-                                                 loglikes=self.loglikes[off1:off2]))
+                                                 loglikes=None if self.loglikes is None else
+                                                 self.loglikes[off1:off2]))
         return chainlist
 
     def removeBurnFraction(self, ignore_frac):
-- 
2.43.0


From f590bc68810343ddc20f6b1438205d8e2bcc3f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:34 +0000
Subject: [PATCH 38/80] fix: making samples with ignore_rows does not change
 the settings dictionary given

---
 python/getdist/mcsamples.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 63d227c..566d756 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -227,9 +227,7 @@ class MCSamples(Chains):
         self.rootdirname = ""
         self.indep_thin = 0
         if 'ignore_rows' in kwargs:
-            if settings is None:
-                settings = {}
-            settings['ignore_rows'] = kwargs['ignore_rows']
+            settings = dict(settings or {}, ignore_rows=kwargs['ignore_rows'])
         self.ignore_rows = float(kwargs.get('ignore_rows', 0))
         # Do not remove burn-in for nested sampler samples
         if self.sampler == "nested" and not np.isclose(self.ignore_rows, 0):
-- 
2.43.0


From 63627615fbea8964e461721760cdc05f49e5e8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:34 +0000
Subject: [PATCH 39/80] fix: statistics asked for after a change are those of
 the changed samples

---
 python/getdist/mcsamples.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 566d756..1df6b28 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -538,6 +538,8 @@ class MCSamples(Chains):
         :param random_state: random seed or Generator
         :return: numpy array of selected weight-1 samples if no filename
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         if single_thin is None:
             single_thin = max(1, self.norm / self.max_mult / self.max_scatter_points)
         random_state = np.random.default_rng(random_state)
@@ -589,6 +591,8 @@ class MCSamples(Chains):
 
         :return: A :class:`~.covmat.CovMat` object holding the covariance
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         nparamNonDerived = self.paramNames.numNonDerived()
         return covmat.CovMat(matrix=self.fullcov[:nparamNonDerived, :nparamNonDerived],
                              paramNames=self.paramNames.list()[:nparamNonDerived])
@@ -648,6 +652,8 @@ class MCSamples(Chains):
         if len(conditional_params):
             logging.info('conditional %u fixed parameters', len(conditional_params))
 
+        if self.needs_update:
+            self.updateBaseStatistics()
         PCAtext = 'PCA for parameters:\n'
 
         params = [name for name in params if self.paramNames.parWithName(name)]
@@ -827,6 +833,8 @@ class MCSamples(Chains):
 
         :return: The summary text as a string.
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         lines = 'using %s rows, %s parameters; mean weight %s, tot weight %s\n' % (
             self.numrows, self.paramNames.numParams(), self.mean_mult, self.norm)
         if self.indep_thin != 0:
@@ -856,6 +864,8 @@ class MCSamples(Chains):
         :param feedback: If set to True, Prints the output as well as returning it.
         :return: text giving the output of the tests
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         lines = ''
         nparam = self.n
 
@@ -2069,6 +2079,8 @@ class MCSamples(Chains):
 
         :return: a :class:`~.parampriors.ParamBounds` instance
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         bounds = ParamBounds()
         bounds.names = self.paramNames.list()
         for par in self.paramNames.names:
@@ -2085,6 +2097,8 @@ class MCSamples(Chains):
         :param name: parameter name
         :return: The upper limit if name exists, None otherwise.
         """
+        if self.needs_update and self.samples is not None:
+            self.updateBaseStatistics()
         par = self.paramNames.parWithName(name)
         if par:
             return getattr(par, 'limmax', None)
@@ -2097,6 +2111,8 @@ class MCSamples(Chains):
         :param name: parameter name
         :return: The lower limit if name exists, None otherwise.
         """
+        if self.needs_update and self.samples is not None:
+            self.updateBaseStatistics()
         par = self.paramNames.parWithName(name)
         if par:
             return getattr(par, 'limmin', None)
@@ -2142,6 +2158,8 @@ class MCSamples(Chains):
                  result.names[i].ND_limit_top, result.names[i].ND_limit_bot, and best-fit sample value
                  in result.names[i].bestfit_sample
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         return self.likeStats or self._setLikeStats()
 
     def getTable(self, columns=1, include_bestfit=False, **kwargs):
@@ -2214,6 +2232,8 @@ class MCSamples(Chains):
         :param max_frac_twotail: optional override for self.max_frac_twotail
         :param meanlikes: include mean likelihoods
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         if self.done_1Dbins:
             return
 
-- 
2.43.0


From 4433b4375e7815bb05074b8d9596d06fd141dc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:34 +0000
Subject: [PATCH 40/80] fix: getCorrelatedVariable2DPlots does not need the
 correlation matrix to have been asked for

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 1df6b28..d51e0eb 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2324,7 +2324,7 @@ class MCSamples(Chains):
         try_t = 1e5
         x, y = 0, 0
         cust2DPlots = []
-        correlationMatrix = self.correlationMatrix
+        correlationMatrix = self.getCorrelationMatrix()
         for _ in range(num_plots):
             try_b = -1e5
             for ix1 in range(nparam):
-- 
2.43.0


From 42daeb309a68ecfa17fc5544ab1ebe4c8e579f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:34 +0000
Subject: [PATCH 41/80] fix: getBounds does not depend on which densities were
 asked for before

---
 python/getdist/mcsamples.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index d51e0eb..df52f8d 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2084,6 +2084,7 @@ class MCSamples(Chains):
         bounds = ParamBounds()
         bounds.names = self.paramNames.list()
         for par in self.paramNames.names:
+            self._initParamRanges(par.name)
             if par.has_limits_bot:
                 bounds.lower[par.name] = par.limmin
             if par.has_limits_top:
-- 
2.43.0


From ddbc6c003148206196424281e07ee523d27cd9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:07 +0000
Subject: [PATCH 42/80] fix: reweighting and cooling do not change arrays that
 other objects use

---
 python/getdist/chains.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 710ce5e..0660cc3 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -973,9 +973,8 @@ class WeightedSamples:
         """
         scale = np.min(logLikes)
         if self.loglikes is not None:
-            self.loglikes += logLikes
-        self.weights = np.asarray(self.weights, dtype=np.float64)
-        self.weights *= np.exp(-(logLikes - scale))
+            self.loglikes = self.loglikes + logLikes
+        self.weights = self.weights * np.exp(-(logLikes - scale))
         self._weightsChanged()
 
     def cool(self, cool):
@@ -986,8 +985,7 @@ class WeightedSamples:
         """
         MaxL = np.max(self.loglikes)
         newL = self.loglikes * cool
-        self.weights = np.asarray(self.weights, dtype=np.float64)
-        self.weights *= np.exp(-(newL - self.loglikes) - (MaxL * (1 - cool)))
+        self.weights = self.weights * np.exp(-(newL - self.loglikes) - (MaxL * (1 - cool)))
         self.loglikes = newL
         self._weightsChanged()
 
-- 
2.43.0


From 8e8a3aca525527b04ad96cc91f1aa3d808492209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:07 +0000
Subject: [PATCH 43/80] fix: filtering by sample indices keeps track of the
 separate chains

---
 python/getdist/chains.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 0660cc3..5e89a0e 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1148,13 +1148,16 @@ class Chains(WeightedSamples):
         """
 
         if self.chains is None:
-            if self.chain_offsets is not None:
+            offsets = self.chain_offsets
+            if offsets is not None:
                 # must update chain_offsets to be able to correctly split back into separate filtered chains if needed
                 lens = [0]
+                kept = np.arange(self.numrows)[where]
                 for off1, off2 in zip(self.chain_offsets[:-1], self.chain_offsets[1:]):
-                    lens.append(np.count_nonzero(where[off1:off2]))
-                self.chain_offsets = np.cumsum(np.array(lens))
+                    lens.append(np.count_nonzero((kept >= off1) & (kept < off2)))
+                offsets = np.cumsum(np.array(lens))
             super().filter(where)
+            self.chain_offsets = offsets
         else:
             raise ValueError('chains are separated, makeSingle first or call filter on individual chains')
 
-- 
2.43.0


From cff9e51c51e3fa6cfd1073bf51fe8d7391522dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:07 +0000
Subject: [PATCH 44/80] fix: thinning and removing burn in from combined chains
 keep track of the separate chains

---
 python/getdist/chains.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 5e89a0e..0d83cd6 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1161,6 +1161,30 @@ class Chains(WeightedSamples):
         else:
             raise ValueError('chains are separated, makeSingle first or call filter on individual chains')
 
+    def thin(self, factor: int):
+        """
+        Thin the samples by the given factor, giving set of samples with unit weight
+
+        :param factor: The factor to thin by
+        """
+        offsets = self.chain_offsets
+        if offsets is not None:
+            offsets = np.searchsorted(self.thin_indices(factor), offsets)
+        super().thin(factor)
+        self.chain_offsets = offsets
+
+    def removeBurn(self, remove=0.3):
+        """
+        removes burn in from the start of the samples
+
+        :param remove: fraction of samples to remove, or if int >1, the number of sample rows to remove
+        """
+        if remove < 1:
+            remove = int(round(self.numrows * remove))
+        if self.chain_offsets is not None:
+            self.chain_offsets = np.unique(np.maximum(self.chain_offsets - int(remove), 0))
+        super().removeBurn(remove)
+
     def weighted_thin(self, factor: int):
         """
         Thin the samples by the given factor, giving (in general) non-unit integer weights.
-- 
2.43.0


From 50d9e0115aebe36acbb9100351c57ee7147c1de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:57 +0000
Subject: [PATCH 45/80] fix: addDerived that fails leaves the samples and
 ranges as they were

---
 python/getdist/chains.py    | 6 ++++--
 python/getdist/mcsamples.py | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 0d83cd6..31a363f 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1355,8 +1355,10 @@ class Chains(WeightedSamples):
         """
         if self.paramNames.parWithName(name):
             raise ValueError('Parameter with name %s already exists' % name)
-        self.changeSamples(np.c_[self.samples, paramVec])
-        return self.paramNames.addDerived(name, **kwargs)
+        samples = np.c_[self.samples, paramVec]
+        par = self.paramNames.addDerived(name, **kwargs)
+        self.changeSamples(samples)
+        return par
 
     def loadChains(self, root, files_or_samples: Sequence, weights=None, loglikes=None,
                    ignore_lines=None):
diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index df52f8d..529dfa9 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2354,9 +2354,12 @@ class MCSamples(Chains):
         :return: The added parameter's :class:`~.paramnames.ParamInfo` object
         """
 
+        ranges = copy.deepcopy(self.ranges)
         if range is not None:
-            self.ranges.setRange(name, range)
-        return super().addDerived(paramVec, name, label=label, comment=comment)
+            ranges.setRange(name, range)
+        par = super().addDerived(paramVec, name, label=label, comment=comment)
+        self.ranges = ranges
+        return par
 
     def getParamBestFitDict(self, best_sample=False, want_derived=True, want_fixed=True, max_posterior=True):
         """
-- 
2.43.0


From 854eedbd06174d07e691fcd017390c4bbfa78ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:57 +0000
Subject: [PATCH 46/80] fix: results are not those from before settings or
 sampler were changed

---
 python/getdist/chains.py    | 1 +
 python/getdist/mcsamples.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 31a363f..ede055a 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1119,6 +1119,7 @@ class Chains(WeightedSamples):
         if sampler not in ["mcmc", "nested", "uncorrelated"]:
             raise ValueError("Unknown sampler type %s" % sampler)
         self.sampler = sampler
+        self.needs_update = True
 
     def setParamNames(self, names=None):
         """
diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 529dfa9..1c7ba64 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -464,6 +464,7 @@ class MCSamples(Chains):
         if settings:
             ini.params.update(settings)
         self.ini = ini
+        self.needs_update = True
         if ini:
             self.initParameters(ini)
         if doUpdate and self.samples is not None:
-- 
2.43.0


From ba7812cf4d04ef188d2dc1b6295398c0a3a25b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:57 +0000
Subject: [PATCH 47/80] fix: statistics whose update failed or was interrupted
 are updated again

---
 python/getdist/mcsamples.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 1c7ba64..56b2c6a 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -506,6 +506,15 @@ class MCSamples(Chains):
         :return: self
         """
         super().updateBaseStatistics()
+        try:
+            self._updateStatistics()
+        except BaseException:
+            # stopped part way
+            self.needs_update = True
+            raise
+        return self
+
+    def _updateStatistics(self):
         mult_max = (self.mean_mult * self.numrows) / min(self.numrows // 2, 500)
         outliers = np.sum(self.weights > mult_max)
         if outliers != 0:
@@ -523,7 +532,6 @@ class MCSamples(Chains):
 
         # Get ND confidence region
         self._setLikeStats()
-        return self
 
     def makeSingleSamples(self, filename="", single_thin=None, random_state=None):
         """
-- 
2.43.0


From ab841868a1dc750d70570732fcb097982a71e5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:57 +0000
Subject: [PATCH 48/80] fix: samples read again are not split like the chains
 read before

---
 python/getdist/chains.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index ede055a..1fdcc61 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1374,6 +1374,7 @@ class Chains(WeightedSamples):
         :return: True if loaded successfully, False if none loaded
         """
         self.chains = []
+        self.chain_offsets = None
         self.samples = None
         self.weights = None
         self.loglikes = None
-- 
2.43.0


From 55f0cdd8fe6e4a7c4564430e547ae76ed3a66dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:23 +0000
Subject: [PATCH 49/80] fix: plotting a normalized density leaves the samples'
 density as it was

---
 python/getdist/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 60b0ec0..6c502dc 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -973,7 +973,7 @@ class GetDistPlotter(_BaseObject):
 
         title_limit = title_limit if title_limit is not None else self.settings.title_limit
         if normalized:
-            density.normalize()
+            density = copy.copy(density).normalize()
 
         kwargs = self._get_line_styles(plotno, **kwargs)
         self.lines_added[plotno] = kwargs
-- 
2.43.0


From dada55cb5aa3c1232bd0931b128a830d1f3aca2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:23 +0000
Subject: [PATCH 50/80] fix: plots made after the samples were changed show the
 changed samples

---
 python/getdist/plots.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 6c502dc..27555cd 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -563,6 +563,15 @@ class MCSampleAnalysis(_BaseObject):
         self.densities_1D.pop(root, None)
         self.densities_2D.pop(root, None)
 
+    def _cached_for_root(self, cache, root):
+        # what is cached only holds as long as the samples are not changed (which makes new samples.density1D)
+        samples = self.samples_for_root(root)
+        if samples.needs_update:
+            samples.updateBaseStatistics()
+        if root not in cache or cache[root][0] is not samples.density1D:
+            cache[root] = (samples.density1D, {})
+        return cache[root][1]
+
     def get_density(self, root, param, likes=False):
         """
         Get :class:`~.densities.Density1D` for given root name and parameter
@@ -572,10 +581,7 @@ class MCSampleAnalysis(_BaseObject):
         :param likes: whether to include mean likelihood in density.likes
         :return:  :class:`~.densities.Density1D` instance with 1D marginalized density
         """
-        rootdata = self.densities_1D.get(root)
-        if rootdata is None:
-            rootdata = {}
-            self.densities_1D[root] = rootdata
+        rootdata = self._cached_for_root(self.densities_1D, root)
         if isinstance(param, ParamInfo):
             name = param.name
         else:  #
@@ -602,10 +608,7 @@ class MCSampleAnalysis(_BaseObject):
         :param likes: whether to include mean likelihoods
         :return: :class:`~.densities.Density2D` instance with marginalized density
         """
-        rootdata = self.densities_2D.get(root)
-        if not rootdata:
-            rootdata = {}
-            self.densities_2D[root] = rootdata
+        rootdata = self._cached_for_root(self.densities_2D, root)
         key = (param1.name, param2.name, likes, conts)
         density = rootdata.get(key)
         if not density:
@@ -623,9 +626,10 @@ class MCSampleAnalysis(_BaseObject):
         :param root: The root name to use.
         :return: array of unit weight samples
         """
-        if root not in self.single_samples:
-            self.single_samples[root] = self.samples_for_root(root).makeSingleSamples()
-        return self.single_samples[root]
+        rootdata = self._cached_for_root(self.single_samples, root)
+        if 'samples' not in rootdata:
+            rootdata['samples'] = self.samples_for_root(root).makeSingleSamples()
+        return rootdata['samples']
 
     def params_for_root(self, root, label_params=None):
         """
-- 
2.43.0


From 33e215eca71f8e22fda7eb8c64f7a02f38b2867b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:07 +0000
Subject: [PATCH 51/80] fix: means asked for again after an interruption come
 with the mean likelihood

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 1fdcc61..715b5a8 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -388,11 +388,11 @@ class WeightedSamples:
 
         :return: numpy array of parameter means
         """
-        self.means = self.weights.dot(self.samples) / self.norm
         if self.loglikes is not None:
             self.mean_loglike = self.weights.dot(self.loglikes) / self.norm
         else:
             self.mean_loglike = None
+        self.means = self.weights.dot(self.samples) / self.norm
         return self.means
 
     def getMeans(self, pars=None):
-- 
2.43.0


From 769338fc492bb44a4d492c385c1638fba26f8aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:09 +0000
Subject: [PATCH 52/80] fix: interrupted getVars does not leave half filled
 variances in use

---
 python/getdist/chains.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 715b5a8..b81cc29 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -417,9 +417,10 @@ class WeightedSamples:
         """
         if self.means is None:
             self.setMeans()
-        self.vars = np.empty(self.n)
+        variances = np.empty(self.n)
         for i in range(self.n):
-            self.vars[i] = self.weights.dot((self.samples[:, i] - self.means[i]) ** 2) / self.norm
+            variances[i] = self.weights.dot((self.samples[:, i] - self.means[i]) ** 2) / self.norm
+        self.vars = variances
         self.sddev = np.sqrt(self.vars)
         return self.vars
 
-- 
2.43.0


From 83561e62b8812d5f83ee9f6a9d3522717ff1666c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:17 +0000
Subject: [PATCH 53/80] fix: checkConverge reports the whole grid when one
 .converge file is incomplete

---
 python/checkConverge.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/checkConverge.py b/python/checkConverge.py
index 405ba50..32be999 100644
--- a/python/checkConverge.py
+++ b/python/checkConverge.py
@@ -44,6 +44,10 @@ else:
 
     print('Converge check...')
     for jobItem in converge:
-        print('...', jobItem.chainRoot, jobItem.R())
+        try:
+            R = jobItem.R()
+        except (AttributeError, IndexError, ValueError):
+            R = 'bad .converge file'  # e.g. just being rewritten
+        print('...', jobItem.chainRoot, R)
 
 
-- 
2.43.0


From 93a9f874fb9e9f482961c48b466b35eb92ac7e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:17 +0000
Subject: [PATCH 54/80] fix: listGrid --notexist lists only runs without chains

---
 python/listGrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/listGrid.py b/python/listGrid.py
index 34ea87f..1c14d5a 100644
--- a/python/listGrid.py
+++ b/python/listGrid.py
@@ -12,6 +12,7 @@ items = Opts.sortedParamtagDict(chainExist=args.exists)
 
 for paramtag, parambatch in items:
     for jobItem in parambatch:
+        if args.notexist and jobItem.chainExists(): continue
         if hasattr(jobItem, 'group'):
             tag = '(%s)' % jobItem.group
         else:
-- 
2.43.0


From 231bf2ca16f0adf4eb2267fe1a2d3fb7641d0fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:53 +0000
Subject: [PATCH 55/80] fix: samples asked for by path are those of that path
 when another chain of the same name is loaded

---
 python/getdist/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 27555cd..fb58aa5 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -487,10 +487,10 @@ class MCSampleAnalysis(_BaseObject):
             raise GetDistPlotError('MixtureND is a distribution not a set of samples')
         elif not isinstance(root, str):
             raise GetDistPlotError('Root names must be strings (or MCSamples instances)')
-        if root in self.mcsamples and cache:
-            return self.mcsamples[root]
         if os.path.isabs(root):
             file_root = root
+        if root in self.mcsamples and cache and (not file_root or self.mcsamples[root].root == file_root):
+            return self.mcsamples[root]
         job_item = None
         if self.chain_settings_have_priority:
             dist_settings = dict(settings) if settings else {}
-- 
2.43.0


From 486e26a158e1af15fbcb5aecbb2951160f8e92a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:53 +0000
Subject: [PATCH 56/80] fix: getdist.ini of a chain directory only applies to
 the chains in it

---
 python/getdist/plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index fb58aa5..424f6e3 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -512,10 +512,10 @@ class MCSampleAnalysis(_BaseObject):
                         break
                 else:
                     file_root = findChainFileRoot(chain_dir, root)
-                    dir_ini = os.path.join(chain_dir, 'getdist.ini')
-                    if os.path.exists(dir_ini):
-                        dist_settings.update(IniFile(dir_ini).params)
                     if file_root:
+                        dir_ini = os.path.join(chain_dir, 'getdist.ini')
+                        if os.path.exists(dir_ini):
+                            dist_settings.update(IniFile(dir_ini).params)
                         break
 
         if not file_root:
-- 
2.43.0


From 41d8277ef1d905fc4710424afc1afa6f034335be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:53 +0000
Subject: [PATCH 57/80] fix: resetting a plotting session drops its earlier
 settings and leaves the caller's unchanged

---
 python/getdist/plots.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 424f6e3..55b3aba 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -406,6 +406,7 @@ class MCSampleAnalysis(_BaseObject):
         self.chain_dirs = []
         self.chain_locations = []
         self.ini = None
+        self.grid_settings = {}
         self.chain_settings_have_priority = True
         if chain_locations is not None:
             if isinstance(chain_locations, str) or not isinstance(chain_locations, Iterable):
@@ -433,10 +434,9 @@ class MCSampleAnalysis(_BaseObject):
             # should instead set custom settings in the grid setting file
             if hasattr(batch, 'commonPath') and os.path.exists(batch.commonPath + 'getdist_common.ini'):
                 batchini = IniFile(batch.commonPath + 'getdist_common.ini')
+                self.grid_settings.update(batchini.params)
                 if self.ini:
                     self.ini.params.update(batchini.params)
-                else:
-                    self.ini = batchini
         elif get_chain_root_files(chain_dir):
             self.chain_dirs.append(chain_dir)
         else:
@@ -452,16 +452,14 @@ class MCSampleAnalysis(_BaseObject):
         """
         self.analysis_settings = {}
         if isinstance(settings, IniFile):
-            ini = settings
+            ini = copy.deepcopy(settings)
         elif isinstance(settings, Mapping):
             ini = IniFile(getdist.default_getdist_settings)
             ini.params.update(settings)
         else:
             ini = IniFile(settings or getdist.default_getdist_settings)
-        if self.ini:
-            self.ini.params.update(ini.params)
-        else:
-            self.ini = ini
+        ini.params = dict(self.grid_settings, **ini.params)
+        self.ini = ini
         self.mcsamples = {}
         # Dicts. 1st key is root; 2nd key is param
         self.densities_1D = dict()
-- 
2.43.0


From 175309967e14af29b09b6f679ba7ec857f49be5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:53 +0000
Subject: [PATCH 58/80] fix: chains named with leading directories are found in
 any of the chain directories

---
 python/getdist/chains.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index b81cc29..e98c0df 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -99,6 +99,8 @@ def chainFiles(root, chain_indices=None, ext='.txt', separator="_",
         basename = os.path.basename(root)
         reg_exp = re.compile(re.escape(basename) + '(' + re.escape(separator) + '(?P<num>[0-9]+))?' + re.escape(ext))
     files = []
+    if not os.path.isdir(folder or '.'):
+        return files
     for f in os.listdir(folder or '.'):
         match = reg_exp.fullmatch(f)
         if match:
-- 
2.43.0


From 35304d22585fcd1494faf28e25829d54e0978d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:26 +0000
Subject: [PATCH 59/80] fix: every chain below a directory gets a name of its
 own

---
 python/getdist/chain_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chain_grid.py b/python/getdist/chain_grid.py
index cba5cd1..e75313a 100644
--- a/python/getdist/chain_grid.py
+++ b/python/getdist/chain_grid.py
@@ -100,7 +100,7 @@ class ChainDirGrid:
             if len(self.roots[root]) > 1:
                 paths = [item.chainRoot.split(os.sep) for item in self.roots[root]]
                 i = -2
-                while all(s[i] == paths[0][i] for s in paths[1:]):
+                while len(set(tuple(s[i:]) for s in paths)) < len(paths):
                     i -= 1
                 for parts, item in zip(paths, self.roots[root]):
                     item.name = '/'.join(parts[i:])
-- 
2.43.0


From a334714d5ec2d68693afb39c805bf973319fadcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:32 +0000
Subject: [PATCH 60/80] fix: makeTables --all_limits makes all tables when the
 output is in another directory

---
 python/makeTables.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/makeTables.py b/python/makeTables.py
index 8ca38e1..a727f40 100644
--- a/python/makeTables.py
+++ b/python/makeTables.py
@@ -327,6 +327,7 @@ for limit in limits:
     if not args.forpaper:
         print('Now converting to PDF...')
         delext = ['aux', 'log', 'out', 'toc']
+        old_dir = os.getcwd()
         if len(outdir) > 0:
             os.chdir(outdir)
         for _ in range(3):
@@ -335,3 +336,4 @@ for limit in limits:
         for ext in delext:
             if os.path.exists(root + '.' + ext):
                 os.remove(root + '.' + ext)
+        os.chdir(old_dir)
-- 
2.43.0


From 0ee32c18f32af87a89883f9c18ba5b87b306b6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:32 +0000
Subject: [PATCH 61/80] fix: makeTables --columns can be used

---
 python/makeTables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/makeTables.py b/python/makeTables.py
index a727f40..357854e 100644
--- a/python/makeTables.py
+++ b/python/makeTables.py
@@ -45,7 +45,7 @@ Opts.parser.add_argument('--paramNameFile', default='clik_latex.paramnames',
 Opts.parser.add_argument('--paramList', default=None,
                          help=".paramnames file listing specific parameters to include (only)")
 Opts.parser.add_argument('--blockEndParams', default=None)
-Opts.parser.add_argument('--columns', type=int, nargs=1, default=3)
+Opts.parser.add_argument('--columns', type=int, default=3)
 Opts.parser.add_argument('--compare', nargs='+', default=None)
 
 Opts.parser.add_argument('--titles', default=None)  # for compare plots
-- 
2.43.0


From 4c32565392f2ec5e6f0b03084afa5b84bfea0c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:32 +0000
Subject: [PATCH 62/80] fix: tables of best fits can be made

---
 python/getdist/types.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index c777e18..ea48400 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -300,7 +300,7 @@ class ResultTable:
 
         self.results = results
         self.boldBaseParameters = True
-        self.colsPerResult = len(results[0].getColumnLabels(limit))
+        self.colsPerResult = len(results[0].getColumnLabels(limit=limit))
         self.colsPerParam = len(results) * self.colsPerResult
         self.limit = limit
         self.refResults = refResults
@@ -358,7 +358,7 @@ class ResultTable:
         self.addLine("aboveHeader")
         cols = [self.format.headerWrapper % self.format.paramText]
         for result in self.results:
-            cols += [self.format.headerWrapper % s for s in result.getColumnLabels(self.limit)]
+            cols += [self.format.headerWrapper % s for s in result.getColumnLabels(limit=self.limit)]
         self.lines.append(self.format.colSeparator.join(cols * self.ncol) + self.format.endofrow)
 
         self.addLine("belowHeader")
@@ -367,7 +367,7 @@ class ResultTable:
         return self.format.colSeparator.join(self.paramResultTex(result, param) for result in self.results)
 
     def paramResultTex(self, result, p):
-        values = result.texValues(self.format, p, self.limit, self.refResults,
+        values = result.texValues(self.format, p, limit=self.limit, refResults=self.refResults,
                                   shiftSigma_subset=self.shiftSigma_subset, shiftSigma_indep=self.shiftSigma_indep)
         if values is not None:
             if len(values) > 1:
@@ -377,7 +377,7 @@ class ResultTable:
             txt += self.format.textAsColumn(values[0], values[0] != self.format.noConstraint)
             return txt
         else:
-            return self.format.textAsColumn('') * len(result.getColumnLabels(self.limit))
+            return self.format.textAsColumn('') * len(result.getColumnLabels(limit=self.limit))
 
     def paramLabelColumn(self, param):
         return self.format.textAsColumn(param.getLabel(), True, separator=True, bold=not param.isDerived)
-- 
2.43.0


From 28f1df4166c9cbe5c7cd6b4ec665482ddbc3c075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:32 +0000
Subject: [PATCH 63/80] fix: values stay under their headings when a compared
 result does not have the parameter

---
 python/getdist/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index ea48400..fe11879 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -377,7 +377,8 @@ class ResultTable:
             txt += self.format.textAsColumn(values[0], values[0] != self.format.noConstraint)
             return txt
         else:
-            return self.format.textAsColumn('') * len(result.getColumnLabels(limit=self.limit))
+            return self.format.colSeparator.join(
+                [self.format.textAsColumn('')] * len(result.getColumnLabels(limit=self.limit)))
 
     def paramLabelColumn(self, param):
         return self.format.textAsColumn(param.getLabel(), True, separator=True, bold=not param.isDerived)
-- 
2.43.0


From 9ff967c4a2d378373bf8347a6182ef748de0c503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:32 +0000
Subject: [PATCH 64/80] fix: sigma symbol of parameter shifts in tables

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index fe11879..48d4f6d 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -816,7 +816,7 @@ class MargeStats(ParamResults):
                             res += ', %+.1f \\sigma_i' % (delta / indep_sigma)
                         res += ')'
                     else:
-                        res += r'\quad(%+.1f \\sigma)' % (delta / refVal.err)
+                        res += r'\quad(%+.1f \sigma)' % (delta / refVal.err)
             if self.hasBestFit:  # add best fit too
                 rangew = (lim.upper - lim.lower) / 10
                 bestfit, _, _, exponent = formatter.numberFormatter.namesigFigs(param.best_fit, rangew, -rangew,
-- 
2.43.0


From 051aeca631ee08c83a379ce3c77de3cec761967f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:32 +0000
Subject: [PATCH 65/80] fix: makeParamCompare can write to the current or a new
 directory

---
 python/makeParamCompare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/makeParamCompare.py b/python/makeParamCompare.py
index b33e8c1..db463b3 100644
--- a/python/makeParamCompare.py
+++ b/python/makeParamCompare.py
@@ -93,5 +93,5 @@ for i, par in enumerate(args.params):
 if args.latex_filename is not None:
     if args.latex_filename.find('.') < 0: args.latex_filename += '.tex'
     (outdir, outname) = os.path.split(args.latex_filename)
-    if not os.path.exists(outdir): os.makedirs(os.path.dirname(outdir))
+    if outdir and not os.path.exists(outdir): os.makedirs(outdir)
     types.TextFile(lines).write(args.latex_filename)
-- 
2.43.0


From 1165b70d0298bb51d7a60c05e4472e2d9a1f1c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:12 +0000
Subject: [PATCH 66/80] fix: a group of runs can be given its data sets when
 made

---
 python/paramgrid/batchjob.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index 2bc527c..89b4946 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -184,10 +184,10 @@ class jobGroup(object):
             params = [[]]
         if datasets is None:
             datasets = []
-            self.params = params
-            self.groupName = name
-            self.importanceRuns = importanceRuns
-            self.datasets = datasets
+        self.params = params
+        self.groupName = name
+        self.importanceRuns = importanceRuns
+        self.datasets = datasets
         self.extra_options = {}
 
 
-- 
2.43.0


From 6e9f263da003da0d5617d8f9341f2e532cae621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:01 +0000
Subject: [PATCH 67/80] fix: settings are saved to the file they were read
 from, not to one that it includes

---
 python/getdist/inifile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index d039b11..0669863 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -117,6 +117,7 @@ class IniFile:
                         self.readFile(ffile, if_not_defined=True)
                     else:
                         self.readFile(os.path.join(os.path.dirname(filename), ffile), if_not_defined=True)
+                self.original_filename = filename
 
             return self.params
         except:
-- 
2.43.0


From dab1ba7139fb5ad30b0685f0f75b1a930c2ab752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:22 +0000
Subject: [PATCH 68/80] fix: comments of a default that is not used are not
 given to the next setting

---
 python/getdist/inifile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index 0669863..3b7b6fc 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -91,6 +91,7 @@ class IniFile:
                             key = s[0:eq].strip()
                             if key in self.params:
                                 if if_not_defined:
+                                    comments = []
                                     continue
                                 raise IniError('Error: duplicate key: ' + key + ' in ' + filename)
                             value = s[eq + 1:].strip()
-- 
2.43.0


From f8735b6f10b9a11fa9546644010fbce0e501a786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:15 +0000
Subject: [PATCH 69/80] fix: plot scripts plot the chain that was read when
 out_root is set

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 56b2c6a..f4f9e80 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2569,7 +2569,7 @@ class MCSamples(Chains):
             f.write("g=plots.GetDistPlotter(chain_dir=r'%s')\n" % (self.batch_path or os.path.dirname(self.root)))
 
             f.write("g.settings.set_with_subplot_size(%s)\n" % subplot_size)
-            f.write("roots = ['%s']\n" % self.rootname)
+            f.write("roots = ['%s']\n" % os.path.basename(self.root))
             f.write(text + '\n')
             ext = ext or self.plot_output
             fname = self.rootname + tag + '.' + ext
-- 
2.43.0


From a1bc3faf73cc28e743ffa21d97488c5d1ff4dd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:59 +0000
Subject: [PATCH 70/80] fix: makePlots works with the present plotting
 functions

---
 python/makePlots.py               | 4 ++--
 python/paramgrid/batchjob_args.py | 6 ++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/python/makePlots.py b/python/makePlots.py
index ca5688b..5e45c13 100644
--- a/python/makePlots.py
+++ b/python/makePlots.py
@@ -44,7 +44,7 @@ def doplot(roots):
     elif args.tri_params is not None:
         g.triangle_plot(roots, args.tri_params, legend_labels=args.legend_labels, filled_compare=args.filled)
     else:
-        g.plots_1d(roots, paramList=args.paramList, nx=args.nx, legend_labels=args.legend_labels, legend_ncol=ncol)
+        g.plots_1d(roots, param_list=args.param_list, nx=args.nx, legend_labels=args.legend_labels, legend_ncol=ncol)
 
 
 def comparePlot(jobItems):
@@ -66,7 +66,7 @@ if args.compare_replacing is not None:
 items = Opts.sortedParamtagDict()
 
 for paramtag, parambatch in items:
-    g.newPlot()
+    g.new_plot()
     if args.compare_replacing is not None:
         print('comparing changes in data for: ' + paramtag)
         origCompare = [item for item in parambatch if args.compare_replacing[0] in item.data_set.names]
diff --git a/python/paramgrid/batchjob_args.py b/python/paramgrid/batchjob_args.py
index 6e15be5..875fbcf 100644
--- a/python/paramgrid/batchjob_args.py
+++ b/python/paramgrid/batchjob_args.py
@@ -72,7 +72,7 @@ class batchArgs(object):
             self.parser.add_argument('--param_list', default=None,
                                      help=".paramnames file listing specific parameters to include (only)")
             self.parser.add_argument('--size_inch', type=float, default=None, help='output subplot size in inches')
-            self.parser.add_argument('--nx', default=None, help='number of plots per row')
+            self.parser.add_argument('--nx', type=int, default=None, help='number of plots per row')
             self.parser.add_argument('--outputs', nargs='+', default=['pdf'], help='output file type (default: pdf)')
 
         args = self.parser.parse_args(vals)
@@ -83,11 +83,9 @@ class batchArgs(object):
                 raise Exception('batchPath %s does not exist or is not initialized with makeGrid.py' % args.batchPath)
             if self.doplots:
                 import getdist.plots as plots
-                from getdist import paramnames
 
-                if args.paramList is not None: args.paramList = paramnames.ParamNames(args.paramList)
                 g = plots.GetDistPlotter(chain_dir=self.batch.batchPath)
-                if args.size_inch is not None: g.settings.setWithSubplotSize(args.size_inch)
+                if args.size_inch is not None: g.settings.set_with_subplot_size(args.size_inch)
                 return self.batch, self.args, g
             else:
                 return self.batch, self.args
-- 
2.43.0


From 1113c6efb0966cdb39d11908c1d94688486e8684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:59 +0000
Subject: [PATCH 71/80] fix: --outtag is used for the names of 2D and triangle
 plots

---
 python/makePlots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/makePlots.py b/python/makePlots.py
index 5e45c13..5be3957 100644
--- a/python/makePlots.py
+++ b/python/makePlots.py
@@ -54,8 +54,8 @@ def comparePlot(jobItems):
 tp = ''
 if args.data is not None and len(args.data) == 1 and args.compare_alldata is not None: tp = '_' + args.data[0] + tp
 if args.outtag is not None: tp = '_' + args.outtag + tp
-if args.D2_param is not None: tp = '_' + args.D2_param + '_2D'
-if args.tri_params is not None: tp = '_tri'
+if args.D2_param is not None: tp = '_' + args.D2_param + '_2D' + tp
+if args.tri_params is not None: tp = '_tri' + tp
 
 if args.compare_replacing is not None:
     if args.data is None:
-- 
2.43.0


From c7a1b24d4ac03efa40f43a2b3eb804165e5b43d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:21 +0000
Subject: [PATCH 72/80] fix: makePlots leaves out compared runs that have no
 chains yet

---
 python/makePlots.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/makePlots.py b/python/makePlots.py
index 5be3957..aa6f02c 100644
--- a/python/makePlots.py
+++ b/python/makePlots.py
@@ -32,7 +32,7 @@ Opts.parser.add_argument('--outtag', default=None, help='tag to add to output fi
 (batch, args, g) = Opts.parseForBatch()
 
 outdir = args.out_dir
-if not os.path.exists(outdir): os.makedirs(outdir)
+os.makedirs(outdir, exist_ok=True)
 outdir = os.path.abspath(outdir) + os.sep
 
 
@@ -106,6 +106,7 @@ for paramtag, parambatch in items:
                 print('plotting: ' + jobItem.name)
                 roots = [jobItem.name]
                 for imp in jobItem.importanceItems:
+                    if not imp.chainExists(): continue
                     if len(args.compare_importance) == 0 or imp.importanceTag in args.compare_importance: roots.append(
                         imp.name)
                 doplot(roots)
@@ -117,7 +118,7 @@ for paramtag, parambatch in items:
                 print('plotting: ' + output)
                 roots = [batch.normed_name_item(tag + '_' + jobItem.normed_data, wantImportance=True) for tag in
                          args.compare_paramtag]
-                roots = [jobItem.name] + [root.name for root in roots if root is not None]
+                roots = [jobItem.name] + [root.name for root in roots if root is not None and root.chainExists()]
                 if len(roots) > 1:
                     doplot(roots)
                     for ext in args.outputs: g.export(outdir + output + tp + '.' + ext)
-- 
2.43.0


From 039751f02f41c5c304b29e224168e9d05cedfd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:02 +0000
Subject: [PATCH 73/80] fix: chainPeek shows the chain and parameter that were
 asked for

---
 python/chainPeek.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/chainPeek.py b/python/chainPeek.py
index 86641f8..fe7fc6b 100644
--- a/python/chainPeek.py
+++ b/python/chainPeek.py
@@ -3,7 +3,7 @@ from __future__ import absolute_import
 from __future__ import print_function
 import os, sys
 from getdist import paramnames
-import numpy as np
+from getdist.chains import loadNumpyTxt
 
 
 if len(sys.argv) < 3:
@@ -15,9 +15,11 @@ if len(sys.argv) < 3:
 chain = os.path.abspath(sys.argv[1])
 param = sys.argv[2]
 index = 1
-if len(sys.argv) > 4: index = int(sys.argv[3])
+if len(sys.argv) > 3: index = int(sys.argv[3])
 
-d = np.loadtxt(chain + '_' + str(index) + '.txt')
+d = loadNumpyTxt(chain + '_' + str(index) + '.txt')
 names = paramnames.ParamNames(chain + '.paramnames')
 
-print(d[:, names.numberOfName(param) + 2])
+column = names.names.index(names.parWithName(param, error=True)) + 2
+
+print(d[:, column])
-- 
2.43.0


From 4edf446a692b0ec02296b928c272a543df41eb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:30 +0000
Subject: [PATCH 74/80] fix: burn-in already skipped when post-processing
 Cobaya chains is noticed

---
 python/getdist/cobaya_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 7cb5f02..477be5a 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -260,6 +260,6 @@ def get_sample_label(filename_or_info):
 
 
 def get_burn_removed(filename_or_info):
-    info = get_info_params(filename_or_info)
+    info = yaml_file_or_dict(filename_or_info)
     # if skip burn in *has already been done*
     return info.get(_post, {}).get("skip", 0)
-- 
2.43.0


From 8784182c96e29108dd60d6a3d3d4c3bbb045f2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:30 +0000
Subject: [PATCH 75/80] fix: parameter names and ranges are taken from a Cobaya
 info without changing it

---
 python/getdist/cobaya_interface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 477be5a..c49f3e3 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -142,7 +142,7 @@ def get_info_params(info):
     add = info.get(_post, {}).get("add", {})
     # Adding derived params and updating 1d priors
     for param, pinfo in add.get(_params, {}).items():
-        pinfo_old = info_params_full.get(param, {})
+        pinfo_old = dict(info_params_full.get(param, {}))
         pinfo_old.update(pinfo)
         info_params_full[param] = pinfo_old
     likes += list(add.get(_likelihood, []))
@@ -163,6 +163,7 @@ def get_info_params(info):
 def get_range(param_info):
     # Sampled
     if is_sampled_param(param_info):
+        param_info = deepcopy(param_info)
         if isinstance(param_info[_prior], Sequence) and len(param_info[_prior]) == 2:
             param_info[_prior] = \
                 {lim: n for lim, n in zip(["min", "max"], param_info[_prior])}
-- 
2.43.0


From ed77b7fada9fcf116f3c9bf07116569bf8f55b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:30 +0000
Subject: [PATCH 76/80] fix: Cobaya priors with the default position and scale
 have a range

---
 python/getdist/cobaya_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index c49f3e3..35ec99f 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -175,7 +175,7 @@ def get_range(param_info):
                          for tag in ["min", "max", "loc", "scale"])
         if info_lims["min"] is not None or info_lims["max"] is not None:
             lims = [param_info[_prior].get("min"), param_info[_prior].get("max")]
-        elif info_lims["loc"] is not None or info_lims["scale"] is not None:
+        else:
             dist = param_info[_prior].pop(_p_dist, "uniform")
             pdf_dist = getattr(import_module("scipy.stats", dist), dist)
             lims = pdf_dist.interval(1, **param_info[_prior])
-- 
2.43.0


From aba333c26c16c590b3d5080ba298f10c736d745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:30 +0000
Subject: [PATCH 77/80] fix: wildcards in a chain root find Cobaya chains

---
 python/getdist/command_line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/command_line.py b/python/getdist/command_line.py
index 0c7dac9..0ccee07 100644
--- a/python/getdist/command_line.py
+++ b/python/getdist/command_line.py
@@ -44,7 +44,7 @@ def getdist_script(args, exit_on_error=True):
         for ending in ['.paramnames', 'updated.yaml']:
             for f in glob.glob(chain_root + ending):
                 fileargs = copy.copy(args)
-                fileargs.chain_root = f.replace(ending, '')
+                fileargs.chain_root = f[:-len(ending)].rstrip('.')
                 getdist_script(fileargs)
         return
 
-- 
2.43.0


From 3e20f8d880e0008ec3ad07c25e6d46e3e23498ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:30 +0000
Subject: [PATCH 78/80] fix: chains below a directory given by a relative path
 are found

---
 python/getdist/chain_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chain_grid.py b/python/getdist/chain_grid.py
index e75313a..6892fc8 100644
--- a/python/getdist/chain_grid.py
+++ b/python/getdist/chain_grid.py
@@ -21,7 +21,7 @@ def get_chain_root_files(rootdir):
     ending = 'updated.yaml'
     pattern = os.path.join(rootdir, "*" + ending)
     files += [f[:-len(ending)].rstrip("_.") for f in glob.glob(pattern)]
-    files = [f for f in files if hasChainFiles(os.path.join(rootdir, f))]
+    files = [f for f in files if hasChainFiles(f)]
     files.sort()
     return files
 
-- 
2.43.0


From c477fa89e8d98e1b928b3b734bf75f791f5e0243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:30 +0000
Subject: [PATCH 79/80] fix: Cobaya chains in a directory of their own are
 found where they are

---
 python/getdist/chain_grid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/getdist/chain_grid.py b/python/getdist/chain_grid.py
index 6892fc8..139e425 100644
--- a/python/getdist/chain_grid.py
+++ b/python/getdist/chain_grid.py
@@ -89,9 +89,9 @@ class ChainDirGrid:
     def _add(self, dir_tag, dirname, roots):
         self.base_dir_names.add(dir_tag)
         for root in roots:
-            root = file_root_to_root(root)
-            self.roots[root] = self.roots.get(root, []) + [
-                ChainItem(self.batchPath, os.path.join(dirname, root), dir_tag, root)]
+            name = file_root_to_root(root)
+            self.roots[name] = self.roots.get(name, []) + [
+                ChainItem(self.batchPath, root, dir_tag, name)]
 
     def _make_unique(self):
         for root in list(self.roots):
-- 
2.43.0


From 1daf0bfbf2274ff2c89301d0352ca0a038085be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:50 +0000
Subject: [PATCH 80/80] fix: Cobaya parameters set by a function object have no
 range

---
 python/getdist/cobaya_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 35ec99f..2311ee1 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -187,7 +187,7 @@ def get_range(param_info):
         value = fixed_value(param_info)
         try:
             value = float(value)
-        except ValueError:
+        except (ValueError, TypeError):
             # e.g. lambda function values
             lims = (lambda i: [i.get("min", -np.inf), i.get("max", np.inf)])(
                 param_info or {})
-- 
2.43.0

