"""C03: each selected run is submitted exactly once; what is accepted is recorded."""
import re

from .jobs_common import *

CONCURRENT = False

ALL_TEMPLATE = """#!/bin/bash
#PBS -q ##QUEUE##
#PBS -N ##JOBNAME##
#PBS -l nodes=##NUMNODES##:ppn=##PPN##,mem=##MEM_MB##mb,walltime=##WALLTIME##
#PBS -l class=##JOBCLASS##,tasks=##NUMTASKS##,slots=##NUMSLOTS##,runs=##NUMRUNS##
cd ##ROOTDIR##
export OMP_NUM_THREADS=##OMP##
export PER_NODE=##MPIPERNODE## CHAINS=##CHAINSPERNODE## ONE=##ONERUN## MPI=##NUMMPI##
%s
echo ##JOBNAME## ##JOBNAME## ##NUMMPI## ##NUMMPI## ##QUEUE## ##QUEUE##-##ROOTDIR##/##JOBNAME##.##OMP##.##OMP## >> ##ROOTDIR##/log
##COMMAND##
wait
"""
EXTRA_TEMPLATES = {
    'tmpl_norun': ALL_TEMPLATE % '',
    'tmpl_run': ALL_TEMPLATE % '##RUN: mpirun -n ##NUMMPI## -omp ##OMP## ##PROGRAM## ##INI## ##INIBASE## ##INIBASE## > ./scripts/##INIBASE##.log 2>&1 ##',
    'tmpl_def': ALL_TEMPLATE % ('##DEFAULT_nodes: 3 ##\n##DEFAULT_walltime: 11:00:00 ##\n##DEFAULT_chainsPerNode: 2 ##\n'
                                '##DEFAULT_coresPerNode: 8 ##\n##DEFAULT_queue: longq ##\n##DEFAULT_program: ./other ##\n'
                                '##DEFAULT_mem_per_node: 1234 ##'),
}
REPO_TEMPLATES = ['job_script', 'job_script_MOAB', 'job_script_UGE', 'job_script_SLURM', 'job_script_DARWIN']
DEFAULTS = dict(mem_per_node='63900', walltime='24:00:00', program='./cosmomc', queue='', jobclass='')


def generate(rng, tier, i):
    flavour = rng.choice(['pbs', 'pbs', 'ogs', 'moab'])
    groups = gen_grid(rng, big=rng.random() < 0.3, importance=rng.random() < 0.5, long_names=rng.random() < 0.3)
    items = model_items('/g', groups)
    o = gen_filters(rng, items)
    job = {}
    cpu = rng.choice([1, 2, 4, 6, 8, 12, 16, 24, 36, 64, 80, 128])
    if rng.random() < 0.35:
        job['nodes'] = rng.choice([1, 2, 3])
    if rng.random() < 0.4:
        job['coresPerNode'] = rng.choice([4, 8, 16, 24, 7])
    if rng.random() < 0.35:
        job['chainsPerNode'] = rng.choice([1, 2, 4, 3])
    if rng.random() < 0.2:
        job['mem_per_node'] = rng.choice([8000, 63900])
    if rng.random() < 0.2:
        job['walltime'] = rng.choice(['12:00:00', '1:30:00'])
    if rng.random() < 0.2:
        job['program'] = rng.choice(['./cosmomc_x', '/opt/cosmomc'])
    if rng.random() < 0.2:
        job['queue'] = rng.choice(['long', 'q.x'])
    if rng.random() < 0.1:
        job['jobclass'] = 'cls'
    if rng.random() < 0.15:
        job['qsub'] = rng.choice(['qsub -pe orte ##NUMSLOTS##', 'qsub -q ##QUEUE##x -n ##NUMNODES##', 'qsub -V'])
    template = rng.choice([None, None] + REPO_TEMPLATES + sorted(EXTRA_TEMPLATES) * 2)
    if flavour != 'moab' and template == 'job_script_MOAB':
        template = None
    env = {}
    if rng.random() < 0.25:
        for k, v in rng.sample([('walltime', '5:00:00'), ('coresPerNode', '8'), ('queue', 'envq'), ('nodes', '2'), ('program', './envprog'),
                                ('job_template', 'tmpl_run')], rng.choice([1, 2])):
            env['COSMOMC_' + k] = v
    r = rng.random()
    runs = 1
    combine = None
    if r < 0.3:
        runs = rng.choice([2, 2, 3, 4])
    elif r < 0.45:
        combine = 'allruns'
    mode = rng.choice(['run', 'run', 'run', 'run', 'run', 'dryrun', 'no_sub'])
    kind = rng.choice(['plain', 'plain', 'plain', 'minimize', 'importance_minimize', 'mpi'])
    if kind == 'mpi':
        n = rng.choice([1, 1, 2, 3])
        mpi = ['grid/iniFiles/%s%s' % (x.name, rng.choice(['.ini', ''])) for x in rng.sample([x for x in items if not x.parent], min(n, sum(not x.parent for x in items)))]
    else:
        mpi = None
    pre = []
    nq = False
    if kind != 'mpi' and rng.random() < 0.5:
        for _ in range(rng.choice([1, 2, 3])):
            pre.append(dict(names=[x.name for x in rng.sample(items, rng.randint(1, min(2, len(items))))],
                            minimize=rng.random() < 0.35, combine=rng.random() < 0.2, state=rng.choice('QRRHC')))
        nq = rng.random() < 0.8
    return dict(flavour=flavour, groups=groups, filters=o, job=job, cpu=cpu, template=template, env=env, runsPerJob=runs, combine=combine,
                mode=mode, kind=kind, mpi=mpi, pre=pre, not_queued=nq, chains=rng.random() < 0.85, subitems=rng.random() < 0.2,
                deny=rng.choice([None] * 6 + [0, 1, 2]), env_runs=rng.random() < 0.15, dirseed=rng.randrange(1 << 20),
                server=rng.choice(['head', 'head.cluster.local']), first_id=rng.choice([1, 99, 1000, 123456]))


def setting(sc, text, key, default):
    v = sc['job'].get(key)
    if v is None:
        m = re.search('##DEFAULT_' + key + ':(.*)##', text)
        v = m.group(1).strip() if m else None
    if v is None:
        v = sc['env'].get('COSMOMC_' + key)
    return default if v is None else v


def reference(sc, text, cwd):
    """Settings of the job per the documentation, or None if chains do not divide the cores."""
    cpu = sc['cpu'] if sc['cpu'] <= 64 else 8
    per = 2 if cpu == 4 else cpu // 4 if cpu % 4 == 0 else cpu // 3 if cpu > 3 and cpu % 3 == 0 else 1
    cores = int(setting(sc, text, 'coresPerNode', cpu))
    cpn = int(setting(sc, text, 'chainsPerNode', per))
    nodes = int(setting(sc, text, 'nodes', max(1, 4 // per)))
    d = dict(cores=cores, cpn=cpn, nodes=nodes)
    for k in ('mem_per_node', 'walltime', 'program', 'queue', 'jobclass'):
        d[k] = str(setting(sc, text, k, DEFAULTS[k]))
    if cores % (cpn * sc['runsPerJob']):
        return None
    return d


def render(d, text, cwd, jobname, inis, sequential):
    n = 1 if sequential else len(inis)
    omp = d['cores'] // (d['cpn'] * n)
    v = dict(JOBNAME=jobname, OMP=omp, MEM_MB=d['mem_per_node'], WALLTIME=d['walltime'], NUMNODES=d['nodes'], NUMRUNS=n,
             NUMMPI=d['nodes'] * d['cpn'], CHAINSPERNODE=d['cpn'], PPN=d['cpn'] * n * omp, MPIPERNODE=d['cpn'] * n,
             NUMTASKS=d['nodes'] * d['cpn'] * n, NUMSLOTS=d['cpn'] * n * omp * d['nodes'], ROOTDIR=cwd,
             ONERUN=int(len(inis) == 1 or sequential), PROGRAM=d['program'], QUEUE=d['queue'], JOBCLASS=d['jobclass'])
    fill = lambda s, x: re.sub('##([A-Z_]+)##', lambda m: str(x.get(m.group(1), m.group(0))), s)
    m = re.search('##RUN:(.*)##', text)
    cmds = []
    for ini in inis:
        if m:
            c = fill(m.group(1).strip(), dict(v, INI=ini, INIBASE=base_name(ini)))
        else:
            c = 'time mpirun -np %d %s %s > ./scripts/%s.log 2>&1' % (v['NUMMPI'], d['program'], ini, os.path.basename(ini))
        cmds.append(c + ('' if sequential else ' &'))
    out = []
    for line in text.replace('\r', '').split('\n'):
        if line.strip() == '##COMMAND##':
            out += cmds
        else:
            out.append(fill(line, v))
    return out


def effective(lines):
    """Lines that the shell or the queue manager acts on."""
    out = []
    for s in lines:
        s = ' '.join(s.split())
        if not s or (s.startswith('#') and not re.match(r'#(PBS|\$|SBATCH|MSUB|!)', s)):
            continue
        out.append(s)
    return out


def execute(sc, choices, tag, res):
    with JobSite(tag, choices, sc, res, max_steps=40000) as s:
        w = s.world
        for n, t in EXTRA_TEMPLATES.items():
            s.write('work/' + n, t)
        if sc['chains']:
            for it in s.main:
                s.write(it.root + '_1.txt', '  1.0 2.0 3.0\n')
        for k, pre in enumerate(sc['pre']):
            for imp in (False, True):
                names = [n for n in pre['names'] if ('_post_' in n) == imp]
                if not names:
                    continue
                args = ['grid', '--name'] + names
                if imp:
                    args += ['--importance']
                if pre['minimize']:
                    args += ['--importance_minimize' if imp else '--minimize']
                if pre['combine']:
                    args += ['--combineOneJobName', 'pre%d%d' % (k, imp)]
                n0 = len(s.cluster.jobs)
                p = s.run_script('p%d%d' % (k, imp), 'runbatch.py', args)
                if p.status:
                    res.violate('submit-fails', 'a plain submission failed: ' + p.stderr[-400:])
                    return
                for j in s.cluster.jobs[n0:]:
                    j.state = pre['state']
        isMPI = sc['kind'] == 'mpi'
        where = './scripts/' if isMPI else 'grid'
        index0 = s.job_index(where)
        live = set(sum([list(index0[j.id][1]) for j in s.cluster.visible() if j.id in index0], []))
        nsub0 = len(s.cluster.submissions)
        args = []
        for k, v in sc['job'].items():
            args += ['--' + k, str(v)]
        tname = sc['template'] or sc['env'].get('COSMOMC_job_template') or 'job_script'
        if sc['template']:
            args += ['--job_template', sc['template']]
        if sc['mode'] != 'run':
            args += ['--' + sc['mode']]
        with R.open(s.work + '/' + tname) as f:
            text = f.read()
        os.environ.update(sc['env'])
        o = dict(sc['filters'])
        variant = ''
        if isMPI:
            inis = [x if x.endswith('.ini') else x + '.ini' for x in sc['mpi']]
            chunks = [inis]
            runs, combine = 1, None
            script = 'runMPI.py'
            args = sc['mpi'] + args
        else:
            combine, runs = sc['combine'], sc['runsPerJob']
            fargs = filter_args(o)
            if sc['kind'] == 'minimize':
                fargs += ['--minimize']
                o['noimportance'] = True
                variant = '_minimize'
            elif sc['kind'] == 'importance_minimize':
                fargs += ['--importance_minimize']
                variant = '_minimize'
                if o.get('importance') is None:
                    o['importance'] = []
            if o.get('importance') is None:
                o['noimportance'] = True
            if sc['not_queued']:
                fargs += ['--not_queued']
            if sc['subitems']:
                fargs += ['--subitems']
            if combine:
                fargs += ['--combineOneJobName', combine]
            if runs > 1:
                if sc['env_runs']:
                    os.environ['COSMOMC_runsPerJob'] = str(runs)
                else:
                    fargs += ['--runsPerJob', str(runs)]
            sel = select(s.items, o)
            if not variant:
                sel = [i for i in sel if not i.parent or sc['chains']]
            if sc['not_queued']:
                sel = [i for i in sel if i.name + variant not in live]
            inis = [i.ini(variant) for i in sel]
            step = len(inis) or 1 if combine else runs
            chunks = [inis[k:k + step] for k in range(0, len(inis), step)]
            script = 'runbatch.py'
            args = ['grid'] + args + fargs
        if sc['deny'] is not None:
            count = [0]

            def deny(job):
                count[0] += 1
                return count[0] - 1 == sc['deny']
            s.cluster.deny = deny
        tree0 = s.tree(s.root, skip=['bin', 'cache', 'home'])
        p = s.world.script('cmd', script, args)
        p.fault_ok = True
        w.run(lambda: p.finished)
        for k in list(os.environ):
            if k.startswith('COSMOMC_'):
                del os.environ[k]
        if w.limit_hit:
            res.violate('no-end', 'the command did not end')
            return
        fired = dict(w.faults_fired)
        index = s.job_index(where)
        if isinstance(index, str):
            res.violate('index-unreadable', index)
            return
        subs = s.cluster.submissions[nsub0:]
        acc = [x for x in subs if not x.get('refused')]
        ref = reference(dict(sc, runsPerJob=runs), text, s.work)
        if ref is None:
            if p.status == 0 or subs:
                res.violate('bad-layout', 'cores do not divide into equal chains, but the command went on (status %s, %d submissions)' % (p.status, len(subs)))
            res.note('layout-refused')
            return
        if sc['mode'] == 'dryrun':
            if subs or index != index0:
                res.violate('dryrun-submits', '--dryrun submitted %d jobs' % len(subs))
                return
            t1 = s.tree(s.root, skip=['bin', 'cache', 'home'])
            if t1 != tree0:
                res.violate('dryrun-writes', '--dryrun changed %s' % sorted(k for k in set(t1) | set(tree0) if t1.get(k) != tree0.get(k)))
            res.note('dryrun')
            return
        if sc['mode'] == 'no_sub':
            if subs or index != index0:
                res.violate('no_sub-submits', '--no_sub submitted %d jobs' % len(subs))
                return
            if p.status and not fired:
                res.violate('command-fails', '--no_sub failed: ' + p.stderr[-400:])
                return
            if not fired:
                got = []
                for n, b in s.tree(s.work + '/scripts').items():
                    if n.endswith('_subscript') and tree0.get('work/scripts/' + n) != b:
                        got += run_commands(b.decode())[0]
                want = [i for i in inis if not any(os.path.join('work/scripts', q) in tree0 for q in [base_name(i) + '_subscript'])]
                if [i for i in want if got.count(i) != 1] and not sc['pre']:
                    res.violate('no_sub-script', '--no_sub for %s wrote scripts running %s' % (inis, got))
            res.note('no_sub')
            return
        # every submitted job: a complete script of its own
        for j, x in enumerate(subs):
            got, lines = run_commands(x['script'])
            if len(lines) != len(got):
                res.violate('script-wrong', 'job script has several runs in one line: %s' % lines)
                return
            if j >= len(chunks) or got != chunks[j]:
                res.violate('runs-wrong', '%s should submit jobs %s; job number %d runs %s' % (
                    args, [[base_name(i) for i in c] for c in chunks], j + 1, got))
                return
            rec = index.get(x['job'].id)
            m = re.search(r'/([^/]*)_subscript$', x['path'])
            jobname = rec[0] if rec else (m.group(1) if m else None)
            if jobname is None:
                continue
            if combine and jobname != combine:
                res.violate('jobname-wrong', 'combined job is called %s' % jobname)
                return
            if len(got) == 1 and not combine and jobname != base_name(got[0]):
                res.violate('jobname-wrong', 'job of %s is called %s' % (got, jobname))
                return
            if sc['job'].get('qsub'):
                q = ' '.join(render(ref, sc['job']['qsub'], s.work, jobname, got, bool(combine))).split()
                if x['words'][:-1] != q:
                    res.violate('submit-command', 'submitted with %s, should be %s' % (x['words'], q))
                    return
            want = effective(render(ref, text, s.work, jobname, got, bool(combine)))
            have = effective(x['script'].split('\n'))
            if want != have:
                d = [(a, b) for a, b in zip(want, have) if a != b][:2] or (want[len(have):], have[len(want):])
                res.violate('script-wrong', 'job script differs from the template filled in with the given settings: expected/got %s' % (d,))
                return
        # records
        lost_reply = 'cmdfail' in fired or 'cmdempty' in fired
        for j, x in enumerate(acc):
            rec = index.get(x['job'].id)
            if rec is None:
                if p.status == 0 and not lost_reply:
                    res.violate('not-recorded', 'accepted job %s is not recorded though the command succeeded' % x['job'].id)
                    return
                if not fired or (j < len(acc) - 1 and not lost_reply):
                    res.violate('not-recorded', 'accepted job %s is not recorded (status %s: %s)' % (x['job'].id, p.status, p.stderr[-300:]))
                    return
            elif rec[1] != tuple(base_name(i) for i in run_commands(x['script'])[0]):
                res.violate('record-wrong', 'job %s recorded with runs %s, runs %s' % (x['job'].id, rec[1], run_commands(x['script'])[0]))
                return
        extra = set(index) - set(index0) - {x['job'].id for x in acc}
        if extra:
            res.violate('refused-recorded', 'recorded jobs that were not accepted: %s' % sorted(extra))
            return
        if any(index.get(k) != v for k, v in index0.items()):
            res.violate('record-changed', 'records of earlier jobs changed')
            return
        names = [index[x['job'].id][0] for x in acc if x['job'].id in index]
        if len(set(names)) != len(names):
            res.violate('jobname-reused', 'several jobs of one command share a name: %s' % names)
            return
        refused = [x for x in subs if x.get('refused')]
        if refused and p.status == 0 and 'cmdempty' not in fired:
            res.violate('refusal-hidden', 'the queue manager refused %s, the command ended normally' % refused[0]['job'].name)
            return
        if not fired and not refused:
            if p.status:
                res.violate('command-fails', '%s %s failed: %s' % (script, args, p.stderr[-400:]))
                return
        if p.status == 0 and not lost_reply and len(subs) != len(chunks):
            res.violate('runs-missing', '%s selected %s but submitted %s' % (args, [[base_name(i) for i in c] for c in chunks],
                                                                             [run_commands(x['script'])[0] for x in subs]))
            return
        res.note('jobs', len(acc))
        res.note('runs', sum(len(c) for c in chunks))
        if sc['not_queued'] and live:
            res.note('not-queued-cases')
        if refused:
            res.note('refused')
        res.nontrivial = bool(subs)
        res.state = repr(sorted(index.items()))


def faults(rng, sc, base, tier):
    pts = [x for x in base.points if x[0] == 'cmd']
    plans = []
    q = [x for x in pts if x[2] in ('cmd', 'cmd-out')]
    for n, st, kind, rel in rng.sample(q, min(len(q), 4 if tier == 'quick' else 40)):
        plans.append({'%s:%d' % (n, st): dict(kind='cmdfail' if kind == 'cmd' else rng.choice(['cmdfail', 'cmdempty']) if rel in ('qsub', 'msub') else 'cmdfail')})
    wr = [x for x in pts if x[2] in ('write', 'close-w', 'open-w') and 'scripts' in x[3]]
    for n, st, kind, rel in rng.sample(wr, min(len(wr), 4 if tier == 'quick' else 40)):
        f = dict(kind=rng.choice({'write': ['enospc', 'torn', 'short'], 'close-w': ['eio'], 'open-w': ['eacces', 'enospc']}[kind]))
        if f['kind'] in ('torn', 'short'):
            f['frac'] = round(rng.random(), 2)
        plans.append({'%s:%d' % (n, st): f})
    # (a lost grid description is C11's subject)
    rd = [x for x in pts if x[2] in ('read', 'open-r') and not x[3].startswith('cache')]
    for n, st, kind, rel in rng.sample(rd, min(len(rd), 2)):
        plans.append({'%s:%d' % (n, st): dict(kind='eio')})
    return plans


def shrink(sc):
    for k in range(len(sc['pre'])):
        yield dict(sc, pre=sc['pre'][:k] + sc['pre'][k + 1:])
    for k in list(sc['filters']):
        yield dict(sc, filters={a: b for a, b in sc['filters'].items() if a != k})
    for k in list(sc['job']):
        yield dict(sc, job={a: b for a, b in sc['job'].items() if a != k})
    if sc['env']:
        yield dict(sc, env={})
    if sc['template']:
        yield dict(sc, template=None)
