#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] -- decides one property by seeded simulation.

Builds the server of /repo into simulator images, lets eight processes search
schedules, faults and workloads, confirms and minimises what they find, and
writes evidence/PROPERTY.json.
"""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('YSIM_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
sys.path.insert(0, HERE)
from checks import CHECKS, ASSUMPTIONS, COMPONENTS


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\1')
    return h.hexdigest()[:16]


def sources(d, exts):
    out = []
    for b, ds, fs in os.walk(d):
        out += [os.path.join(b, f) for f in fs if f.endswith(exts)]
    return out


def build():
    """The image directory for the current tree, built when it is not there."""
    sim = os.path.join(ROOT, 'sim')
    simsrc = [p for p in sources(sim, ('.cpp', '.hpp', '.txt', '.sh'))]
    nodesrc = sources(REPO + '/src', ('.cpp', '.hpp')) + sources(REPO + '/cybozu', ('.cpp', '.hpp'))
    c = os.path.join(REPO, 'COPYING')
    if os.path.exists(c):
        nodesrc.append(c)
    ks = digest(simsrc)
    kn = digest(nodesrc + [os.path.join(sim, 'build.sh'), os.path.join(sim, 'shim.cpp')])
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'img-%s-%s' % (kn, ks))
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out + '/ok'):
            # reuse the half that is already there
            for d in sorted(os.listdir(BUILD)):
                m = re.match(r'img-(\w+)-(\w+)$', d)
                if not m or not os.path.exists(os.path.join(BUILD, d, 'ok')):
                    continue
                src = os.path.join(BUILD, d)
                if m.group(1) == kn and not os.path.exists(out + '/node.so'):
                    os.makedirs(out, exist_ok=True)
                    shutil.copy2(src + '/node.so', out + '/node.so')
                if m.group(2) == ks and not os.path.exists(out + '/ysim'):
                    os.makedirs(out, exist_ok=True)
                    shutil.copy2(src + '/ysim', out + '/ysim')
            os.makedirs(out, exist_ok=True)
            want = [t for t in ('node.so', 'ysim') if not os.path.exists(out + '/' + t)]
            if want:
                tmp = out + '.tmp'
                shutil.rmtree(tmp, ignore_errors=True)
                r = subprocess.run(['bash', sim + '/build.sh', REPO, tmp] + want, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode != 0:
                    sys.stdout.write(r.stdout.decode(errors='replace')[-4000:])
                    print('check: the build failed')
                    shutil.rmtree(tmp, ignore_errors=True)
                    shutil.rmtree(out, ignore_errors=True)
                    sys.exit(2)
                for t in want:
                    shutil.move(tmp + '/' + t, out + '/' + t)
                shutil.rmtree(tmp, ignore_errors=True)
            open(out + '/ok', 'w').close()
        os.utime(out + '/ok')
        old = sorted((d for d in os.listdir(BUILD) if d.startswith('img-') and os.path.exists(os.path.join(BUILD, d, 'ok'))),
                     key=lambda d: os.path.getmtime(os.path.join(BUILD, d, 'ok')))
        for d in old[:-4]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    return out


def known(prop):
    """Listed findings: (class, text in the message, what)."""
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) class=(\S+) match="([^"]*)" (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main():
    if len(sys.argv) > 1 and sys.argv[1] == 'build':
        print(build())
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cfg = CHECKS[prop]
    t0 = time.time()
    img = build()
    built = time.time() - t0
    budget = float(os.environ.get('YSIM_TIME', cfg.get('thorough' if tier == 'thorough' else 'quick', 600 if tier == 'thorough' else 40)))
    procs = int(os.environ.get('YSIM_PROCS', os.cpu_count() or 8))
    outdir = os.path.join(ROOT, 'replays', prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    kn = known(prop)
    args = []
    for s in cfg['scen']:
        args += ['--scen', s]
    for c in cfg.get('ignore', []):
        args += ['--ignore', c]
    for k in kn:
        args += ['--known', k[0] + '|' + k[1]]
    for o in cfg.get('opt', []):
        args += ['--opt', o]
    base = seed * 2 + (1 if tier == 'thorough' else 0)
    ps = []
    cpus = sorted(os.sched_getaffinity(0))
    for i in range(procs):
        env = dict(os.environ, YSIM_CPU=str(cpus[i % len(cpus)]), YSIM_MODULES=str(cfg.get('modules', 6)))
        log = open(os.path.join(outdir, 'batch%d.out' % i), 'w+')
        ps.append((subprocess.Popen([img + '/ysim', 'batch', img + '/node.so'] + args + [
            '--first', str(i), '--stride', str(procs), '--time', str(budget), '--property', prop, '--dir', outdir,
            '--seedbase', str(base), '--per', str(cfg.get('per', 3)), '--min', str(cfg.get('min', 20))],
            stdout=log, stderr=subprocess.STDOUT, env=env, start_new_session=True), log))
    viols, notes = [], []
    sums = {}

    def scan():
        for i, (p, log) in enumerate(ps):
            log.flush()
            with open(log.name) as f:
                for line in f:
                    if not line.endswith('\n'):
                        continue
                    if line.startswith('VIOL ') and line not in viols:
                        viols.append(line)
                    elif line.startswith('NOTE ') and line not in notes:
                        notes.append(line)
                    elif line.startswith('SUMMARY ') and i not in sums:
                        sums[i] = json.loads(line[8:])
    hard = time.time() + budget + 150
    while True:
        alive = [p for p, _ in ps if p.poll() is None]
        scan()
        if not alive or viols or time.time() > hard:
            break
        time.sleep(0.2)
    if viols:                                   # one confirmed violation is enough
        end = time.time() + 3
        while time.time() < end and any(p.poll() is None for p, _ in ps):
            time.sleep(0.1)
    for p, _ in ps:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        p.wait()
    scan()
    for _, log in ps:
        log.close()
    # every violation must replay exactly in a fresh process
    confirmed, unreplayed = [], []
    for v in viols[:4]:
        path = v.split(' ', 2)[1]
        env = dict(os.environ, YSIM_MODULES=str(cfg.get('modules', 6)))
        r = subprocess.run([img + '/ysim', 'replay', img + '/node.so', '--replay', path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, timeout=300)
        (confirmed if b'replay EXACT' in r.stdout else unreplayed).append((path, v.split(' ', 2)[2].strip().replace('\\n', '\n')))
    S = list(sums.values())

    def tot(k):
        return sum(s[k] for s in S)

    def merge(k):
        d = {}
        for s in S:
            for a, b in s[k].items():
                d[a] = d.get(a, 0) + b
        return d
    distinct = {'h': set(), 'i': set(), 's': set()}
    for i in range(procs):
        p = os.path.join(outdir, 'distinct-%d.txt' % i)
        if os.path.exists(p):
            for line in open(p):
                distinct[line[0]].add(line[2:])
            os.unlink(p)
    wall = time.time() - t0
    search = max([s['wall'] for s in S] or [wall])
    runs = tot('runs') if S else 0
    level = cfg.get('level', 'exploration')
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': len(distinct['h']),
            'rule': 'One evaluation is one simulated execution of the real server under one (workload seed, schedule seed) pair of the scenarios listed. '
                    'Counted as distinct and non-trivial: executions whose history of replies (commands, results, values, in order of invocation) differs from every other one of this check.',
            'samples': [x for s in S for x in s['samples']][:6],
            'scenarios': merge('scenarios'),
            'seeds': len(distinct['s']),
            'runs_per_hour': int(runs * 3600 / search) if search else 0,
            'seeds_per_hour': int(len(distinct['s']) * 3600 / search) if search else 0,
            'simulated_seconds': (tot('sim_ns') / 1e9) if S else 0,
            'client_replies': tot('ops') if S else 0,
            'scheduling_points': tot('steps') if S else 0,
            'context_switches': tot('switches') if S else 0,
            'distinct_interleavings': len(distinct['i']),
            'distinct_interleavings_measure': 'distinct hashes of the sequence of (thread switched to, call depth switched from), over all runs of this check',
            'search_strategies_runs': merge('strategies'),
            'faults_injected': merge('faults'),
            'situations_reached': merge('reach'),
            'run_ends': merge('ends'),
            'oracle': {'keys_checked': tot('chk_keys'), 'operations_checked': tot('chk_ops'), 'states_searched': tot('chk_states'), 'undetermined_keys': tot('chk_undetermined')} if S else {},
            'determinism_rechecks': tot('det_checked') if S else 0, 'determinism_failures': tot('nondet') if S else 0,
            'unconfirmed_reports': tot('unconfirmed') if S else 0, 'simulator_failures': merge('bad_why'),
            'known_findings_hit': merge('known'),
            'components': COMPONENTS,
            'build_seconds': round(built, 1), 'search_seconds': round(search, 1), 'processes': procs,
        },
        'assumptions': ASSUMPTIONS + cfg.get('assumptions', []),
        'wall_s': round(wall, 2), 'violations': len(confirmed),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d simulated runs, %d replies, %.0f simulated seconds, %d distinct histories, %.1f s' % (
        prop, tier, runs, ev['coverage']['client_replies'], ev['coverage']['simulated_seconds'], ev['coverage']['distinct_nontrivial'], wall))
    for k in kn:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))
    if confirmed:
        for path, msg in confirmed[:1]:
            print(msg[:3000])
            for n in notes[:1]:
                print(n.strip())
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    bad = sum(ev['coverage']['simulator_failures'].values())
    if unreplayed:
        print('check: a violation did not replay: ' + unreplayed[0][1][:1500])
        return 2
    if not S or len(S) < procs or runs == 0 or bad > max(2, runs // 50):
        print('check: the simulator failed (%d of %d runs): %s' % (bad, runs, ev['coverage']['simulator_failures']))
        for i in range(procs):
            if i not in sums:
                print(open(os.path.join(outdir, 'batch%d.out' % i)).read()[-500:])
                break
        return 2
    return 0


sys.exit(main())
