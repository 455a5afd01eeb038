#!/usr/bin/env python3
"""Decides one property by seeded search over simulated executions.

  check.py PROP               search (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py --replay FILE      run a replay file again
  check.py --setup            build only
exit 0: the property held on everything explored; 1: violation (with replay file); 3: no answer"""
import collections, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'driver'))
sys.dont_write_bytecode = True
import profiles, simlib

CORES = os.cpu_count() or 4


def log(*a):
    print(*a, flush=True)


def die(msg):
    log('CHECK ERROR:', msg)
    sys.exit(3)


# ------------------------------------------------------------------ build
def source_files():
    out = []
    for base, exts in ((REPO + '/lib', ('.cc', '.h', '.in')), (REPO + '/include', ('.h',)), (REPO + '/src', ('.cc', '.h', '.c', '.txt')), (VERIF + '/sim', ('.cc', '.h', 'Makefile'))):
        for d, _, fs in os.walk(base):
            for f in fs:
                if f.endswith(exts) and f not in ('bees-version.c', 'bees-usage.c', 'configure.h', '.version.cc'):
                    out.append(os.path.join(d, f))
    return sorted(out)


def build():
    h = hashlib.sha256()
    for f in source_files():
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fd:
            h.update(hashlib.sha256(fd.read()).digest())
    key = h.hexdigest()[:16]
    base = os.path.join(VERIF, 'build')
    os.makedirs(base, exist_ok=True)
    b = os.path.join(base, key)
    with open(os.path.join(base, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(b + '/simbees'):
            # at most a few builds are kept
            old = sorted((os.path.getmtime(os.path.join(base, d)), d) for d in os.listdir(base) if re.fullmatch('[0-9a-f]{16}', d))
            for _, d in old[:-3]:
                shutil.rmtree(os.path.join(base, d), ignore_errors=True)
            os.makedirs(b, exist_ok=True)
            p = subprocess.run(['make', '-C', VERIF + '/sim', '-j%d' % CORES, 'REPO=' + REPO, 'B=' + b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode or not os.path.exists(b + '/simbees'):
                sys.stdout.write(p.stdout.decode(errors='replace')[-4000:])
                die('build failed')
        else:
            os.utime(b)
    return b + '/simbees', key


# ------------------------------------------------------------------ known findings
def known_findings():
    """lines 'finding: property=<id> key=<key> match=<regular expression of the message>'"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) match=(.*)$', l.strip())
            if m:
                out.append(m.groups())
    return out


def is_known(prop, v, known):
    for k in known:
        if k[0] == prop and k[1] == v['key'] and re.search(k[2], v['msg']):
            return k
    return None


REAL = ['all of /repo/lib and /repo/src of the working tree (daemon main(), option parsing, signal handling, all scan modes, crawlers, hash table, resolver, dedupe and copy paths, task scheduler, locks, caches, state save)', 'libstdc++ containers and exceptions']
STUB = ['pthread threads, mutexes, condition variables, once, thread-local destructors (seeded scheduler)', 'clock, sleeps, timeouts, CPU time, load average (simulated)', 'btrfs: trees, extents, back references, snapshots, transactions, delayed allocation, compression, dedupe and search ioctls (model fs.cc/sys.cc)', 'page cache and durability of the state directory (model)', 'signals, random numbers, process start, exit, kill and machine crash (simulated)', 'malloc (deterministic arena)']


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()

    def plan(self, i):
        return profiles.plan(self.prop, self.seed * 1000003 + i)

    def run(self):
        prop, tier = self.prop, self.tier
        self.bin, self.key = build()
        self.t_build = time.time() - self.t0
        sim = self.sim = simlib.Sim(self.bin)
        count, seconds = profiles.BUDGET.get(prop, profiles.BUDGET['*'])
        if tier == 'thorough':
            count, seconds = 10 ** 9, 720
        if os.environ.get('VERIF_RUNS'):
            count = int(os.environ['VERIF_RUNS'])
        if os.environ.get('VERIF_SECONDS'):
            seconds = float(os.environ['VERIF_SECONDS'])
        known = known_findings()
        end = time.time() + seconds
        # evidence of the run
        self.outcomes = collections.Counter(); self.faults = collections.Counter(); self.stats = collections.Counter()
        self.sites = collections.Counter(); self.prof = collections.Counter(); self.cross = collections.Counter()
        self.hashes = set(); self.nontrivial = set(); self.sim_ns = 0; self.tot = collections.Counter()
        self.det_runs = self.det_bad = 0; self.samples = []; self.errors = []; self.known_hit = {}; self.cov = 0; self.n = 0; self.maxthr = 0
        self.pairs = set()
        stop = threading.Event()
        lock = threading.Lock()
        found = []
        nxt = [0]

        def one(i):
            name, lines = self.plan(i)
            extra = []
            if i % 16 == 0:
                extra = ['cfg dump_cov 1', 'cfg dump_pairs 1']
            j = sim.run(lines + extra)
            j2 = None
            if i % 40 == 7:
                j2 = sim.run(lines)
            with lock:
                self.account(i, name, lines, j)
                if j2 is not None:
                    self.det_runs += 1
                    if j2['hash'] != j['hash'] or j2['outcome'] != j['outcome']:
                        if 'real_timeout' not in (j['outcome'], j2['outcome']):
                            self.det_bad += 1
                            log('WARNING: seed %d ran differently the second time' % i)
                for v in j['violations']:
                    if v['prop'] != prop:
                        self.cross[v['prop'] + ' ' + v['key']] += 1
                        continue
                    if j.get('model_error'):
                        continue
                    k = is_known(prop, v, known)
                    if k:
                        self.known_hit.setdefault(k, v)
                        continue
                    found.append((i, name, lines, j, v))
                    stop.set()

        def worker():
            while not stop.is_set() and time.time() < end:
                with lock:
                    i = nxt[0]
                    nxt[0] += 1
                if i >= count:
                    return
                try:
                    one(i)
                except Exception as e:
                    with lock:
                        self.errors.append('driver: %r' % e)
                    return

        # the histories of the recorded findings come first
        for f in sorted(glob.glob(VERIF + '/driver/known/%s-*.plan' % prop)):
            lines = open(f).read().splitlines()
            j = sim.run(lines)
            for v in j['violations']:
                if v['prop'] == prop and not j.get('model_error'):
                    k = is_known(prop, v, known)
                    if k:
                        self.known_hit.setdefault(k, v)
                    else:
                        found.append((-1, os.path.basename(f), lines, j, v))
        verdict = None
        unrepro = 0
        while True:
            stop.clear()
            ths = [threading.Thread(target=worker) for _ in range(CORES)]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            if not found:
                break
            found.sort(key=lambda f: f[0])
            f = found.pop(0)
            verdict = self.report(*f)
            if verdict:
                break
            unrepro += 1
            found[:] = found[:3]
            if time.time() >= end and not found:
                break
            if unrepro > 5:
                break
        self.t_run = time.time() - self.t0 - self.t_build
        for k, v in self.known_hit.items():
            log('KNOWN-FINDING: property=%s %s' % (prop, v['msg']))
        bad = sum(v for k, v in self.outcomes.items() if k in ('broken', 'real_timeout', 'harness_error'))
        self.evidence(1 if verdict else 0)
        log('%s: %d runs, %d distinct, %.1f simulated hours, outcomes %s, %.0f s' % (prop, self.n, len(self.hashes), self.sim_ns / 3.6e12, dict(self.outcomes), time.time() - self.t0))
        if self.cross:
            log('  seen of other properties (decided by their own checks):', dict(self.cross.most_common(8)))
        for e in self.errors[:5]:
            log('  simulator:', e)
        if verdict:
            log('VIOLATION property=%s replay=%s' % (prop, verdict))
            return 1
        if unrepro:
            die('%d violations did not reproduce' % unrepro)
        if self.n == 0 or bad * 5 > self.n:
            die('%d of %d runs gave no answer' % (bad, self.n))
        return 0

    def account(self, i, name, lines, j):
        self.n += 1
        self.outcomes[j['outcome']] += 1
        self.prof[name] += 1
        if j.get('model_error'):
            self.errors.append('seed %d: %s' % (i, j['model_error']))
        if not j.get('hash'):
            return
        self.hashes.add(j['hash'])
        self.sim_ns += j['sim_ns']
        for k in ('steps', 'switches', 'preempts', 'syscalls', 'incs', 'dedupes', 'copies', 'spurious'):
            self.tot[k] += j[k]
        self.maxthr = max(self.maxthr, j['threads'])
        for k, v in j['stats'].items():
            if '_max' in k:
                self.stats[k] = max(self.stats[k], v)
            else:
                self.stats[k] += v
        for k, v in j['faults'].items():
            self.faults[k] += v
        for k, v in j['sites'].items():
            self.sites[k] += v
        nt = profiles.nontrivial(self.prop, j)
        if nt:
            self.nontrivial.add(j['hash'])
        if 'covmap' in j:
            self.cov |= int(j['covmap'], 16)
            self.pairs.update(j['pairset'])
        if len(self.samples) < 2 and nt and len(lines) < 45:
            self.samples.append({'index': i, 'profile': name, 'plan': lines, 'outcome': j['outcome'], 'hash': j['hash'], 'simulated_s': round(j['sim_ns'] / 1e9, 3), 'steps': j['steps'], 'dedupes': j['dedupes'], 'copies': j['copies'], 'faults': j['faults']})

    def report(self, i, name, lines, j, v):
        """gate, minimise, write the replay file; None if the violation is not reproducible"""
        prop, sim = self.prop, self.sim
        key = v['key']
        log('violation in seed %d (%s): %s: %s' % (i, name, key, v['msg']))
        for _ in range(2):
            r = sim.run(lines)
            if r['hash'] != j['hash'] or (prop, key) not in simlib.keys(r):
                log('  does not reproduce: hash %s, then %s %s' % (j['hash'], r['hash'], simlib.keys(r)))
                self.errors.append('seed %d: violation %s did not reproduce' % (i, key))
                return None
        known = known_findings()

        def want(r):
            return any(x['prop'] == prop and x['key'] == key and not is_known(prop, x, known) for x in r['violations']) and not r.get('model_error')
        budget = 45 if self.tier == 'quick' else 150
        with ThreadPoolExecutor(CORES) as ex:
            small = simlib.minimise(sim, lines, want, budget, lambda f, c: ex.map(f, c))
        r = sim.run(small)
        r2 = sim.run(small)
        if not want(r) or r['hash'] != r2['hash']:
            small, r = lines, j
        vv = [x for x in r['violations'] if x['prop'] == prop and x['key'] == key][0]
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%d.plan' % (prop, re.sub(r'[^A-Za-z0-9]+', '_', key), i))
        with open(path, 'w') as f:
            f.write('# property %s key %s\n# %s\n# found with VERIF_SEED=%d index %d profile %s; %d plan lines, minimised from %d\n# at simulated time %.6f s, scheduler step %d, incarnation %d; execution hash %s\n# replay: python3 %s --replay %s\n' % (
                prop, key, vv['msg'].replace('\n', ' '), self.seed, i, name, len(small), len(lines), vv['t'], vv['step'], vv['inc'], r['hash'], os.path.join(VERIF, 'driver/check.py'), path))
            f.write('\n'.join(small) + '\n')
        log('  minimised to %d lines: %s' % (len(small), vv['msg']))
        for l in small:
            log('    ' + l)
        return path

    def evidence(self, nviol):
        wall = time.time() - self.t0
        cov = {
            'evaluations': self.n,
            'distinct_nontrivial': len(self.nontrivial),
            'rule': 'one evaluation is one simulated execution of the daemon (or of its library classes) under a plan made from VERIF_SEED and the index of the run: configuration, initial filesystem, operations of other users, faults, stops, crashes and scheduling seed all vary (profiles: see profiles). Two executions are distinct if the hash over all their scheduling choices, system calls and events differs; non-trivial: ' + profiles.NONTRIVIAL_TEXT.get(self.prop, profiles.NONTRIVIAL_TEXT['*']),
            'samples': self.samples or [{'note': 'no run qualified as a sample'}],
            'runs_per_hour': round(self.n / max(self.t_run, 0.001) * 3600),
            'distinct_executions': len(self.hashes),
            'simulated_hours': round(self.sim_ns / 3.6e12, 2),
            'simulated_hours_per_wall_hour': round(self.sim_ns / 1e9 / max(self.t_run, 0.001), 1),
            'scheduler_steps': self.tot['steps'], 'context_switches': self.tot['switches'], 'forced_preemptions': self.tot['preempts'], 'spurious_wakeups': self.tot['spurious'],
            'system_calls': self.tot['syscalls'], 'process_starts': self.tot['incs'], 'dedupe_calls': self.tot['dedupes'], 'copies': self.tot['copies'], 'max_threads': self.maxthr,
            'distinct_switch_pairs_sampled': len(self.pairs), 'basic_blocks_reached_sampled': bin(self.cov).count('1'),
            'profiles': dict(self.prof), 'outcomes': dict(self.outcomes),
            'faults_fired': dict(self.faults),
            'injected_other': {k: self.stats[k] for k in ('kills', 'machines', 'sigs', 'spurious', 'site_ops', 'op_wall', 'op_load') if self.stats.get(k)},
            'fault_sites_reached': dict(self.sites),
            'probes': dict(sorted(self.stats.items())),
            'determinism_reruns': self.det_runs, 'determinism_mismatches': self.det_bad,
            'violations_of_other_properties_seen': dict(self.cross),
            'real_code': REAL, 'stubbed': STUB,
            'build_key': self.key, 'build_s': round(self.t_build, 1),
        }
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration', 'coverage': cov,
              'assumptions': ['the btrfs model answers like the kernel for the calls bees makes', 'memory is sequentially consistent (threads are switched at synchronisation points and basic blocks)', 'sampling: a quiet run is evidence, not proof'],
              'wall_s': round(wall, 2), 'violations': nviol}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, '.%s.%d' % (self.prop, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(d, self.prop + '.json'))


def replay(path):
    b, _ = build()
    lines = [l.rstrip('\n') for l in open(path)]
    head = ' '.join(l for l in lines if l.startswith('#'))
    m = re.search(r'property (\S+) key (\S+)', head)
    r = simlib.Sim(b).run([l for l in lines if not l.startswith('#')])
    log('outcome %s hash %s' % (r['outcome'], r['hash']))
    for v in r['violations']:
        log('%s %s: %s (t=%.6f step=%d)' % (v['prop'], v['key'], v['msg'], v['t'], v['step']))
    if m and m.groups() in simlib.keys(r):
        log('VIOLATION property=%s replay=%s' % (m.group(1), path))
        return 1
    return 0 if r['hash'] else 3


def main():
    a = sys.argv[1:]
    if a[:1] == ['--setup']:
        build()
        return 0
    if a[:1] == ['--replay']:
        return replay(os.path.abspath(a[1]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if '--thorough' in a:
        tier = 'thorough'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = int(hashlib.sha256(os.environ['VERIF_SEED'].encode()).hexdigest()[:8], 16)
    return Check(a[0], tier, seed).run()


if __name__ == '__main__':
    sys.exit(main())
