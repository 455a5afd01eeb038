"""What is simulated for each property: weighted profiles of plans (see gen.py) and extra plan lines."""
import random
import gen, hgen

# realistic failures of system calls on user data and trees
DATA_FAULTS = [
    ('open_file', ['EIO', 'ENOENT', 'ESTALE', 'EACCES', 'ENOMEM', 'EMFILE', 'ELOOP'], 3),
    ('open_root', ['EIO', 'ENOENT', 'ESTALE', 'ENOMEM', 'EMFILE'], 1),
    ('open_tmp', ['ENOSPC', 'EIO', 'EMFILE', 'ENOMEM', 'EDQUOT'], 1.5),
    ('pread', ['EIO', 'ENOMEM', 'EINTR', 'short', 'empty'], 4),
    ('pread_tmp', ['EIO', 'ENOMEM', 'short', 'empty'], 1.5),
    ('pwrite_tmp', ['ENOSPC', 'EIO', 'EINTR', 'EDQUOT', 'short'], 2.5),
    ('logino', ['ENOMEM', 'EIO', 'ENOENT', 'EINTR', 'empty'], 3),
    ('inopaths', ['ENOMEM', 'EIO', 'ENOENT', 'empty'], 2),
    ('inolookup', ['ENOMEM', 'EIO', 'ENOENT'], 0.7),
    ('dedupe', ['EIO', 'ENOMEM', 'ETXTBSY', 'EINVAL', 'ENOSPC', 'EPERM', 'EXDEV', 'EOPNOTSUPP', 'status', 'partial'], 4),
    ('search_sub', ['EIO', 'ENOMEM', 'EINTR', 'empty'], 2),
    ('search_root', ['EIO', 'ENOMEM', 'EINTR', 'empty'], 1.5),
    ('search_extent', ['EIO', 'ENOMEM', 'EINTR', 'empty'], 2),
    ('search_chunk', ['EIO', 'ENOMEM', 'EINTR', 'empty'], 1),
    ('fstat', ['EIO', 'ESTALE', 'ENOMEM'], 2),
    ('getflags', ['EIO', 'ENOTTY', 'ENOMEM'], 1.2),
    ('setflags', ['EIO', 'EOPNOTSUPP', 'ENOSPC'], 0.8),
    ('readahead', ['EIO', 'EINVAL'], 0.5),
    ('ftrunc_tmp', ['EIO', 'ENOSPC'], 1.2),
    ('getrusage', ['EINVAL'], 0.2),
    ('fsinfo', ['EIO', 'ENOMEM'], 0.4),
]
# failures in the state directory
STATE_FAULTS = [
    ('write_state', ['EIO', 'ENOSPC', 'EINTR', 'EDQUOT', 'short', 'partial'], 4),
    ('fsync', ['EIO', 'ENOSPC', 'EDQUOT'], 3),
    ('rename', ['EIO', 'ENOSPC', 'EDQUOT'], 3),
    ('open_home', ['EIO', 'ENOSPC', 'EMFILE', 'ENOMEM', 'EACCES', 'EDQUOT'], 2),
    ('unlink', ['EIO', 'EACCES'], 1),
    ('fstatfs', ['EIO'], 0.5),
    ('read_home', ['EIO', 'short'], 0.5),
]
HASH_FAULTS = [
    ('pwrite_hash', ['EIO', 'ENOSPC', 'EINTR', 'short', 'EDQUOT'], 4),
    ('pread_hash', ['EIO', 'short', 'ENOMEM'], 1.5),
]
CALM = dict(faults=[], n_faults=(0, 0))


def faulty(sites, n=(1, 6), **kw):
    d = dict(faults=sites, n_faults=n)
    d.update(kw)
    return d


def die(prop, **kw):
    d = {'die_prop': prop}
    d.update(kw)
    return {'cfg': d}


def cfg(**kw):
    return {'cfg': kw}


def mix(*ds):
    o = {}
    for d in ds:
        for k, v in d.items():
            if isinstance(v, dict) and isinstance(o.get(k), dict):
                o[k] = dict(o[k], **v)
            else:
                o[k] = v
    return o


RACY = dict(p_site=0.9, n_ops=(8, 40), ops=dict(write=6, writeb=4, trunc=3, clone=4, punch=2, falloc=1, rename=2, unlink=2, snap=2, restore=2, mkdup=4))
CLASHES = dict(kinds=dict(collide=6, dup=4, part=3), pool_small=True)
CRASHY = dict(kills=(0, 3), machines=(0, 2), stops=(0, 2), active_s=(5, 7200), cfg={'keep_committed': 1, 'max_inc': 20})
STATEFUL = dict(hash_init=['evil', 'evil', 'random', 'sparse', 'dup'], probe=0.7)
LONG = dict(active_s=(600, 20000))
SMALLHASH = dict(hash_sizes=[131072, 131072, 262144])

P = {}
P['P01'] = [
    (3, 'races', RACY),
    (2, 'collisions', mix(RACY, CLASHES)),
    (2, 'faults', mix(RACY, faulty(DATA_FAULTS))),
    (1, 'stale-table', mix(RACY, STATEFUL)),
    (1, 'crashes', mix(RACY, CRASHY)),
    (1, 'base', {}),
]
P['P02'] = [
    (2, 'base', {}),
    (2, 'links', dict(p_site=0.8, n_ops=(8, 30), ops=dict(symswap=6, rename=3, link=2), symlinks=1.0)),
    (2, 'collisions', CLASHES),
    (1, 'faults', faulty(DATA_FAULTS + STATE_FAULTS)),
    (1, 'stops', dict(stops=(1, 3))),
    (1, 'stale-table', STATEFUL),
]
P['P03'] = [
    (4, 'base', mix(die('P03', probe_prop='P03'), dict(probe=0.5))),
    (1.5, 'stops', mix(die('P03', probe_prop='P03'), dict(stops=(1, 4), probe=0.4))),
    (1.5, 'faults', mix(die('P03', probe_prop='P03'), faulty(DATA_FAULTS, (1, 4)), dict(probe=0.9))),
    (1, 'long', mix(die('P03', probe_prop='P03'), LONG, dict(n_ops=(10, 40), ops=dict(mkdup=12, mkfile=4)))),
    (2, 'arrivals', mix(die('P03', probe_prop='P03', share_gap_s=120), LONG, dict(n_ops=(5, 25), ops=dict(mkdup=20, mkfile=3, snap=0, delsub=0, setro=0, rename=0, link=0, unlink=0, punch=0, trunc=0, balance=0, defrag=0)))),
]
P['P04'] = [
    (3, 'base', dict(restart=0.9)),
    (1, 'static', dict(n_ops=(0, 0), restart=1.0, n_file=(3, 20))),
    (1, 'stops', dict(stops=(1, 3), restart=0.9)),
    (1, 'crashes', mix(CRASHY, dict(restart=0.7))),
    (1, 'faults', mix(faulty(DATA_FAULTS, (1, 4)), dict(restart=0.6))),
    (1, 'partial', dict(kinds=dict(part=8, rep=2, zero=2), restart=0.9)),
]
P['P05'] = [
    (3, 'static', dict(n_ops=(0, 0), n_file=(3, 20), restart=0.6)),
    (2, 'partial', dict(n_ops=(0, 0), n_file=(4, 20), kinds=dict(part=8, zero=3, rep=2), restart=0.5)),
    (2, 'changes', dict(n_ops=(5, 30))),
    (1, 'static-init-changes', dict(n_ops=(0, 0), n_file=(4, 16), init_ops=0.5)),
    (1, 'stops', dict(n_ops=(0, 8), stops=(1, 3))),
]
P['P06'] = [
    (2, 'base', die('P06')),
    (2, 'probes', mix(die('P06'), dict(stops=(0, 2), probe=1.0, n_file=(2, 12), n_ops=(0, 10), walls=0.3))),
    (3, 'stops', mix(die('P06'), dict(stops=(1, 4)))),
    (3, 'crashes', mix(CRASHY, die('P06', keep_committed=1, max_inc=20))),
    (1, 'state-faults', mix(CRASHY, faulty(STATE_FAULTS, (1, 4)), die('P06', keep_committed=1, max_inc=20))),
    (1, 'long', mix(die('P06'), LONG, dict(stops=(0, 2), n_ops=(10, 40)))),
    (1, 'walls', mix(die('P06'), dict(walls=1.0, stops=(0, 3)))),
]
P['P07'] = [
    (3, 'crashes', mix(CRASHY, dict(n_ops=(0, 12)))),
    (3, 'state-faults', mix(CRASHY, faulty(STATE_FAULTS, (1, 5)), dict(n_ops=(0, 12)))),
    (2, 'faults-only', mix(faulty(STATE_FAULTS, (1, 5)), dict(n_ops=(0, 12)), LONG)),
    (1, 'walls', mix(CRASHY, dict(walls=1.0, n_ops=(0, 12)))),
    (1, 'many-subvols', mix(CRASHY, dict(n_sub=(5, 20), n_file=(5, 20)))),
]
P['P08'] = [
    (2, 'base', mix(SMALLHASH, dict(restart=1.0))),
    (3, 'stops', mix(SMALLHASH, dict(stops=(1, 4), restart=0.5))),
    (1, 'faults', mix(SMALLHASH, faulty(HASH_FAULTS, (1, 3)), dict(stops=(0, 2), active_s=(5, 20000)))),
    (2, 'late-duplicates', mix(SMALLHASH, cfg(probe_prop='P08'), dict(stops=(1, 3), probe=1.0, kinds=dict(dup=8, uniq=4)))),
    (1, 'walls', mix(SMALLHASH, dict(walls=1.0, stops=(0, 2), restart=0.7, active_s=(60, 20000)))),
    (1, 'big-table', dict(hash_sizes=[4194304, 8388608], restart=1.0, stops=(0, 2))),
    (1, 'start-faults', mix(SMALLHASH, faulty([('open_home', ['EMFILE', 'ENFILE', 'EIO', 'EACCES', 'ENOMEM'], 1)], (1, 3), p_fault=(0.1, 0.6)), cfg(max_inc=20), dict(stops=(2, 5), active_s=(5, 3000)))),
]
P['P09'] = [
    (4, 'stale', mix(STATEFUL, die('P09', probe_prop='P09', also_P01='P09'))),
    (1, 'stale-races', mix(RACY, STATEFUL, die('P09', probe_prop='P09', also_P01='P09'))),
    (1, 'crashes', mix(CRASHY, STATEFUL, die('P09', probe_prop='P09', keep_committed=1, max_inc=20, also_P01='P09'))),
    (1, 'compressed', mix(STATEFUL, die('P09', probe_prop='P09', evil_n=2000, also_P01='P09'), dict(flags=dict(c=8)))),
]
P['P10'] = [
    (3, 'stops', mix(die('P10'), dict(stops=(1, 4)))),
    (2, 'startup', mix(die('P10'), dict(stops=(1, 3), early=True))),
    (2, 'faults', mix(die('P10'), faulty(DATA_FAULTS + STATE_FAULTS + HASH_FAULTS), dict(stops=(1, 3)))),
    (2, 'paused', mix(die('P10'), dict(stops=(1, 3), pauses=3))),
    (1, 'loaded', mix(die('P10'), dict(stops=(1, 3), loads=1.0))),
    (1, 'sends', mix(die('P10'), dict(stops=(1, 3), send_workaround=0.0, sends=1.0, snaps=1.0, p_init_snap=0.9))),
    (1, 'slow', mix(die('P10', p_slow=0.05, slow_ms=5000), dict(stops=(1, 3), slow=0.5, n_file=(8, 25)))),
]
P['P11'] = [
    (4, 'pauses', mix(die('P11'), dict(pauses=4))),
    (2, 'long', mix(die('P11'), LONG, dict(pauses=4, n_ops=(5, 30)))),
    (1, 'stops', mix(die('P11'), dict(pauses=3, stops=(0, 2)))),
    (1, 'loads', mix(die('P11'), dict(pauses=3, loads=1.0))),
    (1, 'faults', mix(die('P11'), faulty(DATA_FAULTS, (1, 3)), dict(pauses=3))),
    (2, 'pending', mix(die('P11', probe_prop='P11', also_P06='P11'), dict(pauses=3, probe=0.8))),
]
P['P12'] = [
    (5, 'faults', mix(die('P12', probe_prop='P12'), faulty(DATA_FAULTS, (1, 8)), dict(probe=0.8))),
    (1, 'heavy', mix(die('P12', probe_prop='P12'), faulty(DATA_FAULTS, (4, 12), p_fault=(0.1, 0.9)), dict(probe=0.8, active_s=(60, 3000)))),
    (1, 'all', mix(die('P12', probe_prop='P12'), faulty(DATA_FAULTS + STATE_FAULTS + HASH_FAULTS, (2, 10)), dict(probe=0.8, stops=(0, 1)))),
    (1, 'races', mix(RACY, die('P12', probe_prop='P12'), faulty(DATA_FAULTS, (0, 4)), dict(probe=0.6))),
    (1, 'walls', mix(die('P12', probe_prop='P12'), dict(walls=1.0, probe=0.5))),
]
P['P13'] = [
    (3, 'snapshots', dict(send_workaround=1.0, snaps=0.8, n_sub=(1, 4), ops=dict(snap=5, setro=5, mkdup=6), n_ops=(5, 30), active_s=(300, 7200))),
    (2, 'races', dict(send_workaround=1.0, snaps=0.8, ops=dict(snap=5, setro=6, mkdup=6), n_ops=(8, 30), p_site=0.8)),
    (2, 'sends', mix(die('P13', probe_prop='P13'), dict(send_workaround=0.0, snaps=1.0, sends=1.0, ops=dict(snap=4, mkdup=6), n_ops=(4, 20), active_s=(60, 7200), p_init_snap=0.9))),
    (1, 'restarts', dict(send_workaround=1.0, snaps=0.8, stops=(0, 3), ops=dict(snap=5, setro=5), active_s=(60, 7200))),
]
P['P14'] = [
    (3, 'nocow', dict(flags=dict(n=8, d=3, plain=8))),
    (1, 'races', mix(RACY, dict(flags=dict(n=8, d=3, plain=8)))),
    (1, 'stale-table', mix(STATEFUL, dict(flags=dict(n=8, d=3, plain=8)))),
    (1, 'faults', mix(faulty(DATA_FAULTS), dict(flags=dict(n=8, d=3, plain=8)))),
]
P['P15'] = [
    (3, 'slow', mix(die('P15', probe_prop='P15', slow_limit=11), dict(slow=1.0, probe=0.6))),
    (1, 'stops', mix(die('P15', probe_prop='P15'), dict(slow=1.0, probe=0.6, stops=(0, 2)))),
    (1, 'arrivals', mix(die('P15', probe_prop='P15', slow_limit=11), LONG, dict(slow=1.0, n_ops=(8, 30), ops=dict(mkdup=15)))),
    (2, 'slow-arrivals', mix(die('P15', probe_prop='P15', slow_limit=11), LONG, dict(slow=1.0, n_sub=(1, 2), n_file=(1, 4), n_ops=(8, 30), ops=dict(mkdup=30)))),
]
P['P16'] = [
    (3, 'deletes', dict(n_sub=(2, 6), ops=dict(unlink=6, delsub=6, snap=3, mkdup=4), n_ops=(5, 30), active_s=(5, 3600))),
    (1, 'busy', mix(LONG, dict(n_sub=(2, 6), ops=dict(unlink=6, delsub=6, snap=3, mkdup=8), n_ops=(15, 50)))),
    (1, 'pauses', dict(pauses=2, ops=dict(unlink=6, delsub=6, snap=3), n_ops=(5, 30))),
    (1, 'faults', mix(faulty(DATA_FAULTS), dict(ops=dict(unlink=6, delsub=6), n_ops=(5, 20)))),
    (1, 'many-files', dict(n_file=(30, 80), max_blocks=4, n_ops=(0, 10))),
]
P['P17'] = [
    (3, 'partial', dict(kinds=dict(part=8, rep=2, zero=3), n_file=(5, 20), workers=[2, 3, 4, 8])),
    (1, 'stops', dict(kinds=dict(part=8, rep=2, zero=3), stops=(0, 3), workers=[2, 4, 8])),
    (1, 'faults', mix(faulty(DATA_FAULTS), dict(kinds=dict(part=8, rep=2, zero=3), workers=[2, 4, 8]))),
    (1, 'races', mix(RACY, dict(kinds=dict(part=8), workers=[2, 4, 8]))),
]
P['P18'] = [
    (3, 'base', mix(die('P18'), dict(workers=[2, 3, 4, 8], n_file=(6, 20), kinds=dict(dup=8, part=6)))),
    (1, 'faults', mix(die('P18'), faulty(DATA_FAULTS), dict(workers=[2, 3, 4, 8], n_file=(6, 20)))),
    (1, 'stops', mix(die('P18'), dict(workers=[2, 3, 4, 8], stops=(0, 2), pauses=1))),
    (1, 'slow', mix(die('P18'), dict(workers=[2, 4, 8], slow=1.0))),
    (1, 'sends', mix(die('P18'), dict(workers=[2, 4, 8], send_workaround=0.0, sends=1.0, snaps=1.0, p_init_snap=0.9, n_file=(6, 20), ops=dict(snap=4, mkdup=6)))),
]
P['P19'] = [
    (2, 'base', mix(die('P19'), dict(n_file=(6, 25)))),
    (3, 'loads', mix(die('P19'), dict(loads=1.0, n_file=(6, 25), n_ops=(5, 30), active_s=(60, 4000), workers=[2, 4, 8]))),
    (1, 'pauses', mix(die('P19'), dict(pauses=3, loads=0.5, n_file=(6, 25)))),
    (4, 'pool', lambda s: hgen.p19(s)),
]

P['P20'] = [(2, 'long-scan', lambda s: gen.long_scan(s)), (1, 'stops', lambda s: gen.long_scan(s, True))]
P['P21'] = [(1, 'scan-order', lambda s: gen.scan_order(s))]
P['P22'] = [(1, 'throttled', lambda s: gen.throttled(s))]

P['T01'] = [(3, 'requests', lambda s: hgen.t01(s)), (1, 'queue-order', lambda s: hgen.t01(s, 'fifo'))]
P['T02'] = [(2, 'mixed', lambda s: hgen.t02(s)), (1.5, 'locks', lambda s: hgen.t02(s, 'excl')), (1, 'chains', lambda s: hgen.t02(s, 'chain'))]
P['C01'] = [(2, 'lru-cache', lambda s: hgen.c01(s, 'lru')), (2, 'named-objects', lambda s: hgen.c01(s, 'named')), (1.5, 'pool', lambda s: hgen.c01(s, 'pool')), (1, 'lockset', lambda s: hgen.c01(s, 'lockset'))]
P['G01'] = [(2, 'any-order', lambda s: hgen.g01(s)), (1, 'rising', lambda s: hgen.g01(s, 'rising'))]
P['H01'] = [(3, 'mixed', lambda s: hgen.h01(s)), (1, 'full-bucket', lambda s: hgen.h01(s, 'full')), (1, 'faults', lambda s: hgen.h01(s, 'faults'))]
P['R01'] = [(1, 'rates', lambda s: hgen.r01(s))]


def plan(prop, seed):
    """the plan of one seed: (profile name, lines)"""
    r = random.Random('%s/%d' % (prop, seed))
    ps = P[prop]
    w, name, over = r.choices(ps, [p[0] for p in ps])[0]
    if callable(over):
        return name, over(seed) + ['only ' + prop]
    over = dict(over)
    lines = gen.make(seed, **over)
    return name, lines + ['only ' + prop]


# number of runs and seconds of a quick check
BUDGET = {'*': (1500, 45)}
for _p in ('T01', 'T02', 'C01', 'G01', 'H01', 'R01'):
    BUDGET[_p] = (40000, 40)

NONTRIVIAL_TEXT = {
    '*': 'bees was started, scanned data and did at least one dedupe call',
    'P02': 'bees opened user files and did at least one dedupe or copy',
    'P03': 'bees did at least one dedupe call and the filesystem became quiet, so that the sharing of all data known to be duplicate was examined',
    'P04': 'bees did at least one dedupe call and became idle',
    'P05': 'bees copied or deduplicated something in a run without faults which was examined when idle',
    'P06': 'bees became idle and the coverage of at least one extent was examined',
    'P07': 'the state file was saved at least once and a crash, a kill or a fault in the state directory happened',
    'P08': 'the table in memory was compared with the file at a clean stop',
    'P09': 'an initial table with false entries was loaded and entries were looked up or data was scanned',
    'P10': 'a stop request was delivered and the process ended',
    'P11': 'a pause signal was delivered',
    'P12': 'at least one system call failed by injection, or another party changed a file at a system call of bees',
    'P13': 'a read-only snapshot was met with the workaround on, or a send ran into a dedupe call',
    'P14': 'files with the no-copy-on-write attribute existed while bees did dedupe calls',
    'P15': 'an expensive back reference lookup happened',
    'P16': 'bees opened files and other parties deleted files or subvolumes, or many files were opened',
    'P17': 'bees created a temporary file and wrote or preallocated it',
    'P18': 'at least two simulated threads were working and both kinds of ioctl happened',
    'P20': 'bees was stopped or killed in the middle of a scan of many hours, and went on with it',
    'P21': 'at least five extents were read, and their order was examined',
    'P22': 'bees slept after an operation, or throttling was off and operations took time',
    'T01': 'at least four task executions',
    'T02': 'an ordered pair, a refused lock, a barrier or a typed lock occurred',
    'C01': 'at least three lookups',
    'G01': 'at least three looks at the marks, with items held',
    'H01': 'at least three changes and three lookups',
    'R01': 'something was taken, waited for or estimated',
    'P19': 'tasks ran; for the load profiles the load average changed',
}


def nontrivial(prop, j):
    s = j['stats']
    g = lambda *k: any(s.get(x, 0) for x in k)
    quiet = any(k.startswith('quiet_') for k in s)
    ded = j.get('dedupes', 0) > 0 or s.get('dedupe_calls', 0) > 0
    if prop in ('P01', 'P14'):
        return ded
    if prop == 'P02':
        return ded or j['copies'] > 0
    if prop in ('P03', 'P04'):
        return ded and quiet
    if prop == 'P05':
        return 'space_after' in s and (ded or j['copies'] > 0)
    if prop == 'P06':
        return quiet and s.get('scan_total', 0) > 0
    if prop == 'P07':
        return j['state_saves'] > 0 and (j['incs'] > 1 or bool(j['faults']))
    if prop == 'P08':
        return s.get('hash_exit_checks', 0) > 0
    if prop == 'P09':
        return g('first_reads') and ded
    if prop == 'P10':
        return s.get('stops', 0) > 0
    if prop == 'P11':
        return s.get('signals', 0) > 1
    if prop == 'P12':
        return bool(j['faults']) or g('site_ops', 'wall_jumps')
    if prop == 'P13':
        return g('dedupe_eagain', 'dedupe_ro_dst') or ded
    if prop == 'P15':
        return g('slow_lookups')
    if prop == 'P16':
        return j['sites'].get('open_file', 0) > 3
    if prop == 'P17':
        return g('tmp_creates') and g('tmp_bytes')
    if prop == 'P18':
        return j['threads'] > 8 and ded
    if prop == 'P19':
        return g('getloadavg') or ded or g('settled')
    if prop == 'P20':
        return g('reads_after_restart')
    if prop == 'P21':
        return s.get('order_reads', 0) > 4
    if prop == 'P22':
        return g('throttle_starts')
    if prop == 'T01':
        return s.get('task_executions', 0) > 3
    if prop == 'T02':
        return g('order_pairs', 'lock_refused', 'barrier_tasks', 'multilocks')
    if prop == 'C01':
        return s.get('gets', 0) > 2
    if prop == 'G01':
        return s.get('looks', 0) > 2 and g('holds')
    if prop == 'H01':
        return s.get('lookups', 0) > 2 and s.get('table_ops', 0) > 2
    if prop == 'R01':
        return g('takes', 'waits', 'estimates')
    return True
