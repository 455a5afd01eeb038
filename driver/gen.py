"""Seeded generation of simulation plans (workload, configuration, schedule, faults)."""
import random

DEFAULT = dict(
    modes=[0, 1, 2, 3, 4, 4, 4],  # scan modes, LOCKSTEP INDEPENDENT SEQUENTIAL RECENT EXTENT
    workers=[1, 2, 2, 3, 4, 8],
    active_s=(5, 240),            # how long other parties change the filesystem
    n_sub=(1, 3), n_file=(3, 12), max_blocks=80,
    n_ops=(0, 25),                # operations while bees runs
    p_site=0.35,                  # chance that an operation is tied to a system call of bees
    kinds=dict(dup=6, part=3, uniq=2, rep=1, zero=1, collide=1, tail=2, big=0.3),
    flags=dict(plain=10, c=1.5, n=0.6, d=0.4),
    ops=dict(mkdup=5, mkfile=2, write=3, writeb=2, trunc=1.5, falloc=0.6, punch=1, clone=2, rename=1, link=0.7, unlink=1.5,
             defrag=0.6, fsync=0.7, commit=1, balance=0.5, snap=1.5, delsub=0.5, mksub=0.4, setro=0.5, restore=0.5),
    faults=[],                    # list of (site, [errs], weight)
    n_faults=(0, 0), p_fault=(0.01, 0.3),
    stops=0, kills=0, machines=0, pauses=0, walls=0, loads=0,
    quiet=True, restart=0.4, probe=0.0,
    sched=True, spurious=0.2,
    hash_init=['zero'], hash_sizes=[131072, 262144, 1048576],
    home=[(0, 0), (0, 0), (1, 0), (1, 1)],
    kernels=['6.6.1', '5.15.3', '5.4.200', '6.11.0'],
    send_workaround=0.15, slow=0, snaps=0.6, symlinks=0.3, sends=0.1,
    cfg={}, pool_small=False, early=False, init_ops=0.08, p_init_snap=0.35,
)

SITES = ['open_file', 'open_root', 'open_tmp', 'pread', 'pread_tmp', 'pwrite_tmp', 'logino', 'inopaths', 'inolookup', 'dedupe', 'search_sub', 'search_extent', 'fstat']


def wchoice(r, d):
    ks = [k for k in d if d[k] > 0]
    return r.choices(ks, [d[k] for k in ks])[0]


class Gen:
    def __init__(self, seed, **over):
        self.r = random.Random(seed)
        self.seed = seed
        p = {k: (dict(v) if isinstance(v, dict) else v) for k, v in DEFAULT.items()}
        for k, v in over.items():
            if isinstance(v, dict) and k in p and isinstance(p[k], dict):
                p[k].update(v)
            else:
                p[k] = v
        self.p = p
        self.L = []
        self.files = []      # (name, sub, spec, flags)
        self.subs = []
        self.nf = 0
        self.ns = 0
        self.nd = 0
        self.nl = 0
        self.pool = [1000 * (i + 1) for i in range(self.r.randint(1, 5))]
        self.fresh = 1000000
        if p['pool_small']:
            self.pool = self.pool[:1]
        self.templates = []
        self.rosubs = set()
        self.sent = []

    def rng(self, k):
        a, b = self.p[k]
        return self.r.randint(a, b)

    def uniq(self, n):
        self.fresh += 10000
        return '%d+%d' % (self.fresh, n)

    def spec(self):
        """content of a file and its length in blocks"""
        r = self.r
        kind = wchoice(r, self.p['kinds'])
        mb = self.p['max_blocks']
        n = r.choice([1, 2, 3, 4, 8, 9, 16, 31, 32, 33, 64, r.randint(1, mb)])
        n = min(n, mb)
        tail = None
        if kind == 'big':
            n = r.randint(mb, mb * 6)
        if kind in ('dup', 'big', 'tail') and self.templates and r.random() < 0.75:
            s, tl = r.choice(self.templates)
            return s, tl
        if kind == 'part' and self.templates:
            s, tl = r.choice(self.templates)
            x = self.uniq(r.choice([1, 2, 8, 16]))
            form = r.randint(0, 3)
            if form == 0:
                return s + ',' + x, None
            if form == 1:
                return x + ',' + s, None
            if form == 2:
                return x + ',' + s + ',' + self.uniq(r.randint(1, 5)), None
            b = r.choice(self.pool)
            return '%d+%d,%s' % (b + r.randint(0, 30), r.randint(1, 40), x), None
        if kind == 'uniq':
            return self.uniq(n), None
        if kind == 'rep':
            return 'r%d*%d' % (r.choice(self.pool), n), None
        if kind == 'zero':
            return '%s,z%d,%s' % (self.uniq(r.randint(1, 4)), r.randint(1, 20), self.uniq(r.randint(1, 4))) if r.random() < 0.7 else 'z%d' % n, None
        if kind == 'collide':
            b = r.choice(self.pool)
            return 'c%d+%d' % (b, n), None
        b = r.choice(self.pool)
        s = '%d+%d' % (b + (0 if r.random() < 0.6 else r.randint(0, 40)), n)
        if r.random() < 0.15:
            s = s + ',z%d,' % r.randint(1, 8) + s
        tail = r.randint(1, 4095) if kind == 'tail' else None
        self.templates.append((s, tail))
        return s, tail

    def flags(self):
        f = wchoice(self.r, self.p['flags'])
        return '-' if f == 'plain' else f

    def mkfile(self, spec=None, tail=None, sub=None, flags=None):
        self.nf += 1
        n = 'f%d' % self.nf
        if spec is None:
            spec, tail = self.spec()
        sub = sub or self.r.choice([s for s in self.subs if s not in self.rosubs] or ['root'])
        flags = flags or self.flags()
        d = '-'
        if self.dirs and self.r.random() < 0.3:
            cand = [x for x, s in self.dirs if s == sub]
            if cand:
                d = self.r.choice(cand)
        self.files.append((n, sub, spec, flags))
        return 'mkfile %s %s %s %s %s%s' % (n, sub, d, flags, spec, '' if tail is None else ' %d' % tail)

    def target(self):
        n, sub, _, _ = self.r.choice(self.files)
        if self.snapof and self.r.random() < 0.3:
            c = [s for s, o in self.snapof.items() if o == sub and s not in self.rosubs]
            if c:
                return '%s:%s' % (self.r.choice(c), n)
        return n

    def op(self):
        r = self.r
        k = wchoice(r, self.p['ops'])
        if k == 'mkdup' and self.files:
            _, _, spec, fl = r.choice(self.files)
            return self.mkfile(spec, None)
        if k in ('mkfile', 'mkdup') or not self.files:
            return self.mkfile()
        if k == 'write':
            s, _ = self.spec() if r.random() < 0.4 else ('%d+%d' % (r.choice(self.pool) + r.randint(0, 20), r.randint(1, 16)), None)
            return 'write %s %d %s' % (self.target(), r.choice([0, 0, 1, 5, 16, r.randint(0, 60)]), s)
        if k == 'writeb':
            return 'writeb %s %d %d %d' % (self.target(), r.randint(0, 200000), r.choice([1, 100, 4096, r.randint(1, 20000)]), r.randint(0, 5))
        if k == 'trunc':
            return 'trunc %s %d' % (self.target(), r.choice([0, 4096 * r.randint(0, 40), r.randint(0, 200000)]))
        if k == 'falloc':
            return 'falloc %s %d %d' % (self.target(), 4096 * r.randint(0, 80), 4096 * r.randint(1, 40))
        if k == 'punch':
            return 'punch %s %d %d' % (self.target(), 4096 * r.randint(0, 60), 4096 * r.randint(1, 30))
        if k == 'clone':
            if r.random() < 0.5:
                return 'clone %s 0 %s 0 0' % (self.target(), self.target())
            return 'clone %s %d %s %d %d' % (self.target(), 4096 * r.randint(0, 20), self.target(), 4096 * r.randint(0, 40), 4096 * r.randint(1, 30))
        if k == 'rename':
            self.nl += 1
            return 'rename %s moved%d' % (self.target(), self.nl)
        if k == 'symswap':
            # the file goes away and a symbolic link to another file takes its name
            n, sub, _, _ = r.choice(self.files)
            self.nl += 1
            if sub in self.rosubs:
                return 'commit'
            return 'rename %s moved%d\nsymlink %s %s %s' % (n, self.nl, sub, n, r.choice(self.files)[0])
        if k == 'link':
            self.nl += 1
            return 'link %s link%d' % (self.target(), self.nl)
        if k == 'unlink':
            return 'unlink %s' % self.target()
        if k in ('defrag', 'fsync'):
            return '%s %s' % (k, self.target())
        if k == 'commit':
            return 'commit'
        if k == 'balance':
            return 'balance %d' % r.randint(0, 1)
        if k == 'snap':
            src = r.choice(self.subs)
            return self.snap(src)
        if k == 'delsub':
            c = [s for s in self.subs if s != 'root']
            if not c:
                return 'commit'
            s = r.choice(c)
            if len(self.subs) > 1 and (s in self.snapof or r.random() < 0.3):
                self.subs.remove(s)
                self.files = [f for f in self.files if f[1] != s] or self.files
                return 'delsub %s' % s
            return 'commit'
        if k == 'mksub':
            return self.mksub()
        if k == 'setro':
            c = [s for s in self.subs if s != 'root']
            if not c:
                return 'commit'
            s = r.choice(c)
            v = 0 if s in self.rosubs else 1
            (self.rosubs.discard if v == 0 else self.rosubs.add)(s)
            if v and self.p['sends'] and r.random() < self.p['sends']:
                self.sent.append(s)
                return 'setro %s 1\nsend %s 1' % (s, s)
            return 'setro %s %d' % (s, v)
        if k == 'restore':
            # back to the original content of a file
            n, sub, spec, _ = r.choice(self.files)
            return 'write %s 0 %s' % (n, spec)
        return 'commit'

    def mksub(self):
        self.ns += 1
        n = 'S%d' % self.ns
        parent = self.r.choice(['root'] + [s for s in self.subs if s not in self.rosubs])
        self.subs.append(n)
        return 'mksub %s %s' % (n, parent)

    def snap(self, src):
        self.ns += 1
        n = 'N%d' % self.ns
        ro = self.r.random() < self.p['snaps']
        self.subs.append(n)
        self.snapof[n] = src
        if ro:
            self.rosubs.add(n)
        return 'snap %s %s root %s' % (n, src, 'ro' if ro else 'rw')

    def build(self):
        r, p = self.r, self.p
        L = self.L
        self.dirs = []
        self.snapof = {}
        C = {}
        C['seed'] = self.seed & 0xffffffff
        hb, hi = r.choice(p['home'])
        C['home_btrfs'], C['home_inside'] = hb, hi
        C['hash_size'] = r.choice(p['hash_sizes'])
        C['hash_init'] = r.choice(p['hash_init'])
        C['kernel'] = r.choice(p['kernels'])
        C['max_extent'] = r.choice([1 << 20, 1 << 20, 65536, 131072, 16384, 4 << 20])
        C['no_holes'] = r.choice([0, 1, 1])
        C['inline_ok'] = r.choice([0, 1])
        C['reuse'] = r.choice([0, 1, 1])
        C['leaf_shift'] = r.choice([0, 1, 2, 3, 5])
        C['commit_s'] = r.choice([5, 30, 30, 120])
        C['ncpu'] = r.choice([1, 2, 4, 8])
        C['p_slow'] = r.choice([0, 0.01, 0.05])
        C['slow_ms'] = r.choice([50, 500, 5000])
        if r.random() < 0.1:
            C['no_openat2'] = 1
        if r.random() < 0.15:
            C['transid'] = r.choice([1, 2, 100, 5000000])
        if r.random() < 0.1:
            C['chunk_mb'] = 8
        active = r.randint(*p['active_s']) * 1000
        C['quiet_at'] = active
        C['restart'] = 1 if r.random() < p['restart'] else 0
        C['probe'] = 1 if r.random() < p['probe'] else 0
        C['final_int'] = r.choice([0, 1])
        C.update(p['cfg'](r) if callable(p['cfg']) else p['cfg'])
        # schedule
        S = {'seed': r.getrandbits(40)}
        if p['sched']:
            S['policy'] = r.choices([0, 1, 2, 3], [5, 2, 1, 1])[0]
            S['p_sync'] = r.choice([0.05, 0.2, 0.5])
            S['bb_mean'] = r.choice([0, 500, 3000, 20000, 100000])
            if r.random() < p['spurious']:
                S['p_spurious'] = r.choice([0.01, 0.2])
        else:
            S['policy'] = 2
        # the filesystem before bees starts
        init = []
        nsub = self.rng('n_sub')
        if r.random() < 0.3:
            self.subs.append('root')
        for _ in range(nsub):
            init.append(self.mksub())
        for _ in range(r.randint(0, 3)):
            self.nd += 1
            s = r.choice(self.subs)
            self.dirs.append(('D%d' % self.nd, s))
            init.append('mkdir D%d %s' % (self.nd, s))
        for _ in range(self.rng('n_file')):
            init.append(self.mkfile())
            if r.random() < 0.1:
                init.append('commit')
            if r.random() < p['init_ops']:
                init += self.op().split('\n')
        if r.random() < p['symlinks'] and self.files:
            init.append('symlink %s ln%d %s' % (r.choice(self.subs), self.nf, self.files[0][0]))
        if r.random() < p['p_init_snap']:
            init.append(self.snap(r.choice(self.subs)))
        if r.random() < p['slow']:
            for _ in range(r.randint(1, 3)):
                init.append('slow %s %d %d' % (r.choice(self.files)[0], 0, r.choice([100, 3000, 6000, 20000])))
        init.append('commit')
        # operations while it runs
        timed = []
        nops = self.rng('n_ops')
        for _ in range(nops):
            if r.random() < p['p_site']:
                site = r.choice(['pread', 'pread', 'dedupe', 'logino', 'pwrite_tmp', 'pread_tmp', 'open_file', 'inopaths', 'search_sub', 'search_extent', 'open_tmp', 'ftrunc_tmp', 'fstat', 'inolookup'])
                n = int(2 ** r.uniform(0, 9)) - 1
                at = 's:%s:%d%s' % (site, n, r.choice(['', ':a']))
            else:
                at = 't:%d' % r.randint(0, active)
            timed += [at + ' ' + o for o in self.op().split('\n')]
        for s in self.sent:
            timed.append('t:%d send %s 0' % (r.choice([r.randint(0, active), r.randint(0, 2 * active), r.randint(0, 4000000)]), s))
        self.sent = []
        for kind, verb in (('stops', None), ('kills', 'crash kill'), ('machines', 'crash machine')):
            n = p[kind]
            n = n if isinstance(n, int) else r.randint(*n)
            for _ in range(n):
                v = verb or r.choice(['sig TERM', 'sig TERM', 'sig INT'])
                if p['early'] and r.random() < 0.7:
                    if r.random() < 0.5:
                        timed.append('s:%s:%d%s %s' % (r.choice(['open_home', 'fstat', 'fsinfo', 'mmap', 'pread_hash', 'search_root', 'search_chunk', 'read_home', 'fstatfs', 'open_root', 'misc', 'inolookup', 'search_extent']), r.randint(0, 6), r.choice(['', ':a']), v))
                    else:
                        timed.append('t:%d %s' % (r.choice([0, 0, 1, 2, 5, 20, 100, 500]), v))
                elif r.random() < 0.6:
                    site = r.choice(['pread', 'dedupe', 'logino', 'pwrite_tmp', 'write_state', 'rename', 'fsync', 'unlink', 'pwrite_hash', 'search_sub', 'search_extent', 'open_tmp', 'inopaths', 'open_home', 'mmap', 'pread_hash', 'fsinfo', 'open_file', 'search_chunk'])
                    mx = 3 if site in ('write_state', 'rename', 'fsync', 'unlink', 'pwrite_hash', 'open_home', 'open_tmp', 'mmap', 'pread_hash') else 9
                    timed.append('s:%s:%d%s %s' % (site, int(2 ** r.uniform(0, mx)) - 1, r.choice(['', ':a']), v))
                else:
                    timed.append('t:%d %s' % (r.choice([r.randint(0, active), r.randint(0, 2000), active + r.randint(0, 4000000)]), v))
        if p['pauses']:
            for _ in range(r.randint(1, p['pauses'])):
                t = r.randint(0, active)
                timed.append('t:%d sig USR1' % t)
                if r.random() < 0.3:
                    timed.append('t:%d sig USR1' % (t + r.randint(0, 2000)))
                if r.random() < 0.9:
                    timed.append('t:%d sig USR2' % (t + r.choice([0, 1, 100, 5000, 300000, 2000000])))
        if p['walls'] and r.random() < p['walls']:
            for _ in range(r.randint(1, 3)):
                timed.append('t:%d wall %d' % (r.randint(0, active), r.choice([-1, 1]) * r.choice([1000, 3600000, 86400000 * 400])))
        if p['loads'] and r.random() < p['loads']:
            for _ in range(r.randint(1, 4)):
                timed.append('t:%d load %s' % (r.randint(0, active), r.choice(['0.1', '2', '8', '50'])))
        if p['sends'] and r.random() < p['sends'] and self.rosubs:
            for s in r.sample(sorted(self.rosubs), r.randint(1, min(3, len(self.rosubs)))):
                t = r.choice([0, 0, r.randint(0, active)])
                timed.append('t:%d send %s 1' % (t, s))
                timed.append('t:%d send %s 0' % (t + r.choice([r.randint(1000, 120000), r.randint(100000, 4000000)]), s))
        if r.random() < 0.1:
            timed.append('t:%d sig HUP' % r.randint(0, active))
        # faults
        F = []
        if p['faults']:
            for _ in range(self.rng('n_faults')):
                site, errs, _w = r.choices(p['faults'], [x[2] for x in p['faults']])[0]
                e = r.choice(errs)
                how = 'kind=%s' % e if e in ('short', 'empty', 'partial', 'status') else 'err=%s' % e
                if r.random() < 0.4:
                    lo = int(2 ** r.uniform(0, 8)) - 1
                    F.append('fault site=%s %s p=1 lo=%d hi=%d seed=%d' % (site, how, lo, lo + int(2 ** r.uniform(0, 6)), r.getrandbits(30)))
                else:
                    F.append('fault site=%s %s p=%.4f max=%d seed=%d' % (site, how, r.uniform(*p['p_fault']), int(2 ** r.uniform(0, 8)), r.getrandbits(30)))
        # options of each start
        incs = []
        mode = r.choice(p['modes'])
        nw = r.choice(p['workers'])
        wa = r.random() < p['send_workaround']
        for _ in range(1 if r.random() < 0.8 else 3):
            o = 'inc m=%d' % mode
            if r.random() < 0.8:
                o += ' c=%d' % nw
            elif r.random() < 0.5:
                o += ' C=%s' % r.choice(['0.5', '1', '2'])
            if p['loads'] and r.random() < 0.7:
                o += ' g=%s' % r.choice(['0', '1', '3', '6'])
                if r.random() < 0.5:
                    o += ' G=%d' % r.randint(0, 3)
            if wa:
                o += ' a=1'
            if r.random() < 0.1:
                o += ' throttle=%s' % r.choice(['0.5', '1', '2'])
            if r.random() < 0.2:
                o += ' P=1'
            o += ' v=%d' % r.choice([8, 8, 7, 6, 3])
            o += ' down_ms=%d' % r.choice([0, 1000, 60000, 7200000])
            incs.append(o)
            if r.random() < 0.5 and len(p['modes']) > 1:
                mode = r.choice(p['modes'])
        L += ['cfg %s %s' % kv for kv in sorted(C.items())]
        L += ['sched %s %s' % kv for kv in sorted(S.items())]
        L += incs
        L += ['op init ' + o for o in init]
        L += ['op ' + o for o in timed]
        L += F
        return L


def long_scan(seed, short=False):
    """a scan that takes many hours, stopped and killed on the way; nobody else changes anything"""
    r = random.Random('long/%d' % seed)
    L = []
    C = dict(seed=seed & 0xffffffff, hash_size=1048576, kernel=r.choice(DEFAULT['kernels']), max_extent=r.choice([16384, 32768, 65536]), no_holes=r.choice([0, 1]),
             reuse=1, leaf_shift=r.choice([0, 1, 2, 3]), commit_s=30, ncpu=r.choice([1, 2, 4]), p_slow=0, restart=0, probe=0, die_prop='P20', share_gap_s=100000, ck_shared=0)
    C['home_btrfs'], C['home_inside'] = r.choice([(0, 0), (1, 0)])
    mode = r.choice([0, 1, 2, 3, 4, 4, 4, 4])
    nw = r.choice([1, 1, 2, 3, 6])
    many = mode == 4 or r.random() < 0.9
    subs = ['S%d' % (i + 1) for i in range(r.randint(1, 2))]
    init = ['mksub %s root' % s for s in subs]
    total = r.randint(400, 1200)
    fresh, nf, left = 1000000, 0, total
    while left > 0:
        n = min(left, r.choice([8, 32, 100, 200]) if many else total // len(subs) + 1)
        nf += 1
        fresh += 100000
        init.append('mkfile f%d %s - %s %d+%d' % (nf, r.choice(subs) if many else subs[(nf - 1) % len(subs)], r.choice(['-', '-', '-', 'c']), fresh, n))
        left -= n
    # nothing of this was created in the last generation of the first pass (the next pass may look at that again)
    for i in range(2):
        init += ['commit', 'mkdir d%d root' % i]
    init.append('commit')
    hours = r.choice([8, 16, 30])
    if short:
        # here the last save before the stop is too old: the one at the stop itself counts
        hours = r.choice([0.3, 0.5, 1])
        C['repeat_base_s'] = 20
    C['read_ms'] = int(hours * 3600e3 * nw / total / 1.7)
    # what may pass before a task which has nothing left to do gets its turn again
    C['repeat_blocks'] = 10 + C['max_extent'] // 4096 * (2 if mode == 4 else 5)
    t = 0
    for _ in range(r.randint(1, 3)):
        t += int(r.uniform(0.15, 0.5) * hours * 3600e3) + r.randint(0, 100000)
        L.append('op t:%d %s' % (t, r.choice(['sig TERM', 'sig TERM', 'sig INT'] + ([] if short else ['crash kill', 'crash machine']))))
    C['quiet_at'] = t + 1000
    S = dict(seed=r.getrandbits(40), policy=r.choice([0, 1, 2]), p_sync=0.2, bb_mean=r.choice([0, 3000, 20000]))
    return (['cfg %s %s' % kv for kv in sorted(C.items())] + ['sched %s %s' % kv for kv in sorted(S.items())] +
            ['inc m=%d c=%d v=6 down_ms=%d' % (mode, nw, r.choice([0, 1000, 60000, 7200000]))] + ['op init ' + o for o in init] + L)


def scan_order(seed):
    """one worker reads data that is all different; nothing changes meanwhile; stops and kills on the way"""
    r = random.Random('order/%d' % seed)
    L = []
    C = dict(seed=seed & 0xffffffff, hash_size=1048576, kernel=r.choice(DEFAULT['kernels']), max_extent=r.choice([65536, 1 << 20, 128 << 20, 128 << 20]), no_holes=r.choice([0, 1]),
             reuse=1, leaf_shift=r.choice([0, 1, 2, 3]), commit_s=30, ncpu=1, p_slow=0, restart=0, probe=0, die_prop='P21', share_gap_s=100000, ck_shared=0, order=1, repeat_max=1000000000)
    C['home_btrfs'], C['home_inside'] = r.choice([(0, 0), (1, 0)])
    mode = r.choice([0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 4, 4])
    nsub = r.choice([1, 2, 3, 5]) if mode == 4 else r.randint(2, 5)
    subs = ['S%d' % (i + 1) for i in range(nsub)]
    init = ['mksub %s root' % s for s in subs]
    left = r.choice([300, 1000, 3000, 9000])
    fresh, nf, fresh_blocks = 1000000, 0, 0
    while left > 0 and nf < 80:
        n = min(left, r.choice([1, 4, 8, 32, 33, 40, 128] + ([129, 200, 512, 513, 700, 2048, 2049, 3000] if r.random() < 0.2 else [])))
        nf += 1
        fresh += 100000
        init.append('mkfile f%d %s - %s %d+%d' % (nf, r.choice(subs), r.choice(['-', '-', '-', 'c']), fresh, n))
        left -= n
        fresh_blocks += n
        if r.random() < (0.15 if mode == 4 else 0.05):
            s = r.choice(subs)
            init.append('mkfile c%d %s - - z+0' % (nf, s))
            for k in range(r.choice([1, 1, 2, 5])):
                init.append('clone f%d 0 c%d %d %d' % (nf, nf, 4096 * k * n, 4096 * n))
        if r.random() < 0.03:
            init.append('snap N%d %s root %s' % (nf, r.choice(subs), r.choice(['rw', 'ro'])))
        if r.random() < 0.05:
            init.append('commit')
    for i in range(2):
        init += ['commit', 'mkdir d%d root' % i]
    init.append('commit')
    minutes = r.choice([0, 2, 30, 120])
    C['read_ms'] = int(minutes * 60e3 / max(1, fresh_blocks) / 2)
    t = 0
    if mode in (1, 3) and r.random() < 0.7:
        # some subvolumes are done long before the first one, and then get new files
        minutes = r.choice([600, 1200, 2400])
        init.append('mksub S9 root')
        for i in range(r.randint(20, 60)):
            nf += 1
            fresh += 100000
            n = r.choice([8, 40, 100])
            fresh_blocks += n
            init.append('mkfile f%d S9 - - %d+%d' % (nf, fresh, n))
        init += ['commit', 'mkdir d8 root', 'commit']
        C['read_ms'] = int(minutes * 60e3 / fresh_blocks)
        for i in range(r.randint(1, 3) if mode == 3 else 0):
            nf += 1
            fresh += 100000
            L.append('op t:%d mkfile f%d %s - - %d+%d' % (int(minutes * 60e3 * r.uniform(0.3, 0.6)), nf, r.choice(subs), fresh, r.choice([1, 8])))
        C['quiet_at'] = int(minutes * 60e3)
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        t += int(r.uniform(0.05, 0.5) * minutes * 60e3) + r.randint(0, 100000)
        L.append('op t:%d %s' % (t, r.choice(['sig TERM', 'sig INT', 'crash kill', 'crash machine'])))
    C['quiet_at'] = max(t + 1000, C.get('quiet_at', 0))
    S = dict(seed=r.getrandbits(40), policy=r.choice([0, 1, 2]), p_sync=0.2, bb_mean=r.choice([0, 3000, 20000]))
    return (['cfg %s %s' % kv for kv in sorted(C.items())] + ['sched %s %s' % kv for kv in sorted(S.items())] +
            ['inc m=%d c=1 v=6 down_ms=%d' % (mode, r.choice([0, 1000, 60000]))] + ['op init ' + o for o in init] + L)


def throttled(seed):
    """dedupe calls and reference lookups take a while, and bees has to keep to a rate"""
    r = random.Random('throttle/%d' % seed)
    C = dict(seed=seed & 0xffffffff, hash_size=1048576, kernel=r.choice(DEFAULT['kernels']), max_extent=r.choice([8192, 16384, 65536]), no_holes=r.choice([0, 1]),
             reuse=1, leaf_shift=r.choice([0, 1, 2, 3]), commit_s=30, ncpu=r.choice([1, 2, 4]), p_slow=0, restart=0, probe=0, die_prop='P22', share_gap_s=1000000, ck_shared=0, throttle=1)
    C['home_btrfs'], C['home_inside'] = r.choice([(0, 0), (1, 0)])
    C['op_ms_dedupe'], C['op_ms_logino'] = r.choice([10, 100, 1000, 4000]), r.choice([10, 100, 1000, 4000])
    subs = ['S%d' % (i + 1) for i in range(r.randint(1, 3))]
    init = ['mksub %s root' % s for s in subs]
    fresh, nf = 1000000, 0
    for i in range(r.randint(3, 8)):
        fresh += 100000
        n = r.choice([4, 16, 40, 100])
        for k in range(r.randint(1, 4)):
            nf += 1
            init.append('mkfile f%d %s - - %d+%d' % (nf, r.choice(subs), fresh + r.choice([0, 0, n // 2]), n))
    init.append('commit')
    f = r.choice(['', '0', '0.5', '1', '1', '2', '2', '5', '10', '100', '1000'])
    L = []
    if r.random() < 0.3:
        L.append('op t:%d sig TERM' % r.randint(1000, 100000))
    C['quiet_at'] = 100000
    S = dict(seed=r.getrandbits(40), policy=r.choice([0, 1, 2]), p_sync=0.2, bb_mean=r.choice([0, 3000, 20000]))
    return (['cfg %s %s' % kv for kv in sorted(C.items())] + ['sched %s %s' % kv for kv in sorted(S.items())] +
            ['inc m=%d c=%d v=6 %s down_ms=1000' % (r.choice([0, 1, 2, 3, 4, 4, 4]), r.choice([1, 2, 3, 6]), 'throttle=' + f if f else '')] + ['op init ' + o for o in init] + L)


def make(seed, **over):
    return Gen(seed, **over).build()


if __name__ == '__main__':
    import sys
    print('\n'.join(make(int(sys.argv[1]))))
