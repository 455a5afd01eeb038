"""Seeded generation of plans for the library classes: clients with random steps (hop lines), schedule and faults."""
import random


class H:
    def __init__(self, seed, prop, **over):
        self.r = random.Random('%s/%d' % (prop, seed))
        self.p = over
        self.L = ['cfg seed %d' % seed, 'cfg die_prop ' + prop, 'cfg bb_cap 400000000', 'cfg ncpu %d' % self.r.choice([1, 2, 4, 8])]
        self.prop = prop

    def cfg(self, k, v):
        self.L.append('cfg %s %s' % (k, v))

    def hop(self, who, *a):
        self.L.append('hop %s %s' % (who, ' '.join(str(x) for x in a)))

    def nap(self, who, p=0.4):
        if self.r.random() < p:
            self.hop(who, 'sleep', self.r.choice([0, 1, 10, 100, 1000, 20000]))

    def sched(self):
        r = self.r
        S = dict(seed=r.getrandbits(40), policy=r.choices([0, 1, 2, 3], [6, 3, 0.5, 1])[0], p_sync=r.choice([0.05, 0.2, 0.5, 0.8]), bb_mean=r.choice([0, 10, 40, 150, 600, 3000]))
        if r.random() < 0.3:
            S['p_spurious'] = r.choice([0.01, 0.2, 0.5])
        self.L += ['sched %s %s' % kv for kv in sorted(S.items())]

    def walls(self, p=0.4):
        r = self.r
        if r.random() < p:
            for _ in range(r.randint(1, 4)):
                self.L.append('op t:%d wall %d' % (r.choice([0, 1, 5, 50, 500, 5000, 50000]), r.choice([-1, 1]) * r.choice([1, 1000, 3600000, 86400000 * 400])))

    def done(self):
        self.sched()
        return self.L


def pool_ops(g, kids, who='0'):
    """pausing and resizing, by one client"""
    r = g.r
    for _ in range(r.randint(1, 6)):
        g.nap(who, 0.9)
        x = r.random()
        if x < 0.4:
            g.hop(who, 'pause', 1)
            g.nap(who, 0.9)
            if r.random() < 0.3:
                g.hop(who, 'threads', r.choice([0, 1, 2, 3, 5]))
            g.nap(who, 0.9)
            g.hop(who, 'pause', 0)
        else:
            g.hop(who, 'threads', r.choice([0, 1, 1, 2, 3, 5, 8]))


def t01(seed, mode='mix'):
    g = H(seed, 'T01')
    r = g.r
    fifo = mode == 'fifo'
    n = r.randint(2, 14)
    g.cfg('harness', 'T01')
    g.cfg('tasks', n)
    g.cfg('fifo', int(fifo))
    g.cfg('threads', 1 if fifo else r.choice([1, 2, 3, 4, 8]))
    nc = r.randint(1, 4)
    for i in range(n):
        w = 'T%d' % i
        g.nap(w, 0.7)
        if fifo:
            if r.random() < 0.1:
                g.hop(w, 'throw', 1)
            continue
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            v = r.choices(['sleep', 'throw', 'again', 'run', 'append', 'insert'], [4, 1.5, 3, 2, 2, 2])[0]
            if v == 'sleep':
                g.nap(w, 1)
            elif v in ('throw',):
                g.hop(w, v, r.choice([1, 1, 2]))
            elif v == 'again':
                g.hop(w, v, r.choice([1, 2, 3]), r.choice([0, 0, 1]))
            elif v == 'run':
                # no endless loops: only tasks with a higher number
                if i + 1 < n:
                    g.hop(w, 'run', r.randrange(i + 1, n))
            elif i + 1 < n:
                g.hop(w, v, r.randrange(i + 1, n))
    owner = {i: r.randrange(nc) for i in range(n)}
    for c in range(nc):
        for _ in range(r.randint(2, 12)):
            g.nap(c)
            mine = [i for i in range(n) if owner[i] == c] if fifo else list(range(n))
            if not mine:
                continue
            if fifo:
                v = r.choices(['run', 'idle'], [3, 2])[0]
            else:
                v = r.choices(['run', 'idle', 'append', 'insert', 'drop', 'print'], [6, 3, 3, 3, 1.2, 0.3])[0]
            a = r.choice(mine)
            if v in ('append', 'insert'):
                if n < 2:
                    continue
                a, b = sorted(r.sample(range(n), 2))
                g.hop(c, v, a, b)
            elif v == 'print':
                g.hop(c, v)
            else:
                g.hop(c, v, a)
    if not fifo and r.random() < 0.5:
        pool_ops(g, n, str(nc))
    elif fifo and r.random() < 0.4:
        for _ in range(r.randint(1, 3)):
            g.nap(nc, 0.9)
            g.hop(nc, 'pause', 1)
            g.nap(nc, 0.9)
            g.hop(nc, 'pause', 0)
    return g.done()


def t02(seed, mode='mix'):
    g = H(seed, 'T02')
    r = g.r
    g.cfg('harness', 'T02')
    g.cfg('threads', r.choice([1, 2, 3, 4, 8]))
    nc = r.randint(1, 4)
    tasks = 0
    todo = []          # steps of clients
    kinds = {'mix': ['chain', 'chain', 'excl', 'bar', 'multi'], 'excl': ['excl', 'excl'], 'chain': ['chain'] * 4}[mode]
    main = []
    locks = 0
    bar = 0
    for k in r.sample(kinds, r.randint(1, len(kinds))):
        if k == 'chain':
            m = r.randint(1, 6)
            if tasks + m + 1 > 60:
                continue
            ids = list(range(tasks, tasks + m + 1))
            tasks += m + 1
            hd, kids = ids[0], ids[1:]
            r.shuffle(kids)
            if r.random() < 0.3 and m > 1 and tasks + m < 60:
                # the same task is used a second time, in the other way
                again = list(range(tasks, tasks + m))
                tasks += m
                ids += again
                r.shuffle(again)
                ways = ['append', 'insert']
                r.shuffle(ways)
                main += [['chain', ways[0], hd] + kids, ['run', hd], ['settle', hd] + kids, ['chain', ways[1], hd] + again]
            else:
                main.append(['chain', r.choice(['append', 'insert']), hd] + kids)
            for i in ids:
                g.nap('T%d' % i, 0.7)
                if r.random() < 0.15:
                    g.hop('T%d' % i, 'throw', 1)
            todo.append([[r.choice(['run', 'run', 'run', 'idle', 'drop']), hd]])
            if r.random() < 0.4:
                todo.append([['drop', hd]])
        elif k == 'excl':
            nl = r.randint(1, 3)
            for _ in range(r.randint(2, 7)):
                if tasks >= 60:
                    break
                i = tasks
                tasks += 1
                for l in r.sample(range(locks, locks + nl), r.randint(1, nl)):
                    g.nap('T%d' % i, 0.4)
                    g.hop('T%d' % i, 'lock', l, r.choice([0, 1, 50, 1000, 30000]), r.choice([0, 0, 1, 500]))
                    g.nap('T%d' % i, 0.3)
                todo.append([['run', i], ['drop', i]] if r.random() < 0.7 else [['run', i]])
            locks += nl
        elif k == 'bar':
            m = r.randint(1, 4)
            cp = r.randint(1, 5)
            ids = list(range(tasks, tasks + m))
            tasks += m
            main.append(['barrier', bar, cp] + ids)
            for i in ids:
                g.nap('T%d' % i, 0.5)
            for c in range(cp):
                if r.random() < 0.5:
                    todo.append([['release', bar, c]])
                else:
                    i = tasks
                    tasks += 1
                    g.nap('T%d' % i, 0.5)
                    g.hop('T%d' % i, 'release', bar, c)
                    todo.append([['run', i]])
            bar += 1
        else:
            ty = ['dedupe', 'logino', 'other'][:r.randint(2, 3)]
            for _ in range(r.randint(2, 6)):
                if r.random() < 0.5:
                    todo.append([['mlock', r.choice(ty), r.choice([0, 10, 1000])]])
                else:
                    i = tasks
                    tasks += 1
                    for _ in range(r.randint(1, 2)):
                        g.hop('T%d' % i, 'mlock', r.choice(ty), r.choice([0, 10, 1000]))
                    todo.append([['run', i]])
    g.cfg('tasks', max(1, tasks))
    for m in main:
        g.hop('main', *m)
    r.shuffle(todo)
    for t in todo:
        c = r.randrange(nc)
        g.nap(c)
        for s in t:
            g.hop(c, *s)
            g.nap(c, 0.2)
    if r.random() < 0.4:
        pool_ops(g, tasks, str(nc))
    return g.done()


def c01(seed, mode):
    g = H(seed, 'C01')
    r = g.r
    g.cfg('harness', mode)
    nc = 1 if mode == 'lru' and r.random() < 0.25 else r.randint(2, 5)
    keys = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 12, 20])
    g.cfg('keys', keys)
    mx = r.choice([1, 2, 3, r.randint(1, keys), r.randint(1, keys), keys + 1, keys + 5, 100])
    g.cfg('p_fail', r.choice([0, 0, 0.2, 0.6]))
    if mode == 'lru':
        g.cfg('max', mx)
    if mode == 'lockset' and r.random() < 0.4:
        g.cfg('max', r.randint(1, 4))
    hot = r.random() < 0.5
    resize = mode == 'lru' and r.random() < 0.15
    for c in range(nc):
        for _ in range(r.randint(3, 80 if nc == 1 else 16)):
            g.nap(c, 0.3)
            k = 0 if hot and r.random() < 0.6 else r.randrange(keys)
            if mode == 'lru':
                v = r.choices(['get', 'refresh', 'expire', 'insert', 'clear', 'size', 'max'], [8, 1.5, 2, 1.5, 0.7, 1, 1 if resize else 0])[0]
                if v == 'max':
                    k = r.choice([1, 2, 5, 20])
                g.hop(c, v, k)
            elif mode == 'named':
                v = r.choices(['get', 'put', 'drop'], [6, 1, 4])[0]
                if v == 'drop':
                    g.hop(c, v, r.randrange(3))
                else:
                    g.hop(c, v, k, r.randrange(3))
            elif mode == 'pool':
                v = r.choices(['get', 'copy', 'drop', 'clear'], [6, 2, 6, 0.5])[0]
                g.hop(c, v, r.randrange(3))
            else:
                v = r.choices(['lock', 'manual', 'try', 'size'], [4, 2, 3, 0.5])[0]
                g.hop(c, v, k, r.choice([0, 1, 50, 2000]))
    return g.done()


def g01(seed, mode='mix'):
    g = H(seed, 'G01')
    r = g.r
    g.cfg('harness', 'progress')
    g.cfg('v0', r.choice([0, 100, 100, 1000]))
    g.cfg('slow_copy', r.choice([0, 1]))
    nc = r.randint(1, 5)
    span = r.choice([3, 20, 1000])
    nxt = [100]
    for c in range(nc):
        for _ in range(r.randint(4, 25)):
            g.nap(c, 0.3)
            v = r.choices(['hold', 'drop', 'copy', 'begin', 'end'], [5, 4, 1.5, 4, 2])[0]
            if v == 'hold':
                if mode == 'rising':
                    nxt[0] += r.choice([0, 0, 1, 5])
                    x = nxt[0]
                else:
                    x = max(0, 100 + r.randint(-span, span))
                g.hop(c, v, r.randrange(4), x)
            elif v in ('drop', 'copy'):
                g.hop(c, v, r.randrange(4))
            else:
                g.hop(c, v)
    return g.done()


def h01(seed, mode='mix'):
    g = H(seed, 'H01')
    r = g.r
    g.cfg('harness', 'hash')
    g.cfg('hash_size', r.choice([131072, 131072, 262144]))
    nb = {'131072': 32, '262144': 64}[[l for l in g.L if l.startswith('cfg hash_size')][0].split()[2]]
    home = r.choice([(0, 0), (1, 0), (1, 1)])
    g.cfg('home_btrfs', home[0])
    g.cfg('home_inside', home[1])
    nc = r.randint(1, 5)
    buckets = r.sample(range(nb), r.randint(1, 4))
    hashes = [b + nb * r.randrange(1 << 40) for b in buckets for _ in range(r.randint(1, 3))]
    addrs = [0x1000 * r.randrange(1, 1 << 30) for _ in range(r.choice([2, 4, 12]))]
    pair = lambda: (r.choice(hashes), r.choice(addrs))
    full = mode == 'full'
    n0 = r.choice([0, 0, 3, 30])
    for _ in range(n0):
        g.hop('init', *pair())
    if full:
        b = buckets[0]
        for _ in range(r.choice([200, 250, 256])):
            g.hop('init', b + nb * r.randrange(1 << 40), 0x1000 * r.randrange(1, 1 << 30))
    elif r.random() < 0.3:
        for _ in range(100):
            g.hop('init', r.randrange(1, 1 << 60), 0x1000 * r.randrange(1, 1 << 30))
    for c in range(nc):
        for _ in range(r.randint(3, 30)):
            g.nap(c, 0.2)
            v = r.choices(['front', 'rand', 'erase', 'find'], [3, 4, 2, 4])[0]
            h, a = pair()
            if full and v in ('front', 'rand') and r.random() < 0.5:
                h, a = buckets[0] + nb * r.randrange(1 << 40), 0x1000 * r.randrange(1, 1 << 30)
            if v == 'find':
                g.hop(c, v, h)
            else:
                g.hop(c, v, h, a)
    if mode == 'faults':
        for _ in range(r.randint(1, 3)):
            s = r.choice(['pread_hash', 'pwrite_hash', 'pwrite_hash'])
            e = r.choice(['EIO', 'ENOSPC', 'short']) if s == 'pwrite_hash' else r.choice(['EIO', 'short'])
            g.L.append('fault site=%s p=%s %s max=%d seed=%d' % (s, r.choice([0.2, 0.5, 1]), ('kind=short' if e == 'short' else 'err=' + e), r.randint(1, 4), r.getrandbits(30)))
    return g.done()


def p19(seed):
    """worker counts: settings and load change, then stay constant for a while"""
    g = H(seed, 'P19')
    r = g.r
    g.cfg('harness', 'load')
    th = r.choice([1, 2, 3, 4, 8, 12])
    g.cfg('threads', th)
    g.cfg('tasks', 28)
    mn = 0
    target = 0
    p = 0
    for _ in range(r.randint(2, 7)):
        for _ in range(r.randint(1, 4)):
            v = r.choices(['threads', 'min', 'target', 'load', 'pause', 'print'], [2, 2, 2, 4, 0.7 if not p else 3, 0.5])[0]
            if v == 'threads':
                th = r.choice([1, 2, 3, 4, 5, 8, 12])
                if mn > th:
                    mn = r.randint(0, th)
                    g.hop(0, 'min', mn)
                g.hop(0, v, th)
            elif v == 'min':
                mn = r.randint(0, th)
                g.hop(0, v, mn)
            elif v == 'target':
                target = r.choice([0, 1.25, 2.25, 4.25, 9.25])
                g.hop(0, v, target)
            elif v == 'load':
                g.hop(0, v, r.choice([0, 0.5, 1, 2, 3, 4, 5, 8, 10, 50]))
            elif v == 'pause':
                p = 1 - p
                g.hop(0, v, p)
            else:
                g.hop(0, v)
            if r.random() < 0.5:
                g.hop(0, 'sleep', r.choice([0, 10, 100000, 4999990, 5000000, 5000100, 30000000, 200000000]))
        g.hop(0, 'settle')
    if r.random() < 0.2:
        g.walls()
    return g.done()


def r01(seed, mode='mix'):
    g = H(seed, 'R01')
    r = g.r
    g.cfg('harness', 'rate')
    g.cfg('rate', r.choice([0.5, 3, 10, 1000]))
    g.cfg('burst', r.choice([0, 1, 10, 50]))
    nc = r.randint(1, 4)
    g.cfg('takers', nc)
    est = r.random() < 0.6
    top = 0
    waits = []
    naps = [0, 10, 1000, 100000, 1000000, 10000000, 100000000]
    for c in range(nc):
        n = 0
        for _ in range(r.randint(3, 14)):
            if r.random() < 0.5:
                g.hop(c, 'sleep', r.choice(naps))
            v = r.choices(['take', 'borrow', 'ready', 'age', 'est', 'update'], [5, 1, 0.5, 1.5, 2 if est else 0, 3 if est else 0])[0]
            if v in ('take', 'borrow'):
                g.hop(c, v, r.choice([0.1, 1, 5, 30]))
            elif v == 'update':
                n += r.choice([0, 1, 1, 3, 10])
                top = max(top, n)
                g.hop(c, v, n)
            elif v == 'est':
                g.hop(c, v, r.randrange(40))
            else:
                g.hop(c, v)
    if top:
        for w in range(r.randint(1, 3)):
            c = nc + w
            g.hop(c, 'sleep', r.choice(naps))
            for n in sorted(r.randrange(0, top + 1) for _ in range(r.randint(1, 4))):
                g.hop(c, 'wait', n)
    if r.random() < 0.5:
        # units counted one by one by several clients, and others waiting for them
        b = nc + 4
        for c in range(b, b + r.randint(1, 4)):
            for _ in range(r.randint(1, 12)):
                if r.random() < 0.3:
                    g.hop(c, 'sleep', r.choice(naps))
                v = r.choices(['inc', 'units', 'more'], [6, 2, 1])[0]
                g.hop(c, v, *([] if v == 'units' else [r.choice([1, 1, 2, 3])]))
        for _ in range(150):     # until nobody waits
            g.hop(b + 5, 'sleep', 100000000)
            g.hop(b + 5, 'inc', 1)
    g.walls()
    return g.done()
