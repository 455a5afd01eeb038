"""Running plans, comparing runs, minimising failing plans."""
import json, os, subprocess, time

class Sim:
    def __init__(self, binary, timeout=150):
        self.bin = binary
        self.timeout = timeout

    def run(self, lines, verbose=None):
        t = time.time()
        text = '\n'.join(lines) + '\n'
        try:
            if verbose:
                with open(verbose, 'wb') as f:
                    p = subprocess.run(['bash', '-c', 'exec "$0" v 3>&1 1>&4', self.bin], input=text.encode(), stdout=f, stderr=subprocess.STDOUT, timeout=self.timeout)
                return None
            p = subprocess.run([self.bin], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=self.timeout)
        except subprocess.TimeoutExpired:
            return {'outcome': 'real_timeout', 'violations': [], 'model_error': '', 'hash': '', 'wall': time.time() - t}
        try:
            j = json.loads(p.stdout)
        except Exception:
            return {'outcome': 'broken', 'violations': [], 'model_error': 'rc=%d out=%r' % (p.returncode, p.stdout[:300]), 'hash': '', 'wall': time.time() - t}
        if 'error' in j:
            return {'outcome': 'broken', 'violations': [], 'model_error': j['error'], 'hash': '', 'wall': time.time() - t}
        j['wall'] = time.time() - t
        return j


def keys(j):
    return {(v['prop'], v['key']) for v in j['violations']}


def set_kv(lines, head, key, val):
    out, done = [], False
    for l in lines:
        w = l.split()
        if len(w) >= 3 and w[0] == head and w[1] == key:
            if val is not None:
                out.append('%s %s %s' % (head, key, val))
            done = True
        else:
            out.append(l)
    if not done and val is not None:
        out.insert(0, '%s %s %s' % (head, key, val))
    return out


def get_kv(lines, head, key):
    for l in lines:
        w = l.split()
        if len(w) >= 3 and w[0] == head and w[1] == key:
            return w[2]
    return None


def minimise(sim, lines, want, budget=60.0, pmap=None, log=None):
    """want: predicate on the report. Returns a smaller plan which still satisfies it."""
    end = time.time() + budget
    best = list(lines)

    def ok(c):
        return want(sim.run(c))

    def tries(cands):
        """first candidate that works (candidates are evaluated in parallel)"""
        nonlocal best
        cands = [c for c in cands if c != best]
        if not cands or time.time() > end:
            return False
        res = pmap(ok, cands) if pmap else map(ok, cands)
        for c, r in zip(cands, res):
            if r:
                best = c
                return True
        return False

    # simplest schedule first
    for kv in ([('sched', 'policy', '2'), ('sched', 'bb_mean', '0'), ('sched', 'p_sync', '0'), ('sched', 'p_spurious', '0')],
               [('sched', 'bb_mean', '0')], [('sched', 'p_spurious', None)], [('sched', 'policy', '0')]):
        c = best
        for h, k, v in kv:
            c = set_kv(c, h, k, v)
        tries([c])
    # remove lines: ops and faults, in chunks
    changed = True
    while changed and time.time() < end:
        changed = False
        idx = [i for i, l in enumerate(best) if l.startswith(('op ', 'fault ', 'hop '))]
        n = max(1, len(idx) // 2)
        while n >= 1 and time.time() < end:
            idx = [i for i, l in enumerate(best) if l.startswith(('op ', 'fault ', 'hop '))]
            chunks = [set(idx[i:i + n]) for i in range(0, len(idx), n)]
            if tries([[l for i, l in enumerate(best) if i not in ch] for ch in chunks]):
                changed = True
                n = min(n, max(1, (len(idx) - n) // 2)) if n > 1 else 1
                continue
            n //= 2
        # configuration towards the defaults
        cands = []
        for i, l in enumerate(best):
            w = l.split()
            if w[0] == 'cfg' and w[1] not in ('seed', 'quiet_at'):
                cands.append(best[:i] + best[i + 1:])
            if w[0] == 'inc':
                if sum(x.startswith('inc') for x in best) > 1:
                    cands.append(best[:i] + best[i + 1:])
                for x in w[1:]:
                    if not x.startswith('m='):
                        cands.append(best[:i] + [' '.join(y for y in w if y != x)] + best[i + 1:])
        if tries(cands):
            changed = True
    # window of the schedule in which choices are random
    r = sim.run(best)
    if r.get('steps') and get_kv(best, 'sched', 'policy') != '2':
        lo, hi = 0, r['steps'] + 1
        while hi - lo > 1 and time.time() < end:
            m = (lo + hi) // 2
            if ok(set_kv(best, 'sched', 'win_hi', m)):
                hi = m
            else:
                lo = m
        c = set_kv(best, 'sched', 'win_hi', hi)
        if ok(c):
            best = c
            lo2, hi2 = 0, hi
            while hi2 - lo2 > 1 and time.time() < end:
                m = (lo2 + hi2) // 2
                if ok(set_kv(best, 'sched', 'win_lo', m)):
                    lo2 = m
                else:
                    hi2 = m
            c = set_kv(best, 'sched', 'win_lo', lo2)
            if ok(c):
                best = c
    return best
