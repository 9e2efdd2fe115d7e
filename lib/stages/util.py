"""Queues, thread pool, bounded sets; C23."""
from runner import Model, Stage

PROG = {'t': 'pop', 'p': 'push', 'c': 'clear'}


def toks(rng, n, t, p=.05):
    return ','.join(str(90 + rng.randint(1, t) if rng.random() < p else rng.randint(1, t)) for _ in range(rng.randint(0, n))) or '-'


def queue(rng, mode):
    ops, used = ['reset %s %d' % (mode, rng.randrange(2))], 0
    for _ in range(rng.choice([1, 1, 2, 3])):
        for _ in range(rng.choice([1, 1, 2])):
            n = rng.randint(1, 5)
            progs = []
            for _ in range(n):
                x = rng.random()
                w = [.45, .5, .05] if x < .4 else [.9, .1, 0] if x < .6 else [.1, .9, 0] if x < .85 else [.3, .4, .3]
                progs.append('+'.join(rng.choices(['pop', 'push', 'clear'], w, k=rng.randint(1, 5))))
            if mode == 'p':
                vs = rng.sample(range(1, 1000), 40)
                progs = ['+'.join('push:%d' % (1000 * (used + i + 1) % 7777 + vs.pop()) if o == 'push' else o for o in p.split('+')) for i, p in enumerate(progs)]
                # values differ
                seen, out = set(ops_vals(ops)), []
                for p in progs:
                    q = []
                    for o in p.split('+'):
                        if o.startswith('push:'):
                            v = int(o[5:])
                            while v in seen:
                                v += 1
                            seen.add(v)
                            o = 'push:%d' % v
                        q.append(o)
                    out.append('+'.join(q))
                progs = out
            used += n
            ops.append('par %s %s' % (toks(rng, rng.choice([10, 40, 150]), used), ' '.join(progs)))
        used += 2
        ops += ['par - clear', 'par - reset']
    return ops + ['end']


def ops_vals(ops):
    return [int(o[5:]) for l in ops if l.startswith('par') for w in l.split()[2:] for o in w.split('+') if o.startswith('push:')]


def pool(rng):
    ops, k, b = ['reset t %d' % rng.randrange(2)], 0, []
    t = 0
    destroy = rng.random() < .2
    for _ in range(rng.choice([1, 2, 4])):
        progs = []
        for _ in range(rng.randint(1, 3)):
            p = []
            for _ in range(rng.randint(1, 4)):
                if b and rng.random() < .4:
                    p.append('rel:%d' % b.pop(rng.randrange(len(b))))
                else:
                    k += 1
                    kind = 'r' if destroy else rng.choice('rrbbn')
                    if kind == 'b':
                        b.append(k)
                    p.append('give:%d:%s' % (k, kind))
            progs.append('+'.join(p))
        t += len(progs) + 3
        ops.append('par %s %s' % (toks(rng, rng.choice([10, 40, 200]), t, .02), ' '.join(progs)))
    if destroy:
        p = '+'.join('give:%d:r' % (k + 1 + i) for i in range(rng.randint(0, 4)))
        ops.append('par %s %sdestroy' % (toks(rng, 60, t + 3, .02), p + '+' if p else ''))
    return ops + ['end']


def bounded(rng):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 10])
    ops, m = ['reset c %d' % n], rng.choice([n + 1, n + 2, 2 * n + 2])
    for _ in range(rng.choice([5, 20, 60])):
        ops.append('%s %d' % (rng.choice(['add', 'add', 'has']), rng.randrange(m)))
    return ops + ['has %d' % i for i in range(m)] + ['end']


def gen(rng, tier):
    k = 1 if tier == 'quick' else 20
    out = [queue(rng, 'q') for _ in range(500 * k)] + [queue(rng, 'p') for _ in range(200 * k)]
    out += [pool(rng) for _ in range(500 * k)] + [bounded(rng) for _ in range(200 * k)]
    for _ in range(30 * k):
        out += [['reset %s 0' % rng.choice('qqp'), 'stress %d %d %d' % (rng.randint(1, 3), rng.randint(1, 3), rng.randint(2, 8)), 'end'],
                ['reset t 0', 'stress %d %d' % (rng.randint(1, 3), rng.randint(3, 10)), 'end']]
        n = rng.randint(3, 12)
        out.append(['reset c %d' % (n + rng.choice([0, 0, 1, 5])), 'stress %d %d' % (rng.randint(2, 4), n), 'end'])
    return out


def cq(h):
    tok, *progs = h.split('|')
    return 'q|par %s %s' % (tok.strip(',') or '-', ' '.join('+'.join(PROG[c] for c in p) for p in progs if p))


def ct(h):
    return 't|' + ';'.join('par %s %s' % ('-' if i % 3 else '2,3,1,4,2,1,3', o) for i, o in enumerate(h.split(';')) if o)


def wrap(h):
    m, h = h.split('|', 1)
    return ['reset %s 0' % m] + h.split(';') + ['end']


STAGES = [Stage(
    'util',
    models=[Model('MCQueue', 'MCQueue_q1.cfg', emit='cover', convert=cq, workers=2),
            Model('MCQueue', 'MCQueue_q2.cfg', emit='cover', convert=cq, workers=2),
            Model('MCPool', 'MCPool_q.cfg', emit='cover', convert=ct, workers=2),
            Model('MCQueue', 'MCQueue_t1.cfg', 'thorough'), Model('MCQueue', 'MCQueue_t2.cfg', 'thorough'),
            Model('MCPool', 'MCPool_t1.cfg', 'thorough')],
    drv=dict(name='util', sources=['util.cpp'], globs=['src/util/common/thread_pool.cpp'], libs=['-ldl']),
    gen=gen, wrap=wrap, trace=('TraceUtil', 'TraceUtil.cfg'), tlc_cap=(2500, 60000), again=24, timeout=10,
    clauses={'C23': '.*'})]
META = {'C23': {'level': 'model_checking'}}
