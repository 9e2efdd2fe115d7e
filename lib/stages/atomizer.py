"""Atomizer: acceptance of transactions, blocks, replicas and snapshots; C15, C16."""
from runner import Model, Stage

CASES = {1: ['1 1,2 4', '2 2,3 5', '3 1 6'], 2: ['1 1,2 4', '2 4,3 5', '3 4,1 6']}


def csv(xs):
    return ','.join(map(str, xs)) or '-'


def raw(rng):
    d = rng.choice([0, 1, 1, 2, 3])
    h0 = rng.choice([0, 0, 3, 100])
    ops = ['reset raw %d %d' % (d, h0)]
    nt, nu = rng.randint(1, 6), rng.randint(1, 6)
    ins = {}
    for t in range(1, nt + 1):
        n = 0 if rng.random() < 0.06 else min(nu, rng.randint(1, 3))
        ins[t] = rng.sample(range(1, nu + 1), n)
        ops.append('def %d %s %s' % (t, csv(ins[t]), csv([100 + t])))
    h = h0
    for _ in range(rng.randint(5, 45)):
        x = rng.random()
        t = rng.randint(1, nt)
        n = len(ins[t])
        hh = max(0, h - rng.choice([0, 0, 0, 1, 1, d, d + 1, d + 2])) if rng.random() < 0.97 else h + rng.randint(1, 3)
        if x < 0.55:
            atts = [i for i in range(n) if rng.random() < 0.6]
            if n and not atts:
                atts = [rng.randrange(n)]
            ops.append('ins %d %d %s' % (t, hh, csv(atts)))
        elif x < 0.7:
            ops.append('insc %d %d' % (t, hh))
        elif x < 0.92:
            ops.append('block')
            h += 1
        else:
            ops.append('ser %d %d' % (rng.choice([0, h]), rng.randint(0, 3)))
    return ops


def sm(rng):
    d = rng.choice([0, 1, 1, 2, 3])
    ops = ['reset sm %d 0' % d]
    nt, nu = rng.randint(1, 7), rng.randint(1, 7)
    ins = {}
    for t in range(1, nt + 1):
        n = 0 if rng.random() < 0.05 else min(nu, rng.randint(1, 3))
        ins[t] = rng.sample(range(1, nu + 1), n)
        ops.append('def %d %s %s' % (t, csv(ins[t]), csv([100 + t, 200 + t])))
    h = 0
    faults = rng.choice([0, 0.1, 0.25])
    for _ in range(rng.randint(5, 50)):
        x = rng.random()
        t = rng.randint(1, nt)
        n = len(ins[t])
        if x < faults:
            k = rng.random()
            if k < 0.45:
                ops.append('snap %d' % rng.randint(0, 2))
            elif k < 0.8:
                ops.append('restart %d %d' % (rng.randint(0, 2), rng.randint(0, 1)))
            else:
                a, b = rng.sample(range(3), 2)
                ops.append('install %d %d %d' % (a, b, rng.randint(0, 1)))
        elif x < 0.6:
            hh = max(0, h - rng.choice([0, 0, 0, 1, 1, 2, d, d + 1]))
            atts = [i for i in range(n) if rng.random() < 0.7]
            if n and not atts:
                atts = [rng.randrange(n)]
            ops.append('not %d %d %s' % (t, hh, csv(atts)))
        elif x < 0.75:
            ops.append('flush')
        elif x < 0.9:
            ops.append('block')
            h += 1
        elif x < 0.95:
            ops.append('get %d' % rng.randint(0, h + 1))
        else:
            ops.append('prune %d' % rng.randint(0, h + 1))
    ops += ['flush', 'block'] + ['get %d' % i for i in range(1, h + 2)]
    return ops


def gen(rng, tier):
    k = 1 if tier == 'quick' else 25
    return [raw(rng) for _ in range(1500 * k)] + [sm(rng) for _ in range(700 * k)]


def conv(mode, d, case):
    return lambda h: '%s %d|%d|%s' % (mode, d, case, h)


def wrap(h):
    head, case, h = h.split('|', 2)
    ops = ['reset %s 0' % head] + ['def ' + x for x in CASES[int(case)]] + [o for o in h.split(';') if o]
    return ops + (['flush', 'block', 'get 1'] if head.startswith('sm') else ['block'])


AT = ['src/uhs/atomizer/atomizer/%s.cpp' % f for f in
      ('atomizer', 'atomizer_raft', 'block', 'format', 'messages', 'state_machine')]
RAFT = ['src/util/raft/%s.cpp' % f for f in
        ('node', 'state_manager', 'log_store', 'console_logger', 'index_comparator', 'serialization', 'messages')]
MORE = ['src/uhs/atomizer/watchtower/tx_error_messages.cpp', 'src/uhs/transaction/*.cpp',
        'src/util/common/keys.cpp', 'src/util/common/config.cpp', 'src/util/network/*.cpp']

STAGES = [Stage(
    'atomizer',
    models=[Model('MCAtomizer', 'MCAtomizer_q.cfg', emit='cover', convert=conv('raw', 1, 1), workers=2),
            Model('MCAtomizer', 'MCAtomizer_q2.cfg', emit='cover', convert=conv('raw', 0, 2), workers=2),
            Model('MCAtomizer', 'MCAtomizer_q3.cfg', emit='cover', convert=conv('sm', 1, 1), workers=2),
            Model('MCAtomizer', 'MCAtomizer_q4.cfg', emit='cover', convert=conv('sm', 2, 2), workers=2)]
    + [Model('MCAtomizer', 'MCAtomizer_t%d.cfg' % i, 'thorough', workers=4) for i in (1, 2, 3, 4)],
    drv=dict(name='atomizer', sources=['atomizer.cpp'], globs=AT + RAFT + MORE, libs=['-lleveldb', '-lsecp256k1']),
    gen=gen, wrap=wrap, trace=('TraceAtomizer', 'TraceAtomizer.cfg'), tlc_cap=(600, 30000),
    clauses={'C15': 'accepted|rejected|reason|expired|pending|aggregate|crash|hang',
             'C16': 'block-.*|height|get|serialize|replicas-differ|snapshot|restart|install|expired|pending|crash|hang'})]
META = {p: {'level': 'model_checking'} for p in ('C15', 'C16')}
