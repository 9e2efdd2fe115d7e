"""Whole programmable ledger, real brokers and shards: C05, C06, C07."""
from runner import Model, Stage


def gen(rng, tier):
    out = []
    for _ in range(1200 if tier == 'quick' else 50000):
        nb, ns = rng.randint(1, 2), rng.randint(1, 3)
        nt, nk = rng.randint(1, 8), rng.randint(1, 5)
        ops = ['reset %d %d %d %d' % (nb, ns, rng.random() < 0.6, rng.random() < 0.25)]
        sync = rng.random() < 0.3
        if rng.random() < 0.1:
            ops.append('sync 1')
        crash = rng.choice([0, 0, 0.02, 0.05])
        hurry = rng.choice([0.3, 0.55, 0.75])
        began = 0
        for _ in range(rng.randint(20, 140)):
            x = rng.random()
            t = rng.randint(1, max(1, began))
            if began < nt and (began == 0 or x < 0.06):
                began += 1
                ops.append('begin %d %d' % (began, rng.randint(1, nb)))
            elif x < hurry:
                ops.append('go %d' % rng.randrange(8))
            elif x < hurry + crash:
                b = rng.randint(1, nb)
                if rng.random() < 0.5:
                    ops.append('d %d %d' % (b, rng.randrange(ns)))
                ops.append('crash %d %d' % (b, rng.randint(0, 1)))
                if sync:
                    ops += ['flow'] * rng.randint(0, 1) + ['sync 1']
                if rng.random() < 0.7:
                    ops += ['go %d' % rng.randrange(8)] * rng.randint(0, 4)
                    ops += ['arrive %d' % b, 'recover %d' % b]
            else:
                y = rng.random()
                if y < 0.5:
                    ops.append('lock %d %d %s' % (t, rng.randint(1, nk), rng.choice('rww')))
                elif y < 0.75:
                    ops.append('commit %d %d' % (t, rng.choice([255, 255, rng.randint(0, 63)])))
                elif y < 0.85:
                    ops.append('finish %d' % t)
                elif y < 0.92:
                    ops.append('rollback %d' % t)
                elif y < 0.97:
                    ops.append('recover %d' % rng.randint(1, nb))
                else:
                    ops.append('flow')
                    if sync:
                        ops.append('sync %d' % rng.randint(0, 1))
        ops += (['sync 1'] if sync else []) + ['settle %d' % rng.choice([0, 0, 1])]
        out.append(ops)
    for _ in range(1000 if tier == 'quick' else 20000):
        out.append(stopped(rng))
    return out


def stopped(rng):
    """A broker stops somewhere in the middle of commits and is replaced."""
    ns, nt = rng.randint(2, 3), rng.choice([1, 1, 1, 2, 3])
    ops = ['reset 2 %d 1 0' % ns]
    for t in range(1, nt + 1):
        ops.append('begin %d %d' % (t, 1 if t == 1 else rng.randint(1, 2)))
        ks = rng.sample(range(1, 6), rng.randint(1, 4 if nt == 1 else 2))
        for k in ks:
            ops.append('lock %d %d %s' % (t, k, rng.choice('rww')))
            if rng.random() < 0.3:
                ops.append('go %d' % rng.randrange(6))
        ops.append('flow')
    for t in rng.sample(range(1, nt + 1), rng.randint(1, nt)):
        ops.append(rng.choice(['commit %d', 'commit %d', 'commit %d', 'rollback %d']) % t)
    ops += ['go %d' % rng.randrange(8) for _ in range(rng.randint(0, 5 * nt + 8))]
    if rng.random() < 0.3:
        ops.append('finish 1')
        ops += ['go %d' % rng.randrange(8) for _ in range(rng.randint(0, 4))]
    ops.append('crash 1 %d' % rng.randint(0, 1))
    if rng.random() < 0.6:
        ops += ['flow', 'sync 1']
    else:
        ops += ['arrive 1', 'recover 1'] + ['go %d' % rng.randrange(6) for _ in range(rng.randint(0, 9))]
        if rng.random() < 0.5:
            ops.append('crash 1 %d' % rng.randint(0, 1))
    return ops + ['settle 0']


def wrap(h):
    ops = [o for o in h.split(';') if o]
    nb = max([int(o.split()[2]) for o in ops if o.startswith('begin')] + [1])
    late = ['flow', 'sync 1'] if ops and ops[-1].startswith('crash') else []
    return ['reset %d 2 1' % nb] + ops + late + ['settle 0']


STAGES = [Stage(
    'ledger',
    models=[Model('MCLedger', 'MCLedger_q.cfg', emit='cover'),
            Model('MCLedger', 'MCLedger_s.cfg', emit='cover', simulate=(400, 45)),
            Model('MCLedger', 'MCLedger_2.cfg', workers=5),
            Model('MCLedger', 'MCLedger_rw.cfg', 'thorough', workers=8, mem='12g'),
            Model('MCLedger', 'MCLedger_c.cfg', 'thorough', workers=8, mem='12g')],
    drv=dict(name='ledger', sources=['ledger.cpp'],
             globs=['src/parsec/broker/impl.cpp', 'src/parsec/runtime_locking_shard/impl.cpp',
                    'src/parsec/directory/impl.cpp', 'src/parsec/ticket_machine/impl.cpp']),
    gen=gen, wrap=wrap, trace=('TraceLedger', 'TraceLedger.cfg'), tlc_cap=(1200, 100000),
    clauses={
        'C05': 'commit-before-prepare|rollback-after-commit|early-success|false-failure|rollback-incomplete|finish-.*|changed-read|stuck-transaction|crash|hang',
        'C06': 'recover-.*|left-locks|stuck-recovery|crash|hang',
        'C07': 'moved-key|dirty-read|stale-read|changed-read|ledger|crash|hang',
    })]
META = {p: {'level': 'model_checking'} for p in ('C05', 'C06', 'C07')}
