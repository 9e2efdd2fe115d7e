"""PArSEC broker on scripted shards: C05 and the recovery part of C06."""
from runner import Model, Stage

NT, NS, NK = 6, 3, 5


def lst(rng, nt):
    out = []
    for t in range(1, nt + 1):
        if rng.random() < 0.5:
            out.append('%d:%s' % (t, rng.choice('bpcw')))
    return ','.join(out) or '-'


def gen(rng, tier):
    out = []
    for _ in range(1200 if tier == 'quick' else 40000):
        ops = ['reset']
        nt = rng.randint(1, NT)
        fail = rng.choice([0, 0.03, 0.12])
        vn = 10
        if rng.random() < 0.3:
            # a broker that recovers first
            for _ in range(rng.randint(1, 2)):
                if rng.random() < 0.15:
                    ops.append('down %d 1' % rng.randrange(NS))
                ops.append('recover')
                if rng.random() < 0.4:
                    # the same history on all shards, as after a real stop
                    for s in range(NS):
                        ops.append('repi %d ok 0 %s' % (rng.randrange(9), lst(rng, 2)))
                for _ in range(rng.randint(3, 25)):
                    ops.append('repi %d %s 0 %s' % (
                        rng.randrange(9), 'unknown' if rng.random() < fail else 'ok', lst(rng, nt)))
                for s in range(NS):
                    ops.append('down %d 0' % s)
            ops += ['repi 0 ok 0 -'] * 6
        began = 0
        for _ in range(rng.randint(10, 70)):
            x = rng.random()
            t = rng.randint(1, max(1, began))
            vn += 1
            if began < nt and (began == 0 or x < 0.08):
                m = rng.choice(['ok'] * 9 + ['refuse', 'err'])
                if m == 'ok':
                    began += 1
                ops.append('begin %d %s %d' % (began if m == 'ok' else 0, m, began + rng.randint(0, 3)))
            elif x < 0.30:
                ops.append('lock %d %d %s' % (t, rng.randint(1, NK), rng.choice('rw')))
            elif x < 0.40:
                ks = [k for k in range(1, NK + 1) if rng.random() < (0.15 if rng.random() < 0.4 else 0)]
                ops.append('commit %d%s' % (t, ''.join(' %d=%d' % (k, vn * 10 + k) for k in ks)))
            elif x < 0.45:
                ops.append('finish %d' % t)
            elif x < 0.50:
                ops.append('rollback %d' % t)
            elif x < 0.505:
                ops.append('recover')
            elif x < 0.515:
                ops.append('highest')
            elif x < 0.515 + fail / 4:
                ops.append('down %d %d' % (rng.randrange(NS), rng.randint(0, 1)))
            elif x < 0.515 + fail / 3:
                ops.append('dir %d' % rng.choice([0, 0, 1]))
            elif x < 0.58:
                # a whole transaction in order
                ks = rng.sample(range(1, NK + 1), rng.randint(1, 3))
                for k in ks:
                    ops.append('lock %d %d w' % (t, k))
                ops += ['repi 0 ok %d' % (vn + 300)] * 6
                ops.append('commit %d%s' % (t, ''.join(' %d=%d' % (k, vn * 10 + k) for k in ks)))
            else:
                r = rng.random()
                code = 'ok' if r > fail * 1.5 else rng.choice(['wounded', 'wounded', 'unknown', 'internal'])
                ops.append('repi %d %s %d -' % (rng.choice([0, rng.randrange(9)]), code,
                                                rng.choice([0, vn * 7, vn * 7])))
        for s in range(NS):
            ops.append('down %d 0' % s)
        ops.append('dir 0')
        ops.append('settle')
        for t in range(1, nt + 1):
            ops.append('finish %d' % t)
            ops.append('rollback %d' % t)
            ops.append('settle')
            ops.append('finish %d' % t)
        ops += ['settle', 'recover', 'settle', 'highest']
        out.append(ops)
    return out


def wrap(h):
    return ['reset'] + [o for o in h.split(';') if o]


STAGES = [Stage(
    'broker',
    models=[],
    drv=dict(name='broker', sources=['broker.cpp'],
             globs=['src/parsec/broker/impl.cpp', 'src/parsec/runtime_locking_shard/impl.cpp']),
    gen=gen, wrap=wrap, trace=('TraceBroker', 'TraceBroker.cfg'),
    clauses={
        'C05': 'call-.*|result-.*|inv-atomic|crash|hang',
        'C06': 'rec-.*|crash|hang',
    })]
META = {p: {'level': 'model_checking'} for p in ('C05', 'C06')}
