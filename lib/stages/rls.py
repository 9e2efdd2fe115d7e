"""PArSEC runtime locking shard: C01, C02, C03."""
from runner import Model, Stage

NT, NK = 8, 4


def gen(rng, tier):
    out = []
    for _ in range(900 if tier == 'quick' else 25000):
        nt = rng.randint(2, NT)
        nk = rng.randint(1, NK)
        ops = ['reset']
        plock = rng.choice([0.4, 0.55, 0.7])
        for _ in range(rng.randint(8, 60)):
            t = rng.randint(1, nt)
            x = rng.random()
            if x < plock:
                ops.append('lock %d %d %d %s%s' % (
                    t, rng.randint(1, 3), rng.randint(1, nk), rng.choice('rw'),
                    ' 0' if rng.random() < 0.02 else ''))
            elif x < plock + 0.10:
                ops.append('prep %d %d %d' % (t, rng.randint(0, 31), rng.randint(0, 1)))
            elif x < plock + 0.12:
                ks = [k for k in range(1, nk + 1) if rng.random() < 0.4]
                ops.append('prepare %d%s' % (t, ''.join(
                    ' %d=%d' % (k, rng.choice([0, rng.randint(1, 99)])) for k in ks)))
            elif x < plock + 0.17:
                ops.append('commit %d' % t)
            elif x < plock + 0.19:
                ops.append('rollback %d' % t)
            elif x < plock + 0.25:
                ops.append('finish %d' % t)
            elif x < plock + 0.26:
                ops.append('tickets %d' % rng.randint(1, 3))
            else:
                ops.append('prep %d 31 %d' % (t, rng.randint(0, 1)))
                ops.append('commit %d' % t)
        ops.append('drain %d' % nk)
        out.append(ops)
    return out


def wrap(h):
    return ['reset'] + [o for o in h.split(';') if o] + ['drain 2']


STAGES = [Stage(
    'rls',
    models=[Model('MCRLS', 'MCRLS_q.cfg', emit='cover'),
            Model('MCRLS', 'MCRLS_e.cfg', emit='cover'),
            Model('MCRLS', 'MCRLS.cfg', 'thorough', workers=8)],
    drv=dict(name='rls', sources=['rls.cpp'],
             globs=['src/parsec/runtime_locking_shard/impl.cpp']),
    gen=gen, wrap=wrap, trace=('TraceRLS', 'TraceRLS.cfg'),
    clauses={
        'C01': 'exclusion|extra-grant|inv-exclusion|crash|hang',
        'C02': 'exclusion|extra-grant|missing-grant|wound-reply|wound-details|answered-twice|inv-wait|result-lock|crash|hang',
        'C03': 'granted-value|refusal|result-.*|tickets|crash|hang',
    })]
META = {p: {'level': 'model_checking'} for p in ('C01', 'C02', 'C03')}
