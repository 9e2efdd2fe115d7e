"""Replicated runtime locking shard: C04."""
from runner import Model, Stage

NT, NK = 8, 3


def gen(rng, tier):
    out = []
    for _ in range(700 if tier == 'quick' else 15000):
        nk = rng.randint(1, NK)
        nt = rng.randint(2, NT)
        ops = ['reset']
        papply = rng.choice([0.15, 0.3])
        for _ in range(rng.randint(6, 50)):
            t = rng.randint(1, nt)
            x = rng.random()
            if x < papply:
                ops.append('apply')
            elif x < papply + 0.3:
                ops.append('lock %d %d %d %s' % (t, 1 + t % 3, rng.randint(1, nk), rng.choice('rww')))
            elif x < papply + 0.45:
                ops.append('prep %d %d %d' % (t, 1 + t % 3, rng.randint(0, 15) | rng.choice([0, 15])))
                if rng.random() < 0.7:
                    ops.append('apply')
                if rng.random() < 0.6:
                    ops.append('commit %d' % t)
                    if rng.random() < 0.3:
                        ops.append('commit %d' % t)
            elif x < papply + 0.5:
                ops.append('commit %d' % t)
            elif x < papply + 0.57:
                ops += ['end %d' % t]
            elif x < papply + 0.62:
                ops.append('crash %d' % rng.randint(0, 3))
        ops.append('drain %d 9' % nk)
        out.append(ops)
    return out


def wrap(h):
    return ['reset'] + [o for o in h.split(';') if o] + ['drain 1 9']


RLS = ['src/parsec/runtime_locking_shard/%s.cpp' % f for f in
       ('impl', 'replicated_shard', 'replicated_shard_client', 'server', 'state_machine', 'format')]
RAFT = ['src/util/raft/%s.cpp' % f for f in
        ('node', 'state_manager', 'log_store', 'console_logger', 'index_comparator', 'serialization', 'messages')]

STAGES = [Stage(
    'rlsf',
    models=[Model('MCRLSF', 'MCRLSF_q.cfg', emit='cover'),
            Model('MCRLSF', 'MCRLSF.cfg', 'thorough', workers=8)],
    drv=dict(name='rlsf', sources=['rlsf.cpp'],
             globs=RLS + RAFT + ['src/parsec/util.cpp', 'src/util/rpc/*.cpp', 'src/util/network/*.cpp',
                                 'src/util/common/random_source.cpp', 'src/util/common/config.cpp'],
             libs=['-lleveldb']),
    gen=gen, wrap=wrap, trace=('TraceRLSF', 'TraceRLSF.cfg'),
    clauses={'C04': '.*'})]
META = {'C04': {'level': 'model_checking'}}
