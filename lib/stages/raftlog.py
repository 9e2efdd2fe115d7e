"""A replica's log and state files; C14."""
from runner import Model, Stage


def entry(rng):
    return '%d %d' % (rng.randint(1, 9), rng.choice([8, 8, 9, 30, 100, rng.choice([8, 5000])]))


def one(rng):
    ops, top = ['reset %d' % rng.randint(0, 4)], 1
    flat = rng.random() < .3
    for _ in range(rng.choice([6, 15, 40])):
        x = rng.random()
        if x < .06 and not flat:
            ops += ['lose %d' % rng.randrange(2), rng.choice(['append ' + entry(rng), 'write %d %s' % (rng.randint(max(1, top - 3), top), entry(rng)),
                                                             'compact %d' % rng.randint(1, top + 1), 'apply %d' % rng.randint(1, top + 1)]), 'crash -1']
        elif x < .4:
            ops.append('append ' + entry(rng))
            top += 1
        elif x < .5:
            ops.append('write %d %s' % (rng.randint(max(1, top - 4), top), entry(rng)))
        elif x < .6:
            ops.append('compact %d' % (rng.choice([top - 1, top, top + rng.randint(1, 4), rng.randint(1, top), rng.randint(1, top)])))
        elif x < .68:
            ops.append('pack %d %d' % (rng.randint(1, top + 1), rng.randint(0, 4)))
        elif x < .76:
            i = rng.randint(max(1, top - 5), top + 3)
            ops.append('apply %d' % i)
            top = max(top, i + 2)
        elif x < .82:
            ops.append('flush')
        elif x < .94:
            ops.append('crash %d' % rng.choice([-1, -1, 0, rng.randrange(8)]))
        elif x < .97:
            ops.append('state %d %d %d' % (rng.randint(1, 99), rng.choice([-1, 1, 2, 3]), rng.choice([-1, rng.randrange(8)])))
        else:
            ops.append('config %d %d %d' % (rng.randint(1, 99), rng.randint(0, 4), rng.choice([-1, rng.randrange(8)])))
    return ops + ['end']


def saves(rng):
    ops = ['reset %d' % rng.randint(0, 3)]
    for k in list(range(8)) * 2:
        ops += ['state %d %d %d' % (rng.randint(1, 99), rng.randint(-1, 3), rng.choice([k, k, -1])),
                'config %d %d %d' % (rng.randint(1, 99), rng.randint(0, 4), rng.choice([k, k, -1]))]
    return ops + ['crash -1', 'end']


def gen(rng, tier):
    k = 1 if tier == 'quick' else 20
    out = [one(rng) for _ in range(600 * k)] + [saves(rng) for _ in range(10)]
    for _ in range(10 * k):
        out.append(['reset 1'] + ['append ' + entry(rng)] * rng.randint(0, 3) + ['compact %d' % rng.randint(1, 4)] * rng.randrange(2)
                   + ['threads %d' % rng.randint(5, 60), 'flush', 'crash 0', 'end'])
    # many entries: several tables of the store, and indices of more than one byte
    for _ in range(2 * k):
        ops = ['reset 1', 'threads 300', 'flush']
        for _ in range(6):
            ops += ['compact %d' % rng.randint(1, 320), rng.choice(['crash -1', 'crash 0']), 'write %d 2 9' % rng.randint(250, 310)]
        out.append(ops + ['end'])
    return out


def wrap(h):
    return ['reset 2'] + [o for o in h.split(';') if o] + ['end']


SRC = ['src/util/raft/log_store.cpp', 'src/util/raft/index_comparator.cpp', 'src/util/raft/state_manager.cpp']
STAGES = [Stage('raftlog',
                models=[Model('MCRaftLog', 'MCRaftLog_q.cfg', emit='cover', workers=2),
                        Model('MCRaftLog', 'MCRaftLog_t1.cfg', 'thorough'), Model('MCRaftLog', 'MCRaftLog_t2.cfg', 'thorough')],
                drv=dict(name='raftlog', sources=['raftlog.cpp'], globs=SRC, libs=['-lleveldb', '-ldl']),
                gen=gen, wrap=wrap, trace=('TraceRaftLog', 'TraceRaftLog.cfg'), tlc_cap=(1500, 20000), timeout=30,
                clauses={'C14': '.*'})]
META = {'C14': {'level': 'model_checking'}}
