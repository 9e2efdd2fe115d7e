"""Two-phase-commit UHS: coordinator and locking shards, C10 to C13."""
import os
import build
from runner import Model, Stage


def gen(rng, tier):
    out = []
    for _ in range(500 if tier == 'quick' else 25000):
        ns = rng.randint(1, 3)
        threads = rng.choice([8, 8, 8, 1, 2])
        seeds = list(range(1, rng.randint(2, 7)))
        ops = ['reset %d %d %d %d %s' % (ns, rng.choice([1, 2, 3, 50]), threads, rng.choice([1, 2, 4, 4]),
                                         ','.join(map(str, seeds)))]
        pool = list(seeds)
        nt = rng.randint(1, 8)
        for t in range(1, nt + 1):
            ins = rng.sample(pool, min(len(pool), rng.randint(1, 3)))
            if rng.random() < 0.1:
                ins.append(9000 + t)
            outs = [100 * t + rng.randint(0, 9) + 10 * j for j in range(rng.randint(0 if rng.random() < 0.1 else 1, 3))]
            ops.append('def %d %s %s' % (t, ','.join(map(str, ins)), ','.join(map(str, outs)) or '-'))
            pool += outs
        crash = rng.choice([0, 0.03, 0.08]) if threads == 8 else 0
        lost = rng.choice([0, 0, 0.1])
        nxt = 1
        ops.append('go 0')
        for _ in range(rng.randint(10, 90)):
            x = rng.random()
            if nxt <= nt and x < 0.12:
                ops.append('sub %d' % nxt)
                nxt += 1
            elif nxt <= nt and x < 0.2:
                n = min(rng.randint(1, 4), nt + 1 - nxt)
                ops.append('batch ' + ' '.join(str(nxt + i) for i in range(n)))
                nxt += n
            elif x < 0.22:
                ops.append('sub %d' % rng.randint(1, nt))
            elif x < 0.24:
                ops.append('hold %d' % rng.choice([0, 0, 1]))
            elif x < 0.24 + crash:
                ds = [str(d) for d in range(1, nxt + 1) if rng.random() < 0.5]
                ops.append('%s %s' % (rng.choice(['crash', 'crashsame']), ' '.join(ds)))
                if rng.random() < 0.8:
                    ops.append('raft 0')
                ops += ['goghost %d' % rng.randrange(9)] * rng.randint(0, 2)
            elif x < 0.26 + crash:
                ops.append('goghost %d' % rng.randrange(9))
            elif x < 0.265 + crash and rng.random() < 0.3:
                ops.append('sfail %d' % rng.randrange(3))
            elif x < 0.28 + crash:
                ops.append('query')
            elif rng.random() < lost:
                ops.append(rng.choice(['golost', 'godrop']) + ' %d' % rng.randrange(9))
            else:
                ops.append('go %d' % rng.choice([0, rng.randrange(9), rng.randrange(9)]))
        ops += ['settle']
        if rng.random() < 0.3:
            ops += ['sfail 0', 'query']
        out.append(ops)
    return out


CASES = {
    1: ['1 1,2 101', '2 2,3 200,201'],
    2: ['1 1,2 101', '2 2,101 200', '3 1 301'],
    3: ['1 1,99 101', '2 1,2 200,201'],
    4: ['1 1 100', '2 100,2 200,201', '3 2 301'],
}


def conv(case):
    return lambda h: '%d|%s' % (case, h)


def wrap(h):
    case, h = h.split('|', 1)
    return (['reset 2 2 8 4 1,2,3,4'] + ['def ' + d for d in CASES[int(case)]] + ['raft 0']
            + [o for o in h.split(';') if o] + ['settle'])


LS = ['src/uhs/twophase/locking_shard/%s.cpp' % f for f in
      ('interface', 'locking_shard', 'state_machine', 'format', 'messages', 'client', 'status_client',
       'status_server')]
CO = ['src/uhs/twophase/coordinator/%s.cpp' % f for f in
      ('controller', 'distributed_tx', 'state_machine', 'format', 'server')]
RAFT = ['src/util/raft/%s.cpp' % f for f in
        ('node', 'state_manager', 'log_store', 'console_logger', 'index_comparator', 'serialization', 'messages')]
TX = ['src/uhs/transaction/*.cpp', 'src/util/common/keys.cpp', 'src/util/common/config.cpp',
      'src/util/network/*.cpp', 'src/util/rpc/*.cpp']
GATED = ['-I' + os.path.join(build.VERIF, 'shim', 'gated')]

STAGES = [Stage(
    'twopc',
    models=[Model('MCTwoPC', 'MCTwoPC_q%s.cfg' % ('' if i == 1 else i), emit='cover', convert=conv(i), workers=2)
            for i in (1, 2, 3, 4)]
    + [Model('MCTwoPC', 'MCTwoPC_t%d.cfg' % i, 'thorough', workers=4) for i in (1, 2, 3, 4)],
    drv=dict(name='twopc', sources=['twopc.cpp'], globs=LS + CO + RAFT + TX,
             libs=['-lleveldb', '-lsecp256k1'], flags=GATED),
    gen=gen, wrap=wrap, trace=('TraceTwoPC', 'TraceTwoPC.cfg'), tlc_cap=(450, 30000),
    clauses={
        'C10': 'shard-.*|flags|reply-.*|final-.*|double-spend|crash|hang',
        'C11': 'shard-again-.*|crash|hang',
        'C12': 'send-.*|rep-.*|flags|reply-.*|final-.*|settle-.*|crash|hang',
        'C13': 'shard-unspent|shard-again-unspent|shard-completed|query-.*|crash|hang',
    })]
META = {p: {'level': 'model_checking'} for p in ('C10', 'C11', 'C12', 'C13')}
