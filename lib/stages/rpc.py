"""Remote calls; C24."""
import os
import build
from runner import Model, Stage


def one(rng):
    mode, nc = rng.choice('aaarrbbn'), rng.choice([1, 1, 2, 3])
    ops = ['reset %s %d' % (mode, nc)]
    kinds, nreq, nrep, nd = [], 0, 0, 0
    hows = ['now', 'now', 'none', 'later', 'later', 'refuse']
    burst = rng.random() < .4
    for _ in range(rng.choice([6, 15, 40])):
        x, c = rng.random(), rng.randint(1, nc)
        if x < (.5 if burst and len(kinds) < 6 else .28):
            k = rng.choice('sssaaalltfgneb')
            ops.append('call %d %s' % (c, k))
            kinds.append(k)
            nreq += 1
        elif x < .5 and nreq:
            ops.append('req %d %s' % (rng.randint(max(1, nreq - 4), nreq) if rng.random() < .8 else rng.randint(1, nreq), rng.choice(hows)))
            nd += 1
            nrep += 1
        elif x < .6:
            ops.append('done %d %d' % (rng.randint(1, max(1, nd)), rng.random() < .8))
        elif x < .8:
            ops.append('rsp %d' % rng.randint(1, max(1, nrep)))
        elif x < .82:
            ops.append('rsps')
        elif x < .85 and nreq:
            ops.append('cut %d %d' % (rng.randint(1, nreq), rng.randrange(40)))
            nd += 1
        elif x < .88:
            ops.append('cutrsp %d %d' % (rng.randint(1, max(1, nrep)), rng.randrange(40)))
        elif x < .93:
            ops.append('fake %d %d %d' % (c, rng.randrange(max(1, nreq) + 2), rng.random() < .7))
        elif x < .96:
            t = [i + 1 for i, k in enumerate(kinds) if k == 't']
            if t:
                ops.append('expire %d' % rng.choice(t))
        elif x < .97:
            ops.append('close %d' % c)
        elif x < .975:
            ops.append('stop')
    return ops + ['end']


def stress(rng):
    return ['reset %s %d' % (rng.choice('aarb'), rng.randint(1, 2)), 'stress %d %d' % (rng.randint(2, 4), rng.randint(5, 25)), 'end']


def gen(rng, tier):
    k = 1 if tier == 'quick' else 20
    return [one(rng) for _ in range(900 * k)] + [stress(rng) for _ in range(60 * k)] + [['reset b 1', 'burst %d %d' % (n, 100), 'end'] for n in (2, 3, 4) * 3]


def conv(mode, nc):
    return lambda h: '%s %d|%s' % (mode, nc, h)


def wrap(h):
    head, h = h.split('|', 1)
    return ['reset ' + head] + [o for o in h.split(';') if o] + ['end']


STAGES = [Stage(
    'rpc',
    models=[Model('MCRpc', 'MCRpc_q1.cfg', emit='cover', convert=conv('a', 2), workers=2),
            Model('MCRpc', 'MCRpc_q2.cfg', emit='cover', convert=conv('b', 1), workers=2),
            Model('MCRpc', 'MCRpc_q3.cfg', emit='cover', convert=conv('r', 2), workers=2)]
    + [Model('MCRpc', 'MCRpc_t%d.cfg' % i, 'thorough', workers=4) for i in (1, 2, 3)],
    drv=dict(name='rpc', sources=['rpc.cpp'], globs=['src/util/rpc/format.cpp'],
             flags=['-I' + os.path.join(build.VERIF, 'shim', 'net'), '-fexceptions']),
    gen=gen, wrap=wrap, trace=('TraceRpc', 'TraceRpc.cfg'), tlc_cap=(1200, 30000), again=24, timeout=10,
    clauses={'C24': '.*'})]
META = {'C24': {'level': 'model_checking'}}
