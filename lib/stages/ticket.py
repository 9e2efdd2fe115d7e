"""Ticket machine: replicas, the brokers' clients, the network; C08."""
import os
import build
from runner import Model, Stage


def one(rng):
    ctl = rng.random() < .35
    nc, nr = rng.choice([1, 1, 2, 2, 3]), rng.choice([1, 2, 2, 3])
    batch = 1000 if ctl else rng.choice([1, 1, 2, 3, 5, 20, 499, 500, 501, 600])
    big = batch >= 499
    ops = ['reset %s %d %d %d' % ('ctl' if ctl else 'core', batch, nc, nr)]
    faults = rng.random() < .7
    sent = 0
    for _ in range(rng.randint(4, 40)):
        x, c = rng.random(), rng.randint(1, nc)
        if x < .3:
            k = rng.choice([1, 1, 2, 3])
            if big and rng.random() < .4:
                k = rng.choice([batch - 500, batch - 1, batch // 2, batch]) or 1
            ops.append('get %d %d %d' % (c, min(k, 1100), 1 if k < 4 and rng.random() < .3 else 0))
            sent += 1
        elif x < .36:
            ops.append('getr %d 1 %d' % (c, rng.randint(1, 3)))
        elif x < .55:
            ops.append('deliver %d' % rng.randint(max(1, sent - 3), max(1, sent)))
        elif x < .62 and ctl:
            ops.append('commit %d' % rng.choice([1, 1, 2, 9]))
        elif x < .82:
            ops.append('ans %d' % rng.randint(max(1, sent - 4), max(1, sent)))
        elif x < .86 and faults:
            ops.append('null %d' % rng.randint(1, max(1, sent)))
        elif x < .90 and faults:
            ops.append('net %d %d' % (c, rng.randint(0, 1)))
        elif x < .92:
            ops.append('rel %d' % rng.choice([0, 0, rng.randint(1, 20)]))
        elif x < .94:
            ops.append(rng.choice(['holdsend %d', 'relsend %d']) % c)
        elif x < .95 and faults:
            ops.append('junk %d %d' % (rng.randrange(256), rng.randint(0, 9)))
        elif x < .97:
            ops.append('lead %d %d' % (rng.randrange(nr), rng.randint(0, 3)))
        elif x < .985:
            ops.append('restart %d' % rng.randrange(nr))
        else:
            ops.append('follow %d' % rng.randrange(nr))
    return ops + ['end']


def stress(rng):
    nt = rng.randint(2, 4)
    return ['reset core %d %d %d' % (rng.choice([1, 2, 3, 20]), rng.randint(1, 2), rng.randint(1, 2)),
            'stress %d %d' % (nt, rng.randint(5, 30)), 'end']


def steady(rng):
    """A client that is served in order and never fails, over many ranges."""
    b = rng.choice([1, 2, 7, 499, 500, 501, 700])
    ops, m = ['reset core %d 1 1' % b], 0
    for _ in range(rng.randint(3, 8)):
        ops += ['get 1 %d 0' % rng.choice([1, 2, b, b + 1])]
        for _ in range(rng.randint(0, 3)):
            m += 1
            ops += ['deliver %d' % m, 'ans %d' % m]
    return ops + ['end']


def gen(rng, tier):
    k = 1 if tier == 'quick' else 25
    return [one(rng) for _ in range(900 * k)] + [stress(rng) for _ in range(60 * k)] + [steady(rng) for _ in range(100 * k)]


def conv(b, nc):
    return lambda h: '%d %d|%s' % (b, nc, h)


def wrap(h):
    head, h = h.split('|', 1)
    return ['reset core %s 2' % head] + [o for o in h.split(';') if o] + ['end']


T = 'src/parsec/ticket_machine/'
STAGES = [Stage(
    'ticket',
    models=[Model('MCTicket', 'MCTicket_q1.cfg', emit='cover', convert=conv(2, 2), workers=2),
            Model('MCTicket', 'MCTicket_q2.cfg', emit='cover', convert=conv(1, 1), workers=2),
            Model('MCTicket', 'MCTicket_q3.cfg', emit='cover', convert=conv(3, 1), workers=2)]
    + [Model('MCTicket', 'MCTicket_t%d.cfg' % i, 'thorough', workers=4) for i in (1, 2, 3)],
    drv=dict(name='ticket', sources=['ticket.cpp'],
             globs=[T + f for f in ('client.cpp', 'controller.cpp', 'impl.cpp', 'state_machine.cpp')] +
             ['src/util/rpc/format.cpp', 'src/util/raft/*.cpp'],
             libs=['-lleveldb'], flags=['-I' + os.path.join(build.VERIF, 'shim', 'net')]),
    gen=gen, wrap=wrap, trace=('TraceTicket', 'TraceTicket.cfg'), tlc_cap=(1200, 30000),
    clauses={'C08': '.*'})]
META = {'C08': {'level': 'model_checking'}}
