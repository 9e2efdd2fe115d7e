"""Watchtower: remembered blocks and errors, answers, block intake; C19."""
import os
import build
from runner import Model, Stage


def csv(xs):
    return ','.join(map(str, xs)) or '-'


class World:
    """Outputs are created once and spent once, by one transaction each."""

    def __init__(self, rng, nt):
        self.rng, self.avail, self.next = rng, list(range(1, 4)), 10
        self.txs, self.todo = {}, []
        for t in range(1, nt + 1):
            self.txs[t] = None
        self.ops, self.blocks, self.used = [], 0, set()

    def define(self, t):
        """t spends some output that exists now (or conflicts), creates new ones."""
        rng = self.rng
        pool = self.avail + [x for u in self.txs.values() if u for x in u[1]]
        ins = rng.sample(pool, min(len(pool), rng.randint(0 if rng.random() < .2 else 1, 3)))
        outs = list(range(self.next, self.next + rng.randint(1, 2)))
        self.next += len(outs)
        self.txs[t] = (ins, outs)
        self.ops.append('def %d %s %s' % (t, csv(ins), csv(outs)))

    def block(self):
        """A block of transactions whose inputs exist, without conflicts."""
        txs, spent, made = [], set(), []
        for t, d in self.txs.items():
            if d and t not in self.used and self.rng.random() < .6 and \
               all(x in self.avail and x not in spent for x in d[0]):
                txs.append(t)
                spent |= set(d[0])
                made += d[1]
        self.used |= set(txs)
        self.avail = [x for x in self.avail if x not in spent] + made
        self.blocks += 1
        self.rng.shuffle(txs)
        self.ops.append('mk ' + csv(txs))

    def outputs(self):
        return sorted({x for u in self.txs.values() if u for x in u[0] + u[1]}) or [1]


def errs(w):
    rng, res = w.rng, []
    ts = [t for t in w.txs if w.txs[t]]
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        t = rng.choice(ts)
        k = rng.choice(['sync', 'range', 'incomplete', 'dne', 'dne', 'spent', 'spent'])
        es = [x for x in w.txs[t][0] if rng.random() < .7] if k in ('dne', 'spent') else []
        if es and rng.random() < .15:
            es = rng.sample(w.outputs(), 1)
        res.append('%d:%s:%s' % (t, k, csv(es)))
    return 'errs ' + ' '.join(res)


def ask(w):
    rng = w.rng
    res = []
    for t in rng.sample(sorted(w.txs), rng.randint(1, len(w.txs))):
        own = w.txs[t][0] + w.txs[t][1] if w.txs[t] else []
        xs = own if own and rng.random() < .6 else rng.sample(w.outputs(), rng.randint(1, min(4, len(w.outputs()))))
        if rng.random() < .05:
            xs = xs + [xs[0]]
        res.append('%d:%s' % (t, csv(xs)))
    return 'ask ' + ' '.join(res)


def one(rng):
    ctl = rng.random() < .4
    k, j = rng.choice([0, 1, 1, 2, 2, 3]), rng.choice([0, 1, 1, 2, 3, 5])
    w = World(rng, rng.randint(1, 7))
    w.ops.append('reset %s %d %d' % ('ctl' if ctl else 'core', k, j))
    w.define(1)
    n, last = len(w.txs), 0
    for _ in range(rng.randint(5, 35)):
        x = rng.random()
        undef = [t for t in w.txs if not w.txs[t]]
        if x < .2 and undef:
            w.define(undef[0])
        elif x < .4:
            w.block()
        elif x < .6 and ctl and w.blocks:
            b = rng.randint(max(1, last - 2), w.blocks) if rng.random() < .6 else min(last + 1, w.blocks)
            w.ops.append('pkt %d %d %d' % (b, rng.choice([0, b - 1, b - 1, b, w.blocks]), rng.choice([0, 0, 1, 3])))
            last = max(b, last)
        elif x < .63 and ctl:
            w.ops.append('junk %d' % rng.randint(0, 255))
        elif x < .8:
            w.ops.append(errs(w))
        elif x < .95:
            w.ops.append(ask(w))
        else:
            w.ops.append('best')
    w.ops += [ask(w), ask(w), 'best']
    return w.ops


def gen(rng, tier):
    return [one(rng) for _ in range(1500 if tier == 'quick' else 40000)]


DEFS = ['def 1 1 4', 'def 2 4,2 5', 'def 3 1,4 6', 'def 4 - 2']


def conv(mode, k, j):
    return lambda h: '%s %d %d|%s' % (mode, k, j, h)


def wrap(h):
    head, h = h.split('|', 1)
    return ['reset ' + head] + DEFS + [o for o in h.split(';') if o]


AZ = 'src/uhs/atomizer/'
SRC = [AZ + 'watchtower/%s.cpp' % f for f in ('watchtower', 'controller', 'block_cache', 'error_cache', 'messages', 'status_update',
                                              'status_update_messages', 'tx_error_messages')] + \
      [AZ + 'archiver/client.cpp', AZ + 'atomizer/block.cpp', AZ + 'atomizer/format.cpp', AZ + 'atomizer/messages.cpp', AZ + 'atomizer/atomizer.cpp',
       'src/uhs/transaction/*.cpp', 'src/util/common/keys.cpp', 'src/util/common/config.cpp']
NET = ['-I' + os.path.join(build.VERIF, 'shim', 'net')]

STAGES = [Stage(
    'watchtower',
    models=[Model('MCWatchtower', 'MCWatchtower_q1.cfg', emit='cover', convert=conv('core', 2, 1), workers=2),
            Model('MCWatchtower', 'MCWatchtower_q2.cfg', emit='cover', convert=conv('core', 1, 2), workers=2),
            Model('MCWatchtower', 'MCWatchtower_q3.cfg', emit='cover', convert=conv('ctl', 2, 2), workers=2)]
    + [Model('MCWatchtower', 'MCWatchtower_t%d.cfg' % i, 'thorough', workers=4) for i in (1, 2, 3)],
    drv=dict(name='watchtower', sources=['watchtower.cpp'], globs=SRC, libs=['-lsecp256k1'], flags=NET),
    gen=gen, wrap=wrap, trace=('TraceWatchtower', 'TraceWatchtower.cfg'), tlc_cap=(500, 30000),
    clauses={'C19': '.*'})]
META = {'C19': {'level': 'model_checking'}}
