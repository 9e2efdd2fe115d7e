"""Atomizer shards (bare, and behind their controller) and the archiver; C17, C18."""
import os
import build
from runner import Model, Stage
from stages.watchtower import csv


class World:
    """Transactions over outputs whose prefixes lie in and outside the range;
    blocks spend each output at most once, and only outputs that exist."""

    def __init__(self, rng, lo, hi):
        self.rng, self.lo, self.hi = rng, lo, hi
        self.ops, self.defs, self.blocks = [], {}, 0
        self.avail, self.gone, self.next = [], [], 0

    def fresh(self):
        self.next += 1
        pre = self.rng.choice([self.lo, self.hi, self.rng.randint(0, 255), self.rng.randint(self.lo, self.hi),
                               (self.hi + 1) % 256, (self.lo - 1) % 256])
        return 256 * self.next + pre

    def tx(self, ins, outs):
        t = len(self.defs) + 1
        self.defs[t] = (ins, outs)
        self.ops.append('def %d %s %s' % (t, csv(ins), csv(outs)))
        return t

    def block(self):
        rng, txs, pool = self.rng, [], list(self.avail)
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            k = min(len(pool), rng.randint(0 if not pool else rng.choice([0, 1]), 3))
            ins = rng.sample(pool, k)
            pool = [x for x in pool if x not in ins]
            outs = [self.fresh() for _ in range(rng.randint(0, 3))]
            pool += outs            # may be spent later in the same block
            self.gone += ins
            txs.append(self.tx(ins, outs))
        self.avail = pool
        self.blocks += 1
        self.ops.append('mk ' + csv(txs))

    def probe(self):
        """A transaction to ask about: existing, spent, future or unknown inputs."""
        rng = self.rng
        if self.defs and rng.random() < .3:
            return rng.choice(sorted(self.defs))
        pool = self.avail * 2 + self.gone[-6:] + [256 * 900 + rng.randint(0, 255)]
        ins = [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
        if rng.random() < .6:
            ins = [x for x in ins if x in self.avail] or ins
        if rng.random() < .9:
            ins = list(dict.fromkeys(ins))
        return self.tx(ins, [])


def one_sh(rng):
    lo = rng.choice([0, 0, 7, 100])
    hi = rng.choice([lo, 60 + lo, 255, 120 + lo])
    mode = rng.choice(['sh', 'sh', 'sh', 'shc'])
    w = World(rng, lo, hi)
    w.ops.append('reset %s %d %d' % (mode, lo, hi))
    if mode == 'shc':
        best = 0
        for _ in range(rng.randint(4, 25)):
            x = rng.random()
            if x < .35 or not w.blocks:
                w.block()
            elif x < .6:
                b = rng.randint(max(1, best - 2), w.blocks) if rng.random() < .6 else min(best + 1, w.blocks)
                w.ops.append('pkt %d %d %d' % (b, rng.choice([0, b - 1, b - 1, b, w.blocks]), rng.choice([0, 0, 1, 3])))
                best = max(b, best)
            elif x < .92:
                w.ops.append('req ' + ' '.join('%d %d' % (w.probe(), rng.choice([1, 1, 1, 1, 1, 0, 2, 3]))
                                               for _ in range(rng.choice([1, 1, 2, 4]))))
            elif x < .97:
                w.ops.append('junk %d %d' % (rng.randint(0, 255), rng.randint(0, 1)))
            else:
                w.ops.append('restart')
        w.ops.append('req %d 1' % w.probe())
        return w.ops
    best, nid, live = 0, 1, []
    conc = rng.random() < .7
    for _ in range(rng.randint(5, 40)):
        x = rng.random()
        if x < .25 or not w.blocks:
            w.block()
        elif x < .45:
            b = min(best + 1, w.blocks) if rng.random() < .85 else rng.randint(1, w.blocks)
            if b == best + 1:
                best = b
            w.ops.append('startblk %d %d' % (nid, b))
            live.append(nid)
            nid += 1
            if not conc or rng.random() < .3:
                w.ops.append('finish')
        elif x < .65:
            w.ops.append('starttx %d %d' % (nid, w.probe()))
            live.append(nid)
            nid += 1
            if not conc:
                w.ops.append('finish')
        elif x < .95 and live:
            for _ in range(rng.choice([1, 1, 2, 3])):
                w.ops.append('step %d' % rng.choice(live[-4:]))
        elif x < .96:
            w.ops += ['finish', 'restart']
        else:
            w.ops.append('crashblk %d %d %d' % (rng.randint(1, w.blocks), rng.randint(0, 2), rng.choice([-1, -1, 0, 1, 2])))
    w.ops += ['finish', 'starttx %d %d' % (nid, w.probe()), 'finish']
    return w.ops


def one_ar(rng):
    w = World(rng, 0, 255)
    w.ops.append('reset ar 0 255')
    n = rng.randint(1, 7)
    for _ in range(n):
        w.block()
    cur = 1
    for _ in range(rng.randint(3, 30)):
        x = rng.random()
        if x < .6:
            b = min(cur, n) if rng.random() < .5 else rng.randint(1, n)
            w.ops.append('pkt %d 0 0' % b)
            cur = b + 1 if b == cur else cur
        elif x < .8:
            w.ops.append('get %d' % rng.randint(0, n + 1))
        elif x < .85:
            w.ops.append('junk %d %d' % (rng.randint(0, 255), rng.randint(0, 1)))
        elif x < .93:
            w.ops.append('restart')
        else:
            w.ops.append('crashblk %d %d %d' % (rng.choice([min(cur, n), rng.randint(1, n)]), rng.randint(0, 4), rng.choice([-1, 0])))
    w.ops += ['get %d' % i for i in range(1, n + 1)]
    return w.ops


def gen(rng, tier):
    k = 1 if tier == 'quick' else 20
    return [one_sh(rng) for _ in range(900 * k)] + [one_ar(rng) for _ in range(500 * k)]


PRE = ['def 1 - 1,2,200', 'mk 1', 'def 2 1 3', 'mk 2', 'def 3 2,3 1000', 'mk 3', 'def 4 2,200,3 -', 'def 5 200 7', 'mk 5', 'def 6 7 8', 'mk 6']


def conv(mode):
    return lambda h: '%s|%s' % (mode, h)


def wrap(h):
    mode, h = h.split('|', 1)
    end = ['finish', 'starttx 7 2', 'finish', 'starttx 8 4', 'finish'] if mode == 'sh' else ['get %d' % i for i in range(1, 6)]
    return ['reset %s 0 100' % mode] + PRE + [o for o in h.split(';') if o] + end


AZ = 'src/uhs/atomizer/'
SRC = [AZ + 'shard/shard.cpp', AZ + 'shard/controller.cpp', AZ + 'archiver/client.cpp', AZ + 'archiver/controller.cpp',
       AZ + 'atomizer/block.cpp', AZ + 'atomizer/format.cpp', AZ + 'atomizer/messages.cpp', AZ + 'atomizer/atomizer.cpp',
       AZ + 'watchtower/tx_error_messages.cpp', AZ + 'watchtower/messages.cpp',
       'src/uhs/transaction/*.cpp', 'src/util/common/keys.cpp', 'src/util/common/config.cpp']
SHIM = os.path.join(build.VERIF, 'shim')
FLAGS = ['-I' + os.path.join(SHIM, 'net')]

STAGES = [Stage(
    'ashard',
    models=[Model('MCAShard', 'MCAShard_q1.cfg', emit='cover', convert=conv('sh'), workers=2),
            Model('MCAShard', 'MCAShard_q2.cfg', emit='cover', convert=conv('ar'), workers=2)]
    + [Model('MCAShard', 'MCAShard_t%d.cfg' % i, 'thorough', workers=4) for i in (1, 2)],
    drv=dict(name='ashard', sources=['ashard.cpp'], globs=SRC, libs=['-lsecp256k1', '-lleveldb', '-ldl'], flags=FLAGS),
    gen=gen, wrap=wrap, trace=('TraceAShard', 'TraceAShard.cfg'), tlc_cap=(400, 20000),
    clauses={'C17': 'attested|refused|answer|digest|height|fetch|unattested|dropped|restart|crash-height|open-failed|stall|crash|hang',
             'C18': 'stored|prune.*|request|lost|extra|content|archive-.*|open-failed|stall|crash|hang'})]
META = {'C17': {'level': 'model_checking'}, 'C18': {'level': 'model_checking'}}
