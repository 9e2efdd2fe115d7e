"""Valid: transactions right and wrong in every way, attestations; C20."""
import os
import build
from runner import Model, Stage

M64 = 1 << 64
WN = {'none': (0, 0, 1, 1, -1), 'type': (97, 1, 1, 1, 1), 'long': (98, 0, 1, 1, 1), 'cut': (96, 0, 1, 1, 1), 'bad': (97, 0, -1, 1, 1),
      'ok1': (97, 0, 1, 1, 1), 'ok2': (97, 0, 2, 2, 1), 'by2': (97, 0, 1, 2, 1), 'else': (97, 0, 1, 1, 2)}


def conv(bits):
    """Words of the model become the highest bits of real amounts."""
    def f(h):
        out = []
        for o in h.split(';'):
            p = o.split()
            if not p:
                continue
            if p[0] == 'i':
                out.append('i 1 %s %s %s %d' % ('ab'[int(p[1]) - 1], p[2], p[3], int(p[4]) << (64 - bits)))
            elif p[0] == 'o':
                out.append('o 1 %s %d' % (p[1], int(p[2]) << (64 - bits)))
            elif p[0] == 'w':
                out.append('w 1 %d %d %d %d %d' % WN[p[1]])
            else:
                out.append('check 1')
        return 't 1;t 2;o 2 1 1;' + ';'.join(out)
    return f


MUT = [0]


def conv_att(h):
    out = ['t 1;i 1 a 0 1 5;i 1 b 0 1 5;o 1 1 4;o 1 2 6;cmp 1 1;t 2;i 2 c 0 1 5;o 2 1 5;cmp 2 2']
    for o in h.split(';'):
        p = o.split()
        if not p:
            continue
        if p[0] == 'mut':
            MUT[0] += 1
            o = 'mut %s %d' % (p[1], MUT[0] % 10)
        elif p[0] == 'chk':
            o += ' 1 -1'
        out.append(o)
    return ';'.join(out)


def wrap(h):
    return ['reset'] + [o for o in h.split(';') if o]


def amounts(rng, n, total):
    if n == 1:
        return [total]
    cuts = sorted(rng.randrange(1, total) if total > 1 else 0 for _ in range(n - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [total])]


BIG = [1, 2, 3, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, M64 - 2, M64 - 1]


def tx(rng, s, slots):
    """A valid transaction in slot s, possibly spoilt in one or two ways."""
    n, m = rng.choice([1, 1, 2, 2, 3, 5, 9]), rng.choice([1, 1, 2, 2, 3, 5])
    total = rng.choice(BIG + [rng.randrange(1, M64), rng.randrange(20, 3000)])
    total = max(total, n, m)
    a, b = amounts(rng, n, total), amounts(rng, m, total)
    keys = [rng.choice([1, 2, 3]) for _ in range(n)]
    ops = rng.sample([(t, i) for t in 'abcd' for i in (0, 1, 2, 1 << 16, 1 << 32, 1 << 48, M64 - 1)], n)
    ins = [[t, i, k, v] for (t, i), k, v in zip(ops, keys, a)]
    outs = [[rng.choice([1, 2, 3, 100, -1]), v] for v in b]
    wits = [[97, 0, k, k, s] for k in keys]
    for _ in range(rng.choice([0, 0, 1, 1, 1, 2])):
        c = rng.randrange(16)
        i = rng.randrange(n)
        j = rng.randrange(m)
        if c == 0:
            ins[i][:2] = rng.choice(ins)[:2]
        elif c == 1:
            ins[i][3] = rng.choice([0, ins[i][3] + 1, ins[i][3] - 1, rng.choice(BIG)]) % M64
        elif c == 2:
            outs[j][1] = rng.choice([0, outs[j][1] + 1, outs[j][1] - 1, rng.choice(BIG)]) % M64
        elif c == 3:
            # both sides go round, and come out the same
            x = rng.choice([1, 2, 1000, 1 << 32, M64 - 1, 1 << 63])
            ins[i][3] = (ins[i][3] + x) % M64
            outs[j][1] = (outs[j][1] + x) % M64
        elif c == 4:
            y = M64 - 1 - outs[j][1]
            outs[j][1] = M64 - 1
            outs.append([1, y])
        elif c == 5:
            wits.append(list(rng.choice(wits or [[97, 0, 1, 1, s]])))
        elif c == 6:
            wits = wits[:-1]
        elif c == 7 and wits:
            rng.choice(wits)[0] = rng.choice([0, 1, 2, 32, 33, 34, 64, 65, 96, 98, 130, 194])
        elif c == 8 and wits:
            rng.choice(wits)[1] = rng.choice([1, 2, 128, 255])
        elif c == 9 and wits:
            w = rng.choice(wits)
            w[2] = rng.choice([1, 2, 3, -1, -2])
        elif c == 10 and wits:
            w = rng.choice(wits)
            w[3] = rng.choice([1, 2, 3, 0, -w[3], -w[3] if w[3] else 0])
        elif c == 11 and wits:
            rng.choice(wits)[4] = rng.choice([-1, 0, 99] + slots)
        elif c == 12:
            k = rng.choice([-1, -2, 100, 101, 200 + keys[i], 300 + keys[i]])
            ins[i][2] = k
            if k < 0 and i < len(wits):
                wits[i][2] = k
        elif c == 13 and len(wits) > 1:
            x, y = rng.sample(range(len(wits)), 2)
            wits[x], wits[y] = wits[y], wits[x]
        elif c == 14:
            if rng.random() < .3:
                ins = []
            elif rng.random() < .4:
                outs = []
        elif c == 15:
            outs[j % len(outs) if outs else 0:] = []
        n, m = max(1, len(ins)), max(1, len(outs))
        if not ins or not outs:
            break
    r = ['t %d' % s]
    r += ['i %d %s %d %d %d' % (s, *x) for x in ins]
    r += ['o %d %d %d' % (s, *x) for x in outs]
    r += ['w %d %d %d %d %d %d' % (s, *x) for x in wits]
    return r


def vary(rng, s):
    """A small change to a transaction that was there before."""
    c = rng.randrange(12)
    if c >= 8:
        return 'flip %d %s %d %s %d' % (s, rng.choice(['in', 'out']), rng.choice([0, 0, 1]), rng.choice('ticvv'), rng.choice([0, 1, 7, 8, 15, 16, 31, 32, 33, 47, 48, 62, 63, rng.randrange(64)]))
    return {0: 'swap %d in' % s, 1: 'swap %d out' % s, 2: 'swap %d wit' % s, 3: 'pop %d in' % s, 4: 'pop %d out' % s,
            5: 'o %d %d %d' % (s, rng.choice([1, 2]), rng.choice(BIG)), 6: 'i %d %s %d %d %d' % (s, rng.choice('abcd'), rng.choice([0, 1, 1 << 32]), rng.choice([1, 2]), rng.choice(BIG)),
            7: 'pop %d wit' % s}[c]


def one(rng, k):
    ops = ['reset']
    for x in (1, 2, 3, -1, -2):
        if rng.random() < .1:
            ops.append('com %d' % x)
    slots = []
    for n in range(k):
        s = len(slots) + 1
        if slots and rng.random() < .35:
            f = rng.choice(slots)
            ops.append('copy %d %d' % (s, f))
            for _ in range(rng.choice([1, 1, 2])):
                ops.append(vary(rng, s))
        elif slots and rng.random() < .3:
            f = rng.choice(slots)
            ops.append('t %d' % s)
            for _ in range(rng.choice([1, 2])):
                ops.append('take %d %d %d' % (s, f, rng.choice([0, 0, 1, 2])))
            ops.append('o %d 1 %d' % (s, rng.choice(BIG)))
            ops.append('w %d 97 0 1 1 %d' % (s, s))
        else:
            ops += tx(rng, s, slots)
        slots.append(s)
        ops.append('check %d' % s)
        if rng.random() < .7:
            ops.append('id %d %d' % (s, rng.choice([0, 0, 1, 3])))
        if rng.random() < .3:
            for i in rng.sample([0, 1, 2, 255, 256, 257, 65536, 65537, 1 << 32, M64 - 1], 3):
                for v in rng.sample(BIG, 2):
                    ops.append('uhs %s %d %d %d' % (rng.choice('abc'), i, rng.choice([1, 2, 3]), v))
    return ops


def many(rng, n):
    """More inputs and outputs than small examples have."""
    ops = ['reset', 't 1']
    ops += ['i 1 a %d %d %d' % (i, 1 + i % 3, i + 1) for i in range(n)]
    tot = n * (n + 1) // 2
    m = rng.choice([n, n + 1, 3])
    ops += ['o 1 1 %d' % v for v in [1] * (m - 1) + [tot - m + 1]]
    ops += ['w 1 97 0 %d %d 1' % (1 + i % 3, 1 + i % 3) for i in range(n)]
    ops += ['check 1', 'id 1 0', 'copy 2 1', 'i 2 a %d 1 5' % rng.randrange(n), 'o 2 1 5', 'w 2 97 0 1 1 2', 'check 2']
    ops += ['copy 3 1', 'pop 3 wit', 'w 3 97 0 %d %d 2' % ((1 + (n - 1) % 3,) * 2), 'check 3', 'id 3 1']
    return ops


def att(rng):
    ops = ['reset', 't 1', 'i 1 a 0 1 5', 'i 1 b 7 1 5', 'o 1 1 4', 'o 1 2 6', 't 2', 'i 2 a 0 1 5', 'o 2 1 5', 'copy 3 1', 'swap 3 in',
           'copy 4 1', 'swap 4 out', 'cmp 1 1', 'cmp 2 2', 'cmp 3 3', 'cmp 4 4', 'cmp 5 1']
    for _ in range(rng.choice([8, 14, 22])):
        c = rng.random()
        x = rng.choice([1, 1, 1, 2, 3, 4, 5])
        y = rng.choice([1, 1, 2, 3, 4, 5])
        k = rng.choice([1, 2, 3, 4, 5])
        if c < .35:
            ops.append('sign %d %d' % (x, k))
        elif c < .42:
            ops.append('mis %d %d %d' % (x, rng.choice([1, 2, 3, -1, -2]), rng.choice([1, 2, 3, 0])))
        elif c < .54:
            ops.append('put %d %d %d' % (x, k, y))
        elif c < .6:
            ops.append('drop %d %d' % (x, k))
        elif c < .67:
            ops.append('mut %d %d' % (x, rng.randrange(10)))
        else:
            kn = rng.sample([1, 2, 3, 4, 5, -1], rng.choice([0, 1, 2, 3, 4, 5, 6])) if rng.random() < .5 else [1, 2, 3, 4, 5]
            ops.append('chk %d %d %s' % (x, rng.choice([0, 1, 1, 2, 2, 3, 4]), ' '.join(map(str, kn))))
    for x in range(1, 6):
        ops.append('chk %d %d 1 2 3 4 5' % (x, rng.choice([1, 2])))
    return ops


def gen(rng, tier):
    k = 1 if tier == 'quick' else 12
    return ([one(rng, 12) for _ in range(250 * k)] + [att(rng) for _ in range(200 * k)]
            + [many(rng, n) for n in ([30, 70] if k == 1 else [30, 70, 130, 256, 257, 300])])


STAGES = [Stage(
    'valid',
    models=[Model('MCValid', 'MCValid_q1.cfg', emit='cover', convert=conv(2), workers=1),
            Model('MCValid', 'MCValid_q2.cfg', emit='cover', convert=conv(1), workers=1),
            Model('MCAttest', 'MCAttest_q.cfg', emit='cover', convert=conv_att, workers=1),
            Model('MCValid', 'MCValid_t1.cfg', 'thorough'),
            Model('MCValid', 'MCValid_t2.cfg', 'thorough'),
            Model('MCAttest', 'MCAttest_t.cfg', 'thorough')],
    drv=dict(name='valid', sources=['valid.cpp'],
             globs=['src/uhs/transaction/transaction.cpp', 'src/uhs/transaction/validation.cpp', 'src/uhs/transaction/messages.cpp', 'src/util/common/*.cpp'],
             libs=['-lsecp256k1'], flags=['-fsanitize=address']),
    gen=gen, wrap=wrap, trace=('TraceValid', 'TraceValid.cfg'), tlc_cap=(2500, 100000), timeout=10,
    clauses={'C20': '.*'})]
META = {'C20': {'level': 'model_checking'}}
