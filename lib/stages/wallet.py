"""The wallet; C21."""
from runner import Model, Stage

FOR = [100000, 100001]


def one(rng, par=False, unit=1):
    ops = ['reset %d' % unit]
    if par or rng.random() < .25:
        v = rng.choice([1, 2, 3]) if unit == 1 else 1
        a = rng.choice([0, 0, 5])
        ops.append('seed %d %d %d %d' % (v, a, a + rng.choice([1, 2, 5, 20]), rng.choice([0, 0, 1])))
    nk, nt = 1, 0
    if rng.random() < .05:
        ops.append('seed 1 %s 0' % rng.choice(['3 3', '0 0', '4 2']))
    ops.append('gen')
    if rng.random() < .05:
        ops.append('seed 1 0 3 0')
    m = 3 if unit > 1 else rng.choice([5, 20, 1000])

    def pay():
        return rng.choice(FOR + [rng.randint(1, nk)] * 2)

    for _ in range(rng.choice([8, 20, 40])):
        c = rng.random()
        sg = rng.choice([1, 1, 0])
        if c < .06:
            ops.append('gen')
            nk += 1
            if rng.random() < .2:
                ops.append('seed 1 %d %d 0' % rng.choice([(0, 3), (5, 6)]))
        elif c < .12:
            ops.append('mint %d %d' % (rng.choice([1, 1, 2, 5]), rng.randint(1, m)))
            nt += 1
        elif c < .27:
            ops.append('ext ' + ' '.join('%d:%d' % (rng.randint(1, m), pay()) for _ in range(rng.choice([1, 2, 3]))))
            nt += 1
            if rng.random() < .7:
                ops.append('conf %d' % (nt - 1))
        elif c < .42:
            ops.append('send %d %d %d' % (rng.randint(1, m) if rng.random() < .8 or unit > 1 else rng.randint(1, 3 * m), pay(), sg))
            nt += 1
        elif c < .52:
            k = rng.choice([1, 1, 2, 3, 6])
            ops.append('multi %d %d %d %d' % (k, 1 if unit > 1 else rng.choice([1, 1, 2, 3, 7, 30]), pay(), sg))
            nt += 1
        elif c < .6:
            ops.append('fan %d %d %d %d' % (rng.choice([1, 2, 3, 8]), rng.randint(1, max(1, m // 3)), pay(), sg))
            nt += 1
        elif c < .74 and nt:
            ops.append('conf %d' % (nt - 1 if rng.random() < .5 else rng.randrange(nt)))
        elif c < .82 and nt:
            ops.append('ret %d' % (nt - 1 if rng.random() < .5 else rng.randrange(nt)))
        elif c < .87 and nt:
            ops.append('credit %d %s' % (rng.randrange(nt), ' '.join(map(str, rng.sample(range(4), rng.choice([1, 2]))))))
        elif c < .91:
            ops.append('save %s' % rng.choice(['a', 'b']))
        elif c < .95:
            ops.append('load %s' % rng.choice(['a', 'b', 'c']))
        elif c < .97 and nt:
            ops.append('spendable %d' % rng.randrange(nt))
        elif c < .99 and nt:
            ops.append('export %d %d' % (rng.randrange(nt), pay()))
        elif rng.random() < .4:
            ops += ['save a', 'new', 'load a']
        if par and rng.random() < .08:
            ops.append('par %d %d %d' % (rng.choice([2, 4, 6]), rng.choice([3, 8]), rng.randrange(1000)))
    return ops


def all_spent(rng):
    """Everything is spent, bit by bit, and once more than there is."""
    ops = ['reset 1', 'gen', 'ext ' + ' '.join('%d:1' % rng.randint(1, 9) for _ in range(rng.choice([3, 10, 25]))), 'conf 0', 'save a']
    if rng.random() < .5:
        ops += ['new', 'load a']
    nt = 1
    for _ in range(30):
        ops.append(rng.choice(['send %d 100000 1' % rng.randint(1, 20), 'multi %d %d 100001 1' % (rng.randint(1, 4), rng.choice([1, 2, 9])), 'fan %d %d 1 1' % (rng.randint(1, 4), rng.randint(1, 5))]))
        nt += 1
        if rng.random() < .4:
            ops.append('conf %d' % (nt - 1))
    return ops


def keys(rng):
    """More keys than are kept: they are used again."""
    return ['reset 1', 'gens 10002', 'ext 50:1 60:7777', 'conf 0', 'gen', 'send 20 100000 1', 'conf 1', 'save a', 'new', 'load a', 'gen', 'gen',
            'mint 2 4', 'conf 2', 'send 100 100001 1', 'conf 3', 'send 10 1 1', 'conf 4']


def race(rng):
    return ['reset 1', 'pargen %d %d' % (rng.choice([4, 8]), rng.choice([10, 40])), 'ext 5:1 5:2 5:9', 'conf 0', 'send 9 100001 1', 'save a', 'new', 'load a', 'send 6 100000 1']


def gen(rng, tier):
    k = 1 if tier == 'quick' else 12
    return ([one(rng) for _ in range(400 * k)] + [one(rng, unit=1 << 30) for _ in range(60 * k)] + [one(rng, par=True) for _ in range(40 * k)]
            + [all_spent(rng) for _ in range(40 * k)] + [keys(rng)] + [race(rng) for _ in range(60 * k)])


def wrap(h):
    n, h = h.split('|', 1)
    ops = ['reset 1'] + (['seed 2 0 %s 0' % n] if n != '0' else []) + ['gen'] + ['ext 1:1 3:1 2:100000']
    for o in h.split(';'):
        p = o.split()
        if p and p[0] in ('send', 'multi'):
            i = 2 if p[0] == 'send' else 3
            p[i] = '100000' if p[i] == '9' else p[i]
        if p:
            ops.append(' '.join(p))
    return ops


def conv(n):
    return lambda h: '%d|' % n + h


SRC = ['src/uhs/transaction/wallet.cpp', 'src/uhs/transaction/transaction.cpp', 'src/uhs/transaction/validation.cpp', 'src/uhs/transaction/messages.cpp',
       'src/util/common/*.cpp']
STAGES = [Stage('wallet',
                models=[Model('MCWallet', 'MCWallet_q1.cfg', emit='cover', convert=conv(0), workers=1),
                        Model('MCWallet', 'MCWallet_q2.cfg', emit='cover', convert=conv(1), workers=1),
                        Model('MCWallet', 'MCWallet_t1.cfg', 'thorough'), Model('MCWallet', 'MCWallet_t2.cfg', 'thorough')],
                drv=dict(name='wallet', sources=['wallet.cpp'], globs=SRC, libs=['-lsecp256k1', '-ldl']),
                gen=gen, wrap=wrap, trace=('TraceWallet', 'TraceWallet.cfg'), tlc_cap=(1500, 60000), timeout=30, again=24,
                clauses={'C21': '.*'})]
META = {'C21': {'level': 'model_checking'}}
