"""The client of either architecture; C22."""
import os
import build
from runner import Model, Stage

FOR = [100000, 100001]
ANS = ['confirmed'] * 3 + ['pending', 'state', 'static', 'none']
KINDS = ['good', 'upper', 'type', 'short', 'long', 'empty', 'hrp', 'typo', 'none', 'cut']


def one(rng, two, unit=1, n=None):
    ops = ['reset %d %d %d' % (two, unit, rng.choice([0, 1, 2, 3])), 'newaddr']
    nk, nt = 1, 0
    m = 3 if unit > 1 else rng.choice([5, 20, 1000])
    stat = ['yes', 'no', 'none'] if two else ['yes', 'no', 'bad']

    def pay():
        return rng.choice(FOR + [rng.randint(1, nk)] * 2)

    for _ in range(n or rng.choice([8, 20, 40])):
        c = rng.random()
        a = rng.choice(ANS)
        last = nt - 1 if rng.random() < .5 or nt < 2 else rng.randrange(nt)
        if c < .05:
            ops.append('newaddr')
            nk += 1
        elif c < .13:
            ops.append('mint %d %d %s' % (rng.choice([1, 1, 2, 5]), rng.randint(1, m), rng.choice(['confirmed', 'confirmed', 'rejected', 'none'])))
            nt += 1
        elif c < .3:
            ops.append('send %d %d %s' % (rng.randint(1, m), pay(), a))
            nt += 1
        elif c < .36:
            ops.append('fan %d %d %d %s' % (rng.choice([1, 2, 3, 8]), rng.randint(1, max(1, m // 3)), pay(), a))
            nt += 1
        elif c < .43:
            ops.append('create %d %d' % (rng.randint(1, m), pay()))
            nt += 1
        elif c < .51:
            ops.append('resend %d %s' % (rng.randrange(20), a))
        elif c < .57:
            ops.append('ext ' + ' '.join('%d:%d' % (rng.randint(1, m), pay()) for _ in range(rng.choice([1, 2, 3]))))
            nt += 1
            for i in range(3):
                if rng.random() < .6:
                    ops.append('import %d %d' % (nt - 1, i))
        elif c < .65 and nt:
            ops.append('import %d %d' % (last, rng.randrange(3)))
        elif c < .72 and nt:
            ops.append('confirm %d' % last)
        elif c < .8 and nt:
            ops.append('abandon %d' % last)
        elif c < .9:
            ops.append('sync ' + ' '.join(rng.choice(stat) for _ in range(rng.choice([1, 2, 3, 5]))))
        elif c < .94:
            ops.append('restart')
        elif c < .96 and nt:
            ops.append('chk %d' % last)
        elif c < .98 and nt and two:
            ops.append('ask %d %s' % (last, rng.choice(stat)))
        else:
            ops.append('addr %s %d' % (rng.choice(KINDS), rng.choice([1, 100000, 100001, 100003]) if rng.random() < .5 else rng.randrange(60)))
    return ops


def again(rng, two):
    """Abandoned transactions are sent again, next to others that use their coins."""
    ops = ['reset %d 1 1' % two, 'newaddr', 'ext ' + ' '.join('%d:1' % rng.choice([3, 5]) for _ in range(rng.choice([1, 2, 3])))]
    ops += ['import 0 %d' % i for i in range(3)] + ['confirm 0']
    nt = 1
    for _ in range(rng.choice([8, 14])):
        c = rng.random()
        if c < .35:
            ops.append('send %d 100000 %s' % (rng.choice([3, 5, 8, 10]), rng.choice(['pending', 'pending', 'none', 'confirmed'])))
            nt += 1
        elif c < .65:
            ops.append('abandon %d' % rng.randrange(1, nt + 1))
        elif c < .9:
            ops.append('resend %d %s' % (rng.randrange(nt), rng.choice(['pending', 'none'])))
        elif c < .95:
            ops.append('restart')
        else:
            ops.append('sync ' + ' '.join(rng.choice(['yes', 'no']) for _ in range(3)))
    return ops


def addresses(rng):
    return ['reset 1 1 1', 'newaddr'] + ['addr %s %d' % (k, i) for k in KINDS for i in (0, 1, 7, 49, 100000)]


def late(rng):
    """The answer to a mint comes late."""
    return ['reset 1 1 1', 'mint 2 5 late', 'late', 'send 7 100000 confirmed']


def gen(two):
    def g(rng, tier):
        k = 1 if tier == 'quick' else 12
        return ([one(rng, two) for _ in range(200 * k)] + [one(rng, two, unit=1 << 30) for _ in range(20 * k)]
                + [one(rng, two, n=12) for _ in range(250 * k)] + [again(rng, two) for _ in range(150 * k)] + [addresses(rng)] + ([late(rng)] if two else []))
    return g


def wrapper(two):
    def wrap(h):
        ops = ['reset %d 1 1' % two, 'newaddr', 'ext 1:1 3:1 2:100000']
        for o in h.split(';'):
            p = o.split()
            if p and p[0] in ('send', 'create'):
                p[2] = '100000' if p[2] == '9' else p[2]
            if p:
                ops.append(' '.join(p))
        return ops
    return wrap


SRC = ['src/uhs/client/client.cpp', 'src/uhs/client/atomizer_client.cpp', 'src/uhs/client/twophase_client.cpp',
       'src/uhs/transaction/*.cpp', 'src/uhs/sentinel/*.cpp', 'src/uhs/twophase/coordinator/client.cpp',
       'src/uhs/twophase/locking_shard/status_client.cpp', 'src/uhs/twophase/locking_shard/format.cpp', 'src/uhs/twophase/locking_shard/messages.cpp',
       'src/uhs/twophase/locking_shard/interface.cpp',
       'src/uhs/atomizer/watchtower/[be]*_cache.cpp', 'src/uhs/atomizer/watchtower/client.cpp', 'src/uhs/atomizer/watchtower/messages.cpp', 'src/uhs/atomizer/watchtower/status_update.cpp', 'src/uhs/atomizer/watchtower/watchtower.cpp',
       'src/uhs/atomizer/watchtower/status_update_messages.cpp', 'src/uhs/atomizer/watchtower/tx_error_messages.cpp',
       'src/uhs/atomizer/atomizer/format.cpp', 'src/uhs/atomizer/atomizer/messages.cpp', 'src/uhs/atomizer/atomizer/block.cpp',
       'src/util/common/*.cpp', 'src/util/rpc/*.cpp', '3rdparty/bech32/*.cpp', '3rdparty/bech32/util/*.cpp']
NET = '-I' + os.path.join(build.VERIF, 'shim', 'net')


def stage(name, two, models):
    return Stage(name, models=models,
                 drv=dict(name='client', sources=['client.cpp'], globs=SRC, libs=['-lsecp256k1', '-ldl'], flags=[NET]),
                 gen=gen(two), wrap=wrapper(two), trace=('TraceWallet', 'TraceWallet.cfg'), tlc_cap=(1000, 40000), timeout=30,
                 clauses={'C22': '.*'})


STAGES = [stage('client', True, [Model('MCClient', 'MCClient_q1.cfg', emit='cover', workers=1), Model('MCClient', 'MCClient_t1.cfg', 'thorough'), Model('MCClient', 'MCClient_t2.cfg', 'thorough')]),
          stage('aclient', False, [Model('MCClient', 'MCClient_q2.cfg', emit='cover', workers=1)])]
META = {'C22': {'level': 'model_checking'}}
