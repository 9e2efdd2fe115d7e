"""Sentinels of both architectures; C26."""
import build
import os
from runner import Model, Stage

KINDS = ['no_outputs', 'duplicate', 'asymmetric_values', 'invalid_signature', 'missing_witness']


def setup(rng, two, self=None, n=None, thr=None):
    n = rng.choice([1, 2, 3, 3, 4, 5]) if n is None else n
    if not two and n == 1:
        n = 2
    self = rng.randrange(n) if self is None else self
    thr = rng.randint(0 if two else 1, n) if thr is None else thr
    sh = []
    if not two:
        c = rng.random()
        if c < .3:
            sh = ['0-255'] * rng.choice([1, 2, 3])
        else:
            k = rng.choice([2, 3, 4, 5])
            cuts = sorted(rng.sample(range(1, 255), k - 1))
            sh = ['%d-%d' % (a, b - 1) for a, b in zip([0] + cuts, cuts + [256])]
            if rng.random() < .4:
                sh = sh + sh
            if rng.random() < .3:
                rng.shuffle(sh)
    return n, self, thr, ['reset %d %d %d %d %s' % (self, n, thr, rng.randrange(1 << 30), ' '.join(sh))], len(sh)


def one(rng, two):
    n, self, thr, ops, nsh = setup(rng, two)
    kinds, nreq, open_ = {}, 0, []
    stopped = False
    for _ in range(rng.choice([6, 12, 20])):
        c = rng.random()
        if c < .4 or not kinds:
            if kinds and rng.random() < .3:
                t = rng.choice(list(kinds))
                k = kinds[t]
            else:
                t = len(kinds) + 1
                k = 'ok' if rng.random() < .7 else rng.choice(KINDS)
                kinds[t] = k
                ops.append('tx %d %s %d' % (t, k, rng.choice([2, 2, 3, 5, 9]) if k == 'duplicate' else rng.choice([1, 1, 2, 3, 5, 9])))
            nreq += 1
            ops.append('req %d exec %d %s' % (nreq, t, '' if k == 'ok' else k))
            open_.append(t)
        elif c < .5:
            t = rng.choice(list(kinds))
            nreq += 1
            ops.append('req %d val %d %s' % (nreq, t, '' if kinds[t] == 'ok' else kinds[t]))
        elif c < .75 and open_:
            ops.append('ans %d %s' % (rng.choice(open_), rng.choice(['ok'] * 6 + ['none', 'wrong', 'twice'])) + rng.choice(['', ' 1', ' 7']))
        elif c < .88 and open_ and two:
            ops.append('coord %d %s' % (rng.choice(open_), rng.choice(['yes', 'yes', 'no', 'none'])) + rng.choice(['', ' 1', ' 7']))
        elif c < .92:
            others = [p for p in range(n) if p != self]
            k = rng.randint(0, max(0, min(len(others), n - max(thr, 1))))
            ops.append(('down ' + ' '.join(map(str, rng.sample(others, k)))).strip())
        elif c < .95 and two:
            ops.append('cdown 1')
        elif c < .97 and nsh:
            if not open_:
                ops.append(('sdown ' + ' '.join(map(str, rng.sample(range(nsh), rng.randint(0, nsh))))).strip())
        else:
            ops.append('junk %d' % rng.choice([0, 5, 8, 9, 20, 60, 100]))
        if rng.random() < .02 and two:
            ops.append('stop')
            stopped = True
            break
    if not stopped:
        for _ in range(n + 1):
            for t in open_:
                ops.append('ans %d ok' % t)
        for t in open_:
            if two:
                ops.append('coord %d %s' % (t, rng.choice(['yes', 'no', 'none'])))
        if two:
            ops.append('stop')
    return ops


def shards(rng):
    """Many transactions of an atomizer sentinel, shards come and go."""
    n, self, thr, ops, nsh = setup(rng, False, 0, 2, 1)
    for t in range(1, rng.choice([6, 12, 40])):
        ops.append(('sdown ' + ' '.join(map(str, rng.sample(range(nsh), rng.choice([0, 0, 1, nsh // 2]))))).strip())
        ops.append('tx %d ok %d' % (t, rng.choice([1, 2, 3, 5, 9, 20])))
        ops.append('req %d exec %d' % (t, t))
    return ops


def gen(two):
    def g(rng, tier):
        k = 1 if tier == 'quick' else 15
        return [one(rng, two) for _ in range((300 if two else 200) * k)] + ([] if two else [shards(rng) for _ in range(60 * k)])
    return g


def conv(n, thr):
    def f(h):
        return '%d %d|' % (n, thr) + h
    return f


def wrapper(two):
    def wrap(h):
        c, h = h.split('|', 1)
        ops = ['reset 0 %s 5 %s' % (c, '' if two else '0-127 128-255'), 'tx 1 ok 2', 'tx 2 asymmetric_values 2', 'tx 3 ok 1']
        for o in h.split(';'):
            p = o.split()
            if not p:
                continue
            if p[0] == 'req':
                o = 'req %s %s %s %s' % (p[1], p[2], p[3], 'asymmetric_values' if p[3] == '2' else '')
            elif p[0] == 'stop' and not two:
                continue
            ops.append(o)
        return ops
    return wrap


COMMON = ['src/uhs/sentinel/*.cpp', 'src/uhs/transaction/transaction.cpp', 'src/uhs/transaction/validation.cpp', 'src/uhs/transaction/messages.cpp',
          'src/util/common/*.cpp', 'src/util/rpc/*.cpp']
NET = '-I' + os.path.join(build.VERIF, 'shim', 'net')


def stage(name, two, models, globs, flags):
    return Stage(name, models=models,
                 drv=dict(name=name, sources=['sentinel.cpp'], globs=COMMON + globs, libs=['-lsecp256k1'], flags=[NET] + flags),
                 gen=gen(two), wrap=wrapper(two), trace=('TraceSentinel', 'TraceSentinel.cfg'), tlc_cap=(800, 100000), timeout=15,
                 clauses={'C26': '.*'})


def M(c, n, thr):
    return Model('MCSentinel', 'MCSentinel_%s.cfg' % c, emit='cover', convert=conv(n, thr), workers=1)


STAGES = [
    stage('sentinel', True,
          [M('q1', 3, 2), M('q2', 4, 3), M('q4', 1, 0), Model('MCSentinel', 'MCSentinel_t1.cfg', 'thorough')],
          ['src/uhs/twophase/sentinel_2pc/controller.cpp', 'src/uhs/twophase/sentinel_2pc/server.cpp', 'src/uhs/twophase/coordinator/client.cpp'], []),
    stage('asentinel', False,
          [M('q3', 3, 2), Model('MCSentinel', 'MCSentinel_t2.cfg', 'thorough')],
          ['src/uhs/atomizer/sentinel/controller.cpp', 'src/uhs/atomizer/sentinel/server.cpp'], ['-DATOM'])]
META = {'C26': {'level': 'model_checking'}}
