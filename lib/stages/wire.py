"""Wire: every message type, well formed, cut, changed; C25."""
import os
import re
import build
from runner import Model, Stage

SPEC = os.path.join(build.VERIF, 'specs', 'Wire.tla')


def load():
    """The type table of the specification."""
    d = {}
    for line in open(SPEC):
        m = re.match(r'\s+(\w+)\s+\|->\s+([A-Z]\w*)(\(.*\))?,?\s*$', line)
        if m:
            args = re.findall(r'"(\w+)"', m.group(3) or '')
            n = re.match(r'\((\d+)\)', m.group(3) or '')
            d[m.group(1)] = (m.group(2), int(n.group(1)) if n else 0, args)
    return d


DEFS = load()


def n8(n):
    return list(n.to_bytes(8, 'little'))


def value(rng, t, depth):
    k, n, a = DEFS[t]
    if k == 'I':
        c = rng.random()
        return [rng.randrange(256) for _ in range(n)] if c < .5 else [rng.choice([0, 1, 255])] * n if c < .7 else [rng.randrange(3)] + [0] * (n - 1)
    if k == 'Z':
        return [rng.randrange(2)]
    if k == 'B':
        m = rng.choice([0, 1, 2, 5, 33])
        return n8(m) + [rng.randrange(256) for _ in range(m)]
    if k == 'St':
        return sum((value(rng, x, depth) for x in a), [])
    if k == 'Va':
        i = rng.randrange(len(a))
        return [i] + value(rng, a[i], depth)
    if k == 'O':
        return [1] + value(rng, a[0], depth) if rng.random() < .6 else [0]
    m = rng.choice([0, 1, 1, 2, 3]) if depth > 0 else rng.choice([0, 0, 1])
    return n8(m) + sum((sum((value(rng, x, depth - 1) for x in a), []) for _ in range(m)), [])


def damage(rng, b):
    b = list(b)
    for _ in range(rng.choice([1, 1, 2])):
        c = rng.random()
        if not b or c < .1:
            b.insert(rng.randint(0, len(b)), rng.randrange(256))
        elif c < .4:
            b = b[:rng.randrange(len(b))]
        elif c < .75:
            # lengths and alternatives are mostly in small bytes
            small = [i for i, x in enumerate(b) if x < 4]
            i = rng.choice(small) if small and rng.random() < .8 else rng.randrange(len(b))
            b[i] = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 127, 128, 255])
        elif c < .85:
            del b[rng.randrange(len(b))]
        else:
            i = rng.randrange(len(b))
            b[i:i + 8] = rng.choice([[255] * 8, n8(1 << 20), n8(1 << 32), n8((1 << 20) + 1), [255] * 7 + [127], n8(len(b))])
    return b


def dec(t, b):
    return ('dec %s %s' % (t, ','.join(map(str, b)))).strip()


def one(rng, t):
    ops = ['reset']
    for _ in range(12):
        b = value(rng, t, rng.choice([0, 1, 2, 2]))
        while len(b) > 1500:
            b = value(rng, t, 1)
        x = rng.random()
        ops.append(dec(t, b if x < .4 else damage(rng, b) if x < .9 else b + [rng.randrange(256) for _ in range(9)]))
    return ops


MAXR = 1 << 20


def bigs(rng):
    out = []
    for k, w in (('buf', 1), ('hashes', 32), ('u64s', 8), ('bools', 1), ('hashset', 32), ('u64set', 8), ('u64map', 40), ('werrs', 48)):
        step = MAXR // w
        ops = ['reset']
        for n in (step - 1, step, step + 1, 2 * step, 2 * step + 3):
            for cut in (0, rng.choice([1, w])):
                ops.append('big %s %d %d' % (k, n, cut))
        out.append(ops)
    return out


def gen(rng, tier):
    k = 6 if tier == 'quick' else 60
    return [one(rng, t) for t in DEFS if t != 'werr_info' and t in NAMES for _ in range(k)] + bigs(rng)


DRV = open(os.path.join(build.VERIF, 'harness', 'wire.cpp')).read()
NAMES = set(re.findall(r'\bD\((\w+),', DRV))


def wrap(h):
    return ['reset'] + [o for o in h.split(';') if o]


def conv(h):
    return h


A = 'src/uhs/'
STAGES = [Stage(
    'wire',
    models=[Model('MCWire', 'MCWire_q1.cfg', emit='cover', convert=conv),
            Model('MCWire', 'MCWire_t1.cfg', 'thorough', workers=8)],
    drv=dict(name='wire', sources=['wire.cpp'],
             globs=[A + 'transaction/*.cpp', A + 'sentinel/*.cpp', A + 'twophase/locking_shard/*.cpp', A + 'atomizer/atomizer/*.cpp',
                    A + 'atomizer/watchtower/*.cpp', 'src/parsec/runtime_locking_shard/*.cpp', 'src/parsec/agent/*.cpp',
                    'src/parsec/broker/interface.cpp', 'src/util/common/*.cpp', 'src/util/rpc/*.cpp', 'src/util/raft/*.cpp'],
             libs=['-lsecp256k1'], flags=['-fsanitize=address', '-I' + os.path.join(build.VERIF, 'shim', 'net')]),
    gen=gen, wrap=wrap, trace=('TraceWire', 'TraceWire.cfg'), tlc_cap=(1500, 100000), timeout=6,
    clauses={'C25': '.*'})]
META = {'C25': {'level': 'model_checking'}}
