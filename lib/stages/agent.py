"""Agent: contract execution with a scripted broker and function; and behind its
server with the Lua runner on a stand-in virtual machine; C09."""
import os
import build
from runner import Model, Stage
SHIM = os.path.join(build.VERIF, 'shim')
A = 'src/parsec/agent/'
LOCK = ['ok'] * 6 + ['wounded', 'wounded', 'shard', 'err']
COM = ['ok'] * 6 + ['err', 'hazard', 'wounded', 'shard', 'unknown', 'prepare']

ENDS = 'E EN ET R2 R0 RS RF RK RV RT RI Y2 Y0 YT YN S0 S0 S1 S2 S3 S4 S5 S6 S7 S8'.split()


def ans(rng, op, bad):
    if rng.random() > bad:
        return 'ok'
    return rng.choice(LOCK if op in ('fnlock', 'lock', 'any') else COM if op == 'commit' else ['ok', 'err', 'err', 'unknown'])


def one_agent(rng):
    ops = ['reset agent %s %d %d' % (rng.choice(['key'] * 5 + ['byte', 'none', 'none']), rng.randint(0, 1), rng.random() < .25)]
    bad = rng.choice([0, .2, .5, .8])
    now = rng.choice([0, 0, .3, .9])
    ops.append('exec')
    ups = ['%d=%d' % (k, 10 * k + rng.randint(1, 9)) for k in range(1, 6)]
    for _ in range(rng.randint(5, 60)):
        if rng.random() < bad / 8:
            ops.append('how fail')
        elif rng.random() < now:
            ops.append('how now:%s:%d' % (rng.choice(['ok', 'ok', 'ok', 'err', 'wounded']) if rng.random() < bad else 'ok', rng.randint(1, 60)))
        x = rng.random()
        if x < .6:
            op = rng.choice(['any'] * 9 + ['begin', 'fnlock', 'lock', 'lock', 'commit', 'finish', 'rollback'])
            ops.append('reply %s %s %d %d' % (op, ans(rng, op, bad), rng.randint(1, 60), rng.choice([0, 0, 0, 1, 2])))
        elif x < .75:
            ops.append('ask %d %d' % (rng.randint(1, 4), rng.randint(0, 1)))
        elif x < .85:
            r = 'ok' if rng.random() > bad else rng.choice(['wounded', 'wounded', 'exec', 'internal', 'lock'])
            ops.append('runres ' + ' '.join([r] + (rng.sample(ups, rng.randint(0, 3)) if r == 'ok' else [])))
        elif x < .99 if rng.random() < .6 else False:
            ops.append('exec')
    ops += ['settle', 'end']
    return ops


def one_srv(rng):
    ops = ['reset srv']
    np = rng.randint(1, 4)
    for p in range(1, np + 1):
        end = 'R' if rng.random() < .7 else rng.choice(ENDS)
        ops.append('prog %d %s %s' % (p, end, ' '.join(str(rng.randint(1, 5)) for _ in range(rng.choice([0, 1, 2, 3])))))
    bad = rng.choice([0, .2, .5])
    now = rng.choice([0, 0, .5])
    a, sent, n = 0, 0, rng.randint(1, 5)
    for _ in range(rng.randint(10, 70)):
        x = rng.random()
        if rng.random() < now:
            ops.append('how now:ok:%d' % rng.randint(1, np))
        elif rng.random() < bad / 10:
            ops.append(rng.choice(['how now:wounded:1', 'how fail', 'how now:err:1']))
        if a == 0 or (x < .12 and a < n):
            a += 1
            ops.append('req %d %d %d' % (a, rng.choice([500, 501, 502, 502, 0, 999]) if rng.random() < .5 else 500, rng.random() < .2))
        elif x < .14:
            ops.append('junk %d' % rng.randint(0, 6))
        else:
            op = rng.choice(['any'] * 12 + ['begin', 'fnlock', 'lock', 'lock', 'commit', 'finish', 'rollback'])
            r = ans(rng, op, bad) if op not in ('finish', 'rollback') else 'ok'
            ops.append('reply %s %s %d %d' % (op, r, rng.randint(1, np) if op in ('fnlock', 'any') and rng.random() < .95 else rng.randint(1, 60),
                                              rng.choice([0, 0, 1, 2, 3])))
    ops += ['settle 1', 'end']
    return ops


def gen(rng, tier):
    k = 1 if tier == 'quick' else 20
    return [one_agent(rng) for _ in range(900 * k)] + [one_srv(rng) for _ in range(400 * k)]


def conv(mode):
    return lambda h: '%s|%s' % (mode, h)


def wrap(h):
    # answers to calls are decided when the call is made: tell the driver before
    mode, h = h.split('|', 1)
    out, wait = [], []
    for o in [o for o in h.split(';') if o]:
        if o.startswith('how '):
            wait.append(o)
        else:
            out.append((o, []))
            wait = out[-1][1]
    res = ['reset agent ' + mode]
    for o, hw in out:
        res += hw + [o]
    return res + ['settle', 'end']


STAGES = [Stage(
    'agent',
    models=[Model('MCAgent', 'MCAgent_q%d.cfg' % i, emit='cover', convert=conv(m), workers=2)
            for i, m in ((1, 'key 1 0'), (2, 'key 1 1'), (3, 'none 1 1'))]
    + [Model('MCAgent', 'MCAgent_t%d.cfg' % i, 'thorough', workers=4) for i in (1, 2, 3)],
    drv=dict(name='agent', sources=['agent.cpp'],
             globs=[A + 'impl.cpp', A + 'interface.cpp', A + 'format.cpp', A + 'server_interface.cpp',
                    A + 'runners/interface.cpp', A + 'runners/lua/*.cpp', 'src/parsec/broker/interface.cpp', 'src/parsec/util.cpp',
                    'src/util/common/*.cpp', 'src/util/rpc/format.cpp'],
             libs=['-lsecp256k1', '-llua5.4', '-ldl'], flags=['-I' + os.path.join(SHIM, 'net'), '-I' + os.path.join(build.REPO, 'src/parsec')]),
    gen=gen, wrap=wrap, trace=('TraceAgent', 'TraceAgent.cfg'), tlc_cap=(900, 40000),
    clauses={'C09': '.*'})]
META = {'C09': {'level': 'model_checking'}}
