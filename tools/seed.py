#!/usr/bin/env python3
"""Development helper (no check uses it).
seed.py new ID PROPERTY FILE   reads '<<<old' / '===new' / '>>>' edits from stdin, writes patch.diff
seed.py test ID [PROP..]       apply, build, stable tests, demo, checks, revert
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


def new(id, edits, meta):
    """edits: list of (file, old, new)"""
    d = os.path.join(S, id)
    os.makedirs(d, exist_ok=True)
    sh('rm -rf /tmp/seedw && git -C /repo worktree prune && git clone -q /repo /tmp/seedw')
    for f, o, n in edits:
        p = '/tmp/seedw/' + f
        s = open(p).read()
        assert s.count(o) == 1, (id, f, s.count(o), o)
        open(p, 'w').write(s.replace(o, n))
    open(d + '/patch.diff', 'w').write(sh('git diff', cwd='/tmp/seedw').stdout)
    json.dump(meta, open(d + '/meta.json', 'w'), indent=1)
    sh('rm -rf /tmp/seedw')


def test(id, props):
    d = os.path.join(S, id)
    meta = json.load(open(d + '/meta.json'))
    props = props or [meta['property']]
    assert not sh('git -C /repo status --porcelain').stdout
    r = sh(['bash', d + '/demo.sh'], cwd='/repo')
    print(id, 'demo clean:', r.returncode, (r.stdout + r.stderr)[-600:] if r.returncode else '')
    a = sh('git -C /repo apply %s/patch.diff' % d)
    if a.returncode:
        print('PATCH DOES NOT APPLY', a.stderr)
        return
    try:
        b = sh('bash /opt/vp/build.sh')
        print('build', b.returncode, b.stdout[-800:] if b.returncode else '')
        t = sh('bash /opt/vp/test.sh /tmp/seedt.json')
        base = json.load(open('/opt/vp/BASELINE.json'))
        res = open('/tmp/seedt.json').read()
        print('tests rc', t.returncode, t.stdout[-300:])
        r = sh(['bash', d + '/demo.sh'], cwd='/repo')
        print('demo patched:', r.returncode, (r.stdout + r.stderr)[-300:])
        for p in props:
            c = sh(['python3', 'check.py', p], cwd=V)
            print('check', p, c.returncode, '\n'.join(x for x in c.stdout.splitlines() if 'VIOL' in x or 'clause' in x or 'ERROR' in x)[:600])
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')


if __name__ == '__main__':
    if sys.argv[1] == 'test':
        if sys.argv[2] == 'all':
            for i in sorted(os.listdir(S)):
                test(i, [])
        else:
            test(sys.argv[2], sys.argv[3:])
