"""Running TLC: exhaustive model checking, behaviour generation, trace checking."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, 'specs')
CP = ('/opt/veriftools/tla/tla2tools.jar:'
      '/opt/veriftools/tla/CommunityModules-deps.jar')


class TLCError(Exception):
    pass


def _java(args, mem, cwd, env, timeout, gc='-XX:+UseParallelGC', jopts=()):
    cmd = ['java', gc, '-Xmx%s' % mem, '-Xss64m', *jopts, '-cp', CP, 'tlc2.TLC'] + args
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True,
                          timeout=timeout, errors='replace')


def _workdir():
    return tempfile.mkdtemp(prefix='vftlc')


def model_check(module, cfg, workers=8, mem='8g', timeout=3000, emit=False,
                simulate=None, seed=1):
    """Returns dict(ok, states, transitions, depth, histories, output)."""
    wd = _workdir()
    try:
        args = ['-workers', str(1 if emit and not simulate else workers),
                '-metadir', os.path.join(wd, 'meta'),
                '-noGenerateSpecTE', '-config', os.path.join(SPECS, cfg)]
        if simulate:
            args += ['-simulate', 'num=%d' % simulate[0], '-depth', str(simulate[1]),
                     '-seed', str(seed)]
        args.append(os.path.join(SPECS, module + '.tla'))
        p = _java(args, mem, wd, None, timeout)
        out = p.stdout
        hist = []
        if emit:
            keep = []
            for line in out.splitlines():
                if line.startswith('"H '):
                    hist.append(line[3:].rstrip('"'))
                else:
                    keep.append(line)
            out = '\n'.join(keep)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        d = re.search(r'depth of the complete state graph search is (\d+)', out)
        done = 'Model checking completed. No error' in out or (
            simulate and p.returncode == 0)
        viol = re.search(r'(Invariant \S+ is violated|Action property \S+ is violated|'
                         r'Temporal properties were violated|Deadlock reached|'
                         r'property \S+ is violated)', out)
        if not done and not viol:
            raise TLCError('TLC failed on %s/%s (rc %d)\n%s\n%s'
                           % (module, cfg, p.returncode, out[-4000:], p.stderr[-2000:]))
        return {'ok': done and not viol, 'violation': viol.group(0) if viol else '',
                'transitions': int(m.group(1)) if m else 0,
                'states': int(m.group(2)) if m else 0,
                'depth': int(d.group(1)) if d else 0,
                'histories': hist, 'output': out}
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def _validate_one(module, cfg, path, mem, timeout):
    wd = _workdir()
    try:
        p = _java(['-workers', '1', '-metadir', os.path.join(wd, 'meta'),
                   '-noGenerateSpecTE', '-config', os.path.join(SPECS, cfg),
                   os.path.join(SPECS, module + '.tla')], mem, wd,
                  {'TRACE_FILE': path}, timeout, gc='-XX:+UseSerialGC',
                  jopts=['-XX:TieredStopAtLevel=1'] if os.path.getsize(path) < 300000 else [])
        if 'Model checking completed. No error' not in p.stdout:
            raise TLCError('trace validation with %s failed (rc %d)\n%s\n%s'
                           % (module, p.returncode, p.stdout[-5000:], p.stderr[-1500:]))
        bad = []
        for line in p.stdout.splitlines():
            m = re.match(r'"BAD (\d+) (\S+)(.*)"?$', line)
            if m:
                bad.append((int(m.group(1)), m.group(2).rstrip('"'), m.group(3)))
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', p.stdout)
        return bad, int(m.group(2)) if m else 0
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def validate(module, cfg, traces, shards=8, mem='2g', timeout=3000):
    """traces: list of lists of JSON lines (first one the reset event).
    Returns (list of (trace index, event index, clause), states)."""
    wd = _workdir()
    try:
        shards = max(1, min(shards, len(traces)))
        # balance by number of lines
        order = sorted(range(len(traces)), key=lambda i: -len(traces[i]))
        load = [0] * shards
        parts = [[] for _ in range(shards)]
        for i in order:
            k = load.index(min(load))
            parts[k].append(i)
            load[k] += len(traces[i])
        jobs = []
        for k, idx in enumerate(parts):
            path = os.path.join(wd, 'trace%d.ndjson' % k)
            where = []
            with open(path, 'w') as fh:
                for i in idx:
                    for n, line in enumerate(traces[i]):
                        fh.write(line + '\n')
                        where.append((i, n))
            jobs.append((path, where))
        with ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(lambda j: _validate_one(module, cfg, j[0], mem, timeout), jobs))
        out = []
        states = 0
        for (path, where), (bad, st) in zip(jobs, res):
            states += st
            for line, clause, _ in bad:
                i, n = where[line - 1]
                out.append((i, n, clause))
        return out, states
    finally:
        shutil.rmtree(wd, ignore_errors=True)
