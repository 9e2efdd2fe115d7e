"""Executes scripts on a driver binary and collects one trace per script."""
import json
import os
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor


RSS_LIMIT = 3 << 30


def _rss(pid):
    try:
        with open('/proc/%d/statm' % pid) as fh:
            return int(fh.read().split()[1]) * 4096
    except (OSError, ValueError, IndexError):
        return 0


class DriverError(Exception):
    pass


def _run_batch(binp, scripts, per_trace_timeout, wd, tag, env):
    """Runs scripts one after another in one process; on a crash or a hang the
    affected trace ends with a crash/hang event and the rest continues in a new
    process."""
    traces = []
    todo = list(scripts)
    attempt = hangs = 0
    while todo:
        attempt += 1
        out = os.path.join(wd, '%s.%d' % (tag, attempt))
        cwd = os.path.join(wd, '%s.%d.d' % (tag, attempt))
        os.makedirs(cwd)
        inp = os.path.join(cwd, '.in')
        with open(inp, 'w') as fh:
            for s in todo:
                fh.write('\n'.join(s) + '\n')
        status = 'crash'
        err = ''
        with open(inp) as fin:
            p = subprocess.Popen([binp, out], stdin=fin, stdout=subprocess.DEVNULL,
                                 stderr=subprocess.PIPE, cwd=cwd, env=env)
            # watchdog on progress of the output file
            last, seen = time.time(), -1
            while True:
                try:
                    _, e = p.communicate(timeout=0.02 if attempt == 1 and last == seen else 0.2)
                    err = e.decode(errors='replace')[-600:]
                    break
                except subprocess.TimeoutExpired:
                    sz = os.path.getsize(out) if os.path.exists(out) else 0
                    if sz != seen:
                        seen, last = sz, time.time()
                    if time.time() - last > per_trace_timeout or _rss(p.pid) > RSS_LIMIT:
                        status = 'hang'
                        p.kill()
                        p.communicate()
                        break
        lines = []
        if os.path.exists(out):
            with open(out, errors='replace') as fh:
                lines = [x for x in fh.read().split('\n') if x]
            os.remove(out)
        shutil.rmtree(cwd, ignore_errors=True)
        cur = []
        for line in lines:
            if line.startswith('{"ev":"reset"'):
                if cur:
                    traces.append(cur)
                cur = [line]
            else:
                cur.append(line)
        done_all = p.returncode == 0 and status != 'hang'
        if cur:
            if not done_all:
                try:
                    json.loads(cur[-1])
                except ValueError:
                    cur.pop()
                cur.append(json.dumps({'ev': status, 'rc': p.returncode or 0}))
                traces.append(cur)
            else:
                traces.append(cur)
        if done_all:
            n = len(scripts) - len(traces)
            if n:
                raise DriverError('driver produced %d traces for %d scripts'
                                  % (len(traces), len(scripts)))
            return traces
        if not cur:
            raise DriverError('driver died before its first event (rc %s): %s'
                              % (p.returncode, err))
        todo = scripts[len(traces):]
        hangs += status == 'hang'
        if attempt > 40 or hangs >= 3:
            # hopelessly broken: what is not executed is not judged
            return traces
    return traces


def execute(binp, scripts, jobs=8, per_trace_timeout=20, env=None):
    """Returns traces in script order (list of lists of JSON lines)."""
    e = dict(os.environ)
    e.update(env or {})
    wd = tempfile.mkdtemp(prefix='vfdrv')
    try:
        jobs = max(1, min(jobs, len(scripts)))
        parts = [scripts[k::jobs] for k in range(jobs)]
        with ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(lambda k: _run_batch(binp, parts[k], per_trace_timeout, wd,
                                                   'p%d' % k, e), range(jobs)))
        traces, scr = [], []
        for k in range(jobs):
            for n, t in enumerate(res[k]):
                traces.append(t)
                scr.append(parts[k][n])
        return traces, scr
    finally:
        shutil.rmtree(wd, ignore_errors=True)
