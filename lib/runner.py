"""Decides one property: exhaustive model checking of the specification plus
conformance of the real code to it."""
import hashlib
import json
import os
import random
import re
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

import build
import drive
import tlc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')


class Model:
    """An exhaustive TLC run.  emit: 'cover' makes TLC write one operation
    sequence per transition of the state graph, which become driver scripts."""

    def __init__(self, module, cfg, tier='both', emit=False, props=None, simulate=None,
                 workers=4, mem='6g', convert=None, timeout=3000):
        self.module, self.cfg, self.tier, self.emit = module, cfg, tier, emit
        self.props, self.simulate, self.workers, self.mem = props, simulate, workers, mem
        self.convert, self.timeout = convert, timeout


class Stage:
    """One binding of a specification to real code.

    name      unique
    models    list of Model
    drv       dict(name=, sources=, globs=, libs=, flags=, exclude=)
    gen       f(rng, tier) -> list of scripts (list of op lines, first 'reset...')
    trace     (module, cfg)
    clauses   dict property -> regex of clause names that break it
    wrap      f(history string) -> script, for TLC generated histories
    tlc_cap   (quick, thorough) max number of TLC generated scripts executed
    """

    def __init__(self, name, models, drv, gen, trace, clauses, wrap=None,
                 tlc_cap=(1500, 100000), timeout=20, env=None, post=None, jobs=8, again=1):
        self.name, self.models, self.drv, self.gen = name, models, drv, gen
        self.trace, self.clauses, self.wrap = trace, clauses, wrap
        self.tlc_cap, self.timeout, self.env = tlc_cap, timeout, env
        self.post, self.jobs = post, jobs
        self.again = again  # times a deviating script is run to see it again


def cover(histories, cap, rng):
    """Drops histories that are a prefix of another one, samples to cap."""
    hs = sorted(set(histories))
    keep = [h for n, h in enumerate(hs)
            if not (n + 1 < len(hs) and hs[n + 1].startswith(h))]
    total = len(keep)
    if len(keep) > cap:
        keep = rng.sample(keep, cap)
    return keep, total


def build_driver(st):
    d = st.drv
    return build.driver(d['name'], d['sources'], d.get('globs', []), d.get('libs', ()),
                        d.get('flags', ()), d.get('exclude', ()))


def run_stage(st, prop, tier, seed, log):
    t0 = time.time()
    rng = random.Random('%s/%s/%d' % (st.name, tier, seed))
    models = [m for m in st.models
              if m.tier in ('both', tier) and (m.props is None or prop in m.props)]
    info = {'stage': st.name, 'models': [], 'scripts_tlc': 0, 'scripts_random': 0}
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(build_driver, st)
        fm = [ex.submit(tlc.model_check, m.module, m.cfg, m.workers, m.mem, m.timeout,
                        m.emit, m.simulate, seed) for m in models]
        fg = ex.submit(lambda: st.gen(rng, tier)) if st.gen else None
        binp = fb.result()
        mres = [f.result() for f in fm]
        scripts = list(fg.result()) if fg else []
    info['scripts_random'] = len(scripts)
    for m, r in zip(models, mres):
        if not r['ok']:
            raise tlc.TLCError('specification %s/%s does not satisfy its own properties: %s\n%s'
                               % (m.module, m.cfg, r['violation'], r['output'][-3000:]))
        row = {'model': m.module + '/' + m.cfg, 'states': r['states'],
               'transitions': r['transitions'], 'depth': r['depth'],
               'exhaustive': not m.simulate}
        if m.emit:
            hs = [m.convert(h) for h in r['histories']] if m.convert else r['histories']
            cap = st.tlc_cap[0 if tier == 'quick' else 1]
            hs, total = cover(hs, cap, rng)
            row['behaviours_generated'] = total
            row['behaviours_replayed'] = len(hs)
            info['scripts_tlc'] += len(hs)
            scripts += [st.wrap(h) for h in hs]
        info['models'].append(row)
    t1 = time.time()
    log('%s: build+models+generation %.1fs, %d scripts' % (st.name, t1 - t0, len(scripts)))
    traces, scr = drive.execute(binp, scripts, jobs=st.jobs, per_trace_timeout=st.timeout,
                                env=st.env)
    if st.post:
        traces = [st.post(t) for t in traces]
    t2 = time.time()
    bad, states = tlc.validate(st.trace[0], st.trace[1], traces)
    t3 = time.time()
    log('%s: executed %d traces, %d events in %.1fs; validated in %.1fs; %d deviations'
        % (st.name, len(traces), sum(map(len, traces)), t2 - t1, t3 - t2, len(bad)))
    info['traces'] = len(traces)
    info['events'] = sum(map(len, traces))
    info['trace_states'] = states
    pat = re.compile('^(%s)$' % st.clauses[prop])
    mine = [b for b in bad if pat.match(b[2])]
    info['deviations_other'] = sorted(set(b[2] for b in bad if not pat.match(b[2])))
    found = []
    mine.sort(key=lambda b: len(scr[b[0]]))
    tried = 0
    for i, n, clause in mine:
        if tried >= 8 or len(found) >= 3:
            break
        tried += 1
        # confirm in a fresh process, on its own
        tr2, _ = drive.execute(binp, [scr[i]] * st.again, jobs=min(8, st.again), per_trace_timeout=st.timeout,
                               env=st.env)
        if st.post:
            tr2 = [st.post(t) for t in tr2]
        bad2, _ = tlc.validate(st.trace[0], st.trace[1], tr2)
        ok2 = [b for b in bad2 if pat.match(b[2])]
        if ok2:
            found.append({'stage': st.name, 'clause': ok2[0][2], 'event': ok2[0][1],
                          'script': scr[i], 'trace': tr2[ok2[0][0]]})
        else:
            log('%s: deviation %s not reproduced on its own' % (st.name, clause))
            if os.environ.get('VERIF_KEEP'):
                json.dump({'ev': n, 'script': scr[i], 'trace': traces[i]}, open(os.environ['VERIF_KEEP'], 'w'))
            info.setdefault('not_reproduced', []).append(clause)
    info['deviating'] = len(mine)
    if traces:
        k = rng.randrange(len(traces))
        info['sample'] = {'script': scr[k][:60], 'trace': traces[k][:60]}
    return found, info


def load_known():
    """known-findings.txt: lines 'known: property=.. stage=.. clause=.. <what>'."""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) stage=(\S+) clause=(\S+) (.*)', line)
            if m:
                out.append({'property': m.group(1), 'stage': m.group(2),
                            'clause': m.group(3), 'what': m.group(4).strip()})
    return out


def check(prop, stages, meta, tier, seed):
    t0 = time.time()
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    log = lambda s: (print('# ' + s), sys.stdout.flush())
    known = [k for k in load_known() if k['property'] == prop]
    allfound, infos, knownhits = [], [], []
    for st in stages:
        found, info = None, None
        for attempt in (1, 2):
            try:
                found, info = run_stage(st, prop, tier, seed, log)
                break
            except build.BuildError:
                raise
            except Exception as e:
                if attempt == 2:
                    raise
                log('retrying after: %s' % str(e)[:600])
        allfound += found
        infos.append(info)
        pat = re.compile('^(%s)$' % st.clauses[prop])
        for k in known:
            if k['stage'] == st.name and any(re.match(k['clause'] + '$', c)
                                             for c in info['deviations_other']):
                knownhits.append(k)
    for k in knownhits:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    viol = 0
    for f in allfound:
        hid = hashlib.sha256('\n'.join(f['script']).encode()).hexdigest()[:12]
        path = os.path.join(EVID, 'replay', '%s-%s-%s.json' % (prop, f['stage'], hid))
        with open(path, 'w') as fh:
            json.dump({'property': prop, **f}, fh, indent=1)
        viol += 1
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('#   clause %s at event %d: %s' % (
            f['clause'], f['event'], f['trace'][f['event']][:400] if f['event'] < len(f['trace']) else ''))
    ms = [m for i in infos for m in i['models']]
    cov = {
        'states': sum(m['states'] for m in ms) + sum(i['trace_states'] for i in infos),
        'transitions': sum(m['transitions'] for m in ms) + sum(i['events'] for i in infos),
        'traces_validated_against_impl': sum(i['traces'] for i in infos),
        'events_validated_against_impl': sum(i['events'] for i in infos),
        'scripts_generated_by_tlc': sum(i['scripts_tlc'] for i in infos),
        'scripts_generated_randomly': sum(i['scripts_random'] for i in infos),
        'models': ms,
        'deviations_of_this_property': sum(i['deviating'] for i in infos),
        'deviation_clauses_of_other_properties': sorted(
            set(c for i in infos for c in i['deviations_other'])),
        'samples': [i['sample'] for i in infos if 'sample' in i],
        'known_findings_seen': [k['what'] for k in knownhits],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': meta['level'],
          'coverage': cov, 'assumptions': meta.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': viol}
    tmp = os.path.join(EVID, prop + '.json.tmp')
    with open(tmp, 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.replace(tmp, os.path.join(EVID, prop + '.json'))
    print('# %s: %s in %.1fs (%d model states, %d traces, %d events)'
          % (prop, 'VIOLATED' if viol else 'held', time.time() - t0,
             sum(m['states'] for m in ms), cov['traces_validated_against_impl'],
             cov['events_validated_against_impl']))
    return 1 if viol else 0
