"""check.py ID: decides one property.

 1. TLC explores the specification and prints behaviours (and checks its laws);
 2. the behaviours are driven through the real larch, built from /repo's working tree,
    and what it reports is recorded;
 3. TLC decides whether each recorded history is one that the specification allows.
"""
import os, sys, json, time, tempfile, shutil, subprocess, atexit, signal, re, threading
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import tlc, build
from suites import PROPS

KNOWN = os.path.join(ROOT, 'KNOWN_FINDINGS.json')

class MachineryError(Exception):
    pass

def drive(suite, behaviours, root, scratch, env, tag):
    """run the driver over the behaviours; survive crashes and hangs of the code under test"""
    inp = os.path.join(scratch, 'in-%s.json' % tag)
    outp = os.path.join(scratch, 'out-%s.ndjson' % tag)
    json.dump(behaviours, open(inp, 'w'))
    open(outp, 'w').close()
    first = 0
    crashes = 0
    limit = suite.get('limit', 120)
    env = dict(env, NUMBA_CACHE_DIR=os.path.join(scratch, 'numba-%s' % tag))     # no cache shared between processes
    while first < len(behaviours):
        r = subprocess.run([build.PY, os.path.join(HERE, 'driver_main.py'), suite['driver'], inp, outp, str(first), str(limit)],
                           env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        done = -1
        for ln in open(outp):
            if ln.strip():
                done = json.loads(ln)['b']
        if r.returncode == 0 and done == len(behaviours) - 1:
            break
        msg = r.stdout.decode('utf8', 'replace')[-2000:]
        if r.returncode == 99 or r.returncode < 0:
            crashes += 1
            bad = max(done, first - 1) + 1
            e = dict(behaviours[bad][0])
            e['err'] = 'the process did not end' if r.returncode == 99 else 'the process was ended by signal %d' % -r.returncode
            e['obs'] = {}
            sys.stderr.write(msg)
            e['b'] = bad
            with open(outp, 'a') as f: f.write(json.dumps(e) + '\n')
            first = bad + 1
            if crashes > 5:
                break
        else:
            raise MachineryError('driver %s: exit %s\n%s' % (suite['driver'], r.returncode, msg))
    return outp

def validate(suite, path, scratch):
    """TLC over one recorded file -> (events, list of verdicts, last run, undecided)

    Where TLC cannot evaluate a clause, the rest of that behaviour is set aside: if a number of the
    specification leaves the range of its fixed point arithmetic the behaviour is undecided (counted,
    no verdict), otherwise the observation has a form that the specification does not allow."""
    events = [json.loads(ln) for ln in open(path) if ln.strip()]
    for i, e in enumerate(events): e['row'] = i + 1
    if not events:
        return [], [], None, 0
    cfg = tlc.cfg_text(view='View', post='Accepted', constants=suite.get('trace_constants'))
    odd, undecided, skip = [], 0, {}
    for attempt in range(40):
        part = [e for e in events if not (e['b'] in skip and e['row'] >= skip[e['b']])]
        if not part:
            return events, odd, r, undecided
        with open(path, 'w') as f:
            for e in part: f.write(json.dumps(e) + '\n')
        r = tlc.run(suite['trace'], cfg, scratch, env={'VERIF_TRACE': path}, heap='3g')
        v = r.records('VERDICT')
        for x in v: x['line'] = part[x['line'] - 1]['row']
        m = re.search(r'TRACE-CONSUMED (\d+)', r.out)
        if m and int(m.group(1)) == len(part):
            return events, v + odd, r, undecided
        at = re.findall(r'^(?:/\\ )?l = (\d+)', r.out, re.M)
        if not at:
            raise MachineryError('trace validation did not finish (%s)\n%s' % (r.rc, r.out[-3000:]))
        e = part[int(at[-1]) - 1]
        if os.environ.get('VERIF_DEBUG'): print(r.out[-3000:])
        if 'Overflow when computing' in r.out:
            undecided += 1
        else:
            odd.append(dict(line=e['row'], op=e['op'], clause='the observation is outside of what the model can describe'))
        skip[e['b']] = e['row']
    return events, v + odd, r, undecided

def parallel(jobs, width):
    """jobs: list of functions; run them on threads, return results in order"""
    res = [None] * len(jobs); err = []
    it = iter(range(len(jobs))); lock = threading.Lock()
    def work():
        while True:
            with lock:
                i = next(it, None)
            if i is None or err: return
            try: res[i] = jobs[i]()
            except BaseException as x: err.append(x); return
    ts = [threading.Thread(target=work) for _ in range(min(width, len(jobs)))]
    [t.start() for t in ts]; [t.join() for t in ts]
    if err: raise err[0]
    return res

def behaviours_of(suite, seed, count, scratch, stats):
    c = dict(suite['constants'])
    c['Seed'] = seed
    c['NBeh'] = count
    r = tlc.run(suite['gen'], tlc.cfg_text(constants=c, invariants=suite.get('laws', ())), scratch, workers=suite.get('gen_workers', 6), heap='4g')
    if 'is violated' in r.out:
        raise MachineryError('a law of the specification is violated\n' + r.out[-3000:])
    b = r.records('BEHAVIOUR')
    if 'No error has been found' not in r.out or not b:
        raise MachineryError('generation failed\n' + r.out[-3000:])
    stats['states'] += r.distinct
    stats['transitions'] += r.generated
    b.sort(key=lambda x: json.dumps(x, sort_keys=True))
    return b

def model_check(mc, tier, scratch, stats):
    c = dict(mc.get('constants', {}))
    c.update(mc.get(tier, {}))
    r = tlc.run(mc['module'], tlc.cfg_text(spec=mc.get('spec', 'Spec'), constants=c, invariants=mc.get('invariants', ()),
                properties=mc.get('properties', ()), view=mc.get('view'), constraint=mc.get('constraint')),
                scratch, workers=mc.get('workers', 4), heap='6g', timeout=mc.get('timeout', 600))
    if 'No error has been found' not in r.out:
        raise MachineryError('model checking of %s failed\n%s' % (mc['module'], r.out[-4000:]))
    stats['states'] += r.distinct
    stats['transitions'] += r.generated
    stats['mc'].append(dict(module=mc['module'], distinct=r.distinct, generated=r.generated, wall_s=round(r.wall, 1)))
    return r.records('BEHAVIOUR')

def run_check(pid, tier, seed):
    t0 = time.time()
    prop = PROPS[pid]
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid, dir='/tmp')
    def cleanup():
        shutil.rmtree(scratch, ignore_errors=True)
    atexit.register(cleanup)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
    stats = dict(states=0, transitions=0, mc=[])
    known = [k for k in json.load(open(KNOWN))['findings'] if k['property'] == pid and k['status'] == 'known'] if os.path.exists(KNOWN) else []
    known_hit = {}
    violations = []
    nev = nbeh = undecided = 0
    samples = []
    ops = {}
    box = {}
    def build_job():
        box['root'], box['rebuilt'] = build.prepare(scratch)
    bt = threading.Thread(target=build_job); bt.start()
    seen = set()
    rounds = 1 if tier == 'quick' else prop.get('thorough_rounds', 12)
    budget = 1e9 if tier == 'quick' else 780
    extra = []
    for mc in prop.get('mc', ()):
        bs = model_check(mc, tier, scratch, stats)
        if mc.get('suite') is not None and bs:
            extra.append((mc['suite'], bs))
    rnd = 0
    while rnd < rounds and (rnd == 0 or time.time() - t0 < budget):
        work = []
        for k, suite in enumerate(prop['suites']):
            n = suite['quick'] if tier == 'quick' else suite.get('thorough', suite['quick'] * 4)
            bs = behaviours_of(suite, seed * 1000 + rnd * 17 + k + 1, n, scratch, stats) if 'gen' in suite else suite['behaviours'](tier, seed, rnd)
            if rnd == 0:
                for name, more in extra:
                    if name == suite['name']:
                        bs = bs + more
            new = []
            for b in bs:
                key = json.dumps(b, sort_keys=True)
                if key not in seen:
                    seen.add(key); new.append(b)
            work.append((suite, new))
        bt.join()
        if 'root' not in box:
            raise MachineryError('the build failed')
        env = build.env_for(box['root'], scratch)
        if rnd == 0 and prop.get('prepare'):
            prop['prepare'](box['root'], scratch, env)
        jobs = []
        for suite, bs in work:
            per = max(1, -(-len(bs) // suite.get('shards', 6)))
            for i in range(0, len(bs), per):
                def job(suite=suite, part=bs[i:i + per], tag='%s-%d-%d' % (suite['name'], rnd, i)):
                    out = drive(suite, part, box['root'], scratch, env, tag)
                    ev, v, r, und = validate(suite, out, scratch)
                    os.remove(out)
                    return suite, part, ev, v, r, und
                jobs.append(job)
        for suite, part, ev, v, r, und in parallel(jobs, 8):
            undecided += und
            nev += len(ev); nbeh += len(part)
            if r is not None:
                stats['states'] += r.distinct
                stats['transitions'] += r.generated
            for e in ev:
                o = e['op'] + (':' + e['via'] if 'via' in e else '')
                ops[o] = ops.get(o, 0) + 1
            if len(samples) < 3 and part:
                s = json.dumps(part[0])
                samples.append(s if len(s) < 1500 else s[:1500] + '...')
            done = set()
            for x in v:
                e = ev[x['line'] - 1]
                key = (x['line'], x['clause'])
                if key in done: continue
                done.add(key)
                hit = None
                for kf in known:
                    if re.search(kf['clause'], x['clause']) and re.search(kf.get('op', ''), e['op'] + ':' + str(e.get('via', ''))):
                        hit = kf
                if hit:
                    known_hit[hit['id']] = hit
                    continue
                violations.append(dict(suite=suite['name'], clause=x['clause'], event=e,
                                       history=[y for y in ev[:x['line']] if y['b'] == e['b']]))
        if violations: break
        rnd += 1
    for kf in known:
        # a listed finding stands whether or not this run met it
        print('KNOWN-FINDING: property=%s %s' % (pid, kf['what']))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level=prop.get('level', 'model_checking'),
              coverage=dict(states=stats['states'], transitions=stats['transitions'], traces_validated_against_impl=nbeh,
                            events_judged=nev, behaviours_cut_short_undecided=undecided, events_by_kind=ops, model_checking=stats['mc'], samples=samples,
                            known_findings_met=sorted(known_hit), rebuilt=box.get('rebuilt', [])),
              assumptions=prop.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    rp = os.path.join('evidence', pid + '.replay.json')
    if violations:
        json.dump(violations[:60], open(os.path.join(ROOT, rp), 'w'), indent=1)
        by = {}
        for x in violations:
            k = '%s %s%s: %s' % (x['suite'], x['event']['op'], ' via ' + x['event']['via'] if 'via' in x['event'] else '', x['clause'])
            by[k] = by.get(k, 0) + 1
        for k in sorted(by, key=lambda k: -by[k])[:12]:
            print('  %d x %s' % (by[k], k))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if os.path.exists(os.path.join(ROOT, rp)):
        os.remove(os.path.join(ROOT, rp))
    print('ok property=%s behaviours=%d events=%d states=%d wall=%.1fs' % (pid, nbeh, nev, stats['states'], time.time() - t0))
    return 0

if __name__ == '__main__':
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    try:
        rc = run_check(pid, tier, seed)
    except MachineryError as x:
        print('MACHINERY-ERROR', x)
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
