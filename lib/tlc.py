"""Runs TLC (explicitly by java, with scratch directories of its own) and reads what it prints."""
import os, subprocess, json, re, tempfile, shutil, time
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')

class TLCError(Exception):
    pass

class Result:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated, self.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    def records(self, word):
        """The JSON values printed as "WORD json"."""
        r = []
        for ln in self.out.splitlines():
            if ln.startswith('"' + word + ' '):
                r.append(json.loads(json.loads(ln)[len(word) + 1:]))
        return r

def cfg_text(spec='Spec', constants=None, invariants=(), view=None, post=None, properties=(), constraint=None):
    t = []
    if constants:
        t.append('CONSTANTS')
        for k, v in constants.items():
            if isinstance(v, bool): v = 'TRUE' if v else 'FALSE'
            elif isinstance(v, str) and not v.startswith('{') : v = json.dumps(v)
            t.append('  %s = %s' % (k, v))
    t.append('SPECIFICATION ' + spec)
    for i in invariants: t.append('INVARIANT ' + i)
    for p in properties: t.append('PROPERTY ' + p)
    if view: t.append('VIEW ' + view)
    if constraint: t.append('CONSTRAINT ' + constraint)
    if post: t.append('POSTCONDITION ' + post)
    t.append('CHECK_DEADLOCK FALSE')
    return '\n'.join(t) + '\n'

def start(module, cfg, scratch, workers=1, env=None, args=(), heap='2g'):
    d = tempfile.mkdtemp(prefix='tlc', dir=scratch)
    c = os.path.join(d, 'run.cfg')
    with open(c, 'w') as f: f.write(cfg)
    cmd = ['java', '-Xmx' + heap, '-Xss16m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=%d' % max(1, min(4, workers)),
           '-Djava.io.tmpdir=' + d, '-cp', JAR, 'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(d, 'm'),
           '-noGenerateSpecTE', '-config', c, *args, os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ); e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    f = open(os.path.join(d, 'out'), 'w')
    p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=d)
    return p, d, f, time.time()

def finish(h, timeout=800):
    p, d, f, t0 = h
    try:
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill(); p.wait(); rc = -9
    f.close()
    out = open(os.path.join(d, 'out')).read()
    shutil.rmtree(d, ignore_errors=True)
    return Result(out, rc, time.time() - t0)

def run(module, cfg, scratch, timeout=800, **kw):
    return finish(start(module, cfg, scratch, **kw), timeout)
