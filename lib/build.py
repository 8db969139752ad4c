"""Makes the larch of /repo's working tree importable: from /repo itself when its extension
modules were built from the sources that are there, otherwise from a scratch copy that is
built here."""
import os, subprocess, hashlib, shutil, glob, sys, json
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILT = REPO + '/build/vp/built'
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'

def sha(p):
    return hashlib.sha256(open(p, 'rb').read()).hexdigest()

def sources():
    r = {}
    for root, dirs, files in os.walk(os.path.join(REPO, 'larch')):
        dirs[:] = [d for d in dirs if d not in ('__pycache__', 'generated')]
        for f in files:
            if f.endswith(('.pyx', '.pxd', '.pxi')):
                p = os.path.join(root, f)
                r[os.path.relpath(p, REPO)] = sha(p)
    return r

def headers():
    r = {}
    for p in glob.glob(REPO + '/larch/**/*.h', recursive=True):
        r[os.path.relpath(p, REPO)] = sha(p)
    return r

def changed():
    """files whose content is not the one that the extension modules were built from"""
    rec = {}
    if os.path.exists(BUILT):
        for ln in open(BUILT):
            if len(ln) > 67:
                rec[ln[66:].strip()] = ln[:64]
    src = sources()
    ch = [f for f, h in src.items() if rec.get(f) != h]
    ch += [f for f in rec if f.startswith('larch/') and f.endswith(('.pyx', '.pxd', '.pxi')) and f not in src]
    base = json.load(open(os.path.join(HERE, 'headers.json')))
    hd = headers()
    ch += [f for f, h in hd.items() if base.get(f) != h]
    for f in src:
        if f.endswith('.pyx') and not glob.glob(os.path.join(REPO, f[:-4] + '.*.so')):
            ch.append(f)
    return sorted(set(ch))

def prepare(scratch, log=None):
    """returns (root to put on the python path, list of rebuilt sources)"""
    ch = changed()
    if not ch:
        return REPO, []
    root = os.path.join(scratch, 'larch-src')
    os.mkdir(root)
    subprocess.check_call(['cp', '-a'] + [os.path.join(REPO, x) for x in sorted(os.listdir(REPO))
                                          if x not in ('.git', 'build', 'img', 'cython_debug', 'conda-recipe')] + [root])
    for f in ch:
        p = os.path.join(root, f)
        if os.path.exists(p):
            os.utime(p)
            if f.endswith('.pyx'):
                for q in glob.glob(p[:-4] + '.*.so') + glob.glob(p[:-4] + '.c') + glob.glob(p[:-4] + '.cpp'):
                    os.remove(q)
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '-j8'], cwd=root, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stdout.write(r.stdout.decode('utf8', 'replace')[-3000:])
        raise SystemExit(3)
    return root, ch

def env_for(root, scratch):
    e = dict(os.environ)
    e.update(PYTHONPATH=root + os.pathsep + HERE, PYTHONHASHSEED='0', PYTHONWARNINGS='ignore', MPLBACKEND='agg',
             PYTHONDONTWRITEBYTECODE='1', NUMBA_CACHE_DIR=os.path.join(scratch, 'numba'),
             MPLCONFIGDIR=os.path.join(scratch, 'mpl'), JUPYTER_PLATFORM_DIRS='1', HOME=scratch,
             VERIF_SCRATCH=scratch, OMP_NUM_THREADS='2', NUMBA_NUM_THREADS='2')
    return e
