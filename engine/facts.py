"""Builds (or loads from a content-keyed cache) the program facts of /repo."""
import glob, hashlib, json, os, pickle, subprocess, sys, time, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENGINE = os.path.join(VERIF, 'engine')
BUILD = os.path.join(VERIF, 'build')
REPO = os.environ.get('USML_REPO', '/repo')
MODULES = ('ublas types netcdf ocean threads beampatterns transmit eigenrays '
           'eigenverbs biverbs waveq3d wavegen managed platforms sensors rvbts').split()
LLVM = '/usr/lib/llvm-18'


def sources():
    out = []
    for m in MODULES:
        out += sorted(glob.glob(f'{REPO}/{m}/*.cc'))
    return out


def headers():
    out = [f'{REPO}/usml_config.h']
    for m in MODULES:
        out += sorted(glob.glob(f'{REPO}/{m}/*.h'))
    return out


def sha(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b'\0')
        try:
            with open(f, 'rb') as fd:
                h.update(fd.read())
        except OSError:
            h.update(b'missing')
        h.update(b'\0')
    return h.hexdigest()


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(ENGINE, 'extract.cc')
    key = sha([src])
    exe = os.path.join(BUILD, 'extract-' + key[:16])
    if os.path.exists(exe):
        return exe, key
    with open(os.path.join(BUILD, 'tool.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe, key
        cxx = subprocess.check_output([f'{LLVM}/bin/llvm-config', '--cxxflags'], text=True).split()
        clib = None
        for c in ('/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18', f'{LLVM}/lib/libclang-cpp.so.18.1', f'{LLVM}/lib/libclang-cpp.so'):
            if os.path.exists(c):
                clib = c
                break
        tmp = exe + '.tmp'
        subprocess.check_call([f'{LLVM}/bin/clang++'] + cxx + ['-O1', '-fno-rtti', src, '-o', tmp, clib,
                               f'-L{LLVM}/lib', '-lLLVM-18', f'-Wl,-rpath,{LLVM}/lib'])
        os.rename(tmp, exe)
    return exe, key


VARIANTS = {
    'release': ['-DNDEBUG'],
    # assertions and the diagnostic code of every DEBUG_ macro compiled in
    'debug': ['-UNDEBUG', '-DUSML_DEBUG', '-DDEBUG_BIVERB', '-DDEBUG_EIGENRAYS', '-DDEBUG_EIGENRAYS_DETAIL', '-DDEBUG_EIGENVERBS'],
}


def flags(inc, variant='release'):
    return VARIANTS[variant] + ['-std=gnu++17', '-DBOOST_ALLOW_DEPRECATED_HEADERS', '-DBOOST_BIND_GLOBAL_PLACEHOLDERS',
            '-DBOOST_UBLAS_MOVE_SEMANTICS', '-DUSML_DATA_DIR="/nonexistent"', '-DUSML_STUDIES_DIR="/nonexistent"',
            '-DUSML_TEST_DIR="/nonexistent"', '-I' + inc, '-w',
            '-resource-dir', f'{LLVM}/lib/clang/18']


def build_pch(inc, variant='release'):
    """Precompiled system headers (nothing from /repo goes in)."""
    hdr = os.path.join(ENGINE, 'pch.h')
    fl = [f for f in flags(inc, variant) if not f.startswith('-I')]
    pch = os.path.join(BUILD, 'sys-' + sha([hdr])[:12] + hashlib.sha256(' '.join(fl).encode()).hexdigest()[:8] + '.pch')
    if not os.path.exists(pch):
        tmp = pch + '.tmp%d' % os.getpid()
        subprocess.check_call([f'{LLVM}/bin/clang++'] + fl + ['-x', 'c++-header', hdr, '-o', tmp])
        os.rename(tmp, pch)
    return pch


def extract(variant='release'):
    """Returns the list of fact records of the current tree."""
    exe, tkey = build_tool()
    inst = os.path.join(ENGINE, 'instantiate.cc')
    srcs = sources()
    key = hashlib.sha256((sha(srcs + headers() + [inst]) + tkey + variant + open(__file__).read()).encode()).hexdigest()[:24]
    cache = os.path.join(BUILD, f'facts-{key}.pickle')
    if os.path.exists(cache):
        try:
            with open(cache, 'rb') as f:
                return pickle.load(f), key
        except Exception:
            pass
    with open(os.path.join(BUILD, 'facts.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(cache):
            with open(cache, 'rb') as f:
                return pickle.load(f), key
        for old in glob.glob(os.path.join(BUILD, 'facts-*.pickle')):
            if time.time() - os.path.getmtime(old) > 1800:
                os.unlink(old)
        work = os.path.join(BUILD, 'work-' + key)
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(os.path.join(work, 'inc'))
        inc = os.path.join(work, 'inc')
        os.symlink(REPO, os.path.join(inc, 'usml'))
        pch = build_pch(inc, variant)
        n = int(os.environ.get('USML_JOBS', '8'))
        fl = flags(inc, variant)
        order = sorted(srcs, key=lambda f: -os.path.getsize(f))
        groups = [order[i::n] for i in range(n)]
        groups[-1].append(inst)

        def run(i):
            out = os.path.join(work, f'{i}.jsonl')
            p = subprocess.run([exe, os.path.realpath(REPO), inc, out] + groups[i] + ['--'] + fl + ['-include-pch', pch],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return out, p.returncode, p.stdout
        recs = []
        seen = set()
        tus = []
        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(run, range(n)))
        for out, rc, log in res:
            with open(out) as f:
                for line in f:
                    r = json.loads(line)
                    if r['rec'] == 'tu':
                        tus.append(r)
                        if r['rc'] and not r['file'].endswith('instantiate.cc'):
                            raise RuntimeError(f"cannot parse {r['file']}:\n{log[-3000:]}")
                        continue
                    k = (r['rec'], r.get('u') or r.get('q'))
                    if k in seen:
                        continue
                    seen.add(k)
                    recs.append(r)
        if len(tus) != len(srcs) + 1:
            raise RuntimeError(f'extractor covered {len(tus)} units of {len(srcs)+1}: ' + ' | '.join(l[-500:] for _, rc, l in res if rc))
        recs.append({'rec': 'meta', 'tus': tus})
        tmp = cache + '.tmp%d' % os.getpid()
        with open(tmp, 'wb') as f:
            pickle.dump(recs, f, protocol=pickle.HIGHEST_PROTOCOL)
        os.rename(tmp, cache)
        shutil.rmtree(work, ignore_errors=True)
    return recs, key


if __name__ == '__main__':
    t = time.time()
    recs, key = extract()
    from collections import Counter
    print(key, Counter(r['rec'] for r in recs), '%.1fs' % (time.time() - t))
