"""Shared machinery of the checks: tool build, IR generation, job pool, reporting."""
import concurrent.futures as cf
import fcntl, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CLANG = '/usr/lib/llvm-18/bin/clang++'
INC = ['-std=c++17', '-include', '/opt/vp/support/prefix.hpp', '-I%s/lib/include' % REPO, '-I%s/lib/src' % REPO]
JOBS = int(os.environ.get('VT_JOBS', '8'))
T0 = time.time()


class Broken(Exception):
    """the analysis itself cannot run (vanished anchor, compile error, no instances)"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def must(cmd, what, **kw):
    r = sh(cmd, **kw)
    if r.returncode != 0:
        raise Broken('%s failed (%d): %s\n%s' % (what, r.returncode, ' '.join(cmd), (r.stderr or r.stdout)[-3000:]))
    return r.stdout


TOOLFLAGS = ['-std=c++17', '-O2', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS']
# tool name -> (sources, link arguments)
LLVM = ['-L/usr/lib/llvm-18/lib', '-lLLVM-18']
CLANGLIB = ['/usr/lib/llvm-18/lib/libclang-cpp.so.18.1'] + LLVM
TOOLS = {
    'vttrain': (['engine.cpp', 'train.cpp'], LLVM),
    'vtast': (['vtast.cpp'], CLANGLIB),
}


def filehash(paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:16]


def build_tools(names=None):
    """compile the analysers (incremental, safe under concurrent checks)"""
    os.makedirs(BUILD, exist_ok=True)
    names = list(names or TOOLS)
    with open(os.path.join(BUILD, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        hdrs = sorted(os.path.join(VERIF, 'src', f) for f in os.listdir(os.path.join(VERIF, 'src')) if f.endswith('.hpp'))
        need = {}
        for n in names:
            for s in TOOLS[n][0]:
                src = os.path.join(VERIF, 'src', s)
                need[s] = os.path.join(BUILD, '%s.%s.o' % (s, filehash([src] + hdrs)))

        def comp(item):
            s, o = item
            if not os.path.exists(o):
                must([CLANG] + TOOLFLAGS + ['-c', os.path.join(VERIF, 'src', s), '-o', o + '.tmp'], 'compiling ' + s)
                os.rename(o + '.tmp', o)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(comp, need.items()))
        for n in names:
            objs = [need[s] for s in TOOLS[n][0]]
            tag = os.path.join(BUILD, n + '.tag')
            want = ' '.join(objs)
            out = os.path.join(BUILD, n)
            if not (os.path.exists(out) and os.path.exists(tag) and open(tag).read() == want):
                must([CLANG] + objs + ['-o', out] + TOOLS[n][1], 'linking ' + n)
                open(tag, 'w').write(want)


def tool(n):
    return os.path.join(BUILD, n)


_scratch = None


def scratch():
    """per-run scratch directory under /verif/build, removed on exit"""
    global _scratch
    if _scratch is None:
        import atexit, shutil, tempfile
        os.makedirs(BUILD, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix='run.', dir=BUILD)
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def emit_ir(src, name, opt=('-O1', '-Xclang', '-disable-llvm-passes'), extra=()):
    out = os.path.join(scratch(), name + '.ll')
    must([CLANG, '-g1', '-w', '-S', '-emit-llvm'] + list(opt) + INC + list(extra) + [src, '-o', out], 'compiling %s to IR' % os.path.basename(src))
    return out


def pool(jobs, fn):
    scratch()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(fn, jobs))


# ------------------------------------------------------------------ reporting
def known(prop):
    ks = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                ks.append(l.split(' ', 2)[2])
    return ks


def report(prop, tier, level, coverage, violations, undecided=(), assumptions=(), instances=None, floor=1):
    """violations: list of dicts(where, rule, msg).  Exit status of the check."""
    inst = instances if instances is not None else coverage.get('obligations', 1)
    if inst < floor:
        raise Broken('%s: only %d instances analysed, expected at least %d' % (prop, inst, floor))
    kn = known(prop)
    new, old = [], []
    for v in violations:
        key = '%s: %s' % (v['where'], v['msg'])
        (old if any(k and k in key for k in kn) else new).append(v)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cov = dict(coverage)
    if undecided:
        cov['undecided'] = list(undecided)[:40]
        cov['undecided_count'] = len(undecided)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': level, 'coverage': cov,
          'assumptions': list(assumptions), 'wall_s': round(time.time() - T0, 2), 'violations': len(new)}
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for v in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, v['where'], v['msg']))
    print('%s %s: %d instances, %d undecided, %d violations, %.1f s' % (prop, tier, inst, len(undecided), len(new), time.time() - T0))
    if new:
        rp = os.path.join(VERIF, 'evidence', 'replay_%s.txt' % prop)
        with open(rp, 'w') as f:
            for v in new:
                f.write('%s: [%s] %s\n' % (v['where'], v.get('rule', prop), v['msg']))
        for v in new[:12]:
            print('%s: [%s] %s' % (v['where'], v.get('rule', prop), v['msg']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    for u in list(undecided)[:10]:
        print('undecided: %s' % (u,))
    return 1 if new else 0
