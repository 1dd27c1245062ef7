#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property of /repo's current tree.
   check.py --setup                       build the VC generator.

Every run: compile /repo/src to LLVM IR (clang 18), link each contract file against it, symbolically execute every
contract entry with irvc (engine/irvc.cpp), which emits one obligation per contract assertion, memory access, callee
precondition and unreachable point, and discharges each with SAT.  Then run the bounded stand-in of the property, which executes
the public API natively against the reference rules; it never counts as proved."""
import sys, os, json, subprocess, tempfile, shutil, time, hashlib, glob, threading, re, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VP_REPO', '/repo'); CT = HERE + '/contracts'
NJ = int(os.environ.get('VP_JOBS', '8')); T0 = time.time(); LIMIT = float(os.environ.get('VP_LIMIT', '780'))
sys.path.insert(0, HERE)
REPOFLAGS = ['-std=c++17', '-msse4.2', '-mavx2', '-DHAVE_SSE4', '-DHAVE_SSE42', '-DHAVE_AVX2', '-w', '-Wno-enum-constexpr-conversion', '-I' + REPO + '/src', '-I' + CT]
IRFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-DNDEBUG', '-DVC_IR', '-fno-inline', '-include', CT + '/xt.h', '-emit-llvm', '-c']
IRPASSES = 'function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa)'
SKIP_IR = {'osl_dfpn.cpp', 'dfpn.cpp'}
NOPY = {'P01'}   # nothing of P01 is visible through the Python layer
def left(): return LIMIT - (time.time() - T0)
def log(*a): print('[%6.1f]' % (time.time() - T0), *a, flush=True)
class ToolError(Exception): pass
def sh(cmd, timeout=None, ok=(0,), stdout=subprocess.PIPE, env=None):
    try: r = subprocess.run(cmd, stdout=stdout, stderr=subprocess.PIPE, timeout=timeout or max(5, left() + 60), env=env)
    except subprocess.TimeoutExpired: raise ToolError('timeout: ' + ' '.join(cmd[:6]))
    if ok is not None and r.returncode not in ok: raise ToolError('%s -> %d\n%s' % (' '.join(map(str, cmd))[:300], r.returncode, r.stderr.decode(errors='replace')[-1500:]))
    return r
def build_engine(out):
    flags = [f for f in subprocess.check_output(['llvm-config-18', '--cxxflags']).decode().split() if not f.startswith('-std=') and f != '-fno-exceptions']
    libs = subprocess.check_output(['llvm-config-18', '--ldflags', '--libs', 'core', 'irreader', 'analysis']).decode().split()
    sh(['clang++-18', '-O2', '-w', '-std=c++17'] + flags + ['-fexceptions', HERE + '/engine/irvc.cpp', '-o', out + '.tmp'] + libs + ['-lminisat'], timeout=600); os.replace(out + '.tmp', out)
def engine(scratch):
    h = hashlib.sha256(open(HERE + '/engine/irvc.cpp', 'rb').read()).hexdigest()[:16]; p = HERE + '/build/irvc-' + h
    if os.path.exists(p): return p
    try: os.makedirs(HERE + '/build', exist_ok=True); build_engine(p); return p
    except OSError: build_engine(scratch + '/irvc'); return scratch + '/irvc'

class Build:
    """everything derived from /repo's current tree, in a scratch directory"""
    def __init__(self, scratch, pool): self.W = scratch; self.pool = pool; self.mods = {}; self.lock = threading.Lock(); self.err = {}; self.natl = threading.Lock()
    def start(self):
        srcs = sorted(glob.glob(REPO + '/src/*.cpp'))
        self.feng = self.pool.submit(engine, self.W)
        self.fir = {s: self.pool.submit(self.ir, s) for s in srcs if os.path.basename(s) not in SKIP_IR}; self.fir['init'] = self.pool.submit(self.ir, CT + '/native_init.cpp')
    def ir(self, src, out=None):
        out = out or self.W + '/s_' + os.path.basename(src)[:-4] + '.bc'; sh(['clang++-18'] + REPOFLAGS + IRFLAGS + [src, '-o', out]); return out
    def ready(self): self.irvc = self.feng.result(); self.bcs = [f.result() for f in self.fir.values()]
    def included(self, h): return set(re.findall(r'#include "(\w+)\.cpp"', open(CT + '/' + h + '.cpp').read()))   # sources a contract file includes whole
    def module(self, h):
        with self.lock:
            if h not in self.mods: self.mods[h] = self.pool.submit(self._module, h)
            f = self.mods[h]
        return f
    def _module(self, h):
        W = self.W; hb = self.ir(CT + '/' + h + '.cpp', W + '/h_' + h + '.bc'); inc = self.included(h); sh(['llvm-link-18'] + [b for b in self.bcs if os.path.basename(b)[2:-3] not in inc] + [hb, '-o', W + '/%s.l.bc' % h]); sh(['opt-18', '-passes=' + IRPASSES, W + '/%s.l.bc' % h, '-o', W + '/%s.bc' % h])
        sh([self.irvc, '--module', W + '/%s.bc' % h, '--mkdump', W + '/%s.d.ll' % h, W + '/%s.d.c' % h])
        sh(['clang-18', '-w', '-c', W + '/%s.d.c' % h, '-o', W + '/%s.d.o' % h]); sh(['clang-18', '-w', '-O0', '-c', W + '/%s.d.ll' % h, '-o', W + '/%s.m.o' % h])
        sh(['clang++-18', '-O1', '-I' + CT, '-c', CT + '/vc_native.cpp', '-o', W + '/%s.vcn.o' % h]); sh(['clang++-18', W + '/%s.m.o' % h, W + '/%s.d.o' % h, W + '/%s.vcn.o' % h, '-lpthread', '-o', W + '/%s.dumper' % h]); sh([W + '/%s.dumper' % h, W + '/%s.dump' % h], timeout=120)
        syms = set(l.split()[-1] for l in sh(['llvm-nm-18', '--defined-only', W + '/%s.bc' % h]).stdout.decode().splitlines() if l.strip())
        for x in ('.l.bc', '.d.ll', '.d.o', '.m.o', '.dumper'): os.remove(W + '/' + h + x)
        return syms
    # native builds (counterexample replay under sanitizers; bounded stand-ins with the compiler the package is built with)
    def nat_objs(self, tag, cxx, flags, skip=()):
        outs = []; fs = []
        for s in sorted(glob.glob(REPO + '/src/*.cpp')):
            if os.path.basename(s) in skip: continue
            o = self.W + '/%s_%s.o' % (tag, os.path.basename(s)[:-4]); outs.append(o); fs.append(subprocess.Popen([cxx] + REPOFLAGS + flags + ['-c', s, '-o', o], stderr=subprocess.PIPE))
        for p in fs:
            e = p.communicate()[1]
            if p.returncode: raise ToolError(e.decode(errors='replace')[-1500:])
        return outs
    def replayer(self, h):
        with self.natl:
            p = self.W + '/replay_' + h
            if os.path.exists(p): return p
            fl = ['-O1', '-g', '-fsanitize=address,bounds,null,alignment', '-fno-sanitize-recover=bounds,null', '-DNDEBUG', '-fno-omit-frame-pointer']
            if not hasattr(self, 'rpo'): self.rpo = self.nat_objs('rp', 'clang++-18', fl, SKIP_IR)
            sh(['clang++-18'] + REPOFLAGS + fl + ['-rdynamic', CT + '/' + h + '.cpp', CT + '/vc_native.cpp', CT + '/vc_main.cpp', CT + '/native_init.cpp'] + [o for o in self.rpo if os.path.basename(o)[3:-2] not in self.included(h)] + ['-lpthread', '-ldl', '-o', p]); return p
    def pyprep(self): # the Python package of the current tree; the extension is linked with the objects of the bounded stand-in
        D = self.W + '/py'; shutil.copytree(REPO + '/cshogi', D + '/cshogi', ignore=shutil.ignore_patterns('*.so', '*.cpp', '__pycache__', 'web', 'gym_shogi')); py = '/opt/vp/venv/bin/python'
        inc = subprocess.check_output([py, '-c', 'import sysconfig, numpy; print(sysconfig.get_path("include")); print(numpy.get_include())']).decode().split()
        sh([py, '-m', 'cython', '-3', '--cplus', '-w', D, 'cshogi/_cshogi.pyx', '-o', D + '/_cshogi.cpp'], timeout=300); sh(['g++'] + REPOFLAGS + ['-O0', '-fPIC', '-fpermissive'] + ['-I' + x for x in inc] + ['-c', D + '/_cshogi.cpp', '-o', D + '/_cshogi.o'], timeout=300); return D
    def pylink(self, D): sh(['g++', '-shared', D + '/_cshogi.o'] + self.bdobjs + ['-lpthread', '-o', D + '/cshogi/_cshogi.so']); return D
    def bounded(self):
        p = self.W + '/bounded'
        for cxx in ('g++', 'clang++-18'):
            try:
                fl = ['-O2', '-fPIC', '-DNDEBUG', '-fpermissive'] if cxx == 'g++' else ['-O2', '-fPIC', '-DNDEBUG']
                objs = self.nat_objs('bd', cxx, fl); self.bdobjs = objs; sh([cxx] + REPOFLAGS + fl + [CT + '/bounded.cpp'] + objs + ['-lpthread', '-o', p]); return p
            except ToolError as e: err = e
        raise err

class Group:
    def __init__(self, name, harness, entry, cases, replace=None, uf=(), time=120, fallback=None, text='', soft=False, ids=None, cut=None, fbound='', opt=None, opaque=(), skip=()):
        self.skip = skip       # prefixes of obligations that another group of the plan discharges for the same functions
        self.opaque = opaque   # prefixes of functions that may only be entered by contract
        self.opt = opt or {}   # callee contracts used if the callee is called; those in replace must be called for the contract to apply
        self.cut = cut or {}; self.fbound = fbound   # cut: loop invariants (function -> hook); fbound: what the fallback bounds, if it does
        self.name = name; self.harness = harness; self.entry = entry; self.cases = list(cases); self.replace = replace or {}; self.uf = uf; self.time = time; self.fallback = fallback; self.text = text; self.soft = soft; self.ids = ids   # ids: only these contract assertions (and all memory-safety obligations) belong to the property; soft: the contract leans on internal structure, so a failure the native run does not reproduce is 'not decided'

def run_irvc(B, g, params, out, entry=None, replace=None, tl=None):
    cmd = [B.irvc, '--module', B.W + '/%s.bc' % g.harness, '--dump', B.W + '/%s.dump' % g.harness, '--entry', entry or g.entry, '--json', out, '--tmp', B.W]
    for p in params: cmd += ['--param', str(p)]
    for k, v in (dict(g.replace, **g.opt) if replace is None else replace).items(): cmd += ['--replace', k + '=' + v]
    if entry is None:
        for k, v in g.cut.items(): cmd += ['--cut', k + '=' + v]
    for q in g.skip if entry is None else (): cmd += ['--skip', q]
    for q in g.opaque if entry is None else (): cmd += ['--opaque', q]
    for u in g.uf: cmd += ['--uf-global', u]
    t = tl or min(g.time, max(10, left())); cmd += ['--time', '%.0f' % t, '--kissat-time', '%.0f' % max(5, t / 3)]
    try: r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=t + 60, preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_AS, (10 << 30, 10 << 30)))
    except subprocess.TimeoutExpired: return {'error': 'timeout', 'obligations': 0, 'fails': [], 'cmd': cmd}
    try: d = json.load(open(out))
    except Exception: return {'error': 'irvc exit %d %s' % (r.returncode, r.stderr.decode(errors='replace')[-300:]), 'obligations': 0, 'fails': [], 'cmd': cmd}
    finally:
        if os.path.exists(out): os.remove(out)
    d['cmd'] = cmd; return d

def native_replay(B, g, entry, params, model, tag):
    """run the contract natively on the counterexample; True when the violation is reproduced"""
    try: exe = B.replayer(g.harness)
    except ToolError as e: return None, 'replay build failed: ' + str(e)[-400:]
    f = B.W + '/ce_%s.txt' % tag
    with open(f, 'w') as o:
        for n, v in model: o.write('%s %d\n' % (n, v))
    try: r = subprocess.run([exe, 'replay', entry, f] + [str(p) for p in params], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0'))
    except subprocess.TimeoutExpired: return None, 'replay timeout'
    out = r.stdout.decode(errors='replace')
    if r.returncode == 1: return True, out
    if r.returncode == 0: return False, out
    if r.returncode == 3: return None, out
    return True, out      # a crash or a sanitizer report

def main():
    if sys.argv[1] == '--setup':
        os.makedirs(HERE + '/build', exist_ok=True); print(engine(HERE + '/build')); return 0
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    global LIMIT
    if tier == 'thorough' and 'VP_LIMIT' not in os.environ: LIMIT = 6 * 3600
    import plans
    plan = plans.plan(prop, tier, seed)
    W = tempfile.mkdtemp(prefix='vp_%s_' % prop, dir='/tmp')
    def bye(*_): shutil.rmtree(W, ignore_errors=True); os._exit(2)
    signal.signal(signal.SIGTERM, bye)
    try: return decide(prop, tier, seed, plan, W)
    finally: shutil.rmtree(W, ignore_errors=True)

def known_findings(prop):
    out = []
    try:
        for l in open(HERE + '/known_findings.txt'):
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    except FileNotFoundError: pass
    return out

def decide(prop, tier, seed, plan, W):
    evd = HERE + '/evidence'; os.makedirs(evd + '/replay', exist_ok=True)
    known = known_findings(prop); knownhit = set()
    buildpool = ThreadPoolExecutor(16); pool = ThreadPoolExecutor(NJ); B = Build(W, buildpool); B.start()
    res = {g.name: dict(cases=len(g.cases), proved_cases=0, obligations=0, discharged=0, by={}, undecided=[], functions=set(), replaced=set(), exec_s=0.0, solve_s=0.0, covers={}) for g in plan.groups}
    violations = []; vlock = threading.Lock(); stop = threading.Event(); counter = [0]; bres = {}
    def violation(kind, detail, replay, found):
        with vlock:
            k = len(violations); path = evd + '/replay/%s-%d.txt' % (prop, k)
            with open(path, 'w') as f: f.write(replay)
            violations.append((detail, path, found, kind)); log('violation:', detail, '' if found else '(no failing input)')
            if any(v[2] and v[3] == 'proof' for v in violations) or sum(v[3] == 'proof' for v in violations) >= 6: stop.set()
            elif kind == 'bounded': threading.Timer(90, stop.set).start()   # let the verifier name the failed obligation, but not for long
    bexe = buildpool.submit(B.bounded) if plan.bounded else None; fpy = buildpool.submit(B.pyprep) if plan.bounded and prop not in NOPY else None
    def run_bounded():
        if not plan.bounded: return
        try: exe = bexe.result()
        except Exception as e: bres['error'] = 'bounded stand-in does not build against this tree: ' + str(e)[-600:]; log(bres['error']); return
        n = plan.bounded_seconds
        try: r = subprocess.run([exe, '--section', plan.bounded, '--seed', str(seed), '--seconds', str(n), '--threads', '2'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=n * 3 + 120)
        except subprocess.TimeoutExpired as e:
            violation('bounded', 'bounded stand-in does not terminate', 'bounded --section %s --seed %d did not terminate within %d s\n' % (plan.bounded, seed, n * 3 + 120), True); return
        out = r.stdout.decode(errors='replace'); m = re.search(r'^STATS (\{.*\})$', out, re.M)
        if m: bres.update(json.loads(m.group(1)))
        fails = [l for l in out.splitlines() if l.startswith('FAIL ')]
        for l in fails:
            key = l.split()[1]
            kf = [k for k in known if k[0] == key]
            if kf: knownhit.add(kf[0])
            else: violation('bounded', l[:300], 'bounded stand-in (native run of the public API against the reference rules)\n%s\nreproduce: build contracts/bounded.cpp with /repo/src/*.cpp, run --section %s --seed %d\n' % (l, plan.bounded, seed), True)
        if r.returncode not in (0, 1): violation('bounded', 'native run crashed (exit %d)' % r.returncode, 'bounded --section %s --seed %d crashed: exit %d\n%s\n%s' % (plan.bounded, seed, r.returncode, out[-2000:], r.stderr.decode(errors='replace')[-2000:]), True)
        if prop not in NOPY: run_python(exe)
    def run_python(exe): # the same operations through the Python layer
        try: D = B.pylink(fpy.result())
        except Exception as e: bres['python_error'] = 'extension does not build against this tree: ' + str(e)[-600:]; log(bres['python_error']); return
        try:
            with open(W + '/vec.json', 'w') as f: subprocess.run([exe, '--emit', str(200 if tier == 'quick' else 3000), '--seed', str(seed)], stdout=f, timeout=300)
            r = subprocess.run(['/opt/vp/venv/bin/python', CT + '/pybind.py', prop, W + '/vec.json'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600, env=dict(os.environ, PYTHONPATH=D, PYTHONDONTWRITEBYTECODE='1'))
        except subprocess.TimeoutExpired: bres['python_error'] = 'timeout'; return
        out = r.stdout.decode(errors='replace'); m = re.search(r'^STATS (\{.*\})$', out, re.M)
        if m: bres['python'] = json.loads(m.group(1))
        fails = [l for l in out.splitlines() if l.startswith('FAIL ')]
        for l in fails: violation('bounded', l[:300], 'Python layer (cshogi.Board against the C++ board it wraps)\n%s\nreproduce: contracts/pybind.py %s on the output of bounded --emit 200 --seed %d\n' % (l, prop, seed), True)
        if not fails and not m: violation('bounded', 'Python layer session failed', 'contracts/pybind.py %s: exit %d\n%s\n' % (prop, r.returncode, r.stderr.decode(errors='replace')[-3000:]), True)
    try: B.ready(); irerr = None
    except Exception as e: irerr = str(e)[-800:]; log('IR build failed:', irerr)
    def setund(g, params, why):
        with vlock: res[g.name]['undecided'].append([list(params), why[:300]])
    def tally(g, d):
        r = res[g.name]
        with vlock:
            r['obligations'] += d['obligations']; r['discharged'] += d['obligations'] - len(d['fails']); r['functions'] |= set(d.get('functions', [])); r['replaced'] |= set(d.get('replaced', [])); r['exec_s'] += d.get('exec_s', 0); r['solve_s'] += d.get('solve_s', 0)
            for k in ('trivial', 'minisat', 'kissat'): r['by'][k] = r['by'].get(k, 0) + d.get(k, 0)
            for k, v in d.get('covers', {}).items(): r['covers'][k] = max(r['covers'].get(k, -1), v)
    def case(g, params, syms):
        if stop.is_set(): return setund(g, params, 'not run: a violation was already found')
        if left() < 15: return setund(g, params, 'not run: time')
        with vlock: counter[0] += 1; tag = '%d' % counter[0]
        d = run_irvc(B, g, params, W + '/o_%s.json' % tag)
        if g.ids is not None and not d['error']:   # obligations of a shared contract that belong to another property are decided by that property's check
            d['fails'] = [f for f in d['fails'] if f['id'] in g.ids or f['id'].startswith(('memory-safety', 'unreachable', 'division', 'exception'))]; d['undecided'] = sum(1 for f in d['fails'] if f['status'] != 'failed')
            own = sum(v for k, v in d.get('by_id', {}).items() if k in g.ids or k.startswith('memory-safety')); d['foreign'] = d['obligations'] - own
        bad = [f for f in d['fails'] if f['status'] == 'failed']
        if d['error'] or (not bad and (d.get('undecided', 0) or d.get('consistent') == 0 or d['obligations'] == 0 or d.get('covers', {}).get('end', 1) == 0)):
            if not bad:
                tally(g, d) if d['obligations'] else None
                if d.get('consistent') == 0 or d.get('covers', {}).get('end', 1) == 0: return setund(g, params, 'vacuous')
                if g.fallback: return fallback(g, params, tag, d)
                return setund(g, params, d['error'] or 'undecided: ' + ', '.join(sorted(set(f['id'] for f in d['fails'])))[:200])
        if not bad:
            tally(g, d)
            with vlock: res[g.name]['proved_cases'] += 1
            return
        tally(g, d); judge(g, g.entry, params, d, bad, tag, g.replace, bool(g.fallback))
    def judge(g, entry, params, d, bad, tag, replace, canfall):
        missing = [k for k in list(replace) + ([c.split('#')[0] for c in g.cut] if entry == g.entry else []) if k not in d.get('replaced', [])]
        last = ''
        for i, f in enumerate(bad[:3]):
            rep, out = native_replay(B, g, entry, params, f['model'], tag + '_%d' % i); last = out
            if rep:
                key = '%s/%s' % (g.name, f['id']); kf = [k for k in known if k[0] == key]
                if kf: knownhit.add(kf[0]); setund(g, params, 'known finding ' + key); return
                txt = 'property %s, contract %s (%s) case %s\nfailed obligation: %s in %s\nverifier command: %s\ncounterexample (replayed against the real code, reproduced):\n%s\nreplay output:\n%s\n' % (prop, g.name, g.text, params, f['id'], f['in'], ' '.join(d['cmd']), json.dumps(f['model']), out[-4000:])
                return violation('proof', 'obligation %s of %s case %s' % (f['id'], g.name, list(params)), txt, True)
        if canfall: return fallback(g, params, tag, d)
        if g.soft is True or (g.soft == 'shape' and any(f['id'] == 'loop-shape' or re.match('_ZN?K?S[tios]', f.get('in') or '') for f in d['fails'])): return setund(g, params, '%s not discharged and not reproduced natively (soft contract)' % bad[0]['id'])
        if missing: return setund(g, params, 'contract of %s not applicable to this tree; %s not discharged' % (', '.join(missing), bad[0]['id']))
        f = bad[0]; txt = 'property %s, contract %s (%s) case %s\nfailed obligation: %s in %s\nverifier command: %s\nverifier model (not reproduced natively):\n%s\nreplay output:\n%s\n' % (prop, g.name, g.text, params, f['id'], f['in'], ' '.join(d['cmd']), json.dumps(f['model']), last[-3000:])
        violation('proof', 'obligation %s of %s case %s' % (f['id'], g.name, list(params)), txt, False)
    def fallback(g, params, tag, d0):
        # modular proof did not go through: redo the case with the callees' bodies instead of their contracts
        entry, plist, replace = g.fallback(params); tot = dict(d0); good = True
        for j, p2 in enumerate(plist):
            if stop.is_set() or left() < 20: return setund(g, params, 'fallback not finished')
            d = run_irvc(B, g, p2, W + '/o_%s_f%d.json' % (tag, j), entry=entry, replace=replace); bad = [f for f in d['fails'] if f['status'] == 'failed']
            if bad: return judge(g, entry, p2, d, bad, tag + 'f%d' % j, replace, False)
            if d['error'] or d.get('undecided', 0): good = False; setund(g, params, 'inlined case undecided: ' + str(d['error'])); break
            tally(g, d)
        if good and g.fbound: setund(g, params, 'bounded only: ' + g.fbound)
        elif good:
            with vlock: res[g.name]['proved_cases'] += 1
    futs = []
    if irerr is None:
        mods = {g.harness: B.module(g.harness) for g in plan.groups}
        bt = threading.Thread(target=run_bounded); bt.start()
        for g in plan.groups:
            try: syms = mods[g.harness].result()
            except Exception as e:
                log('contract file', g.harness, 'does not fit this tree:', str(e)[-500:])
                for p in g.cases: setund(g, p, 'contract file does not fit this tree: ' + str(e)[-200:])
                continue
            for p in g.cases: futs.append(pool.submit(case, g, p, syms))
        for f in futs:
            try: f.result()
            except Exception as e: log('internal error', repr(e)); 
        bt.join()
    else:
        for g in plan.groups:
            for p in g.cases: setund(g, p, 'IR build failed')
        run_bounded()
    # a global cover must be reachable in at least one case of its group (vacuity guard)
    for g in plan.groups:
        r = res[g.name]
        if r['proved_cases'] and not any(v == 1 for v in r['covers'].values()): r['undecided'].append([[], 'no cover point reachable'])
    ob = sum(r['obligations'] for r in res.values()); di = sum(r['discharged'] for r in res.values()); ncase = sum(r['cases'] for r in res.values()); pc = sum(r['proved_cases'] for r in res.values())
    und = [[n] + u for n, r in res.items() for u in r['undecided']]
    fn = sorted(set().union(*[r['functions'] for r in res.values()])) if res else []
    try: dem = subprocess.run(['c++filt'], input='\n'.join(fn).encode(), stdout=subprocess.PIPE).stdout.decode().splitlines()
    except Exception: dem = fn
    cov = {'obligations': ob, 'discharged': di, 'checker_cmd': 'python3 /verif/check.py %s %s (irvc: symbolic execution of LLVM IR of /repo/src, SAT back ends minisat 2.2 and kissat)' % (prop, tier), 'trusted_base': plan.trusted,
           'cases': ncase, 'cases_proved': pc, 'not_discharged': und[:60], 'backends': {k: sum(r['by'].get(k, 0) for r in res.values()) for k in ('trivial', 'minisat', 'kissat')},
           'solver_s': round(sum(r['solve_s'] for r in res.values()), 2), 'symbolic_execution_s': round(sum(r['exec_s'] for r in res.values()), 2),
           'groups': {n: {k: (sorted(v) if isinstance(v, set) else round(v, 2) if isinstance(v, float) else v) for k, v in r.items() if k not in ('functions', 'undecided')} for n, r in res.items()},
           'functions_executed': [x for x in dem if not x.startswith('h_')][:400], 'bounded_standin': dict(bres, label='bounded: native runs, never counted as proved', section=plan.bounded) if plan.bounded else None}
    if bres: cov.update(evaluations=bres.get('evaluations', 0), distinct_nontrivial=bres.get('distinct', 0), rule=bres.get('rule', ''), samples=bres.get('samples', []))
    if plan.level == 'exploration' and 'evaluations' not in cov: cov.update(evaluations=0, distinct_nontrivial=0, rule='bounded run unavailable', samples=[])
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': plan.level, 'coverage': cov, 'assumptions': plan.assumptions, 'wall_s': round(time.time() - T0, 2), 'violations': len(violations)}
    with open(evd + '/%s.json.tmp' % prop, 'w') as f: json.dump(ev, f, indent=1)
    os.replace(evd + '/%s.json.tmp' % prop, evd + '/%s.json' % prop)
    log('%s %s: %d cases (%d proved), %d obligations, %d discharged, %d not decided, bounded %s' % (prop, tier, ncase, pc, ob, di, len(und), {k: bres[k] for k in bres if k in ('evaluations', 'distinct', 'error')}))
    for u in und[:8]: log('not discharged:', u)
    for k in known:
        if k in knownhit: print('KNOWN-FINDING: property=%s %s' % (prop, k[1]))
    violations.sort(key=lambda v: (not v[2], v[3] != 'proof'))
    for v in violations[:1]: print('VIOLATION property=%s replay=%s%s' % (prop, v[1], '' if v[2] else ' no-failing-input-found'))
    return 1 if violations else 0
if __name__ == '__main__':
    rc = main(); sys.stdout.flush(); os._exit(rc)
