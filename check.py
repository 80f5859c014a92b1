#!/usr/bin/env python3
"""Driver: decides one property.  usage: check.py <ID> [--thorough] [--unit NAME] [-v]

For every proof harness of the property (harness/<ID>/proof_*.cpp): compile it with clang to LLVM IR
together with the real sources of /repo it includes, generate and discharge the verification conditions
of each unit with engine/vc, replay counterexamples natively on the real code.  For every bounded
stand-in (harness/<ID>/bounded_*.cpp): build natively against /repo's sources and run.
"""
import sys, os, json, subprocess, hashlib, time, re, glob, shutil, concurrent.futures as cf, threading

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('DB0_REPO', '/repo')
SRC = REPO + '/src'
B = VERIF + '/.build'
Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
LLVM = '/usr/lib/llvm-18'
PYINC = '/usr/include/python3.12'
SYMFLAGS = ['-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-DVC_SYMBOLIC=1', '-DDB0_CONTRACTS=1',
            '-fno-access-control', '-fsanitize=signed-integer-overflow,shift-exponent,integer-divide-by-zero,unreachable,return',
            '-fsanitize-trap=all', '-w', '-ferror-limit=5', '-I' + VERIF + '/include', '-I' + SRC, '-I' + REPO, '-I' + PYINC]
NATFLAGS = ['-std=c++17', '-O1', '-g1', '-D_GLIBCXX_ASSERTIONS', '-fno-access-control', '-w', '-ferror-limit=5', '-I' + VERIF + '/include', '-I' + SRC, '-I' + REPO, '-I' + PYINC]
JOBS = 8
T0 = time.time()
VERBOSE = False

def run(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf-8', 'replace') + '\n[timeout]'

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:20]

def rd(f):
    with open(f, 'rb') as x: return x.read()

def src_hash():
    fs = sorted(glob.glob(SRC + '/dbzero/**/*.[hc]pp', recursive=True))
    h = hashlib.sha256()
    for f in fs: h.update(f.encode()); h.update(rd(f))
    return h.hexdigest()[:20]

def build_engine():
    src = VERIF + '/engine/vc.cpp'
    key = sha(rd(src)); out = f'{B}/vc-{key}'
    if os.path.exists(out): return out
    os.makedirs(B, exist_ok=True)
    tmp = f'{out}.{os.getpid()}'
    rc, o = run(['clang++', '-std=c++17', '-O1', '-fno-rtti', '-fexceptions', '-w', '-I' + LLVM + '/include', '-I' + Z3 + '/include', src, '-o', tmp,
                 '-L' + LLVM + '/lib', '-lLLVM-18', '-L' + Z3 + '/lib', '-lz3', '-Wl,-rpath,' + Z3 + '/lib'])
    if rc: print(o); sys.exit('engine build failed')
    os.rename(tmp, out)
    return out

_core_lock = threading.Lock()
def build_core(extra_flags=(), dirs=('core',), tag='core'):
    """native static library of /repo's core sources; returns (lib or None, log)"""
    with _core_lock:
        h = src_hash(); d = f'{B}/{tag}-' + sha(h, *NATFLAGS, *extra_flags, *dirs)
        lib = d + '/lib.a'
        if os.path.exists(lib): return lib, ''
        os.makedirs(d, exist_ok=True)
        files = []
        for x in dirs: files += sorted(glob.glob(f'{SRC}/dbzero/{x}/**/*.cpp', recursive=True))
        files.sort(key=lambda f: -os.path.getsize(f))
        logs = []
        hdr = hashlib.sha256()
        for f in sorted(glob.glob(SRC + '/dbzero/**/*.hpp', recursive=True)): hdr.update(f.encode()); hdr.update(rd(f))
        hk = hdr.hexdigest()
        os.makedirs(B + '/obj', exist_ok=True)
        def one(f):
            o = f'{B}/obj/' + sha(hk, f, rd(f), *NATFLAGS, *extra_flags) + '.o'
            if not os.path.exists(o):
                t = f'{o}.{os.getpid()}.{threading.get_ident()}'
                rc, out = run(['clang++', *NATFLAGS, *extra_flags, '-c', f, '-o', t])
                if rc: logs.append(f + '\n' + out); return None
                os.rename(t, o)
            return o
        with cf.ThreadPoolExecutor(JOBS) as ex: objs = list(ex.map(one, files))
        if any(o is None for o in objs): return None, '\n'.join(logs)
        if os.path.exists(lib): return lib, ''
        rc, o = run(['ar', 'rcs', lib + '.t', *objs])
        if rc: return None, o
        os.rename(lib + '.t', lib)
        return lib, ''

def parse_meta(pid):
    with open(f'{VERIF}/harness/{pid}/meta.json') as f: return json.load(f)

def inputs_txt(cex, path):
    with open(path, 'w') as f:
        for i in cex['inputs']:
            if 'hex' in i: f.write(f"{i['name']} b {i['size']} {i['hex'] or '-'}\n")
            else: f.write(f"{i['name']} v {i['value']}\n")

class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.meta = parse_meta(pid); self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.work = f'{B}/work/{pid}-{os.getpid()}'; os.makedirs(self.work, exist_ok=True)
        self.rep = f'{VERIF}/replays/{pid}'; os.makedirs(self.rep, exist_ok=True)
        self.units, self.bounded, self.undecided = [], [], []
        self.native = {}
        self.nlock = threading.Lock()

    def compile_sym(self, f, flags):
        bc = f'{self.work}/{os.path.basename(f)}.bc'
        rc, o = run(['clang++', *flags, *SYMFLAGS, '-c', '-emit-llvm', f, '-o', bc], timeout=300)
        return (bc, '') if rc == 0 else (None, o)

    def native_replay(self, f, flags):
        """ASAN/UBSAN build of a proof harness, for replays"""
        with self.nlock:
            if f in self.native: return self.native[f]
            exe = f'{self.work}/{os.path.basename(f)}.replay'
            lib, log = build_core()
            res = None
            if lib:
                san = ['-fsanitize=address,signed-integer-overflow,shift-exponent,integer-divide-by-zero,unreachable,return', '-fno-sanitize-recover=all']
                rc, o = run(['clang++', *flags, *NATFLAGS, *san, '-Wl,-z,muldefs', '-rdynamic', f, VERIF + '/include/vnative.cpp', lib, '-o', exe, '-lpthread', '-ldl', '-lpython3.12', '-no-pie', '-Wl,--unresolved-symbols=ignore-all'], timeout=600)
                if rc == 0: res = exe
                else: log = o
            self.native[f] = (res, log)
            return self.native[f]

    def replay(self, f, flags, unit, cex, n):
        p = f'{self.rep}/{unit}-{n}.inputs'; inputs_txt(cex, p)
        if any('contracts' in x for x in flags): return False, 'the unit stands on the contract of a container: not replayed', p
        exe, log = self.native_replay(f, flags)
        if not exe: return False, 'native build of the harness failed:\n' + log[:2000], p
        rc, o = run([exe, unit, p], timeout=120, env={**os.environ, 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=66:detect_container_overflow=0'})
        ok = rc not in (0, 2, 20, 124)
        return ok, f'exit {rc}\n' + o[-3000:], p

    def do_unit(self, vc, f, flags, bc, unit, tl, dump):
        out = f'{self.work}/{unit}.json'
        cmd = [vc, bc, '--unit', unit, '--out', out, '--time', str(tl), '--hard', str(min(60, tl))]
        if dump: os.makedirs(dump, exist_ok=True); cmd += ['--dump', dump]
        rc, o = run(cmd, timeout=tl * 1.5 + 60)
        try: r = json.load(open(out))
        except Exception: r = {'unit': unit, 'status': 'incomplete', 'problems': [f'verifier ended with {rc}: {o[-500:]}'], 'obligations': [], 'cex': [], 'functions': [], 'replaced': [], 'notes': [], 'invariants': [], 'covers': {}, 'vcs': 0, 'vcs_proved': 0, 'solver_s': 0, 'paths': 0, 'externals': [], 'bounded': None}
        r['file'] = f; r['flags'] = flags; r['log'] = o
        # vacuity guard: every v_cover in the unit's source must have been reached
        want = self.covers_of(f).get(unit, [])
        miss = [w for w in want if w not in r['covers']]
        if miss and r['status'] == 'proved': r['status'] = 'vacuous'; r['problems'].append('cover points not reached: ' + ', '.join(miss))
        return r

    def covers_of(self, f):
        # units and helper functions of the harness with the cover points in their text; a unit also owes those of the helpers it calls
        cov, text, alias, cur = {}, {}, {}, None
        for line in open(f, encoding='utf-8'):
            d = re.match(r'#define (\w+)\((\w+)\) V_UNIT\((\w+)##\2\)(.*)', line)
            if d: alias[d.group(1)] = (d.group(3), d.group(4)); continue
            if re.match(r'#', line): continue
            m = re.search(r'V_UNIT\((\w+)\)', line); h = re.match(r'(?:static|template|inline)[^={;]*?\b(\w+)\([^;]*\)\s*(?:const)?\s*\{', line)
            if m: cur = 'U ' + m.group(1)
            elif h: cur = 'H ' + h.group(1)
            elif cur is None and line[:1] not in ' \t\n':
                for n, k in re.findall(r'\b(\w+)\((\w+)\)', line):
                    if n in alias: text['U ' + alias[n][0] + k] = alias[n][1]
            if cur:
                text[cur] = text.get(cur, '') + line; cov.setdefault(cur, []).extend(re.findall(r'v_cover\("([^"]+)"\)', line))
                if line.startswith('}') or ((m or h) and line.rstrip().endswith('}')): cur = None
        res = {}
        for k, t in text.items():
            if not k.startswith('U '): continue
            res[k[2:]] = list(cov.get(k, []))
            for h, c in cov.items():
                if h.startswith('H ') and c and re.search(r'\b' + h[2:] + r'\(', t): res[k[2:]] += c
        return res

    def run_bounded(self, f, spec):
        name = os.path.basename(f); exe = f'{self.work}/{name}.x'; r = {'file': name, 'status': 'undecided', 'log': ''}
        lib, log = build_core()
        if not lib: r['log'] = 'core library: ' + log[:3000]; return r
        rc, o = run(['clang++', *NATFLAGS, *spec.get('flags', []), f, lib, '-Wl,-z,muldefs', '-o', exe, '-lpthread', '-ldl', '-lpython3.12', '-no-pie', '-Wl,--unresolved-symbols=ignore-all'], timeout=600)
        if rc: r['log'] = o[:3000]; return r
        budget = spec.get('budget', 20) * (10 if self.tier == 'thorough' else 1)
        d = f'{self.work}/{name}.d'; os.makedirs(d, exist_ok=True)
        t = time.time()
        rc, o = run([exe, str(self.seed), self.tier, str(budget)], timeout=budget * 4 + 120, cwd=d)
        shutil.rmtree(d, ignore_errors=True)
        r['log'] = o[-4000:]; r['wall'] = round(time.time() - t, 2)
        m = re.search(r'CASES (\d+) DISTINCT (\d+)', o)
        r['cases'], r['distinct'] = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        r['sections'] = {b: int(a) for a, b in re.findall(r'^SECTION (\d+) (.*)$', o, re.M)}
        r['samples'] = re.findall(r'^SAMPLE (.*)$', o, re.M)
        fm = re.search(r'^FAIL (.*)$', o, re.M)
        if rc == 0 and m: r['status'] = 'held'
        elif fm: r['status'] = 'failed'; r['fail'] = fm.group(1)
        elif rc == 124: r['status'] = 'failed'; r['fail'] = 'section=? what=the run does not terminate within its time limit'
        else: r['status'] = 'failed'; r['fail'] = f'section=? what=ended with {rc}'
        return r

    def main(self, only=None):
        pid, meta = self.pid, self.meta
        hd = f'{VERIF}/harness/{pid}'
        thorough = self.tier == 'thorough'
        vc = build_engine()
        proofs = sorted(glob.glob(hd + '/proof_*.cpp')); bnds = sorted(glob.glob(hd + '/bounded_*.cpp'))
        opts = meta.get('files', {})
        tl_default = meta.get('unit_time', 100) * (5 if thorough else 1)
        futs = []
        with cf.ThreadPoolExecutor(JOBS) as ex, cf.ThreadPoolExecutor(JOBS) as ex2:
            def proof_file(f):
                sp = opts.get(os.path.basename(f), {}); flags = [x.replace('HARNESS', f'{VERIF}/harness/{self.pid}') for x in sp.get('flags', [])]
                t = time.time(); bc, log = self.compile_sym(f, flags)
                if not bc:
                    self.undecided.append(f'{os.path.basename(f)}: does not compile against the current tree: ' + log[:1500]); return []
                rc, o = run([vc, '--list', bc]); us = [u for u in o.split() if not only or u == only]
                return [(f, flags, bc, u, sp.get('time', tl_default)) for u in us]
            bf = [] if only else [ex2.submit(self.run_bounded, f, opts.get(os.path.basename(f), {})) for f in bnds]
            todo = []
            pf = [ex.submit(proof_file, f) for f in proofs]
            uf = []
            for p in cf.as_completed(pf):
                for (f, flags, bc, u, tl) in p.result():
                    uf.append(ex.submit(self.do_unit, vc, f, flags, bc, u, tl, f'{self.work}/smt-{u}' if thorough else None))
            self.units = [x.result() for x in uf]
            self.bounded = [x.result() for x in bf]
        self.units.sort(key=lambda r: r['unit'])
        return self.conclude(thorough, only)

    def known(self):
        try: ks = json.load(open(VERIF + '/known_findings.json'))
        except FileNotFoundError: return []
        return [k for k in ks.get('findings', []) if k['property'] == self.pid]

    def conclude(self, thorough, only):
        pid = self.pid; viol = []; known_hit = []
        ks = self.known()
        for r in self.units:
            if r['status'] != 'refuted':
                if r['status'] != 'proved': self.undecided.append(f"unit {r['unit']}: {r['status']}: " + '; '.join(r['problems'][:3]) + ' ' + ', '.join(o['name'] for o in r['obligations'] if o['unknown'])[:600])
                continue
            bad = [o['name'] for o in r['obligations'] if o['refuted']]
            rest = []
            for b in bad:
                k = [k for k in ks if k.get('unit') == r['unit'] and re.search(k['match'], b)]
                if k: known_hit.append(k[0])
                else: rest.append(b)
            if not rest: continue
            conf = None; logs = []
            for i, c in enumerate([c for c in r['cex'] if c['obligation'] in rest][:4]):
                ok, log, p = self.replay(r['file'], r['flags'], r['unit'], c, i); logs.append({'obligation': c['obligation'], 'trace': c['trace'], 'inputs_file': p, 'native': log})
                if ok: conf = logs[-1]; break
            path = f'{self.rep}/{r["unit"]}.json'
            json.dump({'property': pid, 'unit': r['unit'], 'harness': os.path.relpath(r['file'], VERIF), 'failed_obligations': rest, 'confirmed_on_real_code': bool(conf), 'replay': conf or logs, 'rerun': f'python3 {VERIF}/check.py {pid} --unit {r["unit"]}', 'verifier_output': {k: r[k] for k in ('status', 'obligations', 'cex', 'problems')}}, open(path, 'w'), indent=1)
            viol.append((path, bool(conf), f"unit {r['unit']}: " + '; '.join(rest[:3])))
        for r in self.bounded:
            if r['status'] == 'undecided': self.undecided.append(f"bounded {r['file']}: does not build against the current tree: " + r['log'][:1500]); continue
            if r['status'] == 'failed':
                k = [k for k in ks if k.get('bounded') == r['file'] and re.search(k['match'], r['fail'])]
                if k: known_hit.append(k[0]); continue
                path = f'{self.rep}/{r["file"]}.txt'
                open(path, 'w').write(f'property {pid}\nbounded stand-in {r["file"]} seed {self.seed} tier {self.tier}\n' + r['log'])
                viol.append((path, True, f"bounded {r['file']}: {r['fail']}"))
        cvc = self.crosscheck() if thorough and not only else None
        self.evidence(viol, known_hit, cvc)
        for k in {json.dumps(k, sort_keys=True): k for k in known_hit}.values(): print(f"KNOWN-FINDING: property={pid} {k['what']}")
        nu = len(self.units); np_ = sum(1 for r in self.units if r['status'] == 'proved')
        print(f'{pid}: units {np_}/{nu} proved, VCs {sum(r["vcs_proved"] for r in self.units)}/{sum(r["vcs"] for r in self.units)}, bounded stand-ins ' + ', '.join(f"{r['file']}:{r['status']}({r.get('cases', 0)})" for r in self.bounded) + f', {time.time() - T0:.1f}s')
        for u in self.undecided: print('UNDECIDED:', u.replace('\n', ' | ')[:700])
        if VERBOSE:
            for r in self.units: print(f"  {r['unit']}: {r['status']} paths {r['paths']} vcs {r['vcs']} {r.get('wall_s', 0):.1f}s", r['problems'][:2] if r['problems'] else '', [o['name'] for o in r['obligations'] if o['refuted'] or o['unknown']][:6])
            for r in self.bounded: print('  ', r['file'], r['status'], r.get('wall'), r.get('sections'), r['log'][-600:] if r['status'] != 'held' else '')
        shutil.rmtree(self.work, ignore_errors=True)
        # a confirmed violation first
        viol.sort(key=lambda v: not v[1])
        for path, conf, what in viol:
            print('  ' + what)
            print(f'VIOLATION property={pid} replay={path}' + ('' if conf or any(v[1] for v in viol) else ' no-failing-input-found'))
        sys.stdout.flush()
        return 1 if viol else 0

    def crosscheck(self):
        """discharged verification conditions re-decided by cvc5"""
        fs = glob.glob(f'{self.work}/smt-*/*.smt2'); res = {'checked': 0, 'agree': 0, 'unknown': 0, 'disagree': 0}
        def one(f):
            rc, o = run(['cvc5', '--tlimit=20000', f], timeout=40); return o.strip().split('\n')[-1] if o.strip() else 'unknown'
        import random
        random.Random(self.seed).shuffle(fs); fs = fs[:1500]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for o in ex.map(one, fs):
                res['checked'] += 1
                if o == 'unsat': res['agree'] += 1
                elif o == 'sat': res['disagree'] += 1
                else: res['unknown'] += 1
        return res

    def evidence(self, viol, known_hit, cvc):
        m = self.meta; U = self.units
        full = [r for r in U if not r['bounded']]
        obl = [(r['unit'], o) for r in full for o in r['obligations']]
        fns = sorted({f for r in full if r['status'] == 'proved' for f in r['functions']})
        cov = {
            'obligations': len(obl), 'discharged': sum(1 for _, o in obl if o['proved'] == o['instances']),
            'verification_conditions': sum(r['vcs'] for r in full), 'verification_conditions_discharged': sum(r['vcs_proved'] for r in full),
            'checker_cmd': f'python3 /verif/check.py {self.pid}',
            'trusted_base': ['clang 18.1.3 (C++ to LLVM IR; SROA, EarlyCSE passes)', 'engine/vc.cpp (VC generator)', 'z3 5.3 and cvc5 1.1.2 (back ends; cvc5 re-decides a sample of the conditions in the thorough tier)', 'include/vrt.hpp (bodies of libc/libstdc++ functions available only in binary form)'],
            'units_proved': [r['unit'] for r in full if r['status'] == 'proved'], 'units_not_proved': [{'unit': r['unit'], 'status': r['status'], 'problems': r['problems'][:3]} for r in full if r['status'] != 'proved'],
            'functions_under_contract': fns, 'calls_replaced_by_contract': sorted({f for r in U for f in r['replaced']}), 'loop_invariants': sorted({f for r in full for f in r['invariants']}),
            'back_end': 'z3 5.3 (bit vectors and arrays); cvc5 1.1.2 over the integers for queries z3 leaves open (word arithmetic with divisions, pointer offsets); only unsat answers of the latter count', 'queries': sum(r.get('queries', 0) for r in U), 'queries_decided_by_cvc5': sum(r.get('cvc5_queries', 0) for r in U), 'solver_s': round(sum(r['solver_s'] for r in U), 2), 'paths': sum(r['paths'] for r in full),
            'bounded_units': [{'unit': r['unit'], 'bound': r['bounded'], 'status': r['status'], 'verification_conditions': r['vcs'], 'functions': r['functions'][:60]} for r in U if r['bounded']],
            'bounded_stand_ins': [{k: r.get(k) for k in ('file', 'status', 'cases', 'distinct', 'sections', 'samples', 'wall')} for r in self.bounded],
            'evaluations': sum(r.get('cases', 0) for r in self.bounded) , 'distinct_nontrivial': sum(r.get('distinct', 0) for r in self.bounded),
            'rule': 'bounded stand-ins only (never counted as proved): ' + m.get('rule', 'seeded/enumerated operation histories or inputs on the real code; a case is distinct by the hash of its inputs'),
            'samples': [s for r in self.bounded for s in r.get('samples', [])][:6] + [f"{u}: {o['name']} x{o['instances']}" for u, o in obl[:4]],
            'undecided': self.undecided[:10], 'known_findings': [k['what'] for k in known_hit],
            'explanation': m.get('explanation', ''),
        }
        if cvc: cov['cvc5_crosscheck'] = cvc
        ass = list(m.get('assumptions', [])) + sorted({n for r in U for n in r['notes'] if not n.startswith('global without')}) + [f'external function trusted to succeed: {e}' for e in sorted({e for r in U for e in r['externals']})]
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': m['level'], 'coverage': cov, 'assumptions': ass, 'wall_s': round(time.time() - T0, 2), 'violations': len(viol)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open(f'{VERIF}/evidence/{self.pid}.json', 'w'), indent=1)

def main():
    global VERBOSE
    a = sys.argv[1:]; VERBOSE = '-v' in a
    if a and a[0] == '--setup':
        build_engine()
        if '--core' in a: build_core()
        return 0
    tier = 'thorough' if '--thorough' in a or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    only = a[a.index('--unit') + 1] if '--unit' in a else None
    return Check(a[0], tier).main(only)

if __name__ == '__main__': sys.exit(main())
