#!/usr/bin/env python3
"""Runs one property check:  check.py <ID> [--tier quick|thorough]
Compiles the harness with /repo's current sources to LLVM IR, executes it symbolically (build/engine/vsym),
replays every counterexample natively, validates reachability witnesses natively, writes the evidence file."""
import sys, os, threading, json, subprocess, re, hashlib, time, shutil, tempfile, importlib.util
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = 'clang++-18'
DEFS = ['-DDLAF_ASSERT_ENABLE', '-DDLAF_ASSERT_MODERATE_ENABLE', '-DDLAF_ASSERT_HEAVY_ENABLE',
        '-DDLAF_FUNCTION_NAME=__PRETTY_FUNCTION__']
INC = ['-I', REPO + '/include', '-I', REPO + '/src', '-I', V + '/harness', '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include']
CPUS = int(os.environ.get('VERIF_JOBS', '8'))

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

class Err(Exception): pass

sys.path.insert(0, V + "/checks")
def load_spec(pid):
    spec = importlib.util.spec_from_file_location('spec_' + pid, f'{V}/checks/{pid}.py')
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    return m.SPEC

def resolve(src):
    return src.replace('$REPO', REPO).replace('$V', V)

def compile_bc(h, wd, tag):
    """h: dict(src=[files], flags=[]). -> bc path"""
    flags = ['-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-fno-strict-aliasing', '-w', '-ferror-limit=5',
             '-fcx-limited-range', '-ffp-contract=off', '-fno-vectorize'] + DEFS + [resolve(x) for x in h.get('inc', [])] + INC + [resolve(x) for x in h.get('flags', [])]
    def one(s):
        o = f'{wd}/{tag}-{hashlib.md5(s.encode()).hexdigest()[:8]}.bc'
        ex = ['-D_GLIBCXX_EXTERN_TEMPLATE=0'] if s.endswith('stdlib_support.cpp') else []
        r = sh([CLANG] + flags + ex + ['-emit-llvm', '-c', resolve(s), '-o', o])
        if r.returncode: raise Err(f'compilation of {s} failed:\n' + r.stdout[-4000:])
        return o
    srcs = list(h['src']) + ['$V/harness/stdlib_support.cpp']
    with ThreadPoolExecutor(CPUS) as ex: objs = list(ex.map(one, srcs))
    out = f'{wd}/{tag}.bc'
    r = sh(['llvm-link-18', '-o', out + '.l'] + objs)
    if r.returncode: raise Err('llvm-link: ' + r.stdout[-2000:])
    r = sh(['opt-18', '-passes=globaldce,function(sroa,early-cse,simplifycfg)', out + '.l', '-o', out])
    if r.returncode: raise Err('opt: ' + r.stdout[-2000:])
    return out

def native_cmd(h, entry, out, san=True, obj=False):
    c = [CLANG, '-std=c++17', '-O1', '-gline-tables-only', '-w', '-fno-strict-aliasing', '-ffp-contract=off'] + DEFS + [resolve(x) for x in h.get('inc', [])] + INC + [resolve(x) for x in h.get('flags', [])] + [f'-DVF_ENTRY={entry}']
    if san: c += ['-fsanitize=undefined,address', '-fno-sanitize-recover=all', '-fno-sanitize=vptr,function,nonnull-attribute,pointer-overflow']
    if obj: return c + ['-c', resolve(h['src'][0]), '-o', out]
    c += [resolve(s) for s in h['src']] + [V + '/harness/native.cpp'] + [resolve(x) for x in h.get('link', [])] + ['-o', out]
    return c

NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=0')

class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.spec = load_spec(pid)
        self.t0 = time.time()
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        os.makedirs(f'{V}/build/work', exist_ok=True)
        self.wd = tempfile.mkdtemp(prefix=pid + '-', dir=f'{V}/build/work')
        self.results, self.native, self.nobjs, self.lock = [], {}, {}, threading.Lock()

    def ensure_engine(self):
        e = f'{V}/build/engine/vsym'
        src = [f'{V}/engine/{f}' for f in os.listdir(f'{V}/engine')]
        if not os.path.exists(e) or any(os.path.getmtime(s) > os.path.getmtime(e) for s in src):
            r = sh(['bash', f'{V}/engine/build.sh'])
            if r.returncode: raise Err('engine build failed:\n' + r.stdout[-3000:])
        self.engine = e

    def jobs(self):
        out = []
        for h in self.spec['harnesses']:
            bc = None
            for e in h['entries']:
                t = dict(e)
                t.update(e.get(self.tier, {}))
                if t.get('skip'): continue
                out.append((h, t))
        return out

    def run(self):
        self.ensure_engine()
        # stale work directories of earlier (interrupted) runs
        bcs = {}
        js = self.jobs()
        for h, _ in js:
            k = json.dumps(h['src'] + h.get('flags', []))
            if k not in bcs: bcs[k] = None
        hs = {json.dumps(h['src'] + h.get('flags', [])): h for h, _ in js}
        with ThreadPoolExecutor(4) as ex:
            futs = {k: ex.submit(compile_bc, hs[k], self.wd, f'h{i}') for i, k in enumerate(hs)}
            nat = {}
            for k in futs: bcs[k] = futs[k].result()
        cmds = []
        for h, t in js:
            bc = bcs[json.dumps(h['src'] + h.get('flags', []))]
            n = t.get('shards', 1)
            variants = t.get('variants', [{}])
            for vi, var in enumerate(variants):
                for s in range(n):
                    o = f'{self.wd}/{t["entry"]}-{vi}-{s}.json'
                    c = [self.engine, bc, '--entry', t['entry'], '--out', o, '--shard', f'{s}/{n}', '--time', str(t.get('time', 300)), '--seed', str(self.seed),
                         '--max-steps', str(t.get('max_steps', 20000000)), '--timeout-ms', str(t.get('timeout_ms', 2000)), "--ext-timeout", str(t.get('ext_timeout', 30))]
                    if t.get('eps'): c += ['--eps']
                    for k, v in {**t.get('params', {}), **var}.items(): c += ['--param', f'{k}={v}']
                    for k, v in t.get('pins', {}).items(): c += ['--pin', f'{k}=' + ','.join(map(str, v))]
                    cmds.append((h, t, c, o, var))
        order = sorted(range(len(cmds)), key=lambda i: -cmds[i][1].get('weight', 1))
        def go(i):
            h, t, c, o, var = cmds[i]
            r = sh(['prlimit', f'--as={int(t.get("mem_gb", 6) * 2**30)}'] + c)
            if r.returncode or not os.path.exists(o): return (h, t, {'entry': t['entry'], 'crash': f'exit {r.returncode}: {r.stdout[-500:]}'})
            d = json.load(open(o)); os.unlink(o)
            if r.stdout.strip(): sys.stderr.write(r.stdout[-4000:])
            return (h, t, d)
        with ThreadPoolExecutor(CPUS) as ex:
            natfut = [ex.submit(self.build_native, h, t['entry']) for h, t in js]
            self.results = list(ex.map(go, order))
            for f in natfut: f.result()

    def native_objs(self, h):
        # the sources of a harness are compiled once, every entry has its own main
        key = json.dumps(h['src'] + h.get('flags', []))
        with self.lock:
            if key not in self.nobjs: self.nobjs[key] = (threading.Lock(), [])
        lock, res = self.nobjs[key]
        with lock:
            if res: return res[0]
            k = len(self.nobjs)
            def one(x):
                i, src = x
                o = f'{self.wd}/n{hashlib.md5(key.encode()).hexdigest()[:6]}-{i}.o'
                r = sh(native_cmd(dict(h, src=[src]), 'none', o, h.get('san', True), True))
                return (o if r.returncode == 0 else None, r.stdout[-2000:])
            with ThreadPoolExecutor(CPUS) as ex: rs = list(ex.map(one, enumerate(h['src'])))
            bad = [r for o, r in rs if not o]
            res.append((None, bad[0]) if bad else ([o for o, _ in rs], ''))
            return res[0]

    def build_native(self, h, entry):
        key = (json.dumps(h['src'] + h.get('flags', [])), entry)
        with self.lock:
            if key not in self.native: self.native[key] = (threading.Lock(), [])
        lock, res = self.native[key]
        with lock:
            if res: return res[0]
            objs, msg = self.native_objs(h)
            if not objs: res.append((None, msg)); return res[0]
            out = f'{self.wd}/native-{entry}-{hashlib.md5(key[0].encode()).hexdigest()[:6]}'
            c = native_cmd(dict(h, src=objs), entry, out, h.get('san', True))
            r = sh(c)
            res.append((out if r.returncode == 0 else None, r.stdout[-2000:] if r.returncode else ' '.join(c)))
            return res[0]

    def replay(self, h, entry, values):
        b, info = self.build_native(h, entry)
        if not b: return None, 'native build failed: ' + info
        f = tempfile.NamedTemporaryFile('w', dir=self.wd, suffix='.vals', delete=False)
        for n, v in values: f.write(f'{n} {v}\n')
        f.close()
        try:
            r = sh([b, f.name], timeout=60, env=NENV)
        except subprocess.TimeoutExpired:
            return 124, 'timeout (does not terminate)'
        return r.returncode, r.stdout[-1500:]

    def report(self):
        viol, inc, cov, tot = [], {}, {}, {}
        fns, stubs, samples, points = set(), {}, [], {}
        validated = 0
        num = ['paths', 'ok_paths', 'assume_ends', 'abort_ends', 'steps', 'checks', 'checks_by_simplification', 'obligations', 'obligations_by_simplification', 'forks', 'queries', 'sat', 'unsat', 'unknown', 'external_queries', 'model_hits', 'solver_s']
        per_entry = {}
        for h, t, d in self.results:
            if 'crash' in d: inc[f"{d['entry']}: engine crash {d['crash']}"] = 1; continue
            pe = per_entry.setdefault(d['entry'], {})
            for k in num: tot[k] = tot.get(k, 0) + d[k]; pe[k] = round(pe.get(k, 0) + d[k], 3)
            tot['max_query_s'] = max(tot.get('max_query_s', 0), d['max_query_s'])
            for k, v in d['covers'].items(): cov[(d['entry'], k)] = cov.get((d['entry'], k), 0) + v
            for k, v in d['inconclusive'].items(): inc[d['entry'] + ': ' + k] = inc.get(d['entry'] + ': ' + k, 0) + v
            for k, v in d['stubs'].items(): stubs[k] = stubs.get(k, 0) + v
            for k, v in d['check_points'].items(): points[k] = points.get(k, 0) + v
            fns.update(d['functions']); samples += [d['entry'] + ' ' + s for s in d['samples']]
            for v in d['violations']: viol.append((h, t, v))
        # expected reachability witnesses
        for h, t in self.jobs():
            for c in t.get('covers', []):
                if not cov.get((t['entry'], c)): inc[f"{t['entry']}: reachability witness '{c}' not reached"] = 1
        known = load_known(self.pid)
        confirmed, knownhit, unrep = [], [], []
        seen = {}
        for h, t, v in viol:
            key = (t['entry'], v['kind'], v['msg'])
            if seen.get(key, 0) >= 1: continue
            rc, out = self.replay(h, t['entry'], v['values'])
            if rc is None: inc['replay: ' + out[:300]] = 1; continue
            if rc == 0 and t.get('eps'):
                # the model of rounding is an over-approximation: look for the failure next to the solver's counterexample
                for nv in neighbours(v['values']):
                    rc2, out2 = self.replay(h, t['entry'], nv)
                    if rc2 not in (0, 10, None): rc, out, v = rc2, out2, dict(v, values=nv); break
            if rc == 10 or rc == 0:
                unrep.append((t['entry'], v, out)); continue
            seen[key] = seen.get(key, 0) + 1
            k = [x for x in known if x['entry'] == t['entry'] and x['match'] in v['kind'] + ':' + v['msg'] and match_vals(x, v)]
            if k: knownhit.append((k[0], v)); continue
            confirmed.append((h, t, v, rc, out))
        for e, v, out in unrep:
            if any(c[1]['entry'] == e and c[2]['msg'] == v['msg'] for c in confirmed): continue
            if any(k['entry'] == e and kv['msg'] == v['msg'] for k, kv in knownhit): continue
            inc[f"{e}: counterexample not reproduced natively ({v['kind']}: {v['msg']}) {v['where'][:300]} {v['values'][:12]} -> {out[-200:]!r}"] = 1
        # validation of the encoding: run the witnesses natively
        nval, bad = 0, []
        for h, t, d in self.results:
            for w in d.get('witnesses', []):
                if nval >= 60: break
                rc, out = self.replay(h, t['entry'], w['values'])
                if rc is None: inc['witness replay: ' + out[:300]] = 1; break
                nval += 1
                if f"VF_COVER {w['cover']}\n" not in out + '\n' or rc not in ((0,) if w['full'] else (0, 10)):
                    if not confirmed: bad.append(f"{t['entry']}:{w['cover']} rc={rc} {out[-300:]!r} {w['values'][:10]}")
        for b in bad: inc['witness not confirmed by the native build: ' + b] = 1
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.spec['level'],
            'coverage': {
                'states': tot.get('paths', 0), 'transitions': tot.get('steps', 0), 'traces_validated_against_impl': nval,
                'samples': samples[:20],
                'rule': 'states = symbolic paths (each stands for all inputs satisfying its path condition), transitions = LLVM IR instructions executed symbolically; every check/obligation is decided for all values on its path by simplification or by the SMT solver',
                'functions_encoded': sorted(fns)[:400], 'bounds': self.spec['bounds'], 'outside': self.spec.get('outside', ''),
                'entries': per_entry, 'check_points': points, 'reachability_witnesses': {f'{e}:{c}': n for (e, c), n in sorted(cov.items())},
                'obligations': tot.get('checks', 0) + tot.get('obligations', 0),
                'queries': tot.get('queries', 0), 'query_results': {k: tot.get(k, 0) for k in ('sat', 'unsat', 'unknown')}, 'solver_s': round(tot.get('solver_s', 0), 2), 'max_query_s': round(tot.get('max_query_s', 0), 2),
                'checks_asserted': tot.get('checks', 0), 'checks_closed_by_simplification': tot.get('checks_by_simplification', 0),
                'undefined_behaviour_obligations': tot.get('obligations', 0), 'stubbed_externals': stubs, 'inconclusive': inc,
                'exhaustive': not inc,
            },
            'assumptions': self.spec.get('assumptions', []) + ['clang 18 front end and the vsym executor translate the C++ sources faithfully (validated by native replay of the witnesses)', 'z3 4.8.12 (cvc5 1.1.2 / z3 5.3.2 as fall-back) answers are correct'],
            'wall_s': round(time.time() - self.t0, 2), 'violations': len(confirmed),
        }
        os.makedirs(f'{V}/evidence', exist_ok=True)
        json.dump(ev, open(f'{V}/evidence/{self.pid}.json', 'w'), indent=1)
        for k in load_known(self.pid):
            if any(kk is k or kk == k for kk, _ in knownhit): print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        for h, t, v, rc, out in confirmed:
            p = self.write_replay(h, t, v)
            print(f"  {t['entry']}: {v['kind']}: {v['msg']} {v['where']}")
            print('  inputs: ' + ' '.join(f'{a}={b}' for a, b in v['values'][:40]))
            print('  native: rc=%d %s' % (rc, out.strip()[-300:].replace('\n', ' | ')))
            print(f'VIOLATION property={self.pid} replay={p}')
        print(f"{self.pid} [{self.tier}] paths={tot.get('paths',0)} checks={tot.get('checks',0)} obligations={tot.get('obligations',0)} queries={tot.get('queries',0)} unknown={tot.get('unknown',0)} solver={tot.get('solver_s',0):.1f}s validated={nval} wall={time.time()-self.t0:.1f}s")
        if confirmed: return 1
        if inc:
            for k, n in list(inc.items())[:15]: print(f'INCONCLUSIVE ({n}x): {k}')
            # nothing explored violates the property; but a check whose witnesses are missing explored too little to answer
            hard = [k for k in inc if 'reachability witness' in k or 'engine crash' in k or 'build failed' in k or k.startswith('replay:') or k.startswith('witness')]
            return 2 if hard or not tot.get('paths') else 0
        return 0

    def write_replay(self, h, t, v):
        d = f'{V}/replays/{self.pid}'
        os.makedirs(d, exist_ok=True)
        key = hashlib.md5(json.dumps([t['entry'], v['msg'], v['values']]).encode()).hexdigest()[:10]
        open(f'{d}/{key}.vals', 'w').write(''.join(f'{a} {b}\n' for a, b in v['values']))
        c = native_cmd(h, t['entry'], '"$T/replay"', h.get('san', True))
        cmd = ' '.join(x if x == '"$T/replay"' else "'" + x + "'" for x in c)
        open(f'{d}/{key}.sh', 'w').write(f'#!/bin/bash\n# {v["kind"]}: {v["msg"]}\nT=$(mktemp -d)\n{cmd} || exit 99\nASAN_OPTIONS=detect_leaks=0 "$T/replay" "$(dirname "$0")/{key}.vals"; rc=$?\nrm -rf "$T"\nexit $rc\n')
        os.chmod(f'{d}/{key}.sh', 0o755)
        return f'{d}/{key}.sh'

def neighbours(values):
    for i, (n, x) in enumerate(values):
        if n.startswith('param:') or not re.fullmatch(r'-?[0-9]+', str(x)): continue
        for d in (-1, 1, -3, 3, -5, 7, -11, 13):
            yield values[:i] + [[n, str(int(x) + d)]] + values[i + 1:]

def match_vals(x, v):
    d = {a: b for a, b in v['values']}
    return all(str(d.get(k)) in [str(y) for y in (val if isinstance(val, list) else [val])] for k, val in x.get('values', {}).items())

def load_known(pid):
    p = f'{V}/known_findings.json'
    if not os.path.exists(p): return []
    return [x for x in json.load(open(p)).get('findings', []) if x['property'] == pid]

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    r = Run(pid, tier)
    try:
        r.run(); rc = r.report()
    except Err as e:
        print('CHECK-ERROR', e); rc = 2
    finally:
        if '--keep' not in sys.argv: shutil.rmtree(r.wd, ignore_errors=True)
    sys.exit(rc)
if __name__ == '__main__': main()
