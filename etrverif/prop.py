"""Property runner: builds the driver unit of a property from /repo's working tree, lets the
verifier discharge the obligations of every case (one process per case), and turns an
undischarged obligation into a violation with a replay on the real code."""
import os, sys, time, json, re, subprocess, tempfile, shutil, importlib, multiprocessing.pool, multiprocessing as mp, traceback, signal, hashlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ETR_REPO', '/repo')
CLANG, OPT, FILTER = 'clang++-18', 'opt-18', 'llvm-cxxfilt-18'
PASSES = 'function(mem2reg,simplifycfg,loop-simplify)'

import llir, terms, symex, spec, contracts
from symex import Unsupported


class BuildError(Exception):
    pass


def sh(cmd, timeout=300, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace', **kw)


def build_ir(cpp, work):
    base = os.path.join(work, os.path.basename(cpp)[:-4])
    r = sh([CLANG, '-std=c++20', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-S', '-emit-llvm', '-w',
            '-I', REPO + '/include', '-I', HERE + '/props', cpp, '-o', base + '.ll'])
    if r.returncode:
        raise BuildError(r.stdout[:4000])
    r = sh([OPT, '-S', '-passes=' + PASSES, base + '.ll', '-o', base + '.o.ll'])
    if r.returncode:
        raise BuildError(r.stdout[:4000])
    return base + '.o.ll'


class CaseSpec:
    def __init__(self, name, fn, unit, expect, budget, weight, note):
        self.name, self.fn, self.unit, self.expect, self.budget, self.weight, self.note = name, fn, unit, expect, budget, weight, note


class Prop:
    def __init__(self, pid, units, replay=None, realmode=False, fporder=False, allocfail=False):
        self.pid, self.units, self.replay, self.realmode = pid, units, replay, realmode
        self.fporder = fporder
        self.allocfail = allocfail
        self.usable = {}        # unit -> contracts of helpers discharged in this run
        self.cases = []
        self.assumptions = []
        self.bounded = []

    def case(self, name, fn, unit=None, expect=('ret',), budget=150, weight=1, note='', deep=False):
        if not deep or os.environ.get('VERIF_DEEP') or 'thorough' in sys.argv:  # deep: another combination of an already covered overload, thorough tier only
            self.cases.append(CaseSpec(name, fn, unit or self.units[0], expect, budget, weight, note))


def _run_case(prop, cs, mod, dem, tier, conn):
    t0 = time.time()
    sys.setrecursionlimit(100000)
    out = {'name': cs.name, 'error': None, 'obls': [], 'kinds': [], 'hints': []}
    c = None
    try:
        if prop.realmode:
            terms.REALMODE[0] = True
        terms.FPORD[0] = prop.fporder
        c = spec.Case(mod, dem, cs.name, contracts=contracts.handlers(mod, dem, prop.usable.get(cs.unit, ())), budget=cs.budget * (3 if tier == 'thorough' else 1))
        c.tier = tier
        cs.fn(c)
    except Unsupported as e:
        out['error'] = 'outside the verifier: %s' % e
        if c is not None:
            out['error'] += ' [' + c.ex.where() + ']'
        out['trace'] = traceback.format_exc()[-1500:]
    except RecursionError as e:
        out['error'] = 'outside the verifier: recursion'
    except Exception as e:
        out['error'] = 'verifier error: %r' % e
        out['trace'] = traceback.format_exc()[-3000:]
    if c is not None:
        nm = 0
        for o in c.ex.obls:
            d = {'kind': o.kind, 'desc': o.desc, 'ok': o.ok, 'where': o.where, 'status': o.status}
            if not o.ok and o.model and nm < 4:
                nm += 1
                try:
                    m = terms.model(o.model, 3000)
                    if m is not None:
                        h = {}
                        for n, v in c.hints:
                            if isinstance(v, (int, bool)):
                                h[n] = int(v)
                                continue
                            try:
                                x = m.eval(v, model_completion=False)
                                s = str(x)
                                if re.match(r'^-?\d+$', s):
                                    h[n] = int(s)
                            except Exception:
                                pass
                        d['model'] = h
                        out['hints'].append(h)
                    d['smt'] = '\n'.join(str(x)[:400] for x in o.model[-12:])
                except Exception as e:
                    d['smt'] = 'no model: %r' % e
            out['obls'].append(d)
        out['kinds'] = sorted(c.reach)
        out['trusted'] = sorted(c.ex.trusted)
        out['funcs'] = sorted(c.ex.demangle(f) for f in c.ex.funcs_seen)
        out['loops'] = len(c.ex.loops_seen)
        out['notes'] = list(c.notes)
        out['contracts'] = dict(getattr(c.ex, 'contracts_used', {}))
    out['wall'] = time.time() - t0
    out['queries'] = terms.Stats.queries
    out['solver_s'] = terms.Stats.time
    out['unknown'] = terms.Stats.unknown
    conn.send(out)
    conn.close()


def retry_cases(prop, cases, mods, tier, deadline, results):
    """a query that ran into its time limit, or a process that was ended, says nothing about the code:
    once more with more time and fewer neighbours"""
    def unsure(r):
        return (r['error'] or '').endswith(('time limit', 'budget', 'case process died', 'without a result')) or any(d['status'] == 'unknown' for d in r['obls'])
    again = [cs for cs in cases if unsure(results[cs.name])]
    if not again or len(again) > 12:
        return
    terms.TIMEOUT[0] *= 3
    try:
        for n, r in run_cases(prop, again, mods, 'thorough', min(deadline, time.time() + 150), jobs=4).items():
            if sum(not d['ok'] for d in r['obls']) <= sum(not d['ok'] for d in results[n]['obls']) and (not r['error'] or results[n]['error']):
                results[n] = r
    finally:
        terms.TIMEOUT[0] //= 3


def run_cases(prop, cases, mods, tier, deadline, jobs=0):
    """fork one process per case, at most 8 at a time"""
    todo = sorted(cases, key=lambda c: -c.weight)
    running, results = [], {}
    nproc = jobs or int(os.environ.get('ETR_JOBS', '8'))
    while todo or running:
        while todo and len(running) < nproc:
            cs = todo.pop(0)
            a, b = mp.Pipe(False)
            mod, dem = mods[cs.unit]
            p = mp.Process(target=_run_case, args=(prop, cs, mod, dem, tier, b))
            p.start()
            b.close()
            running.append((cs, p, a, time.time()))
        for r in list(running):
            cs, p, a, t0 = r
            done = None
            if a.poll(0.02):
                try:
                    done = a.recv()
                except EOFError:
                    done = {'name': cs.name, 'error': 'outside the verifier: case process ended without a result', 'obls': [], 'kinds': [], 'hints': []}
            elif not p.is_alive() and not a.poll(0):
                done = {'name': cs.name, 'error': 'outside the verifier: case process died', 'obls': [], 'kinds': [], 'hints': []}
            elif time.time() - t0 > cs.budget * (3 if tier == 'thorough' else 1) + 30 or time.time() > deadline:
                p.kill()
                done = {'name': cs.name, 'error': 'outside the verifier: time limit', 'obls': [], 'kinds': [], 'hints': []}
            if done is not None:
                p.join(5)
                results[cs.name] = done
                running.remove(r)
    return results


def prove_helpers(prop, units, mods, deadline):
    """verify the contracts of the storage helpers against their bodies; those with every obligation
    discharged are used at call sites, the others are not (their callers go through the body)"""
    todo = {}
    for u in sorted(units):
        for k, cs in contracts.cases(*mods[u], u, CaseSpec, prop.allocfail):
            todo.setdefault((u, k.key), []).append(cs)
    if os.environ.get('ETR_INLINE'):
        todo = {}
    for (u, key), cl in todo.items():
        for cs in cl:
            cs.name = u + ': ' + cs.name
    res = run_cases(prop, [cs for cl in todo.values() for cs in cl], mods, 'quick', min(deadline, time.time() + 90))
    out = {}
    for (u, key), cl in todo.items():
        rs = [res[cs.name] for cs in cl]
        n, ok = sum(len(r['obls']) for r in rs), sum(d['ok'] for r in rs for d in r['obls'])
        good = n > 0 and n == ok and not any(r['error'] for r in rs) and all(r['obls'] for r in rs)
        if good:
            prop.usable.setdefault(u, set()).add(key)
        e = out.setdefault(key, {'obligations': 0, 'discharged': 0, 'applied': True, 'solver_s': 0.0})
        e['obligations'] += n
        e['discharged'] += ok
        e['applied'] = e['applied'] and good
        e['solver_s'] = round(e['solver_s'] + sum(r.get('solver_s', 0) for r in rs), 2)
        if not good:
            e['why_not'] = next((r['error'] for r in rs if r['error']), None) or next((d['desc'] for r in rs for d in r['obls'] if not d['ok']), '')
    return out


# ---------------------------------------------------------------------- replay
def dictionary(irpath):
    """integer and floating constants that comparisons and arithmetic of the unit mention:
    extra candidate sizes and values for the replay"""
    ints, dbl = set(), set()
    import struct
    keep = False
    for line in open(irpath, errors='replace'):
        if line.startswith('define '):
            keep = ('3etr' in line) or ('@drv_' in line)
        if not keep:
            continue
        if not re.search(r'= (?:icmp|fcmp|add|sub|mul|urem|srem|udiv|sdiv|and|or|xor|shl|lshr|fadd|fsub|fmul|fdiv|select|phi)\b|switch|call|i(?:32|64) -?\d+, label', line):
            continue
        for m in re.finditer(r'(?<![\w.%@])(-?\d+)(?![\w.])', line):
            v = int(m.group(1))
            if 2 < abs(v) < 2 ** 31:
                ints.add(v)
        for m in re.finditer(r'double (0x[0-9A-Fa-f]{16}|-?\d\.\d+e[+-]\d+)', line):
            t = m.group(1)
            v = struct.unpack('>d', bytes.fromhex(t[2:]))[0] if t.startswith('0x') else float(t)
            if v == v and abs(v) != float('inf'):
                dbl.add(v)
    return sorted(ints)[:400], sorted(dbl)[:200]


def run_replay(prop, work, hints, irs, tier):
    """compile the native oracle against the real headers and search for a failing input"""
    src = os.path.join(HERE, 'replay', prop.replay)
    exe = os.path.join(work, 'replay')
    log = []
    r = sh(['g++', '-std=c++20', '-O1', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize=bool', '-fno-sanitize-recover=bounds,null,object-size,pointer-overflow,return,unreachable,vptr,enum,integer-divide-by-zero',
            '-I', REPO + '/include', '-I', HERE + '/props', '-I', HERE + '/replay', src, '-o', exe], timeout=400)
    if r.returncode:
        return None, 'replay did not compile:\n' + r.stdout[:2000]
    ints, dbls = set(), set()
    for p in irs:
        a, b = dictionary(p)
        ints.update(a)
        dbls.update(b)
    cand = set()
    for h in hints:
        for n, v in h.items():
            if 0 <= v <= 200000:
                cand.add(v)
    for v in ints:
        if 0 < v <= 200000:
            cand.update((v - 1, v, v + 1))
    dic = os.path.join(work, 'dict.txt')
    with open(dic, 'w') as f:
        f.write('%d\n' % len(cand) + ' '.join(str(x) for x in sorted(cand)) + '\n')
        iv = sorted(x for x in ints if abs(x) < 2 ** 31 - 1)
        f.write('%d\n' % len(iv) + ' '.join(map(str, iv)) + '\n')
        f.write('%d\n' % len(dbls) + ' '.join('%.17g' % x for x in sorted(dbls)) + '\n')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:exitcode=77:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=4096',
               UBSAN_OPTIONS='print_stacktrace=0', ETR_DICT=dic, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), ETR_SECONDS=os.environ.get('ETR_SECONDS', '60' if tier == 'quick' else '240'))
    try:
        r = sh([exe], timeout=(120 if tier == 'quick' else 400), env=env, cwd=work)
        txt, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        txt = (e.stdout or b'')
        txt = txt.decode(errors='replace') if isinstance(txt, bytes) else txt
        rc = 124
    return rc, txt


# ---------------------------------------------------------------------- main
def load_known(pid):
    f = os.path.join(HERE, 'known_findings.txt')
    res = []
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r'^known: property=(\S+) case=(\S+) obligation=(.+?) :: (.*)$', line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3), m.group(4)))
    return res


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    sys.path.insert(0, os.path.join(HERE, 'props'))
    mod = importlib.import_module(pid)
    prop = mod.prop
    work = tempfile.mkdtemp(prefix='w_%s_' % pid, dir=os.path.join(HERE, '.build'))
    try:
        return _main(prop, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _main(prop, tier, seed, work, t0):
    pid = prop.pid
    deadline = t0 + (560 if tier == 'quick' else 3000)
    mods, irs, builderr = {}, [], None
    try:
        with mp.pool.ThreadPool(8) as tp:
            paths = tp.map(lambda u: build_ir(os.path.join(HERE, 'props', u), work), prop.units)
        for u, p in zip(prop.units, paths):
            m = llir.parse_module(p)
            mods[u] = (m, symex.demangle_all(list(m.funcs) + list(m.decls)))
            irs.append(p)
    except BuildError as e:
        builderr = str(e)
    only = os.environ.get('ETR_CASE')
    cases = [c for c in prop.cases if not only or re.search(only, c.name)]
    known = load_known(pid)
    fails, hints, nobl, nok = [], [], 0, 0
    if builderr:
        fails.append(('build', 'the driver unit does not compile against /repo: ' + builderr[:1500], {}))
        cases = []
    helpers = prove_helpers(prop, {cs.unit for cs in cases}, mods, deadline)
    results = run_cases(prop, cases, mods, tier, deadline)
    retry_cases(prop, cases, mods, tier, deadline, results)
    kinds, trusted, funcs, knownhit = {}, set(), set(), set()
    solver_s, queries, loops, notes, ctr = 0, 0, 0, [], {}
    for cs in cases:
        r = results[cs.name]
        for d in r['obls']:
            nobl += 1
            kinds.setdefault(d['kind'], [0, 0])[0] += 1
            if d['ok']:
                nok += 1
                kinds[d['kind']][1] += 1
                continue
            k = [i for i, (cn, on, tx) in enumerate(known) if re.fullmatch(cn, cs.name) and re.fullmatch(on, d['desc'])]
            if k:
                knownhit.add(k[0])
                continue
            fails.append((cs.name, 'obligation %s "%s" in %s: %s' % (d['kind'], d['desc'], d['where'], d['status']), d))
        if r['error']:
            fails.append((cs.name, r['error'], {'trace': r.get('trace', '')}))
        else:
            for e in cs.expect:
                if e not in r['kinds']:
                    fails.append((cs.name, 'no path reaches the outcome "%s" under the precondition (vacuous contract)' % e, {}))
            if not r['obls']:
                fails.append((cs.name, 'no obligation was generated', {}))
        hints += r['hints']
        trusted.update(r.get('trusted', []))
        funcs.update(r.get('funcs', []))
        solver_s += r.get('solver_s', 0)
        queries += r.get('queries', 0)
        loops += r.get('loops', 0)
        notes += r.get('notes', [])
        for n, k in r.get('contracts', {}).items():
            ctr[n] = ctr.get(n, 0) + k
        print('case %-34s obligations %4d failed %2d  %6.1fs%s' % (cs.name, len(r['obls']), sum(not d['ok'] for d in r['obls']), r.get('wall', 0), '  ' + r['error'] if r['error'] else ''))
    for i in sorted(knownhit):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[i][2]))
    replaytxt, rrc = '', None
    rc = 0
    cross = None
    if prop.replay and (fails or tier == 'thorough'):
        rrc, replaytxt = run_replay(prop, work, hints, irs, tier)
        bad = rrc not in (0, None, 124) or 'MISMATCH' in replaytxt
        cross = {'ran': rrc is not None, 'found_failure': bool(bad), 'tail': replaytxt[-400:]}
        if rrc is None:
            print('NOTE: the native cross-check did not run: ' + replaytxt[:300])
        if bad and not fails:
            fails.append(('replay', 'the native oracle disagrees with the code although every obligation was discharged', {}))
    violations = 0
    if fails:
        rc, violations = 1, 1
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        path = os.path.join(HERE, 'evidence', 'replay', pid + '.txt')
        concrete = prop.replay and (rrc not in (0, None, 124) or 'MISMATCH' in replaytxt)
        with open(path, 'w') as f:
            f.write('property %s: %d undischarged obligations\n' % (pid, len(fails)))
            for n, t, d in fails[:60]:
                f.write('\n[%s] %s\n' % (n, t))
                if d.get('model'):
                    f.write('  counterexample values: %s\n' % d['model'])
                if d.get('smt'):
                    f.write('  last assertions of the query:\n    ' + d['smt'].replace('\n', '\n    ') + '\n')
                if d.get('trace'):
                    f.write('  ' + d['trace'].replace('\n', '\n  ') + '\n')
            if prop.replay:
                f.write('\nreplay on the real code (replay/%s, exit %s):\n%s\n' % (prop.replay, rrc, replaytxt[:20000]))
        for n, t, d in fails[:12]:
            print('FAILED [%s] %s' % (n, t))
        if concrete:
            i = replaytxt.find('MISMATCH')
            if i < 0:
                i = max(0, replaytxt.find('ERROR'))
            print(replaytxt[i:i + 600])
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if concrete else ' no-failing-input-found'))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': nobl + sum(h['discharged'] for h in helpers.values() if h['applied']),
            'discharged': nok + sum(h['discharged'] for h in helpers.values() if h['applied']),
            'checker_cmd': 'python3-vt check.py %s %s' % (pid, tier),
            'backend': 'z3 %s (python API); UF + linear integer/real arithmetic with instantiated axioms' % terms.z3.get_version_string(),
            'obligations_by_kind': {k: {'generated': v[0], 'discharged': v[1]} for k, v in sorted(kinds.items())},
            'cases': {cs.name: {'obligations': len(results[cs.name]['obls']), 'outcomes': results[cs.name]['kinds'], 'wall_s': round(results[cs.name].get('wall', 0), 2),
                                'error': results[cs.name]['error']} for cs in cases},
            'functions_under_contract': len(cases) + sum(h['applied'] for h in helpers.values()), 'real_functions_verified_through': len(funcs), 'functions': sorted(funcs)[:400],
            'loops_with_inductive_invariant': loops, 'solver_queries': queries, 'solver_s': round(solver_s, 2),
            'helper_contracts': helpers, 'helper_contracts_used': dict(sorted(ctr.items())), 'known_findings_suppressed': len(knownhit),
            'trusted_base': sorted(trusted) + TRUSTED, 'bounded_stand_ins': prop.bounded, 'native_cross_check': cross,
        },
        'assumptions': prop.assumptions + GENERAL + notes, 'wall_s': round(time.time() - t0, 2), 'violations': violations,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d cases, %d helper contracts (%d applied), %.1fs' % (
        pid, nobl, nok, len(cases), len(helpers), sum(h['applied'] for h in helpers.values()), time.time() - t0))
    return rc


TRUSTED = ['clang 18 front end and the mem2reg/simplifycfg/loop-simplify passes (C++ to LLVM IR)',
           'the verification condition generator in /verif/etrverif', 'z3']
GENERAL = ['vector sizes lie in 1..2^31-1; no operand is empty', 'input objects satisfy the class invariant (contracts require it and re-establish it)',
           'signed integer arithmetic wraps (the behaviour of the compiled code)',
           'floating point operations are uninterpreted functions with IEEE comparison axioms; identical operations on identical operands give identical results']
