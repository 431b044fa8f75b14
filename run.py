#!/usr/bin/env python3
"""Decides one property: run.py <ID> [--tier quick|thorough] [--repo DIR]
                       run.py --replay FILE
See DESIGN.md. Exit 0: the property held on everything explored. Exit 1: a
violation, reproduced on the unmodified code, was found. Exit 2: no answer
(the current sources cannot be encoded)."""
import argparse, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, BOUNDS  # noqa: E402

FLAGS = '-std=c++20 -ftrivial-auto-var-init=pattern -D_GLIBCXX_ASSERTIONS -w'.split()
NPROC = os.cpu_count() or 4
ENG = os.path.join(HERE, 'engine')


def sh(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build(repo, d, files):
    """Encodes the sources of `repo` and links, per harness file, the symbolic
    executable s_<file> and the native replay executable n_<file>."""
    src = os.path.join(repo, 'soil_simulator')
    sym, nat = os.path.join(d, 'sym', 'soil_simulator'), os.path.join(d, 'nat', 'soil_simulator')
    subprocess.run([sys.executable, os.path.join(ENG, 'rewrite.py'), src, sym], check=True)
    os.makedirs(nat, exist_ok=True)
    units = []
    for f in sorted(os.listdir(src)):
        if f.endswith(('.cpp', '.cc', '.hpp', '.h')):
            shutil.copy(os.path.join(src, f), os.path.join(nat, f))
        if f.endswith(('.cpp', '.cc')):
            text = open(os.path.join(src, f)).read()
            if re.search(r'\bint\s+main\s*\(', text):
                continue
            units.append(f)
    inc = ['-I' + ENG, '-I' + os.path.join(ENG, 'shim'), '-I' + os.path.join(HERE, 'harness')]
    S = ['g++'] + FLAGS + ['-O1', '-include', os.path.join(ENG, 'vx_sym.hpp'), '-DVX_SYMBOLIC'] + inc + ['-I' + os.path.join(d, 'sym')]
    N = ['g++'] + FLAGS + ['-O2', '-include', os.path.join(ENG, 'nat_pre.hpp')] + inc + ['-I' + os.path.join(d, 'nat')]
    jobs = [(['g++', '-std=c++20', '-O1', '-w'] + inc + ['-c', os.path.join(ENG, 'vx_engine.cpp'), '-o', 'eng.o'])]
    jobs.append(['g++', '-std=c++20', '-O1', '-w'] + inc + ['-c', os.path.join(ENG, 'vx_native.cpp'), '-o', 'natm.o'])
    for h in files:
        jobs.append(S + ['-c', os.path.join(HERE, 'harness', h + '.cpp'), '-o', 'symh_%s.o' % h])
        jobs.append(N + ['-c', os.path.join(HERE, 'harness', h + '.cpp'), '-o', 'nath_%s.o' % h])
    for f in units:
        b = f.rsplit('.', 1)[0]
        jobs.append(S + ['-c', os.path.join(sym, f), '-o', 'sym_%s.o' % b])
        jobs.append(N + ['-c', os.path.join(nat, f), '-o', 'nat_%s.o' % b])
    with ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(lambda j: sh(j, d), jobs))
    for (rc, out), j in zip(res, jobs):
        if rc:
            print('ENCODING-FAILED: ' + ' '.join(j[-3:]) + '\n' + out[:3000])
            return None
    # the static storage of the code under test gets sections of its own, which the engine resets
    for o in glob.glob(os.path.join(d, 'sym_*.o')):
        names = set(re.findall(r'^ *\d+ (\.(?:data|bss)\S*) ', sh(['objdump', '-h', '-w', o], d)[1], re.M))
        ren = [a for n in sorted(names) if '.rel.ro' not in n for a in ('--rename-section', '%s=%s' % (n, 'simbss' if n.startswith('.bss') else 'simdata'))]
        if ren:
            sh(['objcopy'] + ren + [o], d)
    so = sorted(glob.glob(os.path.join(d, 'sym_*.o')))
    no = sorted(glob.glob(os.path.join(d, 'nat_*.o')))
    jobs = []
    for h in files:
        jobs.append(['g++', '-o', 's_' + h, 'symh_%s.o' % h] + so + ['eng.o', '-lz3', '-lgmpxx', '-lgmp', '-lpthread'])
        jobs.append(['g++', '-o', 'n_' + h, 'nath_%s.o' % h] + no + ['natm.o', '-lgmpxx', '-lgmp'])
    with ThreadPoolExecutor(NPROC) as ex:
        for (rc, out), j in zip(ex.map(lambda j: sh(j, d), jobs), jobs):
            if rc:
                print('ENCODING-FAILED: link ' + j[2] + '\n' + out[:3000])
                return None
    return units


def functions_encoded(d, units):
    fs = set()
    for u in units:
        t = open(os.path.join(d, 'nat', 'soil_simulator', u)).read()
        for m in re.finditer(r'\bsoil_simulator::((?:\w+::)?~?\w+)\s*\([^;{}]*\)\s*(?:const\s*)?(?::[^;{]*)?\{', t):
            fs.add(m.group(1))
    return sorted(fs)


def native(d, f, harness, traces, tags, thorough, variant):
    inp = []
    for i, t in enumerate(traces):
        inp.append('T %s %d' % (harness, i))
        for k, v in t['inputs']:
            inp.append('I %s %s' % (k, v))
        for k, n, v in t['choices']:
            inp.append('C %s %s %s' % (k, n or '-', v))
        inp.append('E')
    # the code under test writes to <dir of nat>/../results; keep it in scratch
    res = os.path.join(d, 'nat', 'results')
    os.makedirs(res, exist_ok=True)
    cmd = [os.path.join(d, 'n_' + f), '--results', res, '--tags', ','.join(tags)]
    if thorough:
        cmd.append('--thorough')
    if variant:
        cmd += ['--variant', variant]
    p = subprocess.run(cmd, input='\n'.join(inp) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=d)
    out, cur = {}, None
    for line in p.stdout.splitlines():
        w = line.split(' ')
        if w[0] == 'BEGIN':
            cur = {'fail': [], 'obs': [], 'end': []}
            out[int(w[1])] = cur
        elif cur is None:
            continue
        elif w[0] == 'FAIL':
            cur['fail'].append((w[1], ' '.join(w[2:])))
        elif w[0] == 'O':
            cur['obs'].append((w[1], w[2], w[3]))
        elif w[0] in ('EXC', 'DIVERGE', 'ASSUME', 'SPECIAL', 'HANG', 'CRASH', 'DONE'):
            cur['end'].append(line)
    return [out.get(i, {'fail': [], 'obs': [], 'end': ['MISSING']}) for i in range(len(traces))]


def confirms(ce, nat):
    """Does the native run show the violation the solver reported?"""
    ends = [e.split(' ')[0] for e in nat['end']]
    if any(e in ends for e in ('DIVERGE', 'ASSUME', 'MISSING')) and not nat['fail']:
        return None
    if nat['fail']:
        return '%s (%s)' % (nat['fail'][0][1], nat['fail'][0][0])
    if 'CRASH' in ends:
        return 'access outside the containers of the simulation state (abort)'
    if 'HANG' in ends:
        return 'the code does not terminate'
    if 'EXC' in ends:
        return 'unexpected exception: ' + ' '.join(nat['end'])
    if 'SPECIAL' in ends:
        return 'NaN or infinity in the simulation state'
    return None


def obs_val(o):
    return int(o[2]) if o[1] == 'i' else float.fromhex(o[2]) if 'n' not in o[2] else float(o[2])


def obs_diff(a, b):
    """Observations that differ between the encoding and the native run. A name that
    only one side observed counts as zero (cells never written are not observed)."""
    out = []
    A, Bn = {}, {}
    for src, dst in ((a, A), (b, Bn)):
        for o in src:
            dst.setdefault(o[0], []).append(o)
    for name in sorted(set(A) | set(Bn)):
        xs, ys = A.get(name, []), Bn.get(name, [])
        for i in range(max(len(xs), len(ys))):
            x = obs_val(xs[i]) if i < len(xs) else 0
            y = obs_val(ys[i]) if i < len(ys) else 0
            noisy = i < len(xs) and len(xs[i]) > 3 and xs[i][3]
            if x != y and not (x != x and y != y):
                if not noisy or abs(x - y) > 1e-4 * max(1.0, abs(x)):
                    out.append((name, x, y))
    return out


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def known_match(prop, item, ce, why):
    for k in load_known():
        if k.get('status') == 'fixed' or k['property'] != prop or k['harness'] != item['h']:
            continue
        if not re.search(k.get('why', ''), why):
            continue
        inp = dict((a, int(b)) for a, b in ce['trace']['inputs'])
        cho = {}
        for a, n, v in ce['trace']['choices']:
            if a == 'c':
                cho.setdefault(n, int(v))
        try:
            if eval(k['when'], {'__builtins__': {}}, {'i': inp, 'c': cho}):
                return k
        except Exception:
            continue
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--replay')
    ap.add_argument('--harness')
    ap.add_argument('--build-dir')
    a = ap.parse_args()
    if a.replay:
        return replay(a)
    t0 = time.time()
    prop, thorough = a.prop, a.tier == 'thorough'
    items = [i for i in CHECKS[prop] if (not a.harness or i['h'] == a.harness) and (thorough or not i.get('thorough_only'))]
    d = a.build_dir or tempfile.mkdtemp(prefix='vx_%s_' % prop)
    os.makedirs(d, exist_ok=True)
    try:
        return decide(a, prop, thorough, items, d, t0)
    finally:
        if not a.build_dir:
            shutil.rmtree(d, ignore_errors=True)


def decide(a, prop, thorough, items, d, t0):
    files = sorted(set(i['f'] for i in items))
    units = build(a.repo, d, files)
    if units is None:
        print('NO-ANSWER property=%s the current sources cannot be encoded' % prop)
        return 2
    t_build = time.time() - t0
    budget = float(os.environ.get('VX_BUDGET', '7000' if thorough else '720'))
    tot = dict(paths=0, infeasible=0, decisions=0, nondet=0, checks=0, asserts=0, sat=0, unsat=0, unknown=0, unsupported=0, solver_s=0.0, cut=0)
    details, samples, viol, knownhit, unrep, notes = [], [], [], {}, 0, []
    validated = mismatched = 0
    missing_reach = []
    for it in items:
        o = dict(it.get('thorough' if thorough else 'quick', {}))
        for variant in o.get('variants', it.get('variants', [''])):
            left = budget - (time.time() - t0)
            if left < 5:
                notes.append('time budget used up before harness ' + it['h'])
                tot['cut'] += 1
                continue
            out = os.path.join(d, 'out')
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            tl = min(left, o.get('time', it.get('time', 3000 if thorough else 300)))
            if viol and not thorough:
                tl = min(tl, 60)    # a violation is already known
            cmd = [os.path.join(d, 's_' + it['f']), '--harness', it['h'], '--workers', str(NPROC), '--time', '%.0f' % tl, '--out', out,
                   '--tags', ','.join(it['tags']), '--samples', str(o.get('samples', 24 if thorough else 8))]
            if thorough:
                cmd.append('--thorough')
            if variant:
                cmd += ['--variant', variant]
            ts = time.time()
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=tl + 120)
                rc, err = p.returncode, p.stderr
            except subprocess.TimeoutExpired:
                subprocess.run(['pkill', '-f', os.path.join(d, 's_')])
                rc, err = 124, 'time limit'
            if rc:
                notes.append('%s: engine stopped (%s): %s' % (it['h'], rc, err.strip()[-300:]))
                tot['cut'] += 1
            st = dict((k, 0) for k in tot)
            un, reached, ces, smp = {}, set(), [], []
            for f in sorted(glob.glob(os.path.join(out, 'w*.jsonl'))):
                for line in open(f, errors='replace'):
                    try:
                        r = json.loads(line)
                    except ValueError:
                        continue
                    if r['type'] == 'stats':
                        for k in st:
                            st[k] += r.get(k, 0)
                        for k, v in r['unsup'].items():
                            un[k] = un.get(k, 0) + v
                        reached |= set(r['reached'])
                    elif r['type'] == 'ce':
                        ces.append(r)
                    elif r['type'] == 'sample':
                        smp.append(r)
            for k in tot:
                tot[k] += st[k]
            for k, v in un.items():
                notes.append('%s: %d paths not decided: %s' % (it['h'], v, k))
            if st['cut'] and not ces:
                notes.append('%s: exploration cut at the time limit' % it['h'])
            for r in it.get('reach', []):
                if r not in reached and not ces and not st['cut']:
                    missing_reach.append(it['h'] + ': ' + r)
            # counterexamples are replayed against the unmodified code
            nat = native(d, it['f'], it['h'], [c['trace'] for c in ces], it['tags'], thorough, variant)
            for c, n in zip(ces, nat):
                why = confirms(c, n)
                if why is None:
                    unrep += 1
                    notes.append('%s: solver counterexample not reproduced natively (%s %s; native %s)' % (it['h'], c['tag'], c['msg'], n['end']))
                    continue
                k = known_match(prop, it, c, why)
                if k:
                    knownhit[k['id']] = k
                    continue
                viol.append((it, variant, c, why))
            nat = native(d, it['f'], it['h'], [c['trace'] for c in smp], it['tags'], thorough, variant)
            for c, n in zip(smp, nat):
                why = confirms(c, n)
                if why is not None and not known_match(prop, it, c, why):
                    viol.append((it, variant, c, why))
                elif 'DONE' in n['end'] and not obs_diff(c['obs'], n['obs']):
                    validated += 1
                else:
                    mismatched += 1
                    if mismatched <= 3:
                        diff = obs_diff(c['obs'], n['obs'])[:3]
                        notes.append('%s: sampled path differs natively: %s %s %s' % (it['h'], n['end'], diff, json.dumps(c['trace'])[:400]))
            if smp:
                s = smp[len(smp) // 2]
                samples.append({'harness': it['h'], 'inputs': dict(s['trace']['inputs'][:20]), 'choices': [c[1] + '=' + c[2] if c[1] else c[0] + c[2] for c in s['trace']['choices'][:20]]})
            details.append(dict(harness=it['h'], variant=variant, wall_s=round(time.time() - ts, 2), paths=st['paths'], infeasible_branches=st['infeasible'], decisions=st['decisions'] + st['nondet'],
                                queries=st['checks'], assertions=st['asserts'], solver_s=round(st['solver_s'], 2), exhausted=not st['cut'] and not rc, bounds=it.get('bounds') or BOUNDS.get(it['h'], ''), reached=sorted(reached)))
    for m in missing_reach:
        notes.append('expected situation not reached: ' + m)
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    lines, seen = [], set()
    for it, variant, c, why in viol:
        key = (it['h'], why)
        if key in seen:
            continue
        seen.add(key)
        p = os.path.join(rdir, '%s-%d.json' % (prop, len(seen)))
        json.dump(dict(property=prop, file=it['f'], harness=it['h'], variant=variant, tags=it['tags'], thorough=thorough, why=why, trace=c['trace']), open(p, 'w'), indent=1)
        lines.append((p, it['h'], why))
    inconclusive = tot['unknown'] + tot['unsupported'] + unrep + mismatched
    exhaustive = not tot['cut'] and not inconclusive
    ev = dict(property=prop, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(lines),
              coverage=dict(states=tot['paths'], transitions=tot['decisions'] + tot['nondet'], traces_validated_against_impl=validated, samples=samples[:12],
                            exhaustive=exhaustive, infeasible_branches=tot['infeasible'], solver_queries=tot['checks'], solver_sat=tot['sat'], solver_unsat=tot['unsat'],
                            solver_unknown=tot['unknown'], unsupported_paths=tot['unsupported'], assertions_discharged=tot['asserts'], solver_s=round(tot['solver_s'], 2), build_s=round(t_build, 2),
                            unreproduced_counterexamples=unrep, native_mismatches=mismatched, functions_encoded=functions_encoded(d, units), harnesses=details, notes=notes,
                            known_findings=sorted(knownhit), rule='states = complete symbolic paths (each stands for every input satisfying its path condition), transitions = solver-decided branches and forked choices'),
              assumptions=['exact rational arithmetic on the stated lattice equals float arithmetic (checked per operation from the granularity and magnitude of the operands)',
                           'signed zeros are not distinguished', 'inputs outside the bounds listed per harness are not covered'])
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for k in sorted(knownhit):
        print('KNOWN-FINDING: property=%s %s' % (prop, knownhit[k]['what']))
    for n in notes:
        print('note: ' + n)
    print('%s %s: %d paths, %d decisions, %d queries (%.1fs solver), %d assertions, %d native replays agree, %s, %.1fs' % (
        prop, a.tier, tot['paths'], tot['decisions'] + tot['nondet'], tot['checks'], tot['solver_s'], tot['asserts'], validated, 'exhausted' if exhaustive else 'NOT exhausted', time.time() - t0))
    for p, h, why in lines:
        print('%s: %s' % (h, why))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    if lines:
        return 1
    if tot['paths'] == 0:
        print('NO-ANSWER property=%s nothing was explored' % prop)
        return 2
    return 0


def replay(a):
    r = json.load(open(a.replay))
    d = tempfile.mkdtemp(prefix='vx_replay_')
    try:
        if build(a.repo, d, [r['file']]) is None:
            return 2
        n = native(d, r['file'], r['harness'], [r['trace']], r['tags'], r['thorough'], r['variant'])[0]
        why = confirms(r, n)
        for o in n['obs']:
            print('  %s = %s' % (o[0], o[2]))
        print(json.dumps(r['trace']))
        print('reproduced: ' + why if why else 'not reproduced: %s' % n['end'])
        return 1 if why else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
