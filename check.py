#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decide one property by symbolic execution of the real code.

Builds the engine, builds the harness crate against /repo's working tree, lowers it to LLVM IR, runs every
harness of the property through the engine (z3 deciding), replays counterexamples natively, writes evidence."""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
B = os.environ.get('JSPARSE_VERIF_BUILD') or os.path.join(V, 'build')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
ENV.pop('RUSTFLAGS', None)
sys.path.insert(0, V)
import plan


class Inconclusive(Exception):
    pass


def run(cmd, cwd, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if p.returncode != 0:
        raise Inconclusive('%s failed:\n%s' % (' '.join(cmd[:4]), (p.stderr + p.stdout)[-3000:]))
    return p.stdout


def build_engine():
    run(['cargo', 'build', '--offline', '--release'], V + '/engine', dict(ENV, CARGO_TARGET_DIR=B + '/engine'))
    return B + '/engine/release/symex'


def build_ir():
    e = dict(ENV, CARGO_TARGET_DIR=B + '/harness', RUSTFLAGS='--cfg jsparse_verif')
    rel = B + '/harness/release'
    # cargo decides by content/mtime what to rebuild; the bitcode has to come from this very build
    run(['cargo', 'rustc', '--offline', '--release', '--', '-C', 'save-temps'], V + '/harness', e)
    bcs = [rel + '/deps/' + f for f in os.listdir(rel + '/deps') if f.endswith('lto.after-restriction.bc')]
    if not bcs:
        raise Inconclusive('no bitcode produced')
    bc = max(bcs, key=os.path.getmtime)
    host = rel + '/harness'
    api = ','.join(run([host], V).split())
    root = run(['rustc', '--print', 'sysroot'], V).strip()
    opt = root + '/lib/rustlib/x86_64-unknown-linux-gnu/bin/opt'
    out = B + '/m.ll'
    run([opt, '-strip-debug', '-passes=internalize,globaldce,function(lower-invoke,simplifycfg,scalarizer<load-store>,instsimplify),globaldce', '-internalize-public-api-list=' + api, bc, '-S', '-o', out], V)
    return host, out


def demangle(n):
    """readable path of a v0-mangled name: its identifiers in order"""
    i, out = 2, []
    while i < len(n):
        m = re.match(r'(\d+)_?', n[i:])
        if m and m.group(1)[0] != '0':
            k, j = int(m.group(1)), i + len(m.group(0))
            w = n[j:j + k]
            if len(w) == k and k < 80 and re.match(r'^[A-Za-z_][A-Za-z0-9_]*$', w):
                out.append(w)
                i = j + k
                continue
        if n[i] == 's' or n[i] == 'C':
            m = re.match(r'C?s[0-9a-zA-Z]*_', n[i:])
            if m:
                i += len(m.group(0))
                continue
        i += 1
    return '::'.join(out) if out else n


def replay(host, h, model, timeout=60):
    """native run of the harness on one concrete assignment: ('held'|'violated'|'assume'|'error', text)"""
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        p = subprocess.run([host, h, ','.join(map(str, model))], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=lim, cwd=V)
    except subprocess.TimeoutExpired:
        return 'violated', 'does not terminate natively within %d s' % timeout
    o = p.stdout.decode('utf8', 'replace')
    for l in o.splitlines():
        if l.startswith('REPLAY verdict='):
            return l.split('verdict=')[1].split()[0], l
    if p.returncode < 0 or p.returncode > 100:
        return 'violated', 'native run died with status %d %s' % (p.returncode, p.stderr.decode('utf8', 'replace')[-300:])
    return 'error', 'status %d: %s' % (p.returncode, (o + p.stderr.decode('utf8', 'replace'))[-300:])


def load_known(prop):
    f = V + '/known_findings.json'
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)) if k.get('property') == prop and k.get('status') == 'known']


def main():
    prop = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = plan.PLAN[prop]
    hs = list(P['quick']) + (list(P['thorough']) if tier == 'thorough' else [])
    os.makedirs(B, exist_ok=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    evf = V + '/evidence/%s.json' % prop
    if os.path.exists(evf):
        os.remove(evf)
    with ThreadPoolExecutor(2) as ex:
        fe, fi = ex.submit(build_engine), ex.submit(build_ir)
        engine, (host, ll) = fe.result(), fi.result()
    tb = time.time() - t0
    budget = 780 if tier == 'quick' else 7200
    res, viol, problems, validated = [], [], [], 0
    known = load_known(prop)
    for h in hs:
        left = budget - (time.time() - t0)
        if left < 5:
            problems.append('%s: not run, time budget used up' % h)
            continue
        out = B + '/out_%s.json' % h
        if os.path.exists(out):
            os.remove(out)
        cap = min(int(left), plan.CAP.get(h, 300 if tier == 'quick' else 1500))
        try:
            p = subprocess.run([engine, '--ll', ll, '--harness', h, '--workers', '8', '--time', str(cap), '--max-violations', '4', '--out', out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=cap + 120, cwd=V)
            r = json.load(open(out))
        except (subprocess.TimeoutExpired, OSError, ValueError) as e:
            problems.append('%s: engine gave no result (%s)' % (h, str(e)[:200]))
            continue
        res.append(r)
        new = 0
        seen = set()
        for v in r['violations']:
            k = next((k for k in known if k['harness'] == h and re.search(k['text_regex'], v['text'], re.S) and v['code'] in k['codes']), None)
            if k is None and v['text'] and v['text'] in seen:
                continue
            seen.add(v['text'])
            verdict, line = replay(host, h, v['model'])
            if not v['text'] and ' text="' in line:
                # parser harnesses spell the program out only in the native run
                v['text'] = line.split(' text=', 1)[1].strip().strip('"')
                k = next((k for k in known if k['harness'] == h and re.search(k['text_regex'], v['text'], re.S) and v['code'] in k['codes']), None)
            if verdict != 'violated':
                problems.append('%s: counterexample %r (code %s, %s) did not reproduce natively: %s' % (h, v['text'], v['code'], v['why'], line))
                continue
            if k is not None:
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
                continue
            new += 1
            f = V + '/evidence/replay_%s_%s_%d.json' % (prop, h, new)
            json.dump({'property': prop, 'harness': h, 'model': v['model'], 'code': v['code'], 'why': v['why'], 'text': v['text'], 'native': line,
                       'replay_cmd': '%s %s %s' % (host, h, ','.join(map(str, v['model'])))}, open(f, 'w'), indent=1)
            viol.append((f, h, v))
        if viol:
            break
        if r['errors']:
            problems.append('%s: %s' % (h, '; '.join(r['errors'])[:600]))
        elif not r['exhausted'] and not r['violations']:
            problems.append('%s: exploration incomplete within %d s' % (h, cap))
        else:
            miss = [c for c in plan.COVERS.get(h, []) if str(c) not in r['covers']]
            if miss:
                problems.append('%s: vacuous: reachability witnesses %s not reached' % (h, miss))
        # encoding validation: models of completed paths must behave natively as the engine said
        ss = r['samples'][:: max(1, len(r['samples']) // 6)][:6]
        with ThreadPoolExecutor(8) as ex:
            for s, (verdict, line) in zip(ss, ex.map(lambda s: replay(host, h, s['model']), ss)):
                if verdict == 'held':
                    validated += 1
                elif verdict == 'violated':
                    f = V + '/evidence/replay_%s_%s_s.json' % (prop, h)
                    json.dump({'property': prop, 'harness': h, 'model': s['model'], 'text': s['text'], 'native': line}, open(f, 'w'), indent=1)
                    problems.append('%s: encoding disagrees with the native run on %r: %s' % (h, s['text'], line))
                else:
                    problems.append('%s: validation run of %r: %s' % (h, s['text'], line))
    fns = {}
    for r in res:
        for n, a, b in r['functions']:
            d = demangle(n)
            if 'jsparse' in d and 'drop_glue' not in d:
                o = fns.get(d, (0, b))
                fns[d] = (max(o[0], a), b)
    samples = []
    for r in res:
        for s in r['samples'][:2]:
            samples.append({'harness': r['harness'], 'text': s['text'][:200], 'model': s['model']})
    tot = lambda k: sum(r[k] for r in res)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {
              'states': tot('paths') + tot('pruned'), 'transitions': tot('forks'), 'traces_validated_against_impl': validated,
              'samples': samples[:24], 'exhaustive': not problems and not viol and all(r['exhausted'] for r in res),
              'explanation': 'Symbolic execution of the LLVM IR regenerated from /repo on this run. states = symbolic paths (completed + infeasible), transitions = path forks.',
              'bounds': P['bounds'], 'outside': P['outside'],
              'instructions_executed': tot('instructions'), 'solver_queries': tot('queries'), 'solver_sat': tot('queries_sat'), 'solver_unsat': tot('queries_unsat'),
              'solver_s': round(tot('solver_s'), 3), 'domain_decisions_checked_by_solver': tot('facts'), 'float_terms_decided_by_evaluation': tot('facts_outside_smt'),
              'build_s': round(tb, 2),
              'functions_encoded': ['%s (%d/%d blocks)' % (k, a, b) for k, (a, b) in sorted(fns.items())],
              'harnesses': [{k: r[k] for k in ('harness', 'exhausted', 'paths', 'pruned', 'forks', 'instructions', 'symbols', 'queries', 'solver_s', 'wall_s', 'covers', 'panics')} for r in res]},
          'assumptions': P.get('assumptions', []) + plan.COMMON_ASSUMPTIONS,
          'problems': problems, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    json.dump(ev, open(evf, 'w'), indent=1)
    for f, h, v in viol:
        print('%s: %s (assertion %s) on %r' % (h, v['why'], v['code'], v['text'][:300]))
    if viol:
        print('VIOLATION property=%s replay=%s' % (prop, viol[0][0]))
        return 1
    for p in problems:
        print('INCONCLUSIVE %s' % p)
    if problems:
        return 2
    print('held: %s %s: %d harnesses, %d paths, %d solver queries, %.1f s' % (prop, tier, len(res), tot('paths'), tot('queries'), time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Inconclusive as e:
        print('INCONCLUSIVE %s' % e)
        sys.exit(2)
