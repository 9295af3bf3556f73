#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only REGEX] : decide one property on /repo's tree."""
import sys, os, time, json, re, importlib.util, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine as E
sys.modules['engine'] = E
from engine import Job, Engine

def load(prop):
    p = os.path.join(E.VERIF, 'props', prop + '.py')
    sp = importlib.util.spec_from_file_location('prop_' + prop, p)
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    return m

def known_findings(prop):
    out = []
    p = os.path.join(E.VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'finding: property=(\w+) job=(\S+) obligation=(\S+) (.*)', ln)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out

def main():
    prop = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; verbose = False
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == '--tier': tier = a.pop(0)
        elif x == '--only': only = a.pop(0)
        elif x == '-v': verbose = True
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = load(prop)
    jobs = [j for j in mod.jobs(tier) if not only or re.search(only, j.id)]
    ids = [j.id for j in jobs]; assert len(set(ids)) == len(ids), 'duplicate job ids'
    eng = Engine(prop)
    viol, errs, known, results = [], [], [], []
    kf = known_findings(prop)
    cls = {}
    try:
        def work(j):
            R = eng.run(j)
            if R.status in ('structural', 'unknown') or (R.status == 'failed' and not R.confirmed and j.fallback is not None):
                if j.fallback is not None:
                    F = eng.run(j.derive(**j.fallback))
                    F.fallback_of = R
                    if R.status == 'failed':
                        if F.status == 'failed' and F.confirmed: return F
                        for h in j.hunt:   # larger searches for a failing input, only after a failed proof
                            H = eng.run(j.derive(**dict(j.fallback, **h)))
                            if H.status == 'failed' and H.confirmed: H.fallback_of = R; return H
                        R.replay_out += '\n(bounded stand-in: %s)' % F.status
                        return R
                    return F
            return R
        with cf.ThreadPoolExecutor(max_workers=int(os.environ.get('VF_JOBS', '7'))) as ex:
            for R in ex.map(work, jobs):
                results.append(R)
                if verbose or R.status != 'ok':
                    print('[%s] %-40s %-10s obl=%d/%d reach=%d %s %.1fs %s' % (prop, R.job.id, R.status, R.discharged, R.obligations, R.reach, R.solver, R.solver_s, (R.why or '')[-120:].replace('\n', ' ') if R.status != 'ok' else ''), flush=True)
                    if R.status == 'failed':
                        for f in R.failed[:6]: print('     failed: %s: %s (%s:%s)' % (f['property'], f['description'], os.path.basename(f['loc'].get('file', '')), f['loc'].get('line', '')))
                        print('     inputs: %s\n     confirmed=%s %s' % (json.dumps(R.inputs)[:600], R.confirmed, R.replay_out[-600:].replace('\n', ' | ')), flush=True)
    finally:
        eng.close()
    rdir = os.path.join(E.VERIF, 'replay', prop); os.makedirs(rdir, exist_ok=True)
    for R in results:
        if R.status == 'ok': continue
        if R.status in ('failed', 'vacuous'):
            rest = [f for f in R.failed if not any(re.fullmatch(k[0], R.job.id) and re.fullmatch(k[1], f['property']) for k in kf)]
            if R.failed and not rest:
                for k in kf:
                    if re.fullmatch(k[0], R.job.id) and k[2] not in known: known.append(k[2])
                continue
            path = os.path.join(rdir, re.sub(r'\W+', '_', R.job.id) + '.json')
            with open(path, 'w') as f:
                json.dump({'property': prop, 'job': R.job.id, 'harness': R.job.src, 'entry': R.job.entry, 'defines': R.job.defs,
                           'functions': R.job.funcs, 'failed_obligations': R.failed[:50] or [{'property': 'reachability', 'description': R.why}],
                           'counterexample_inputs_le_hex': R.inputs, 'replayed_on_real_code': bool(R.confirmed), 'replay_output': R.replay_out,
                           'verifier': 'cbmc (%s)' % R.solver, 'bounded': R.job.bounded}, f, indent=1)
            viol.append((R, path))
        else:
            errs.append('%s: %s: %s' % (R.job.id, R.status, R.why[-160:].replace('\n', ' ')))
    ok = [R for R in results if R.status == 'ok']
    pr = [R for R in ok if not R.job.bounded]; bd = [R for R in ok if R.job.bounded]
    funcs = sorted({f.replace('rec:', '') for R in pr for f in R.job.funcs}); bfuncs = sorted({f.replace('rec:', '') for R in bd for f in R.job.funcs} - set(funcs))
    level = mod.LEVEL if hasattr(mod, 'LEVEL') else 'proof'
    backs = {}
    for R in ok: backs[R.solver] = backs.get(R.solver, 0) + R.discharged
    cov = {
        'obligations': sum(R.obligations for R in results if not R.job.bounded), 'discharged': sum(R.discharged for R in results if not R.job.bounded),
        'checker_cmd': 'goto-cc <real sources + contracts>; goto-instrument --dfcc <harness> --enforce-contract ...; cbmc {sat|--cvc5|--z3}  (driven by vf/check.py %s)' % prop,
        'trusted_base': getattr(mod, 'TRUSTED', []) + ['CBMC 6.11.0 (goto-cc front end, goto-instrument contracts, symex), MiniSat/CaDiCaL, cvc5 1.1.2', 'vf/extract.py source preparation', 'the specification text in harness/'],
        'functions_under_contract': funcs, 'functions_bounded_only': bfuncs,
        'bounded_obligations': sum(R.obligations for R in bd), 'bounded_discharged': sum(R.discharged for R in bd),
        'proof_jobs': len(pr), 'bounded_jobs': len(bd), 'reachability_marks_hit': sum(R.reach for R in ok),
        'discharged_by_backend': backs, 'solver_seconds': round(sum(R.solver_s for R in results), 2),
        'jobs': [{'id': R.job.id, 'what': R.job.what, 'functions': R.job.funcs, 'kind': ('bounded: ' + R.job.bounded) if R.job.bounded else 'proof',
                  'obligations': R.obligations, 'discharged': R.discharged, 'backend': R.solver, 'solver_s': round(R.solver_s, 2), 'status': R.status,
                  'stand_in_for': (R.fallback_of.job.id + ': ' + R.fallback_of.why[-200:]) if R.fallback_of else None} for R in results],
        'samples': [{'job': R.job.id, 'obligation': p} for R in ok[:5] for p in R.props[-1:]],
        'explanation': getattr(mod, 'EXPLANATION', '')}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if not only:
        os.makedirs(os.path.join(E.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(E.VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d jobs, %d obligations, %d discharged (%d bounded), %.1fs' % (prop, len(results), cov['obligations'] + cov['bounded_obligations'], cov['discharged'] + cov['bounded_discharged'], cov['bounded_discharged'], time.time() - t0))
    for k in known: print('KNOWN-FINDING: property=%s %s' % (prop, k))
    seen = set()
    viol.sort(key=lambda x: not x[0].confirmed)
    for R, path in viol:
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if R.confirmed else ' no-failing-input-found'))
    if viol: return 1
    if errs:
        for e in errs[:8]: print('ERROR', e[:300])
        return 2
    return 0

sys.exit(main())
