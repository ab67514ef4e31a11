"""Schedules the contracts of a property, collects obligations, writes evidence and the verdict."""
import sys, os, json, time, hashlib, multiprocessing as mp, traceback, random, resource
import numpy as np
from . import core, logic, num as N, concrete, contracts
from .loader import World, REPO_SRC

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('PYDED_EVID') or os.path.join(VERIF, 'evidence')


def obl_cat(o):
    if o.name.startswith('frame:'):
        return 'frame'
    if 'lowest terms' in o.name or 'denominator>0' in o.name or o.name.endswith(' integer'):
        return 'canonical'
    if o.status == 'exception':
        return 'exception'
    return 'value'


def cats_for(prop):
    if prop == 'ALL':
        return {'value', 'exception', 'canonical', 'frame'}
    if prop == 'C22':
        return {'frame'}
    if prop == 'C03':
        return {'canonical'}
    if prop in ('C01', 'C02'):
        return {'value', 'exception'}
    return {'value', 'exception', 'canonical'}


def new_rec(case):
    return {'case': case.name, 'bounded': case.bounded, 'status': None, 'obligations': 0, 'discharged': 0, 'paths': 0, 'time': 0,
            'how': {}, 'evaluations': 0, 'skipped': 0, 'reason': '', 'frame': [0, 0], 'obl_names': []}


def task(qual, prop, tier, seed, q):
    """one contract in its own process"""
    t0 = time.time()
    out = {'qual': qual, 'cases': [], 'failures': [], 'error': None}
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        pkg = qual.split('.')[0]
        contracts.build(pkg)
        con = core.CONTRACTS[qual]
        cats = cats_for(prop)
        mult = 3 if tier == 'quick' else 40
        if prop == 'C22':
            mult = mult * 0.5
        w = World(pkg)
        cases = [c for c in con.cases if not (c.thorough and tier == 'quick')]
        pre = {}
        # bounded runs on the real code come first: they are cheap and do not depend on the prover
        for ci, case in enumerate(cases):
            n = int((case.runs if case.runs is not None else 20) * mult)
            if prop == 'C22':
                n = max(n, 4)
            if not case.runs and case.runs is not None or (case.gen is None and case.kinds is None):
                continue
            N.set_field(5 if pkg == 'ico2' else 3)
            ev, sk, f = concrete.search(con, case, max(n, 1), seed, budget=(25 if tier == 'quick' else 240), cats=cats)
            pre[ci] = (ev, sk)
            if f:
                rec = new_rec(case)
                rec.update(status='violated', evaluations=ev, skipped=sk)
                out['cases'].append(rec)
                out['failures'].append(dict(qual=qual, case=case.name, obligation='result equals specification (bounded run)', how='concrete', detail='', args=f[0], message=f[1], cat=f[2], other=f[3] if len(f) > 3 else None))
        for ci, case in enumerate(cases):
            if out['failures']:
                break
            rec = new_rec(case)
            rec['evaluations'], rec['skipped'] = pre.get(ci, (0, 0))
            bad = []
            out['doing'] = rec
            q.put(dict(out, partial=True, time=round(time.time() - t0, 2)))
            if not case.nosym:
                N.set_field(5 if pkg == 'ico2' else 3)
                core.PROVE_MS = case.ms or (3000 if tier == 'quick' else 10000)
                fr = core.prove_case(w, con, case, budget_s=(40 if tier == 'quick' else 200), max_paths=400 if tier == 'quick' else 3000)
                rec['status'] = fr.status
                rec['reason'] = fr.reason[:300]
                rec['paths'] = fr.paths
                rec['time'] = round(fr.time, 3)
                rec['stubs'] = sorted(fr.stubs)
                rec['inlined'] = sorted(fr.inlined)
                rec['notes'] = sorted(fr.notes)
                for o in fr.obls:
                    c = obl_cat(o)
                    if c in cats or o.name in ('path infeasible', 'returns'):
                        rec['obligations'] += 1
                        if o.status == 'proved':
                            rec['discharged'] += 1
                            rec['how'][o.how] = rec['how'].get(o.how, 0) + 1
                        else:
                            bad.append(o)
                    if len(rec['obl_names']) < 6 and o.status == 'proved':
                        rec['obl_names'].append(o.name)
                if prop == 'C22' or fr.status in ('refuted', 'exception'):
                    if not [o for o in bad if o.status != 'proved']:
                        if fr.status in ('refuted', 'exception', 'unknown'):
                            rec['status'] = 'proved' if rec['obligations'] else 'unknown'
            N.set_field(5 if pkg == 'ico2' else 3)
            failure = None
            # counterexample replay
            seen = set()
            for o in bad:
                if o.status not in ('refuted', 'exception', 'suspect'):
                    continue
                if o.name in seen or len(seen) > 4:
                    continue
                seen.add(o.name)
                ev, sk, f = concrete.search(con, case, 40, seed, model=o.model or {}, budget=10, cats=cats)
                rec['evaluations'] += ev
                if f:
                    failure = dict(qual=qual, case=case.name, obligation=o.name, how=o.how, detail=o.detail, args=f[0], message=f[1], cat=f[2], other=f[3] if len(f) > 3 else None)
                    break
            hard = [o for o in bad if o.status == 'refuted']
            if failure is None and (case.gen is not None or case.kinds is not None) and (bad or rec['status'] in ('unsupported', 'unknown', 'exception')):
                n = max(int((case.runs or 20) * mult) * 4, 4)
                if hard:
                    n = max(20 * n, 4000)
                ev, sk, f = concrete.search(con, case, n, seed + 1000003, budget=(25 if tier == 'quick' else 240) * (2 if hard else 1), cats=cats)
                rec['evaluations'] += ev
                rec['skipped'] += sk
                if f:
                    failure = dict(qual=qual, case=case.name, obligation=(bad[0].name if bad else 'result equals specification (bounded run)'),
                                   how='concrete', detail='', args=f[0], message=f[1], cat=f[2], other=f[3] if len(f) > 3 else None)
            if failure is None and hard:
                o = hard[0]
                failure = dict(qual=qual, case=case.name, obligation=o.name, how=o.how, detail=o.detail, args=None,
                               message='obligation refuted, no failing input found', cat=obl_cat(o),
                               model={k: str(v) for k, v in (o.model or {}).items()})
            if failure:
                rec['status'] = 'violated'
                out['failures'].append(failure)
            out['cases'].append(rec)
            if out['failures'] and any(f['args'] is not None for f in out['failures']):
                break
        out.pop('doing', None)
        out['stats'] = dict(logic.STATS)
    except Exception:
        out['error'] = traceback.format_exc()[-1500:]
    out['time'] = round(time.time() - t0, 2)
    q.put(out)
    q.close()
    q.join_thread()


def run_tasks(quals, prop, tier, seed, jobs=8, tmo=150):
    ctx = mp.get_context('fork')
    pending = list(quals)
    running = []
    results = []
    total_limit = 780 if tier == 'quick' else 36000
    t_start = time.time()
    while pending or running:
        while pending and len(running) < jobs:
            ql = pending.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=task, args=(ql, prop, tier, seed, q))
            p.start()
            running.append([ql, p, q, time.time(), None])
        time.sleep(0.01)
        nxt = []
        for it in running:
            ql, p, q, t, part = it
            r = None
            alive = p.is_alive()
            try:
                while True:
                    r = q.get(timeout=0.5) if not alive and r is None and part is None else q.get_nowait()
                    if not r.get('partial'):
                        break
                    it[4] = part = r
                    r = None
            except Exception:
                pass
            if r is not None:
                results.append(r)
                p.join(5)
                if p.is_alive():
                    p.kill()
                continue
            late = time.time() - t > tmo or time.time() - t_start > total_limit
            if not alive or late:
                why = 'time limit' if late else 'worker ended (exit %s)' % p.exitcode
                p.kill()
                p.join()
                r = part or {'qual': ql, 'cases': [], 'failures': [], 'time': time.time() - t}
                d = r.pop('doing', None)
                if d is not None:
                    d.update(status='unknown', reason=why)
                    r['cases'].append(d)
                r['error'] = why
                results.append(r)
                continue
            nxt.append(it)
        running = nxt
        if time.time() - t_start > total_limit and pending:
            for ql in pending:
                results.append({'qual': ql, 'cases': [], 'failures': [], 'error': 'time limit (not started)', 'time': 0})
            pending = []
    return results


def quals_for(prop):
    out = []
    for pkg in ('ico2', 'dode2'):
        core.CONTRACTS.clear()
        contracts.build(pkg)
        for ql, c in core.CONTRACTS.items():
            if prop in c.props:
                out.append((getattr(c, 'cost', 1), ql))
    core.CONTRACTS.clear()
    out.sort(key=lambda x: -x[0])
    return [q for _, q in out]


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == prop and d.get('status') == 'known':
                    out.append(d)
    return out


def check(prop, tier):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    quals = quals_for(prop)
    from . import lemmas
    started = lemmas.start(prop)
    res = run_tasks(quals, prop, tier, seed, tmo=170 if tier == 'quick' else 3000)
    lem = lemmas.finish(started)
    failures = []
    obligations = discharged = evals = 0
    proved_fns, bounded, notes, hows = [], [], [], {}
    contracts_used = set()
    z3t = 0.0
    rows = []
    for r in sorted(res, key=lambda x: x['qual']):
        failures += r['failures']
        if r.get('error'):
            notes.append('%s: %s' % (r['qual'], r['error'].strip().splitlines()[-1]))
        z3t += (r.get('stats') or {}).get('z3_time', 0)
        for c in r['cases']:
            evals += c['evaluations']
            obligations += c['obligations']
            discharged += c['discharged']
            contracts_used.update(c.get('stubs', ()))
            for k, v in c['how'].items():
                hows[k] = hows.get(k, 0) + v
            rows.append({'function': r['qual'], 'case': c['case'], 'status': c['status'] or 'bounded run', 'bound': c['bounded'], 'paths': c['paths'],
                         'obligations': c['obligations'], 'discharged': c['discharged'], 'evaluations': c['evaluations'], 'time_s': c['time'], 'reason': c['reason'][:200],
                         'examples': c['obl_names'][:3], 'uses_contracts': c.get('stubs', [])})
    for l in lem:
        obligations += len(l['lemmas'])
        if l['ok']:
            discharged += len(l['lemmas'])
            hows['lean'] = hows.get('lean', 0) + len(l['lemmas'])
        else:
            notes.append('lemma file %s not checked: %s' % (l['file'], l['why'][:120]))
    known = known_findings(prop)
    kf_lines = []
    for k in known:
        con_key = (k['function'], json.dumps(k['args'], sort_keys=True))
        kf_lines.append(k)
    real_fail = []
    for f in failures:
        hit = None
        for k in known:
            if k['function'] == f['qual'] and k.get('case') in (None, f['case']) and k.get('signature') and k['signature'] in f['message']:
                hit = k
        if hit is None:
            real_fail.append(f)
    if obligations == 0 and evals == 0:
        print('ERROR: nothing was checked for %s' % prop)
    ncon = len({x['function'] for x in rows if x['status'] == 'proved'})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level_of(prop),
        'coverage': {
            'obligations': obligations, 'discharged': discharged,
            'checker_cmd': '/opt/venv/bin/python /verif/vp.py check %s --tier %s' % (prop, tier),
            'trusted_base': TRUSTED,
            'functions_under_contract': len({x['function'] for x in rows}),
            'functions_with_a_case_proved_for_all_inputs': sorted({x['function'] for x in rows if x['status'] == 'proved' and not x['bound']}),
            'functions_proved_only_within_a_bound': sorted({x['function'] for x in rows if x['status'] == 'proved' and x['bound']} - {x['function'] for x in rows if x['status'] == 'proved' and not x['bound']}),
            'functions_checked_by_bounded_runs_only': sorted({x['function'] for x in rows} - {x['function'] for x in rows if x['status'] == 'proved'}),
            'callee_contracts_used': sorted(contracts_used),
            'discharged_by': hows, 'solver_time_s': round(z3t, 2),
            'evaluations': evals, 'lemmas': lem,
            'rows': rows, 'engine_notes': notes,
            'explanation': 'obligations are generated from /repo source on this run by symbolic execution of the function bodies against their contracts; '
                           'rows with a bound, and rows with status other than proved, are bounded stand-ins evaluated on the real code (evaluations) and are not counted as proved',
        },
        'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(real_fail),
    }
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s: %d functions under contract, %d obligations, %d discharged, %d concrete evaluations, %.1fs' % (prop, ev['coverage']['functions_under_contract'], obligations, discharged, evals, time.time() - t0))
    for n in notes:
        print('note:', n)
    for x in rows:
        if x['status'] in ('unknown', 'unsupported', 'missing', 'exception'):
            print('bounded stand-in: %s [%s] %s %s' % (x['function'], x['case'], x['status'], x['reason'][:160].replace('\n', ' ')))
    if real_fail:
        real_fail.sort(key=lambda f: f['args'] is None)
        f = real_fail[0]
        h = hashlib.sha1(json.dumps([f['qual'], f['case'], f['obligation']]).encode()).hexdigest()[:8]
        path = os.path.join(EVID, 'replay_%s_%s.json' % (prop, h))
        json.dump({'property': prop, 'failures': real_fail, 'replay_cmd': '/opt/venv/bin/python /verif/vp.py replay %s' % path}, open(path, 'w'), indent=1)
        for f in real_fail[:5]:
            print('failed obligation: %s [%s] %s: %s' % (f['qual'], f['case'], f['obligation'], f['message']))
        tail = '' if real_fail[0]['args'] is not None else ' no-failing-input-found'
        print('VIOLATION property=%s replay=%s%s' % (prop, path, tail))
        return 1
    return 0


def level_of(prop):
    return LEVELS.get(prop, 'proof')


LEVELS = {}
NOT_APPLICABLE = {}
TECHNIQUE = {'*': 'contract-based deductive verification: the bodies in /repo are executed symbolically against executable contracts (callers against callee contracts), '
                  'obligations closed by exact normalisation over Q(sqrt D) and z3; refuted obligations are replayed on the real code'}
NOTES = {'*': 'obligations regenerated from /repo on every run; rows with a size bound or outside the reach of the engine are bounded runs on the real code against the same contract, '
              'listed as such in the evidence and not counted as proved; int64 overflow and float rounding are outside the proof'}
TRUSTED = [
    'pyded symbolic executor (/verif/pyded): Python semantics of the executed subset, numpy stand-ins in arr.py, cross-checked against CPython on every run by the concrete evaluations',
    'z3 4.x (python bindings of python3-vt) for path feasibility and the obligations not closed by normalisation',
    'CPython/numpy for replay and bounded runs',
]
ASSUMPTIONS = [
    'machine arithmetic is treated as mathematical: int64 as unbounded integers (no overflow), float64 as exact reals; float literals are read as their decimal value; bounded runs on the real code sample 64-bit sized intermediates',
    'sqrt is the exact non-negative square root; np.gcd is the mathematical gcd; np.linalg.inv/det are exact; np.unique is abstracted to distinct rows in order of first occurrence (callers must not depend on the order)',
    'irrationality of sqrt5 and sqrt3 (lemmas checked by Lean, see lemmas/)',
    'scipy Delaunay is an unknown list of simplices over the given points: that they fill the hull without overlap is only observed in the bounded runs',
    'files are a private symbolic file system: blocks of lines of symbolic length, printing and parsing of numbers inverse to each other up to the printed digits; directories are not modelled',
    'order of np.unique/lexsort/argsort results is abstract; random draws are arbitrary',
    'the loop rule of loops.py (execute the body once at an arbitrary index, recognise sums, products, maxima, appends, searches) is part of the trusted base; its fold laws are proved in lemmas/Loops.lean',
]


def replay(path):
    d = json.load(open(path))
    bad = 0
    for f in d['failures']:
        if f['args'] is None:
            print('no input recorded for', f['qual'], f['obligation'])
            continue
        pkg = f['qual'].split('.')[0]
        core.CONTRACTS.clear()
        contracts.build(pkg)
        N.set_field(5 if pkg == 'ico2' else 3)
        con = core.CONTRACTS[f['qual']]
        case = next(c for c in con.cases if c.name == f['case'])
        if f.get('other') == []:
            r = concrete.untouched(con, case, concrete.unfmt_args(f['args']))
        elif f.get('other'):
            r = concrete.history(con, case, concrete.unfmt_args(f['args']), concrete.unfmt_args(f['other']))
        else:
            r = concrete.run_once(con, case, concrete.unfmt_args(f['args']), again=True)
        print(f['qual'], f['case'], '->', r)
        bad += r is not None
    return 1 if bad else 0


def main(argv):
    if argv[0] == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in argv:
            tier = argv[argv.index('--tier') + 1]
        return check(argv[1], tier)
    if argv[0] == 'replay':
        return replay(argv[1])
    if argv[0] == 'list':
        for i in range(1, 24):
            p = 'C%02d' % i
            print(p, quals_for(p))
        return 0
    print(__doc__)
    return 2
