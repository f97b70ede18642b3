#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--replay FILE]: decide one property for /repo's current source.
   exit 0: held on everything explored; exit 1 + VIOLATION line: broken."""
import sys, os, subprocess, json, time, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python'
sys.dont_write_bytecode = True
if not os.path.realpath(sys.prefix).startswith('/opt/veriftools') and os.path.exists(VT):
    os.execv(VT, [VT, '-B', os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
LOPPY = '/opt/venv/bin/python'

def harness(pid, tier, seed, budget, scratch, only=()):
    out = os.path.join(scratch, 'harness.json')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', NUMBA_NUM_THREADS='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg',
               MPLCONFIGDIR=os.path.join(scratch, 'mpl'), NUMBA_CACHE_DIR=os.path.join(scratch, 'numba'), HOME=scratch, TMPDIR=scratch)
    log = open(os.path.join(scratch, 'harness.log'), 'w')
    p = subprocess.Popen([LOPPY, '-B', os.path.join(HERE, 'replay', 'h.py'), pid, tier, str(seed), str(budget), out] + [str(x) for x in only], cwd=scratch, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    return p, out

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='pydv-%s-' % pid)
    try:
        if '--replay' in sys.argv:
            r = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
            for f in r.get('failing_inputs', []):
                p, out = harness(pid, tier, f['seed'], 300, scratch, (f['case'], f['iter'])); p.wait()
                print(json.dumps(json.load(open(out))['fails'], indent=1)[:6000])
            return 0
        return decide(pid, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def decide(pid, tier, seed, t0, scratch):
    import importlib
    from pydv import contract
    budget = 60 if tier == 'quick' else 420
    hp, hout = harness(pid, tier, seed, budget, scratch)
    results = []
    cm = None
    try:
        cm = importlib.import_module('contracts.' + pid)
        known0 = load_known(pid)
        def stop(t):
            if t > (420 if tier == 'quick' else 3000): return 'time budget of the check'
            if t > 25 and hp.poll() is not None and os.path.exists(hout):
                try: fs = json.load(open(hout))['fails']
                except Exception: return None
                if any(not any(k['key'] == f['key'] for k in known0) for f in fs): return 'not run to the end: a failing input was already found'
        results = contract.run_all(contract.UNITS, procs=7, scale=1.0 if tier == 'quick' else 4.0, stop=stop)
    except ModuleNotFoundError as e:
        if 'contracts.' + pid not in str(e): raise
    try: hp.wait(timeout=budget + 240)
    except subprocess.TimeoutExpired: 
        import signal; os.killpg(hp.pid, signal.SIGKILL)
    hr = None
    if os.path.exists(hout):
        hr = json.load(open(hout))
    herr = '' if hr else open(os.path.join(scratch, 'harness.log')).read()[-1500:]
    known = load_known(pid)
    proved = refuted = unknown = 0
    bad, und = [], []
    backends, inl, assumed = {}, set(), set()
    units = []
    st_t = st_q = 0
    for u, r in results:
        nun = 0
        seen = set()
        for o in r['obls']:
            if o['status'] == 'proved': proved += 1; backends[o['backend']] = backends.get(o['backend'], 0) + 1
            elif o['status'] == 'refuted': bad.append((u, o)); refuted += 1
            else: unknown += 1; nun += 1
        if r['error'] or nun: und.append({'unit': u.name, 'reason': r['error'] or 'undischarged: ' + '; '.join(sorted({o['name'] for o in r['obls'] if o['status'] == 'unknown'}))[:300]})
        inl |= set(r['inlined']); assumed |= set(r['assumed'])
        st_t += r['solver']['time']; st_q += r['solver']['queries']
        units.append({'unit': u.name, 'functions': u.targets, 'obligations': len(r['obls']), 'proved': sum(o['status'] == 'proved' for o in r['obls']),
                      'paths': r['paths'], 'covers': r['covers'], 'seconds': r['time'], 'status': 'proved' if not r['error'] and all(o['status'] == 'proved' for o in r['obls']) else 'not proved', 'reason': r['error']})
    fails = hr['fails'] if hr else []
    nf = [f for f in fails if not any(k['key'] == f['key'] for k in known)]
    nb = [(u, o) for u, o in bad if not any(k.get('obligation') and k['obligation'] in (u.name + '/' + o['name']) for k in known)]
    for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    nproved = sum(x['status'] == 'proved' for x in units)
    total = proved + refuted + unknown
    hcount = sum(hr['counts'].values()) if hr else 0
    ev = {'property': pid, 'tier': tier, 'seed': seed,
          'level': getattr(cm, 'LEVEL', 'proof') if cm else 'exploration',
          'coverage': {'obligations': total, 'discharged': proved, 'checker_cmd': 'python3 check.py %s --tier %s' % (pid, tier),
             'trusted_base': TRUST + list(getattr(cm, 'TRUSTED', []) if cm else []),
             'by_backend': backends, 'solver_queries': st_q, 'solver_seconds': round(st_t, 2),
             'units': units, 'functions_under_contract': sorted({t for u, r in results for t in u.targets}), 'functions_executed_symbolically': sorted(inl),
             'undecided_units': und,
             'bounded_stand_in': {'what': 'run-time evaluation of the same contracts on the real code under CPython (bounded; never counted as proved); also the source of replayed counterexamples',
                 'note': getattr(cm, 'BOUNDED', '') if cm else 'whole property',
                 'cases': hr['counts'] if hr else {}},
             'evaluations': hcount, 'distinct_nontrivial': hr['distinct'] if hr else 0,
             'rule': 'contract evaluations on the real code under CPython with inputs drawn inside the precondition from VERIF_SEED; distinct = distinct recorded inputs',
             'samples': hr['samples'] if hr else []},
          'assumptions': sorted(assumed) + list(getattr(cm, 'ASSUMPTIONS', []) if cm else []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(nf) + len(nb)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d/%d obligations discharged in %d units (%d fully proved), %d run-time contract evaluations, %.1fs' % (pid, proved, total, len(units), nproved, hcount, time.time() - t0))
    for x in und: print('  undecided (bounded stand-in applies): %s: %s' % (x['unit'], x['reason'][:300]))
    if os.environ.get('PYDV_V'):
        for x in units: print('   ', x)
        for u, r in results:
            for o in r['obls']:
                if o['status'] != 'proved' or os.environ['PYDV_V'] == '2': print('   ', u.name, o['kind'], o['name'], o['status'], str(o['info'])[:1500])
    if hr is None: print('  harness produced no result: ' + herr)
    elif hr['truncated']: print('  harness stopped at its time budget')
    if not nf and not nb:
        if hr is None and not (units and nproved == len(units)):
            print('  no answer'); return 2
        return 0
    os.makedirs(os.path.join(HERE, 'out'), exist_ok=True)
    rp = os.path.join(HERE, 'out', pid + '.replay.json')
    json.dump({'property': pid, 'failing_inputs': nf, 'failed_obligations': [{'unit': u.name, 'functions': u.targets, 'obligation': o['name'], 'kind': o['kind'], 'verifier_output': o['info']} for u, o in nb],
               'undecided': und, 'how_to_replay': 'python3 check.py %s --replay %s' % (pid, rp)}, open(rp, 'w'), indent=1, default=str)
    for f in nf: print('  failing input: %s iter %d: %s' % (f['case'], f['iter'], f['msg'][:700]))
    for u, o in nb[:6]: print('  failed obligation: %s / %s: %s' % (u.name, o['name'], str(o['info'])[:500]))
    print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if nf else ' no-failing-input-found'))
    return 1

TRUST = ['pydv (symbolic executor over the Python AST, /verif/pydv) and its numpy/scipy/builtin models', 'z3 5.3 / cvc5 1.1.2 / pydv.ring rational normal form',
         'machine floats treated as mathematical reals, ints unbounded', 'numba.jit treated as the identity decorator (bodies verified as plain Python)',
         'facts about exp/log/sqrt/Phi/sin/cos/Gamma listed in pydv/core.py; d/dx rules in pydv/ring.py']

def load_known(pid):
    """KNOWN_FINDINGS.txt lines:  KNOWN-FINDING: property=<id> key=<case key> [obligation=<substring>] <what fails>"""
    import re
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    for l in (open(p) if os.path.exists(p) else ()):
        m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (?:obligation=(\S+) )?(.*)', l.strip())
        if m and m.group(1) == pid: out.append({'key': m.group(2), 'obligation': m.group(3), 'text': 'key=%s %s' % (m.group(2), m.group(4))})
    return out

if __name__ == '__main__':
    sys.exit(main())
