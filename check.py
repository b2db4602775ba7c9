#!/usr/bin/env python3-vt
"""check.py <property>: decide one property on /repo's current tree

exit 0: every obligation of every function the property depends on was discharged, and the bounded stand-in found nothing
        (a function the verifier can no longer translate, e.g. after a rewrite, falls back to the bounded stand-in: UNDECIDED line)
exit 1: VIOLATION property=<id> replay=<path> [no-failing-input-found]
"""
import os, sys, time, json, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'replay'))


def known():
    """known-findings.txt: 'KNOWN property=<id> key=<fn>|<kind>|<desc> :: text' """
    r = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN '):
                head, text = l[6:].split(' :: ', 1)
                pr, key = head.split(' ', 1)
                r.append((pr.split('=', 1)[1], key.split('=', 1)[1], text))
    return r


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if tier == 'thorough':
        os.environ.setdefault('VERIF_TO', '60000')
    else:
        os.environ.setdefault('VERIF_BUDGET', '520')
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    from cverif import contracts            # noqa: F401  registers the specifications
    from cverif.specs import SPECS
    from cverif.verify import verify_all, case_str
    from cverif.props import PROPS
    P = PROPS[pid]
    fails, obls = [], []
    results = []
    jobs = []
    for f in P['fns']:
        flt = None
        if isinstance(f, tuple):
            f, flt = f
        for c in SPECS[f].cases:
            if flt is None or flt(c):
                jobs.append((f, c))
    jobs.sort(key=lambda j: -SPECS[j[0]].weight)
    results = verify_all(jobs)
    byback, solver_s = {}, 0.0
    trusted, assumptions, inl, contracts_used, lemmas = set(), set(), set(), set(), set(P['lean'])
    for r in results:
        nm = r['fn'] + ('' if r['case'] is None else '[%s]' % r['case'])
        if r['error']:
            fails.append((nm, 'verifier', r['error'].split('\n')[0], None, ''))
        if not r['error'] and not r['obls']:
            fails.append((nm, 'verifier', 'no obligations were generated', None, ''))
        for what, ok in r['probes']:
            if not ok:
                fails.append((nm, 'vacuity', what, None, 'the assumptions here are contradictory'))
        for kind, desc, line, status, backend, tm, info in r['obls']:
            if P['kinds'] is not None and kind not in P['kinds']:
                continue
            obls.append(nm)
            solver_s += tm or 0
            if status == 'valid':
                byback[backend] = byback.get(backend, 0) + 1
            elif status == 'skipped':
                fails.append((nm, 'verifier', 'no time left for: ' + desc, line, info))
            elif r.get('reshaped'):
                fails.append((nm, 'contract', 'the loops are not those the invariants are written for; not proved: %s: %s' % (kind, desc), line, info))
            else:
                fails.append((nm, kind, desc, line, '%s (%s) %s' % (status, backend, info)))
        for k in r.get('unused_loops') or []:
            fails.append((nm, 'contract', 'loop %s of the contract is not in the code' % k, None, ''))
        assumptions |= set(r.get('assumptions') or [])
        inl |= set(r.get('inlined') or [])
        lemmas |= set(r.get('lemmas') or [])
        contracts_used |= set(r.get('spec_used') or [])
        trusted |= set(r.get('op_used') or [])
    lean_res = None
    if lemmas:
        from cverif import leancheck
        lean_res = leancheck.check(sorted(lemmas))
        for nm, ok, why in lean_res:
            obls.append('lemma ' + nm)
            if ok:
                byback['Lean 4'] = byback.get('Lean 4', 0) + 1
            else:
                fails.append((nm, 'lemma', why, None, ''))
    # bounded stand-in on the real code, for the functions of this property that are not under contract
    STRUCT = ('verifier', 'contract', 'vacuity')
    bounded = None
    if P['replay']:
        import replay
        struct = [f for f in fails if f[1] in STRUCT]
        secs = float(os.environ.get('VERIF_STANDIN_S', 0) or 0) or (150 if struct else 25 if tier == 'quick' else 600)
        try:
            found, st = replay.standin(pid, seed, secs)
        except Exception:
            found, st = None, dict(scenarios=0, error=traceback.format_exc())
            print('stand-in could not run: ' + st['error'].strip().split('\n')[-1])
        bounded = dict(functions=P['bounded'], seconds=secs, **st)
        if found:
            fails.append(('bounded stand-in', 'bounded', 'failing input on the real code', None, found))
    # known findings
    kn = known()
    real, nknown = [], 0
    for f in fails:
        key = '%s|%s|%s' % (f[0], f[1], f[2])
        m = [t for p, k, t in kn if p == pid and k == key]
        if m:
            nknown += 1
            print('KNOWN-FINDING: property=%s %s' % (pid, m[0]))
        else:
            real.append(f)
    # a function outside the verifier's reach: bounded stand-in only, never counted as proved
    undecided = sorted({f[0] for f in real if f[1] in STRUCT})
    if undecided and len([f for f in real if f[1] in STRUCT]) == len(real):
        for f in real:
            print('UNDECIDED by proof: %s: %s (bounded stand-in: %s scenarios, nothing found)' % (f[0], f[2], bounded and bounded.get('scenarios')))
        real = []
    undec_fns = {u.split('[')[0] for u in undecided}
    verified = sorted({j[0] for j in jobs} - undec_fns)
    assumed = sorted(c for c in contracts_used if c not in verified and SPECS.get(c) and not SPECS[c].trusted)
    trustedc = sorted(c for c in contracts_used if SPECS.get(c) and SPECS[c].trusted)
    ev = dict(property=pid, tier=tier, seed=seed, level='proof',
              coverage=dict(
                  obligations=len(obls), discharged=len(obls) - len([f for f in fails if f[1] not in ('vacuity', 'contract', 'verifier')]),
                  checker_cmd='cd /verif && python3-vt check.py %s' % pid,
                  trusted_base=['clang 18 front end (AST of the current sources)', 'cverif verification-condition generator', 'z3 4.x', 'cvc5 1.1.2', 'Lean 4.33 kernel and Mathlib'] + ['contract of ' + t for t in trustedc] + ['library function: ' + t for t in sorted(trusted)],
                  functions_under_contract=verified, cases=len(jobs),
                  contracts_of_callees_verified_by_other_checks=assumed, inlined=sorted(inl),
                  discharged_by=byback, solver_seconds=round(solver_s, 1), lean_lemmas=sorted(lemmas),
                  known_findings=nknown),
              assumptions=sorted(assumptions), wall_s=round(time.time() - t0, 1), violations=1 if real else 0)
    if bounded:
        ev['coverage']['bounded_standin'] = bounded
    if undecided:
        ev['coverage']['outside_the_verifier_on_this_run'] = undecided
    evp = os.path.join(HERE, 'evidence', pid + '.json')
    json.dump(ev, open(evp, 'w'), indent=1)
    print('%s: %d functions, %d cases, %d obligations, %d failed, %.1fs' % (pid, len(verified), len(jobs), len(obls), len(fails), time.time() - t0))
    if not real:
        return 0
    rp = os.path.join(HERE, 'evidence', 'replay_%s.txt' % pid)
    with open(rp, 'w') as f:
        f.write('property %s\nfailed obligations:\n' % pid)
        for nm, kind, desc, line, info in real:
            f.write('  %s line %s: %s: %s\n      %s\n' % (nm, line, kind, desc, (info or '')[:1500] if kind != 'bounded' else ''))
    for nm, kind, desc, line, info in real[:8]:
        print('  failed: %s line %s: %s: %s' % (nm, line, kind, desc))
    found = None
    conc = [f for f in real if f[1] == 'bounded']
    if conc:
        found = conc[0][4]
    elif P['replay']:
        try:
            import replay
            found = replay.search(pid, real, seed, tier, float(os.environ.get('VERIF_REPLAY_S', '240')))
        except Exception:
            with open(rp, 'a') as f:
                f.write('\nreplay search failed:\n' + traceback.format_exc())
    with open(rp, 'a') as f:
        f.write('\n' + ('failing input on the real code:\n' + found if found else 'no failing input was found by the replay search') + '\n')
    ev['wall_s'] = round(time.time() - t0, 1)
    json.dump(ev, open(evp, 'w'), indent=1)
    print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if found else ' no-failing-input-found'))
    return 1


if __name__ == '__main__':
    sys.exit(main())
