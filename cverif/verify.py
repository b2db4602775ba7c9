"""Verification of one function (all obligations), with a pool of solver processes."""
import os, re, sys, time, json, traceback, multiprocessing as mp
import z3
from .core import *
from .cfront import *
from .engine import Engine, Sig, LocalObj, addr_taken
from . import specs, prims, lib as libmod
from .specs import SPECS, Ctx, check_exit

CTX = mp.get_context('fork')
LOCK = CTX.Lock()
TIMEOUT = int(os.environ.get('VERIF_TO', '12000'))
START = time.time()
BUDGET = float(os.environ.get('VERIF_BUDGET', '0') or 0)     # seconds for all proofs of a run; 0: no limit


def late(extra=0):
    return BUDGET and time.time() - START > BUDGET + extra


def symexec(fname, case, library=None):
    """returns engine with obligations"""
    lib = library or libmod.Library()
    spec = SPECS[fname]
    fname = fname.split('@')[0]
    eng = Engine(lib, fname, case_str(case))
    fn = eng.tu.funcs.get(fname)
    if fn is None:
        raise Unsupported('function %s has no body' % fname)
    eng.baseline = rename_map(eng, fname, fn)
    st = State()
    st.ghost['oom'] = FALSE
    ctx = Ctx(eng, st, 'def', None, case, spec)
    eng.contract = ctx
    st.frames[0]['_at'] = ()
    eng.number_loops(fn)
    old = _base.get(fname + '()')
    if old and eng.baseline:
        old = re.sub('<(\\w+)>', lambda m: '<%s>' % eng.baseline.get(m.group(1), m.group(1)), old)
    eng.reshaped = bool(old) and old != eng.loop_shape
    outs = spec.fn(ctx)
    params = [c for c in fn.get('inner', []) if c['kind'] == 'ParmVarDecl']
    if len(params) != len(ctx.params):
        raise Unsupported('%s has %d parameters, the contract has %d' % (fname, len(params), len(ctx.params)))
    body = [c for c in fn['inner'] if c['kind'] == 'CompoundStmt'][0]
    from .cfront import annotate_lines
    annotate_lines(fn)
    st.frames[0]['_at'] = addr_taken(body)
    for p, v in zip(params, ctx.params):
        ct = eng.tu.ctype(p['type'])
        eng.declare(st, p, ct, v)
    eng.line = fn.get('_line') or 0
    ctx.pre = st.copy()
    ctx.pre.frames = [dict(f) for f in st.frames]
    eng.reach_probes.append(('requires', st.pc))
    rets = 0
    for sig, s, v in eng.block(body, st):
        if sig not in (Sig.RET, Sig.NEXT):
            raise Unsupported('signal ' + sig)
        rets += 1
        eng.exit_line = eng.line
        eng.scope_exit(s, s.frames[-1])
        check_exit(ctx, outs, s, v)
    eng.rets = rets
    if rets == 0:
        eng.fail(st, 'post', 'the function never returns')
    unused = [i for i in ctx.loops if i not in eng.cov_loops and i != '*']
    eng.unused_loops = unused
    return eng


def case_str(case):
    if case is None:
        return None
    if isinstance(case, (tuple, list)):
        return ','.join(str(c) for c in case)
    return str(case)


_base = None


def rename_map(eng, fname, fn):
    """contract local name -> current local name, by declaration order when a declaration list changed"""
    global _base
    p = os.path.join(os.path.dirname(__file__), 'locals.json')
    if _base is None:
        _base = json.load(open(p)) if os.path.exists(p) else {}
    cur = local_decls(fn)
    old = _base.get(fname)
    if not old or old == cur:
        return None
    curn = [n for n, t in cur]
    m = {}
    if len(old) == len(cur):
        for (n0, t0), (n1, t1) in zip(old, cur):
            if n0 != n1 and n0 not in curn and t0 == t1:
                m[n0] = n1
    else:
        import difflib
        a = [n for n, t in old]
        sm = difflib.SequenceMatcher(None, a, curn, autojunk=False)
        for tag, i1, i2, j1, j2 in sm.get_opcodes():
            if tag == 'replace':
                for i, j in zip(range(i1, i2), range(j1, j2)):
                    if old[i][1] == cur[j][1] and a[i] not in curn:
                        m[a[i]] = curn[j]
    return m


def local_decls(fn):
    out = []

    def walk(x):
        if x.get('kind') in ('VarDecl', 'ParmVarDecl') and x.get('name'):
            out.append([x['name'], x['type'].get('qualType', '')])
        for c in x.get('inner', []):
            walk(c)
    walk(fn)
    return out


# --------------------------------------------------------------------------- solving
def consts_of(e, cache):
    i = e.get_id()
    if i in cache:
        return cache[i]
    r = set()
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r.add(x.decl().name())
            elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r.add(x.decl().name())
            stack.extend(x.children())
    cache[i] = r
    return r


def relevant(hyps, goal, rounds, cache):
    want = set(consts_of(goal, cache))
    keep = [False] * len(hyps)
    for _ in range(rounds):
        add = set()
        for k, h in enumerate(hyps):
            if not keep[k]:
                c = consts_of(h, cache)
                if c & want:
                    keep[k] = True
                    add |= c
        if not add - want:
            break
        want |= add
    return [h for k, h in enumerate(hyps) if keep[k]]


def prove(o, cache, timeout=None):
    """discharge one obligation; sets status/backend/time"""
    t0 = time.time()
    timeout = timeout or TIMEOUT
    if is_true(o.goal):
        o.status, o.backend = 'valid', 'simplifier'
        return
    tries = []
    qf = [h for h in o.hyps if not has_quant(h)]
    gq = has_quant(o.goal)
    if not gq:
        tries.append(('z3 (quantifier-free)', qf, dict(timeout=min(1500, timeout))))
    tries.append(('z3', list(o.hyps), dict(timeout=min(3000, timeout), mbqi=False)))
    rel = relevant(o.hyps, o.goal, 2, cache)
    if len(rel) < len(o.hyps):
        tries.append(('z3 (relevant)', rel, dict(timeout=min(3000, timeout), mbqi=False, seed=7)))
    tries.append(('z3 (seed 7)', list(o.hyps), dict(timeout=min(3000, timeout), mbqi=False, seed=7)))
    tries.append(('z3', list(o.hyps), dict(timeout=min(3000, timeout), nl=False, mbqi=False)))
    tries.append(('z3 (fresh)', list(o.hyps), dict(timeout=min(4000, timeout), fresh=True)))
    tries.append(('z3 (by conjunct)', list(o.hyps), dict(timeout=min(3000, timeout), parts=True)))
    tries.append(('z3', rel, dict(timeout=timeout // 3)))
    tries.append(('z3', list(o.hyps), dict(timeout=timeout)))
    for name, hy, opt in tries:
        if opt.get('parts'):
            if by_conjunct(o, opt['timeout']):
                o.status, o.backend, o.time = 'valid', name, time.time() - t0
                return
            continue
        if opt.get('fresh'):
            if try_cli(o, opt['timeout']) == 'unsat':
                o.status, o.backend, o.time = 'valid', name, time.time() - t0
                return
            continue
        s = z3.SimpleSolver()
        s.set('timeout', opt['timeout'])
        s.set('random_seed', opt.get('seed', 1))
        if 'mbqi' in opt:
            s.set('smt.mbqi', opt['mbqi'])
            s.set('auto_config', False)
        if opt.get('nl') is False:
            s.set('smt.arith.nl', False)
        for h in hy:
            s.add(h)
        s.add(z3.Not(o.goal))
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        if r == z3.unsat:
            o.status, o.backend, o.time = 'valid', name, time.time() - t0
            return
        if r == z3.sat and len(hy) == len(o.hyps):
            try:
                m = s.model()
                o.info = 'counterexample: ' + ', '.join('%s=%s' % (d.name(), m[d]) for d in m.decls() if d.arity() == 0 and len(str(m[d])) < 40)[:1500]
            except z3.Z3Exception:
                o.info = 'sat'
            o.status, o.backend, o.time = 'refuted', name, time.time() - t0
            return
        last = r
    r = try_cvc5(o, timeout)
    o.time = time.time() - t0
    if r == 'unsat':
        o.status, o.backend = 'valid', 'cvc5'
        return
    o.status, o.backend, o.info = 'unknown', 'z3+cvc5', 'solvers gave no proof'
    if os.environ.get('VF_SHOW'):
        short = [str(h) for h in o.hyps]
        short = [' '.join(h.split()) for h in short if '9223372036854775807' not in h and '2147483' not in h and 'ForAll' not in h]
        o.info = '\n      ' + '\n      '.join(h[:300] for h in short[-int(os.environ['VF_SHOW']):])
        if os.environ.get('VF_DUMP'):
            s = z3.SimpleSolver()
            [s.add(h) for h in o.hyps]
            s.add(z3.Not(o.goal))
            open(os.environ['VF_DUMP'] + '/%d.smt2' % id(o), 'w').write('; %s %s\n' % (o.kind, o.desc) + s.to_smt2())


def by_conjunct(o, timeout):
    """forall x. a -> c1 & .. & cn  at fresh constants, one ci after another, each with the earlier ones as hypotheses"""
    g, hy = o.goal, list(o.hyps)
    if z3.is_quantifier(g):
        if not g.is_forall():
            return False
        vs = [z3.Const('sk!%s!%d' % (g.var_name(i), i), g.var_sort(i)) for i in range(g.num_vars())]
        g = z3.substitute_vars(g.body(), *reversed(vs))
    while True:
        if z3.is_implies(g):
            hy.append(g.arg(0))
            g = g.arg(1)
        elif z3.is_or(g) and sum(1 for c in g.children() if z3.is_and(c)) == 1:
            hy += [z3.Not(c) for c in g.children() if not z3.is_and(c)]
            g = [c for c in g.children() if z3.is_and(c)][0]
        else:
            break
    if not z3.is_and(g):
        return False
    for c in g.children():
        for nl in (True, False):
            s = z3.SimpleSolver()
            s.set('timeout', timeout)
            s.set('random_seed', 1)
            s.set('smt.mbqi', False)
            s.set('auto_config', False)
            if not nl:
                s.set('smt.arith.nl', False)
            for h in hy:
                s.add(h)
            s.add(z3.Not(c))
            if s.check() == z3.unsat:
                break
        else:
            return False
        hy.append(c)
    return True


def try_cli(o, timeout):
    """the z3 binary on the printed obligation: other term order, full preprocessing"""
    import subprocess, tempfile
    name = None
    try:
        s = z3.SimpleSolver()
        for h in o.hyps:
            s.add(h)
        s.add(z3.Not(o.goal))
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            name = f.name
            f.write(s.to_smt2())
        r = subprocess.run(['z3', '-t:%d' % timeout, name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout / 1000 + 5)
        return r.stdout.decode().strip().split('\n')[0]
    except Exception:
        return 'error'
    finally:
        if name:
            os.unlink(name)


def try_cvc5(o, timeout):
    try:
        s = z3.SimpleSolver()
        for h in o.hyps:
            s.add(h)
        s.add(z3.Not(o.goal))
        txt = s.to_smt2()
        import subprocess, tempfile
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + txt)
        r = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '--quiet', f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout / 1000 + 5)
        os.unlink(f.name)
        return r.stdout.decode().strip().split('\n')[0]
    except Exception:
        try:
            os.unlink(f.name)
        except Exception:
            pass
        return 'error'


def check_probe(pc):
    """vacuity: the path condition must be satisfiable (unsat is a failure; unknown is accepted)"""
    s = z3.SimpleSolver()
    if os.environ.get('VERIF_TIER', 'quick') == 'quick':
        # the same instantiations as in the proofs: E-matching only
        s.set('timeout', 1500)
        s.set('smt.mbqi', False)
        s.set('auto_config', False)
    else:
        s.set('timeout', 4000)
    for h in pc:
        s.add(h)
    return s.check() != z3.unsat


SECOND = [
    ('z3 (seed 7)', dict(seed=7, mbqi=False)),
    ('z3 (seed 11, linear)', dict(seed=11, mbqi=False, nl=False)),
    ('z3 (seed 23, relevant)', dict(seed=23, mbqi=False, rel=1)),
    ('z3 (seed 5, relevant)', dict(seed=5, mbqi=False, rel=2)),
    ('z3 4.8 binary', dict(cli=['z3', 'smt.mbqi=false', 'auto_config=false'])),
    ('z3-new', dict(cli=['z3-new'])),
    ('z3-new (no mbqi)', dict(cli=['z3-new', 'smt.mbqi=false', 'auto_config=false'])),
    ('cvc5', dict(cli=['cvc5'])),
]


def second_one(o, opt, timeout, conn):
    r = 'unknown'
    os.setpgid(0, 0)
    try:
        hy = o.hyps
        if opt.get('rel'):
            hy = relevant(hy, o.goal, opt['rel'], {})
        s = z3.SimpleSolver()
        if 'cli' not in opt:
            s.set('timeout', timeout)
            s.set('random_seed', opt['seed'])
            s.set('smt.mbqi', False)
            s.set('auto_config', False)
            if opt.get('nl') is False:
                s.set('smt.arith.nl', False)
        for h in hy:
            s.add(h)
        s.add(z3.Not(o.goal))
        if 'cli' in opt:
            import subprocess
            cmd = opt['cli']
            if cmd[0] == 'cvc5':
                txt, cmd = '(set-logic ALL)\n' + s.to_smt2(), ['cvc5', '--tlimit=%d' % timeout, '--quiet', '-']
            else:
                txt, cmd = s.to_smt2(), [cmd[0], '-T:%d' % (timeout // 1000), '-in'] + cmd[1:]
            q = subprocess.run(cmd, input=txt.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout / 1000 + 10)
            r = q.stdout.decode().strip().split('\n')[0]
        else:
            r = str(s.check())
    except Exception:
        pass
    conn.send(r)
    conn.close()


def load_factor():
    """solver time is wall-clock time: more of it on a machine that is busy"""
    try:
        return min(3.0, max(1.0, os.getloadavg()[0] / (os.cpu_count() or 8)))
    except OSError:
        return 1.0


def second_chance(o, timeout):
    """an obligation the sequence of solvers could not decide: more seeds and solvers side by side, with more time"""
    t0 = time.time()
    run = []
    for nm, opt in SECOND:
        a, b = CTX.Pipe(False)
        p = CTX.Process(target=second_one, args=(o, opt, timeout, b))
        p.start()
        b.close()
        run.append((nm, p, a))
    left = list(run)
    while left and time.time() - t0 < timeout / 1000 + 15:
        ready = mp.connection.wait([a for _, _, a in left], timeout=1.0)
        for e in list(left):
            if e[2] in ready:
                left.remove(e)
                try:
                    r = e[2].recv()
                except EOFError:
                    r = 'unknown'
                if r == 'unsat':
                    o.status, o.backend, o.info = 'valid', e[0], ''
                    left = []
                    break
    for nm, p, a in run:
        if p.is_alive():
            import signal
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                p.kill()
        p.join()
    o.time += time.time() - t0


def solve_chunk(eng, idxs, probes, conn):
    cache = {}
    out = []
    lost = 0
    for i in idxs:
        o = eng.obls[i]
        if late():
            o.status, o.backend, o.info = 'skipped', '', 'no time left'
        else:
            try:
                prove(o, cache, TIMEOUT if lost < 4 else max(2000, TIMEOUT // 6))
            except Exception as ex:
                o.status, o.info = 'unknown', repr(ex)
            if o.status != 'valid':
                lost += 1
        out.append((i, o.status, o.backend, o.time, o.info))
    pr = []
    for k in probes:
        nm, pc = eng.reach_probes[k]
        try:
            pr.append((k, check_probe(pc)))
        except Exception:
            pr.append((k, True))
    conn.send((out, pr))
    conn.close()


def run_job(fname, case, sem, conn, maxpar=8):
    t0 = time.time()
    res = {'fn': fname, 'case': case_str(case), 'obls': [], 'error': None, 'probes': []}
    sem.acquire()
    try:
        sys.setrecursionlimit(20000)
        eng = symexec(fname, case)
        res['exec_s'] = time.time() - t0
    except Unsupported as ex:
        res['error'] = 'outside the verifier: ' + str(ex)
        res['line'] = None
        conn.send(res)
        sem.release()
        return
    except Exception as ex:
        res['error'] = 'verifier error: ' + repr(ex) + '\n' + traceback.format_exc()[-int(os.environ.get('TB','700')):]
        conn.send(res)
        sem.release()
        return
    sem.release()
    n = len(eng.obls)
    hard = [i for i in range(n) if not is_true(eng.obls[i].goal)]
    for i in range(n):
        if is_true(eng.obls[i].goal):
            eng.obls[i].status, eng.obls[i].backend = 'valid', 'simplifier'
    # dedupe probes
    seen, pk = set(), []
    for k, (nm, pc) in enumerate(eng.reach_probes):
        key = nm
        if key not in seen or len(pk) < 6:
            seen.add(key)
            pk.append(k)
    nch = max(1, min(maxpar * 3, (len(hard) + 14) // 15))
    chunks = [hard[i::nch] for i in range(nch)]
    pchunks = [pk[i::nch] for i in range(nch)]
    procs = []

    def work(c, p, cn):
        with sem:
            solve_chunk(eng, c, p, cn)
    for c, p in zip(chunks, pchunks):
        a, b = CTX.Pipe(False)
        pr = CTX.Process(target=work, args=(c, p, b))
        pr.start()
        b.close()
        procs.append((pr, a, c))
    for pr, a, c in procs:
        try:
            out, prb = a.recv()
            for i, stt, be, tm, info in out:
                o = eng.obls[i]
                o.status, o.backend, o.time, o.info = stt, be, tm, info
            for k, okk in prb:
                res['probes'].append((eng.reach_probes[k][0], okk))
        except EOFError:
            for i in c:
                eng.obls[i].status, eng.obls[i].info = 'unknown', 'solver process ended'
        pr.join()
    left = [o for o in eng.obls if o.status not in ('valid', 'refuted')]
    if 0 < len(left) <= 6 and not os.environ.get('VF_SHOW') and not late():
        got = 0
        try:
            with LOCK:
                for _ in range(4):
                    sem.acquire()
                    got += 1
            for o in left:
                second_chance(o, int(int(os.environ.get('VERIF_TO2', '30000')) * load_factor()))
                if o.status != 'valid':
                    break
        finally:
            for _ in range(got):
                sem.release()
    for o in eng.obls:
        res['obls'].append((o.kind, o.desc, o.line, o.status, o.backend, round(o.time, 2), o.info))
    res['assumptions'] = sorted(eng.assumptions)
    res['called'] = sorted(eng.called)
    res['inlined'] = sorted(eng.inlined)
    res['lemmas'] = sorted(eng.lemmas)
    res['spec_used'] = sorted(eng.lib.spec_used)
    res['op_used'] = sorted(eng.lib.op_used)
    res['wall'] = time.time() - t0
    res['unused_loops'] = eng.unused_loops
    res['reshaped'] = eng.reshaped
    conn.send(res)
    conn.close()


def verify_all(jobs, par=8):
    """jobs: list of (fname, case) -> list of results"""
    sem = CTX.Semaphore(par)
    results = []
    pending = list(jobs)
    running = []
    while pending or running:
        while pending and len(running) < par * 2:
            f, c = pending.pop(0)
            a, b = CTX.Pipe(False)
            p = CTX.Process(target=run_job, args=(f, c, sem, b))
            p.start()
            b.close()
            running.append((p, a, f, c))
        ready = mp.connection.wait([a for _, a, _, _ in running], timeout=1.0)
        for r in list(running):
            p, a, f, c = r
            if a in ready:
                try:
                    results.append(a.recv())
                except EOFError:
                    results.append({'fn': f, 'case': case_str(c), 'obls': [], 'error': 'verifier process ended', 'probes': []})
                p.join()
                running.remove(r)
            elif late(60):
                results.append({'fn': f, 'case': case_str(c), 'obls': [], 'error': 'outside the verifier: no time left', 'probes': []})
                p.kill()
                p.join()
                running.remove(r)
        if late(60):
            for f, c in pending:
                results.append({'fn': f, 'case': case_str(c), 'obls': [], 'error': 'outside the verifier: no time left', 'probes': []})
            pending = []
    return results


def summarize(results, verbose=True):
    ok = True
    for r in sorted(results, key=lambda r: (r['fn'], str(r['case']))):
        bad = [o for o in r['obls'] if o[3] != 'valid']
        vac = [p for p in r['probes'] if not p[1]]
        good = not r['error'] and not bad and not vac and r['obls']
        ok = ok and good
        print('%-32s %-22s %4d obligations, %d failed, %.1fs%s' % (r['fn'], r['case'] or '', len(r['obls']), len(bad), r.get('wall', 0), '' if good else '   <<<<'))
        if r['error']:
            print('    ERROR', r['error'])
        if r.get('reshaped'):
            print('    loops rewritten since the annotations were made')
        for v in vac:
            print('    VACUOUS', v)
        for o in bad[:int(os.environ.get('NB','6'))]:
            print('    %s line %s: %s [%s %ss] %s' % (o[0], o[2], o[1], o[3], o[5], o[6][:int(os.environ.get('NI','0'))]))
        if r.get('unused_loops'):
            print('    contract names loops that are not in the code:', r['unused_loops'])
    return ok


def main():
    from . import contracts
    names = sys.argv[1:]
    jobs = []
    for n in names:
        flt = None
        if ':' in n:
            n, flt = n.split(':', 1)
        for c in SPECS[n].cases:
            if flt is None or case_str(c) == flt:
                jobs.append((n, c))
    t = time.time()
    res = verify_all(jobs)
    ok = summarize(res)
    print('OK' if ok else 'FAILED', '%.1fs' % (time.time() - t))


if __name__ == '__main__':
    main()
