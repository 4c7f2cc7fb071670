"""check.py <property> : verify one property against the current /repo tree.
exit 0: every obligation of every contract discharged; exit 1 + VIOLATION line; exit 2: the check itself failed."""
import sys, os, time, json, importlib, multiprocessing as mp, subprocess, hashlib, threading, re, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build, ir
import z3
import target as T

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
MODS = {}
WALL, WALL_THOROUGH = 580, 3000   # seconds for the proofs; the native replay of a failure comes on top


def job(a):
    prop, ti, small, thorough = a
    r = [None]

    def go():
        try:
            p = importlib.import_module('props.' + prop.lower())
            tg = p.TARGETS[ti]
            tg = tg() if isinstance(tg, type) else tg
            drv = getattr(tg, 'driver', p.DRIVER)
            res = T.run(MODS[drv], tg, small, keep_smt=thorough and not small,
                        budget=tg.budget if hasattr(tg, 'budget') else 400)
            if (res.error or any(o.status == 'unknown' for o in res.obs)) and not any(o.status == 'refuted' for o in res.obs) \
                    and 'unsupported' not in (res.error or '') and res.wall < 120:
                # give the solver more room before calling an obligation undischarged
                import prove
                prove.SCALE = 4
                z3.set_param('smt.random_seed', 11)
                tg = p.TARGETS[ti]
                tg = tg() if isinstance(tg, type) else tg
                r2 = T.run(MODS[drv], tg, small, keep_smt=thorough and not small, budget=250)
                if not r2.error and all(o.status == 'discharged' for o in r2.obs):
                    res = r2
            if thorough and not small:
                from prove import cvc5_recheck
                res.cvc5 = {}
                seen = {}
                for o in res.obs:
                    if o.smt2:
                        h = hashlib.sha1(re.sub(r'![0-9]+', '', o.smt2).encode()).hexdigest()
                        if h not in seen:
                            seen[h] = cvc5_recheck(o.smt2, 20)
                        res.cvc5[seen[h]] = res.cvc5.get(seen[h], 0) + 1
                        if seen[h] == 'sat':
                            o.status = 'solver-disagreement'
                        o.smt2 = None
            r[0] = res
        except BaseException as e:
            res = T.Result(str(ti))
            res.error = 'engine: ' + traceback.format_exc()[-1500:]
            r[0] = res
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return a, r[0]


def main():
    prop = sys.argv[1]
    thorough = TIER == 'thorough' or '--thorough' in sys.argv
    t0 = time.time()
    p = importlib.import_module('props.' + prop.lower())
    import tempfile, shutil
    os.makedirs(os.path.join(ROOT, 'build'), exist_ok=True)
    outdir = tempfile.mkdtemp(prefix=prop + '_', dir=os.path.join(ROOT, 'build'))
    tgs = [t() if isinstance(t, type) else t for t in p.TARGETS]
    drvs = sorted({getattr(t, 'driver', p.DRIVER) for t in tgs})
    try:
        for d in drvs:
            bc = build.compile_driver(os.path.join(ROOT, 'drivers', d), outdir)
            MODS[d] = ir.Module(bc)
            os.remove(bc)
        shutil.rmtree(outdir, ignore_errors=True)
    except build.BuildError as e:
        shutil.rmtree(outdir, ignore_errors=True)
        print('driver does not build against the current tree:\n%s' % e)
        # the interface the contracts speak about is gone or ill-formed: none of the obligations can be generated
        return violation(prop, p, [], [(d, 'proof', 'driver does not build: ' + str(e)[-3000:])], None, t0)
    jobs = []
    for i, t in enumerate(tgs):
        for small in (False, True):
            if small and getattr(t, 'no_small', False):
                continue
            if not small and getattr(t, 'bounded_only', False):
                continue
            jobs.append((prop, i, small, thorough))
    jobs.sort(key=lambda j: -getattr(tgs[j[1]], 'weight', 1))
    ctx = mp.get_context('fork')
    results = {}
    limit = t0 + (WALL_THOROUGH if thorough else WALL)
    with ctx.Pool(min(8, os.cpu_count() or 4, len(jobs)), maxtasksperchild=1) as pool:
        it = pool.imap_unordered(job, jobs)
        for _ in jobs:
            try:
                a, r = it.next(max(1, limit - time.time()))
            except mp.TimeoutError:
                break   # what is missing is reported as undischarged below
            results[(a[1], a[2])] = r
        pool.terminate()
    for _, ti, small, _ in jobs:
        if (ti, small) not in results:
            r = T.Result(tgs[ti].name)
            r.error = 'time budget'
            results[(ti, small)] = r
    failed, errors, skipped = [], [], []
    nob = ndis = 0
    bound_n = bound_ok = 0
    names = set()
    backends = {}
    fns, contracts, models, loops = set(), set(), set(), 0
    solver_s = 0.0
    slow = []
    cvc5 = {}
    nloops = set()
    undecided = []
    for (ti, small), r in sorted(results.items()):
        t = tgs[ti]
        solver_s += r.solver_s
        bounded = small
        if r.error and r.error.startswith('unsupported: representation'):
            skipped.append((t.name, r.error))   # contracts tied to a representation the tree does not have: the bounded targets decide
            continue
        if r.error:
            errors.append((t.name, 'bounded' if small else 'proof', r.error))
        bad = [o for o in r.obs if o.status != 'discharged']
        if small and not getattr(t, 'bounded_only', False) and (bad or r.error):
            # the cross-check alone ran out of solver resources (nothing refuted) while the unbounded obligations of the same
            # target were all discharged: the proof decides
            full = results.get((ti, False))
            if full is not None and not full.error and full.obs and all(o.status == 'discharged' for o in full.obs) and \
                    r.error in (None, '', 'time budget') and all(o.status == 'unknown' for o in bad):
                undecided += [(t.name, o.name) for o in bad] or [(t.name, r.error)]
                bad = []
                if errors and errors[-1][:2] == (t.name, 'bounded'):
                    errors.pop()
        for o in bad:
            failed.append((t.name, 'bounded' if small else 'proof', o))
        if bounded:
            bound_n += len(r.obs)
            bound_ok += len(r.obs) - len(bad)
            if not r.error and not bad and r.reach < t.expect_paths():
                errors.append((t.name, 'vacuity', 'no completed path is reachable under the precondition'))
        else:
            nob += len(r.obs)
            ndis += len(r.obs) - len(bad)
            for o in r.obs:
                names.add((t.name, o.name, o.loc))
                backends[o.backend] = backends.get(o.backend, 0) + 1
                if o.time > 2:
                    slow.append((t.name, o.name, round(o.time, 1)))
            if not r.error and (not r.obs or r.paths < t.expect_paths()):
                errors.append((t.name, 'vacuity', 'no obligations or no completed path'))
            if t.name and not r.error:
                miss = [c for c in t.covers if not any(c in MODS[getattr(t, 'driver', p.DRIVER)].funcs[f].dem for f in r.fns)]
                t.missing = miss
        fns |= {E_short(MODS[getattr(t, 'driver', p.DRIVER)].funcs[f].dem) for f in r.fns}
        contracts |= {E_short(c) for c in r.contracts}
        models |= r.models
        for w, c in r.loops:
            nloops.add(w)
        for k, v in getattr(r, 'cvc5', {}).items():
            cvc5[k] = cvc5.get(k, 0) + v
    kf = known_findings(prop)
    known_hit = []
    rest = []
    for tn, mode, o in failed:
        k = next((k for k in kf if re.search(k['target'], tn) and re.search(k['obligation'], o.name) and
                  re.search(k.get('where', ''), o.loc or '')), None)
        if k:
            known_hit.append(k['what'])
        else:
            rest.append((tn, mode, o))
    for w in sorted(set(known_hit)):
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    lib = sorted(f for f in fns if 'dd::' in f or f.startswith('drv_'))
    ev = {
        'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': SEED, 'level': 'proof',
        'coverage': {
            'obligations': nob, 'discharged': ndis, 'distinct_obligations': len(names),
            'checker_cmd': 'python3-vt kvc/check.py %s' % prop,
            'trusted_base': TRUSTED + list(getattr(p, 'TRUSTED', [])) + ['library model: ' + m for m in sorted(models)],
            'contracts': [{'target': t.name, 'driver': t.fn, 'mode': 'bounded' if getattr(t, 'bounded_only', False) else 'proof'} for t in tgs],
            'functions_under_contract': lib, 'functions_under_contract_count': len(lib),
            'assumed_or_modular_contracts': sorted(contracts),
            'loops_cut_with_proved_invariants': sorted(nloops),
            'backends': backends, 'solver_s': round(solver_s, 2), 'slow_obligations': slow[:20],
            'bounded_cross_check': {'note': 'the same contracts re-run with small concrete lists and bounded loops; never counted as proved',
                                    'obligations': bound_n, 'discharged': bound_ok - len(undecided), 'undecided': undecided[:20]},
            'unproved': [{'target': tn, 'mode': m, 'obligation': o.name, 'where': o.loc, 'status': o.status} for tn, m, o in rest][:40],
            'errors': errors[:20],
            'contracts_not_applicable_to_this_representation': skipped[:40],
        },
        'wall_s': round(time.time() - t0, 2)}
    if thorough:
        ev['coverage']['cvc5_recheck'] = cvc5
    if not getattr(p, 'EXTRA', None) is None:
        ev['coverage'].update(p.EXTRA)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged (%d distinct), %d functions, bounded cross-check %d/%d, solver %.1fs, wall %.1fs' %
          (prop, ndis, nob, len(names), len(lib), bound_ok, bound_n, solver_s, time.time() - t0))
    for e in errors[:10]:
        print('  undecided: %s [%s]: %s' % e)
    if not rest and not errors:
        if skipped:
            print('  %d contracts do not apply to the representation in this tree: %s' % (len(skipped), skipped[0][1]))
            ok, log = replay(prop, [])
            if ok:
                return violation(prop, p, rest, [(a, 'representation', b) for a, b in skipped], ev, t0)
        return 0
    return violation(prop, p, rest, errors, ev, t0)


def E_short(d):
    import engine
    return engine.short(d)


TRUSTED = [
    'kvc itself (verif/kvc: IR semantics, memory model, Houdini invariants) and z3',
    'clang 18 front end, coroutine splitting and SROA/mem2reg as the semantics of the source (the tests are built with gcc from the same text)',
    'template code is checked at the instantiations in verif/drivers',
    'interleaving semantics with explicit acquire/release obligations instead of the full C++ memory model',
]


def known_findings(prop):
    f = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get('known', []) if k['property'] == prop]


def violation(prop, p, rest, errors, ev, t0):
    outdir = os.path.join(ROOT, 'out')
    os.makedirs(outdir, exist_ok=True)
    path = os.path.join(outdir, prop + '.replay.txt')
    lines = ['property %s' % prop, '']
    # concrete counterexamples (bounded mode) first
    order = sorted(rest, key=lambda x: (x[1] != 'bounded', x[2].status != 'refuted'))
    for tn, mode, o in order[:25]:
        lines.append('FAILED OBLIGATION [%s] contract of %s: %s' % (mode, tn, o.name))
        lines.append('   at %s   status: %s' % (o.loc, o.status))
        if o.note:
            lines.append('   note: %s' % o.note)
        if o.trail:
            lines.append('   path (line,target block): %s' % (o.trail,))
        if o.model and mode == 'bounded':
            lines.append('   counterexample: %s' % o.model.replace('\n', ' ')[:1500])
        lines.append('')
    for e in errors:
        lines.append('UNDECIDED %s [%s]: %s' % e)
    for tn, mode, o in order[:6]:
        print('  failed [%s] %s: %s (%s) %s' % (mode, tn, o.name, o.loc, o.status))
    ok, log = replay(prop, lines)
    lines.append('')
    lines.append('NATIVE REPLAY: %s' % ('reproduced' if ok else 'not reproduced'))
    lines.append(log)
    open(path, 'w').write('\n'.join(lines))
    if ok:
        print('VIOLATION property=%s replay=%s' % (prop, path))
    else:
        if errors and not rest and any('MemoryError' in e[2] or 'OSError' in e[2] for e in errors):
            print('check failed: ' + errors[0][2])
            return 2
        # an obligation that the verifier could not even generate from the changed source is an undischarged one
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    return 1


def replay(prop, lines):
    src = os.path.join(ROOT, 'replay', prop.lower() + '.cpp')
    if not os.path.exists(src):
        return False, 'no native replay for this property'
    import replayrun
    return replayrun.run(ROOT, prop, src)


if __name__ == '__main__':
    sys.exit(main())
