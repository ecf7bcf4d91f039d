#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> : verifies one property of /repo's current tree.
exit 0: every obligation discharged; exit 1: VIOLATION line(s)."""
import sys, os, json, time, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'irdv'))
import multiprocessing as mp


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import registry, jobs
    prop = registry.PROPS[pid]
    specs = prop.jobs(tier)
    ctx = mp.get_context('spawn')
    results = []
    with ctx.Pool(min(8, len(specs)), maxtasksperchild=1) as pool:
        hs = [pool.apply_async(jobs.run_job, (s,)) for s in specs]
        for s, h in zip(specs, hs):
            left = max(20, 780 - (time.time() - t0))
            try:
                results.append(h.get(left))
            except mp.TimeoutError:
                results.append(dict(spec=s, obls=[dict(name=f'{s[0]}({", ".join(map(str, s[1].values()))}):verifier', status='unknown',
                                                       backend='-', time=0, detail='time limit', cex=None)], info={}, err='time limit', wall=left))
        pool.terminate()
    obls = []
    for r in results:
        for o in r['obls']:
            if prop.wants(o['name']):
                o['job'] = r['spec']
                obls.append(o)
    for r in results:
        mn = prop.minimum(r['spec'])
        n = sum(1 for o in r['obls'] if prop.wants(o['name']))
        if n < mn:
            obls.append(dict(name=f'{r["spec"]}:vacuity', status='unknown', backend='-', time=0, job=r['spec'],
                             detail=f'only {n} obligations, at least {mn} expected', cex=None))
    bad = [o for o in obls if o['status'] != 'proved']
    known, viol = [], []
    kf = load_known(pid)
    for o in bad:
        k = next((k for k in kf if re.fullmatch(k['obligation'], o['name'])), None)
        (known if k else viol).append((o, k))
    code = 0
    for k in kf:
        hit = [o for o, kk in known if kk is k]
        if hit:
            print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    if viol:
        code = 1
        rep = os.path.join(HERE, 'evidence', f'{pid}.replay.json')
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        native = None
        vs = [o for o, _ in viol]
        try:
            native = prop.replay(vs, seed)
        except Exception as e:
            native = dict(confirmed=False, error=f'{type(e).__name__}: {e}')
        json.dump(dict(property=pid, failed_obligations=[{k: v for k, v in o.items()} for o in vs[:60]],
                       number_failed=len(vs), replay=native), open(rep, 'w'), indent=1, default=str)
        for o in vs[:8]:
            print(f'failed obligation ({o["status"]}): {o["name"]}')
            print('   ' + o['detail'][:600].replace('\n', '\n   '))
        ok = bool(native and native.get('confirmed'))
        if ok:
            print('replayed on the real code: ' + str(native.get('input'))[:600])
        print(f'VIOLATION property={pid} replay={rep}' + ('' if ok else ' no-failing-input-found'))
    write_evidence(pid, tier, seed, prop, results, obls, len(viol), time.time() - t0, kf)
    n = sum(1 for o in obls if o['status'] == 'proved')
    print(f'{pid}: {n}/{len(obls)} obligations discharged, {len(results)} jobs, {time.time() - t0:.1f} s')
    sys.stdout.flush()
    os._exit(code)


def load_known(pid):
    f = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))['findings'] if k['property'] == pid]


def write_evidence(pid, tier, seed, prop, results, obls, nviol, wall, kf):
    by = {}
    for o in obls:
        k = o['backend'] if o['status'] == 'proved' else o['status']
        by[k] = by.get(k, 0) + 1
    fns, con = set(), set()
    paths = 0
    for r in results:
        fns |= set(r['info'].get('functions', []))
        con |= set(r['info'].get('contracts', []))
        paths += r['info'].get('paths', 0)
    isb = {str(r['spec']): r['info'].get('bound') for r in results if r['info'].get('bound')}
    bounded = {}
    for o in obls:
        b = isb.get(str(o.get('job')))
        if b and o['status'] == 'proved':
            k = f'{o["name"].split("/")[0]}: {b}'
            bounded[k] = bounded.get(k, 0) + 1
    unb = [o for o in obls if str(o.get('job')) not in isb]
    samples = []
    step = max(1, len(obls) // 12)
    for o in obls[::step][:12]:
        samples.append(dict(obligation=o['name'], status=o['status'], backend=o['backend']))
    cov = dict(obligations=len(unb), discharged=sum(1 for o in unb if o['status'] == 'proved'), by_backend=by,
               checker_cmd=f'/verif/check.py {pid}', functions_under_contract=sorted(fns), trusted_base=prop.trusted() + [
                   'contract used instead of the body: ' + c for c in sorted(con)],
               symbolic_paths=paths, solver_time_s=round(sum(o['time'] for o in obls), 2), bounded_not_counted_as_proved=bounded, samples=samples,
               jobs=[dict(job=str(r['spec']), obligations=len(r['obls']), wall_s=round(r['wall'], 1)) for r in results])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(dict(property=pid, tier=tier, seed=seed, level=prop.level, coverage=cov, assumptions=prop.assumptions(), wall_s=round(wall, 2),
                   violations=nviol), open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
