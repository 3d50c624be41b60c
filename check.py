#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]
Decides one property from /repo's current sources.  Exit 0: every obligation discharged;
1: a violation (VIOLATION line); 3: the analysis could not answer (build failure, vanished anchor,
unsupported construct) - never reported as either."""
import sys, os, json, time, tempfile, shutil, traceback, multiprocessing as mp
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
sys.path.insert(0, ROOT)
import runner
import checks


def run_entry(job):
    mod, entry, opts = job
    e = runner.analyse(MODS[mod], entry, opts)
    return dict(entry=entry, err=e.err, viol=e.viol, oblig=e.oblig, reached=e.reached, steps=e.steps, paths=e.paths, forks=e.nforks, loops=e.loopfix, memops=e.memops,
                funcs=sorted(e.funcs_seen), wall=e.wall, infos=e.infos)


MODS = {}


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    spec = checks.CHECKS[prop]
    tmp = tempfile.mkdtemp(prefix='vf-%s.' % prop)
    results, errors, viols = [], [], []
    rules = []
    try:
        jobs = []
        for ui, u in enumerate(spec.get('drivers', [])):
            if tier == 'quick' and u.get('thorough_only'):
                continue
            srcs = [os.path.join(ROOT, 'drivers', u['src'])] + [os.path.join(runner.REPO, 'code', s) for s in u.get('repo', [])]
            utmp = os.path.join(tmp, 'u%d' % ui)
            os.mkdir(utmp)
            defs = list(u.get('defs', []))
            if tier == 'thorough':
                defs += u.get('thorough_defs', [])
            try:
                MODS[ui] = runner.compile_ir(srcs, defs, utmp)
            except runner.BuildError as x:
                errors.append(str(x))
                continue
            es = [n for n in runner.entries(MODS[ui], u.get('prefix', 'chk_')) if not u.get('match') or __import__('re').search(u['match'], n)]
            if len(es) < u.get('min', 1):
                errors.append('driver %s: expected at least %d entries, found %d' % (u['src'], u.get('min', 1), len(es)))
            for n in es:
                jobs.append((ui, n, u.get('opts')))
        if jobs:
            ctx = mp.get_context('fork')
            known = load_known(prop)
            end = t0 + (720 if tier == 'quick' else 6 * 3600)
            with ctx.Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
                it = pool.imap_unordered(safe_run, jobs, 1)
                while len(results) < len(jobs):
                    try:
                        r = it.next(max(1, end - time.time()))
                    except mp.TimeoutError:
                        errors.append('out of time: %d of %d entries were not decided' % (len(jobs) - len(results), len(jobs)))
                        break
                    results.append(r)
                    if any(vkey(dict(v, entry=r['entry'])) not in known for v in r['viol']):
                        end = min(end, time.time() + 120)  # the answer is known; give the other entries a little time to add to it
        results.sort(key=lambda r: r['entry'])
        for fn in spec.get('rules', []):
            r = fn(runner.REPO, tmp, tier)
            rules.append(r)
            errors += r.get('errors', [])
            for v in r.get('viol', []):
                viols.append(v)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    nob = 0
    for r in results:
        if r['err']:
            errors.append('%s: %s' % (r['entry'], r['err']))
        for v in r['viol']:
            v = dict(v)
            v['entry'] = r['entry']
            viols.append(v)
        n = sum(r['oblig'].values())
        nob += n + r['memops']
        if n == 0 and not r['viol'] and not r['err'] and not r['memops']:
            errors.append('%s: no obligation was examined' % r['entry'])
    for r in rules:
        nob += r.get('instances', 0)
        if r.get('instances', 0) == 0 and not r.get('viol') and not r.get('errors'):
            errors.append('rule %s matched nothing' % r.get('rule'))
    known = load_known(prop)
    new, seen = [], []
    for v in viols:
        k = vkey(v)
        if k in known:
            if k not in seen:
                seen.append(k)
        else:
            new.append(v)
    wall = time.time() - t0
    funcs = sorted({f if len(f) <= 160 else f[:157] + '...' for r in results for f in r['funcs']})
    nfuncs, funcs = len(funcs), funcs[:600]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=spec.get('level', 'other'), wall_s=round(wall, 2),
              coverage=dict(explanation=spec['explain'],
                            engine='abstract interpretation of the LLVM IR clang emits for the current sources (relational linear-inequality domain, bounded-region heap, loop fixpoints); no execution, no solver',
                            entries=[dict(entry=r['entry'], obligations=r['oblig'], abstract_paths=r['paths'], state_splits=r['forks'], loop_fixpoints=r['loops'],
                                          memory_accesses_proved_in_bounds=r['memops'], functions=len(r['funcs']), wall_s=round(r['wall'], 2),
                                          error=r['err']) for r in results],
                            functions_analysed=nfuncs, functions=funcs,
                            rules=[{k: v for k, v in r.items() if k not in ('viol',)} for r in rules],
                            obligations=nob, errors=errors, known_findings=seen),
              violations=len(new), assumptions=spec.get('assume', []) + checks.COMMON_ASSUME)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    for k in seen:
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    for i, v in enumerate(new):
        os.makedirs(rdir, exist_ok=True)
        pth = os.path.join(rdir, '%s-%d.json' % (prop, i))
        json.dump(v, open(pth, 'w'), indent=1)
        loc = v.get('loc') or []
        print('VIOLATION property=%s replay=%s' % (prop, pth))
        print('  %s: %s [%s]' % (v.get('kind'), v.get('msg'), v.get('entry', '')))
        for l in loc[:6]:
            print('    at %s:%s in %s' % tuple(l))
        for l in v.get('path', [])[-14:]:
            print('      path: %s' % l)
        if i >= 20:
            break
    for e in errors:
        print('ERROR %s: %s' % (prop, e))
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d entries, %d rules, %d obligations, %d violations, %d known, %d errors, %.1fs' %
          (prop, tier, len(results), len(rules), nob, len(new), len(seen), len(errors), wall))
    if new:
        return 1
    if errors:
        return 3
    return 0


def safe_run(job):
    try:
        return run_entry(job)
    except Exception:
        return dict(entry=job[1], err='internal: ' + traceback.format_exc()[-1500:], viol=[], oblig={}, reached={}, steps=0, paths=0, forks=0, loops=0, memops=0,
                    funcs=[], wall=0, infos=[])


def vkey(v):
    loc = v.get('loc') or [['?', 0, '?']]
    return '%s|%s|%s' % (v.get('entry', v.get('rule', '')), v.get('kind'), v.get('msg') if v.get('kind') in ('check', 'rule') else loc[0][2])


def load_known(prop):
    r = {}
    try:
        d = json.load(open(os.path.join(ROOT, 'known_findings.json')))
    except FileNotFoundError:
        return r
    for f in d.get('findings', []):
        if f['property'] == prop:
            r[f['key']] = f['what']
    return r


if __name__ == '__main__':
    sys.exit(main())
