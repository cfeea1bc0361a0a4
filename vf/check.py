#!/usr/bin/env python3
"""check.py <property> [--unit REGEX] [--keep]: decide one property on /repo's current tree."""
import argparse, json, os, re, shutil, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vfrun
from vfrun import VERIF, REPO
import props

BASE_TRUST = [
    'CBMC 6.11 (goto-cc front end, goto-instrument --dfcc instrumentation, symbolic execution, bundled SAT solver)',
    "CBMC's models of libc (memcpy, strcmp, calloc, free, ...)",
    'x86-64 little-endian data model (LP64); other targets are not covered',
    'struct metac_entry is verified with its anonymous union given separate storage per arm (mechanical edit of a copy '
    'of include/metac/backend/entry.h on every run; works round a CBMC points-to limitation); native replay uses the real header',
]


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            m = re.match(r'known: property=(\S+) unit=(\S+) obligation=(\S+) (.*)', ln)
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--unit')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--refute', action='store_true', help='run the bounded refuters as well, whatever the proofs say')
    a = ap.parse_args()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    budget = float(os.environ.get('VF_BUDGET', '780' if tier == 'quick' else '7200'))
    deadline = t0 + budget
    P = props.PROPS[a.prop]
    units = [u for u in P['units'] if tier == 'thorough' or u.tier == 'quick']
    if a.unit:
        units = [u for u in units if re.search(a.unit, u.name)]
    scratch = tempfile.mkdtemp(prefix='vf_%s_' % a.prop)
    rc = 1
    try:
        rc = decide(a, P, units, scratch, tier, seed, t0, deadline)
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print('scratch', scratch)
    sys.exit(rc)


def run_one(ctx, u, deadline):
    if u.kind == 'sampled':
        return vfrun.run_sampled(ctx, u, deadline, int(os.environ.get('VERIF_SEED', '1')))
    return vfrun.run_unit(ctx, u, deadline)


def run_all(ctx, units, deadline, verbose):
    with ThreadPoolExecutor(max_workers=int(os.environ.get('VF_JOBS', '8'))) as ex:
        futs = [(u, ex.submit(run_one, ctx, u, deadline)) for u in sorted(units, key=lambda u: -u.weight)]
        res = []
        for u, f in futs:
            r = f.result()
            res.append(r)
            if verbose or r.status not in ('discharged', 'sampled'):
                print('  %-34s %-11s %4d/%4d obligations %6.1fs %s' % (u.name, r.status, r.discharged, r.obligations, r.wall_s, r.why.strip().splitlines()[0][:300] if r.why else ''))
                for x in sorted(r.failed + r.soft, key=lambda x: x[3])[:5]:
                    print('      %s: %s (%s)' % (x[0], x[1][:140], x[2][:100]))
            sys.stdout.flush()
            if r.failed and os.environ.get('VF_FAILFAST'):   # development only: the first failure is enough
                for _, g in futs:
                    g.cancel()
                break
    return res


def decide(a, P, units, scratch, tier, seed, t0, deadline):
    prop = a.prop
    ctx = vfrun.Ctx(os.path.join(scratch, 'w'))
    main_units = [u for u in units if u.kind in ('proof', 'bounded', 'sampled')]
    refuters = [u for u in units if u.kind == 'refute']
    soft_dl = t0 + (deadline - t0) * 0.62
    res = run_all(ctx, main_units, soft_dl, a.v)
    failed = [r for r in res if r.status == 'failed' or r.soft]
    undecided = [r for r in res if r.status == 'undecided']
    known = known_findings(prop)
    printed_known = set()
    for r in res:
        keep = []
        for f in r.failed:
            k = [k for k in known if re.fullmatch(k[0], r.unit.name) and re.fullmatch(k[1], f[0])]
            if k:
                printed_known.add(k[0][2])
            else:
                keep.append(f)
        if len(keep) != len(r.failed):
            r.failed = keep
            if not keep and r.status == 'failed':
                r.status = 'known'
    failed = [r for r in res if r.failed or r.soft]
    for k in sorted(printed_known):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    confirmed = None
    with ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(lambda r: r.confirmed or vfrun.replay(ctx, r, deadline), failed))
    confirmed = next((r for r in failed if r.confirmed), None)
    if not confirmed and (failed or undecided):   # sample the harnesses of the units in question on the real code
        want = [r.unit for r in failed + undecided if r.unit.native and r.unit.kind != 'sampled'][:24]
        with ThreadPoolExecutor(max_workers=8) as ex:
            sres = list(ex.map(lambda u: vfrun.run_sampled(ctx, u, deadline, seed, 200000, 15), want))
        for x in sres:
            if x.confirmed:
                confirmed = x
                break
    hard = [r for r in failed if r.failed]
    rres = []
    if not confirmed and (hard or undecided or [r for r in failed if r.soft] or a.refute or tier == 'thorough') and refuters:
        rres = run_all(ctx, refuters, deadline - 60, a.v)
        rf = [r for r in rres if r.failed or r.soft]
        with ThreadPoolExecutor(max_workers=8) as ex:
            list(ex.map(lambda r: vfrun.replay(ctx, r, deadline), rf))
        confirmed = next((r for r in rf if r.confirmed), None)
        hard += [r for r in rf if r.failed]
    # an obligation of a proof unit that is only "undecided" is not an alarm
    violation = confirmed or (hard[0] if hard else None)
    if a.v and confirmed:
        print('confirmed natively:', confirmed.unit.name, confirmed.confirmed[2], confirmed.confirmed[4][-300:])
    line = None
    if violation:
        path = write_replay(prop, violation, confirmed is not None, ctx)
        line = 'VIOLATION property=%s replay=%s' % (prop, path) + ('' if confirmed else ' no-failing-input-found')
    soft_only = [r for r in failed if r.soft and not r.failed]
    evidence(prop, P, tier, seed, t0, res, rres, undecided, soft_only, violation, ctx)
    tot = sum(r.obligations for r in res)
    dis = sum(r.discharged for r in res)
    print('%s: %d/%d obligations discharged in %d units (%d undecided), %.1f s' % (prop, dis, tot, len(res), len(undecided), time.time() - t0))
    if line:
        print(line)
        return 1
    return 0


def write_replay(prop, r, confirmed, ctx):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, '%s-%s' % (prop, re.sub(r'[^A-Za-z0-9_.-]', '_', r.unit.name)))
    with open(base + '.txt', 'w') as f:
        f.write('property %s, unit %s (file units/%s)\n' % (prop, r.unit.name, r.unit.file))
        f.write('contract enforced on: %s\n' % ', '.join(r.unit.contracts))
        f.write('failed obligations:\n')
        for x in r.failed + r.soft:
            f.write('  [%s] %s: %s  (%s)\n' % (x[0], x[1], x[3], x[2]))
        if confirmed:
            ob, vals, bad, rc, out, ncmd = r.confirmed
            f.write('\nThe verifier\'s counterexample for [%s] was run on the real code (gcc, AddressSanitizer): %s (exit %s)\n' % (ob[0], bad, rc))
            f.write('inputs, in order of use: %s\n' % ' '.join(map(str, vals)))
            f.write('native build: %s\n\n%s\n' % (' '.join(ncmd), out[-6000:]))
        else:
            f.write('\nno failing input found: ' + '; '.join(r.notes)[-3000:] + '\n')
        f.write('\nverifier command: %s\n\nverifier output (tail):\n' % r.cmd)
        f.write('\n'.join(l for l in r.out.splitlines() if not l.endswith(': SUCCESS'))[-8000:])
    if confirmed:
        open(base + '.inputs', 'w').write('\n'.join(map(str, r.confirmed[1])) + '\n')
    return base + '.txt'


def evidence(prop, P, tier, seed, t0, res, rres, undecided, soft_only, violation, ctx):
    proved = [r for r in res if r.unit.kind == 'proof']
    bounded = [r for r in res if r.unit.kind in ('bounded', 'sampled')]
    full = all(r.status == 'discharged' and not r.soft for r in proved)
    cov = {
        'obligations': sum(r.obligations for r in proved) if proved else sum(r.obligations for r in bounded),
        'discharged': sum(r.discharged for r in proved) if proved else sum(r.discharged for r in bounded),
        'checker_cmd': 'goto-cc; goto-instrument --dfcc harness --enforce-contract F; ' + (res[0].cmd if res else ''),
        'trusted_base': BASE_TRUST + P.get('trusted', []),
        'functions_under_contract': sorted({f for r in res for f in r.unit.contracts}),
        'back_end': 'CBMC bit-blasting + SAT (CaDiCaL, bundled with CBMC) unless the unit names another',
        'solver_seconds': round(sum(r.solver_s for r in res), 2),
        'units': [{
            'unit': r.unit.name, 'kind': r.unit.kind, 'status': r.status, 'obligations': r.obligations,
            'discharged': r.discharged, 'seconds': round(r.wall_s, 2), 'bound': r.unit.bound,
            'reachability_guards': r.reach, 'contracts_enforced': r.unit.enforce, 'contracts_assumed': r.unit.replace,
            'loop_invariants': [c['id'] for c in r.unit.cuts],
            'note': '; '.join([r.why] * bool(r.why) + r.notes)[:600],
            'soft_undischarged': [x[0] for x in r.soft][:10],
        } for r in res + rres],
        'undecided_units': [r.unit.name for r in undecided],
        'bounded_obligations': sum(r.obligations for r in bounded),
        'bounded_discharged': sum(r.discharged for r in bounded),
    }
    level = P['level']
    if level == 'proof' and not full:
        level = 'other'
        cov['explanation'] = ('not every proof obligation was discharged on this run (%s); the verdict rests on the bounded checks listed in units'
                              % ', '.join([r.unit.name for r in proved if r.status != 'discharged' or r.soft]))
    elif level == 'other':
        cov['explanation'] = P.get('explanation', 'bounded contract check, see units[].bound')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': P.get('assumptions', []) + ctx.notes, 'wall_s': round(time.time() - t0, 2),
          'violations': 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
