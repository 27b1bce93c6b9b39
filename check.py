#!/usr/bin/env python3
"""check.py CXX: decides one property on /repo's current tree.  Exit 0: held on everything covered; 1: violated."""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'fx'))
import engine
import concrete2

LEVEL = {}


def contracts():
    """runs the contracts the proofs assume of std, bytes and pest on the real crates: evidence for the assumption, never an alarm"""
    try:
        r = subprocess.run([engine.build(('fxcontracts',))['fxcontracts']], capture_output=True, text=True, timeout=60)
        out = {l.split(' ', 1)[0]: int(l.split()[1]) if l.split()[1].isdigit() else l.split(' ', 1)[1] for l in r.stdout.splitlines() if ' ' in l}
        return {'cases': out, 'agree': r.returncode == 0}
    except (engine.Broken, OSError, subprocess.TimeoutExpired) as e:
        return {'not_run': str(e)[:300]}


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    known = json.load(open(os.path.join(ROOT, 'known_findings.json')))
    allowed = {k['id']: k for k in known['known'] if k['property'] == prop}
    cx = concrete2.Ctx(prop, seed, tier)
    proof = None
    try:
        try:
            import proofs
            proof = proofs.run(prop, cx)
        except ImportError:
            proof = None
        getattr(concrete2, prop.lower())(cx)
    except engine.Broken as e:
        print('%s: the check could not run: %s' % (prop, e))
        return 2
    finally:
        cx.close()
    for fid, what in sorted(cx.known.items()):
        if fid in allowed:
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, fid, what))
        else:
            cx.bad('%s: %s' % (fid, what), kind='finding')
    lines, nv = [], 0
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rdir, f))
    failed = proof['failed'] if proof else []
    if cx.viol:
        p = os.path.join(rdir, '%s-%d.json' % (prop, seed))
        json.dump({'property': prop, 'violations': cx.viol[:10], 'failed_obligations': failed}, open(p, 'w'), indent=1, default=repr)
        print('%s: %s' % (prop, cx.viol[0]['what'][:600]))
        print('VIOLATION property=%s replay=%s' % (prop, p))
        nv = len(cx.viol)
    elif failed:
        p = os.path.join(rdir, '%s-%d.json' % (prop, seed))
        json.dump({'property': prop, 'violations': [], 'failed_obligations': failed}, open(p, 'w'), indent=1, default=repr)
        print('%s: obligation not discharged: %s' % (prop, failed[0].get('obligation', '')[:300]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
        nv = len(failed)
    cov = {'evaluations': cx.evals, 'distinct_nontrivial': getattr(cx, 'nontrivial', len(cx.keys)), 'rule': cx.rule, 'samples': cx.samples or ['-'],
           'programs': getattr(cx, 'programs', 0), 'disagreements_checked': cx.evals, 'notes': cx.notes[:10]}
    if getattr(cx, 'guide_n', None):
        cov['text_search'] = {'specifications': cx.guide_n[0], 'text_not_the_contract': cx.guide_n[1], 'examined': cx.guide_n[2]}
    level = 'exploration'
    if proof:
        cov['assumed_contracts_run'] = contracts()
        cov.update(proof['coverage'])
        level = proof.get('level', 'proof')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': proof['assumptions'] if proof else [],
          'wall_s': round(time.time() - t0, 2), 'violations': nv}
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1, default=repr)
    if not nv:
        print('%s: held (%d bounded evaluations%s, %.1f s)' % (prop, cx.evals, ', %d obligations discharged' % cov['discharged'] if proof else '', time.time() - t0))
    return 1 if nv else 0


if __name__ == '__main__':
    sys.exit(main())
