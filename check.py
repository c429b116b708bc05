#!/usr/bin/env python3
"""Decide one property by static analysis of /repo's current source.

usage: check.py <property> [--tier quick|thorough] [--root /repo]
exit 0: held; exit 1 + VIOLATION line: broken; exit 2: analysis error.
"""
import argparse
import importlib
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from absint import run, judge, model          # noqa: E402
from checks import scopes, generic                     # noqa: E402

KNOWN = os.path.join(HERE, 'known-findings.txt')


def known():
    """rule -> list of (property, key, text)"""
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', ln.strip())
            if m:
                out.append(m.groups())
    return out


def where(prog, sid):
    q = sid.split('@')[0]
    f = prog.fns.get(q)
    if f is None:
        return q
    return '%s:%d %s' % (os.path.relpath(f.mod.path, prog.root)
                         if hasattr(f.mod, 'path') else f.mod.name,
                         f.node.lineno, q)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--root', default='/repo')
    a = ap.parse_args()
    t0 = time.time()
    pid = a.prop
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    judge.REFDIR = os.path.join(HERE, 'ref')
    run.META = judge.meta()
    try:
        run.init(a.root)
    except (model.Broken, SyntaxError, OSError) as e:
        print('ANALYSIS-ERROR: cannot load %s: %s' % (a.root, e))
        return 2
    prog = run.PROG
    scope = [re.compile(p) for p in scopes.SCOPES.get(pid, ())]
    refspecs = [] if pid in scopes.NOVALUES else [
                s for s in run.META['specs']
                if any(p.fullmatch(s) for p in scope)]
    missing = [s for s in refspecs if s not in run.SPECS]
    ids = [s for s in refspecs if s in run.SPECS]
    if refspecs and len(missing) * 4 > len(refspecs):
        print('ANALYSIS-ERROR: %d of %d anchors of %s are gone: %s' % (
            len(missing), len(refspecs), pid, ', '.join(missing[:8])))
        return 2
    lim = 60
    if a.tier != 'quick':
        # also every function the entry points in scope are built from, as
        # an entry point of its own (for all its callers and arguments)
        lim = 240
        called = set()
        for s in ids:
            called |= set((judge.doc(s.split('.')[0]).get(s) or
                           {}).get('fns', ()))
        ids += sorted(s for s in run.META['specs'] if s in run.SPECS and
                      s not in ids and run.SPECS[s].entry in called)
    nfacts = same = icdn = 0
    soft, hard, und, sig, fns = [], [], [], [], set()
    samples = []
    rules = []
    kn = [(k, t) for p, k, t in known() if p in (pid, '*')]
    waiv = [(re.compile(k[5:]), t) for k, t in kn if k.startswith('fact:')]
    for sid, r, dt in run.run(a.root, ids, judge.judge, lim=lim):
        if r[0] != 'ok':
            und.append((sid, r))
            continue
        d = r[1]
        icdn += d['icdn'].get(pid, 0)
        for p, k, m in d['icd']:
            if p == pid:
                hard.append(('interface-document', sid, k, m))
        if d.get('new') or d.get('signature'):
            sig.append(sid)
            continue
        nfacts += d['facts']
        same += d['same']
        fns |= set(d.get('fns', ()))
        if len(samples) < 6 and d.get('sample'):
            samples.append('%s: %s' % (sid, d['sample']))
        for k, m in d['hard']:
            if scopes.ONLY.get(pid) and not scopes.ONLY[pid](k, m):
                continue
            if not any(w.search('%s:%s' % (sid, k)) for w, _ in waiv):
                hard.append(('value', sid, k, m))
        for k, m in d['soft']:
            soft.append((sid, k, m))
    rules, found = generic.run(prog, scope, scopes.RULES.get(pid))
    if icdn:
        rules.append({'rule': 'interface-document field width, sign, scale',
                      'instances': icdn})
    try:
        rm = importlib.import_module('checks.rules_' + pid.lower())
    except ModuleNotFoundError as e:
        if 'rules_' not in str(e):
            raise
        rm = None
    if rm is not None:
        R = rm.check(prog, a.tier)
        rules += R['rules']
        found += R['findings']
        if R.get('error'):
            print('ANALYSIS-ERROR: ' + R['error'])
            return 2
    shown = set()
    for rule, con, msg in found:
        key = 'rule:%s:%s' % (rule, con)
        w = [t for k, t in kn if k == key or k.startswith('rule~') and
             re.fullmatch(k[5:], '%s:%s' % (rule, con))]
        if w:
            if key not in shown:
                print('KNOWN-FINDING: property=%s %s %s' % (pid, key, w[0]))
            shown.add(key)
        else:
            hard.append(('rule ' + rule, con, '', msg))
    for k, t in kn:
        if k.startswith('fact:'):
            print('KNOWN-FINDING: property=%s %s %s' % (pid, k, t))
    hard.sort()
    wall = time.time() - t0
    if pid in scopes.NOVALUES:
        fns = {q for q in prog.fns if any(
            p.fullmatch(q) or p.fullmatch(q + '@full') for p in scope)}
        expl = ('Static analysis of %s: every construct of the %d functions '
                'and methods in scope that one of the %d rules below applies '
                'to (%d instances in total) was resolved against the class, '
                'call and definition graph of the current source; no value '
                'terms are needed for these rules.' % (
                    a.root, len(fns), len(rules),
                    sum(r['instances'] for r in rules
                        if isinstance(r['instances'], int))))
        samples = ['%s (%s instances)' % (r['rule'][:160], r['instances'])
                   for r in rules]
    else:
        expl = None
    ev = {
        'property': pid, 'tier': a.tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': expl or
                'Static analysis of %s: %d entry points were abstractly '
                'interpreted over all paths (callees inlined, branches kept '
                'as decision terms, loops summarised) into %d value facts '
                '(returned values, attributes, container slots, ordered '
                'effects), each compared as a normalised term with the '
                'reviewed reference; plus the rules listed.' % (
                    a.root, len(ids) - len(und), nfacts),
            'entry_points': len(ids), 'facts': nfacts,
            'facts_equal': same, 'facts_violating':
                sum(1 for h in hard if h[0] == 'value'),
            'facts_undecided': len(soft),
            'entry_points_undecided': [u[0] for u in und],
            'entry_points_signature_changed': sig,
            'anchors_missing': missing,
            'functions_inlined': len(fns),
            'rules': rules,
            'samples': samples or ids[:6]},
        'wall_s': round(wall, 2),
        'assumptions': [
            'Python semantics as modelled in absint/engine.py; external '
            'library functions (numpy, bitstruct, math, ...) are pure, '
            'uninterpreted functions of their arguments except where '
            'absint/extlib.py models them',
            'the reviewed reference in ref/ states the intended behaviour '
            'except for the listed known findings'],
        'violations': len(hard)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d entry points, %d facts (%d equal, %d undecided), '
          '%d undecided entry points, %d rules, %.1f s' % (
              pid, len(ids), nfacts, same, len(soft), len(und), len(rules),
              wall))
    for r in rules:
        print('  rule %(rule)s: %(instances)s instances' % r)
    for u in und[:5]:
        print('  undecided: %s %s' % u)
    for s in soft[:5]:
        print('  undecided fact: %s %s' % (s[0], s[1][:100]))
    if hard:
        p = os.path.join(HERE, 'evidence', pid + '.violation.json')
        with open(p, 'w') as f:
            json.dump([{'rule': h[0], 'entry': where(prog, h[1]),
                        'construct': h[2], 'detail': h[3]} for h in hard],
                      f, indent=1)
        for h in hard[:8]:
            print('  %s | %s | %s | %s' % (h[0], where(prog, h[1]), h[2][:160],
                                           h[3][:600]))
        print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
