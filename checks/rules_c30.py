"""C30: what the abstract interpretation of every entry point says can fail
for want of a value.

A local is possibly unassigned at a read if (a) some path of the function's
control-flow graph reaches the read without an assignment and (b) the gated
value of the local at that read still contains the unassigned case under the
conditions of the read.  Names and attributes that resolve to nothing, and
unpackings and calls of the wrong number of values, come from the
interpretation alone.  Compared with the reviewed sets, so that what the
reviewed tree leaves to its callers (a message type that is known to be one of
a few) raises no alarm."""
from absint import run
from . import generic

MSG = {
    'undef': 'local %s may be unassigned where it is read',
    'undefattr': '%s.%s is set nowhere',
    'arity': 'unpacking into %s targets does not match the value',
    'callarity': 'call of %s with %s arguments',
}


def fails(en):
    """{'kind:function:what': line}"""
    out = {}
    for kd, _, wh, a in en.events:
        if kd == 'undefname':
            kd = 'undef'
        if kd not in MSG:
            continue
        s = [x if isinstance(x, str) else
             str(x.args[-1]) if getattr(x, 'op', '') == 'c' else str(x.op)
             for x in a[:MSG[kd].count('%s')]]
        fn, ln = str(wh).rsplit(':', 1)
        out.setdefault('|'.join([kd, fn] + s), ln)
    return out


def collect(sid, F, prog):
    return 'ok', fails(F.en)


def definite(prog):
    """{function: (locals, {local read where not definitely assigned})}"""
    return {q: (set(a.locals), set(a.bad)) for q, a in (
        (q, generic.Definite(f.node)) for q, f in generic.functions(prog))}


def check(prog, tier):
    ref = (run.META or {}).get('fails')
    if not ref:
        return {'rules': [], 'findings': [],
                'error': 'no reviewed set of possible failures'}
    old, loc = set(ref['events']), ref['locals']
    D = definite(prog)
    ids = [s for s in run.META['specs'] if s in run.SPECS]
    n = late = 0
    seen = {}
    for sid, r, dt in run.run(prog.root, ids, collect,
                              lim=60 if tier == 'quick' else 240):
        if r[0] != 'ok':
            late += 1
            continue
        n += 1
        for k, ln in r[1].items():
            seen.setdefault(k, (ln, sid))
    found, reads = [], 0
    cnt = {}
    for k in old:
        kd, fn = k.split('|')[:2]
        cnt[kd, fn] = cnt.get((kd, fn), 0) + 1
    new = {}
    for k in seen:
        kd, fn, *s = k.split('|')
        if kd == 'undef':
            ls, bad = D.get(fn, ((), ()))
            if s[0] not in bad or fn not in loc:
                continue
            was = set(loc[fn][0])
            # a renamed local is not new
            if s[0] in loc[fn][1] or s[0] not in was and not was <= ls:
                continue
        new.setdefault((kd, fn), []).append(k)
    for (kd, fn), ks in sorted(new.items()):
        reads += len(ks)
        if fn not in loc or kd != 'undef' and len(ks) <= cnt.get((kd, fn), 0):
            continue
        for k in sorted(ks):
            if k not in old:
                s = k.split('|')[2:]
                found.append(('possible-failure', '%s:%s:%s' % (
                    fn, kd, ','.join(s)), '%s (line %s; entry point %s)' % (
                        MSG[kd] % tuple(s), *seen[k])))
    return {'rules': [{
        'rule': 'a local read in an entry point (callees inlined, paths '
                'gated) is assigned on every admitted path; names, attributes '
                'and numbers of values resolve (entry points analysed; %d not '
                'analysed, %d reviewed possible failures)' % (late, len(old)),
        'instances': n}], 'findings': found}


def record(prog, events):
    """the reviewed sets"""
    loc = {q: [sorted(ls), sorted(bad)]
           for q, (ls, bad) in definite(prog).items()}
    for k in events:
        kd, fn, *s = k.split('|')
        if kd == 'undef' and fn in loc and s[0] not in loc[fn][1]:
            loc[fn][1].append(s[0])
    return {'events': sorted(events), 'locals': loc}
