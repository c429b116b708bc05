"""Write the reference facts of the current tree (run by hand after review)."""
import sys
import time
from . import facts, ref, run, terms as X
from checks import rules_c30


def params(fn):
    a = fn.node.args
    return len(a.posonlyargs + a.args) - len(a.defaults)


def pack(sid, F, prog):
    """facts -> {key: [digest, node index]}, nodes"""
    W = ref.Writer()
    out = {}
    for k, v in F.f.items():
        out[k] = [v.dg, W.put(v)]
    return ('ok', {'facts': out, 'nodes': W.nodes,
                   'fns': sorted(F.en.inlined),
                   'alias': sorted(F.alias), 'inpl': sorted(F.inpl),
                   'bind': sorted(F.bind),
                   'fails': sorted(rules_c30.fails(F.en)),
                   'params': params(prog.fns[run.SPECS[sid].entry])})


def digests(sid, F, prog):
    return ('ok', {k: v.dg for k, v in F.f.items()})


def main():
    root, out = sys.argv[1], sys.argv[2]
    run.init(root)
    docs, fails = {}, set()
    bad = 0
    for sid, r, dt in run.run(root, list(run.SPECS), pack, lim=120):
        if r[0] != 'ok':
            print('SKIP', sid, r)
            bad += 1
            continue
        fails |= set(r[1].pop('fails'))
        docs.setdefault(sid.split('.')[0], {})[sid] = r[1]
    for m, d in docs.items():
        ref.save('%s/%s.json.gz' % (out, m), d)
    P = run.PROG
    shared = {a.split('<-')[1] for d in docs.values() for e in d.values()
              for a in e['alias']}
    meta = {'shared': sorted(shared), 'fails': rules_c30.record(P, fails),
            'containers': sorted(P.containers()),
            'nested': sorted(P.containers('nested')),
            'arrays': sorted(P.containers('arrays')), 'aliased': sorted(P.aliased),
            'nparams': {q: len(f.node.args.posonlyargs + f.node.args.args)
                        for q, f in P.fns.items()},
            'declared': {c.qual: sorted(P.declared(c))
                         for c in P.classes.values()},
            'fns': sorted({f.name for f in run.PROG.fns.values()}),
            'attrs': sorted(attr_names(run.PROG)), 'specs': sorted(run.SPECS)}
    ref.save('%s/_meta.json.gz' % out, meta)
    from . import edits
    ref.save('%s/_src.json.gz' % out, edits.sources(P))
    print('specs', len(run.SPECS), 'skipped', bad, time.time()-T0)


def attr_names(prog):
    """attribute names read or written anywhere in the program"""
    import ast
    s = set()
    for m in prog.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                s.add(n.attr)
    return s


T0 = time.time()
if __name__ == '__main__':
    main()
