"""What the RTCM encoder writes for a parameter has the width and resolution
with which the decoder reads that parameter."""
from absint import facts, run, terms as X
from . import icd

PAIRS = [('encode_orb_sat', 'decode_orb_sat'),
         ('encode_clk_sat', 'decode_clk_sat'),
         ('encode_hclk_sat', 'decode_hclk_sat'),
         ('encode_cssr_orb', 'decode_cssr_orb'),
         ('encode_cssr_clk', 'decode_cssr_clk'),
         ('encode_cssr_hclk', 'decode_cssr_hclk'),
         ('encode_cssr_comb', 'decode_cssr_comb'),
         ('encode_cssr_cbias', 'decode_cssr_cbias'),
         ('encode_cssr_pbias', 'decode_cssr_pbias'),
         ('encode_cssr_ura', 'decode_cssr_ura'),
         ('encode_ssr_trop', 'decode_ssr_trop'),
         ('encode_ssr_iono', 'decode_ssr_iono'),
         ('encode_ssr_grid', 'decode_ssr_grid'),
         ('encode_head', 'decode_head'),
         ('encode_ssr_metadata', 'decode_ssr_metadata')]


def attrname(t):
    """attribute a value is taken from"""
    while True:
        if t.op == 'attr':
            n = t.args[1]
            return n[:-2] if n.endswith('_n') else n
        nxt = [a for a in t.args[:1] if isinstance(a, X.T)]
        if t.op in ('idx', 'sel', 'old', 'int') and nxt:
            t = nxt[0]
        else:
            return None


def source(t):
    """(attribute, resolution) of an encoded value x / resolution"""
    if t.op == 'call' and t.args[0] == 'round':
        t = t.args[1][0]
    d = X.pget(t)
    if len(d) != 1:
        return None
    (m, c), = d.items()
    if len(m) != 1 or m[0][1] != 1:
        return None
    a = attrname(m[0][0])
    return a and (a, float(1 / c))


def written(F):
    """{(attribute, width, resolution)} of the fields the encoder writes"""
    out = set()
    ws = []
    for (b, f), v in F.st.mem.items():
        if f == '$st' and b.op == 'sym':
            ws += [(p, x) for p, x in v]
    ws += [(p, x) for _, p, x in F.en.cells]
    for p, x in ws:
        p = [F.en.snap(q, F.st) for q in p]
        if not p or p[-1].op != 'bl':
            continue
        w = p[-1].args[1]
        try:
            ls = icd.split(F.en.snap(x, F.st))
            wd = [X.isnum(y) for y in icd.split(w)]
        except X.Big:
            continue
        for l in ls:
            s = source(l)
            if s:
                for n in wd:
                    if n is not None:
                        out.add((s[0], int(n), s[1]))
    return out


def name(k):
    import re
    k = re.sub(r'~\d+$', '', k)
    k = re.sub(r'\.\.[0-9a-f]{12,}', '', k)
    m = re.findall(r'(?:^|\.)([A-Za-z_]\w*)', re.sub(r'\[[^\[\]]*\]', '', k))
    if not m:
        return None
    return m[-1][:-2] if m[-1].endswith('_n') else m[-1]


def read(F):
    """{(attribute, width, resolution)} of the fields the decoder stores"""
    out = set()
    for (b, f), v in F.st.mem.items():
        if f == '$st':
            vals = []
            nm = attrname(b)
            for p, x in v:
                vals.append(F.en.snap(x, F.st))
        elif isinstance(v, X.T) and not f.startswith('$'):
            nm, vals = (f[:-2] if f.endswith('_n') else f), \
                [F.en.snap(v, F.st)]
        else:
            continue
        if nm is None:
            continue
        for x in vals:
            try:
                for w, sg, sc, p, parts in icd.fields(x):
                    out.add((nm, w, sc))
            except (X.Big, RecursionError):
                pass
    return out


def job(sid, F, prog):
    return ('ok', sorted(written(F) if '.encode' in sid else read(F)))


def spec(prog, fn):
    for c in ('rtcm.rtcme.' if fn.startswith('enc') else 'rtcm.rtcm.',):
        if c + fn + '@full' in run.SPECS:
            return c + fn + '@full'
        if c + fn in run.SPECS:
            return c + fn
    return None


def check(prog, tier):
    ids = {}
    for e, d in PAIRS:
        for f in (e, d):
            s = spec(prog, f)
            if s:
                ids[s] = f
    got = {}
    for sid, r, _ in run.run(prog.root, sorted(ids), job,
                             lim=60 if tier == 'quick' else 240):
        if r[0] == 'ok':
            got[ids[sid]] = r[1]
    found, n = [], 0
    for e, d in PAIRS:
        if e not in got or d not in got:
            continue
        A, B = {}, {}
        for t, s in ((A, got[e]), (B, got[d])):
            for nm, w, sc in s:
                t.setdefault(nm, set()).add((w, '%.9g' % sc))
        for nm in sorted(set(A) & set(B)):
            n += 1
            if not A[nm] & B[nm]:
                found.append(('codec-agreement', '%s/%s:%s' % (e, d, nm),
                              'the encoder writes %s as (width, resolution) '
                              '%s, the decoder reads %s' % (
                                  nm, sorted(A[nm]), sorted(B[nm]))))
    return {'rules': [{'rule': 'the encoder writes a parameter with the '
                       'width and resolution with which the decoder reads '
                       'it', 'instances': n}], 'findings': found}
