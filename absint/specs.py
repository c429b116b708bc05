"""What is analysed: one default configuration per function of the repository,
plus per-message / per-constellation configurations for the dispatchers."""
import re
from . import terms as X
from .terms import mk, const
from .facts import Spec, tup, PRIMS

SKIPMOD = ('test.', 'plot.', '__init__.')

# quality of the analysis needs the callee as one opaque step
TRACE = {
    'cssrlib.cssr.decode_cssr': r'cssrlib\.cssr\.(decode_cssr_\w+|out_log)',
    'cssr_has.cssr_has.decode_cssr':
        r'(cssrlib\.cssr|cssr_has\.cssr_has)\.(decode_cssr_\w+|out_log)',
    'cssr_bds.cssr_bds.decode_cssr':
        r'(cssrlib\.cssr|cssr_bds\.cssr_bds)\.(decode_cssr_\w+|out_log)',
    'cssr_mdc.cssr_mdc.decode_cssr':
        r'(cssrlib\.cssr|cssr_mdc\.cssr_mdc)\.'
        r'(decode_cssr_\w+|decode_mdc_\w+|out_log)',
    'cssr_pvs.cssr_pvs.decode_cssr':
        r'(cssrlib\.cssr|cssr_pvs\.cssr_pvs)\.(decode_cssr_\w+|out_log)',
    'sbas.sbasDec.decode_cssr':
        r'sbas\.sbasDec\.(decode_(sbas|dfmc|tvs)_\w+|out_\w+)',
    'dgps.dgpsDec.decode_cssr': r'dgps\.\w+\.decode_mt\d+',
    'rtcm.rtcm.decode': r'rtcm\.\w+\.(decode_(?!sc134|head|sat$)\w+|out_log)',
    'rtcm.rtcm.decode_igsssr': r'rtcm\.rtcm\.(decode_\w+)',
    'rtcm.rtcme.encode': r'rtcm\.rtcme\.encode_\w+',
    'osnma.osnma.decode':
        r'osnma\.osnma\.(?!decode$|__init__)\w+',
    'qznma.qznma.decode':
        r'qznma\.qznma\.(?!decode$|__init__)\w+',
    'ewss.jmaDec.decode': r'ewss\.jmaDec\.decode_jma_\w+',
    'rinex.rnxdec.decode_nav': r'rinex\.rnxdec\._decode_nav',
    'rinex.rnxdec.decode_obsh': r'rinex\.rnxdec\._decode_obsh',
    'pppssr.pppos.process':
        r'pppssr\.pppos\.(?!process$|__init__|I\w$|initx)\w+|'
        r'ephemeris\.satposs|ppp\.\w+|peph\.\w+',
    'pntpos.stdpos.process':
        r'pppssr\.pppos\.(?!process$|__init__|I\w$|initx)\w+|'
        r'pntpos\.stdpos\.(?!process$|__init__)\w+|ephemeris\.satposs',
    'pppssr.pppos.resamb_lambda': r'mlambda\.mlambda|pppssr\.pppos\.\w+amb',
    'rtk.rtkpos.base_process':
        r'pppssr\.pppos\.\w+|rtk\.rtkpos\.(?!base_process)\w+|'
        r'ephemeris\.satposs|rinex\.\w+',
    'peph.peph.peph2pos': r'peph\.peph\.(pephpos|pephclk|pephrel)|'
                          r'ephemeris\.\w+',
    'ephemeris.satposs': r'ephemeris\.(eph2pos|eph2clk|geph2pos|geph2clk|'
                         r'eph2rel|geph2rel|findeph|seph2pos|seph2clk)|'
                         r'peph\.\w+\.\w+|peph\.\w+|ppp\.\w+',
    'ephemeris.satpos': r'ephemeris\.(eph2pos|eph2clk|geph2pos|geph2clk|'
                        r'eph2rel|geph2rel|findeph|seph2pos|seph2clk)|'
                        r'peph\.\w+\.\w+|peph\.\w+|ppp\.\w+',
}


def eqattr(a, v, base='self'):
    return lambda en: (X.eq(mk('attr', mk('sym', base), a), const(v)), True)


# modules in which these pure functions are analysed as one step
OPAQUE = ['gnss.ecef2pos', 'gnss.satazel', 'ppp.tidedisp',
          'ppp.tidedispIERS2010']
OPAQUEIN = ('pppssr.', 'pntpos.', 'rtk.', 'ppprtk.')

# entry points whose open form is too large to summarise
NOFULL = set()

# message number assumptions: qual -> {config: [assumption...]}
MSG = {
    'rtcm.rtcm.decode_cssr_cbias': ('msgtype', (1059, 1065, 1242, 1248, 1254,
                                                1260)),
    'rtcm.rtcm.decode_cssr_pbias': ('msgtype', (1265, 1266, 1267, 1268, 1269,
                                                1270)),
}


def satp(v):
    return lambda en, vals: tup(const(v), mk('sym', 'prn'))


def full(prog, q, tr, meta, **kw):
    """the same entry point with every defaulted parameter left open"""
    a = prog.fns[q].node.args
    n = len(a.posonlyargs + a.args)
    if meta and q in meta.get('nparams', {}):
        n = min(n, meta['nparams'][q])
    nreq = len(a.posonlyargs + a.args) - len(a.defaults)
    if n <= nreq:
        return None
    return {k: (lambda en, st, k=k: mk('sym', 'arg%d' % k))
            for k in range(nreq, n)}


def specs(prog, meta=None):
    out = []
    for q in sorted(prog.fns):
        if q.startswith(SKIPMOD):
            continue
        fn = prog.fns[q]
        if fn.cls is not None and fn.cls.isenum:
            continue
        tr = ()
        if q in TRACE:
            rx = re.compile(TRACE[q])
            tr = tuple(x for x in sorted(prog.fns)
                       if x != q and rx.fullmatch(x) and (
                           not meta or x in meta['nparams']))
        if q in MSG:
            a, vs = MSG[q]
            fa = full(prog, q, tr, meta)
            for v in vs:
                out.append(Spec('%s@%s=%s' % (q, a, v), q, asm=[eqattr(a, v)],
                                args=fa,
                                setup=setattr_const(a, v)))
            continue
        pr = None
        if q.startswith(OPAQUEIN):
            pr = PRIMS + [x for x in OPAQUE if x in prog.fns and (
                not meta or x in meta['nparams'])]
        out.append(Spec(q, q, trace=tr, prims=pr))
        fa = full(prog, q, tr, meta)
        if fa and q not in NOFULL:
            out.append(Spec(q + '@full', q, args=fa, trace=tr, prims=pr))
    return out


def setattr_const(a, v):
    def f(en, st):
        st.mem[(mk('sym', 'self'), a)] = const(v)
    return f
