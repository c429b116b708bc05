"""Which analysed entry points decide which property (full-match patterns on
spec ids), and which additional rules."""
import re

SSR_CORE = [
    r'cssrlib\..*', r'gnss\.(copy_buff|prn2sat|sat2prn)']
GN = r'gnss\.'

SCOPES = {
    'C01': [r'rawnav\..*', r'gnss\.(Eph|Geph|Seph|Alm|copy_buff|STOParam|EOPParam|IONParam).*'],
    'C02': [r'sbas\..*', r'gnss\.(Seph|Geph).*'],
    'C03': [r'dgps\..*'],
    'C04': [r'cssrlib\..*'],
    'C05': [r'cssr_(has|bds|mdc|pvs)\..*', r'cssrlib\.cssr\..*'],
    'C06': [r'rtcm\.(rtcm|rtcmUtil|satAntCorr)\..*'],
    'C07': [r'rtcm\.(rtcm|rtcmUtil|Integrity)\..*'],
    'C08': [r'rtcm\..*'],
    'C09': [r'ewss\..*', r'gnss\.(copy_buff|deg2dms)'],
    'C10': [r'rinex\.rnxdec\.(_?decode_nav|flt|adjday|decode_time|__init__).*',
            r'gnss\.(Eph|Geph|Seph|STOParam|EOPParam|IONParam).*',
            r'gnss\.(char2sys|id2sat|sat2id|prn2sat|epoch2time|sys2char)'],
    'C11': [r'rinex\..*', r'gnss\.rSigRnx.*',
            r'gnss\.(Obs|char2sys|id2sat|sat2id|prn2sat|epoch2time|sys2char).*'],
    'C12': [r'rinex\.(rnxenc|rnxdec)\..*',
            r'gnss\.(sat2id|sys2char|time2epoch|rSigRnx.*)'],
    'C13': [r'peph\..*', r'rinex\.(pclk_t.*|rnxdec\.decode_clk)'],
    'C14': [r'gnss\.(prn2sat|sat2prn|id2sat|sat2id|sid2prn|char2sys|sys2char|'
            r'sys2str|rSigRnx.*)',
            r'cssr\w*\..*(gnss2sys|sys2sgnss|ssig2rsig|slot2prn|slot2sat|'
            r'add_gnss|decode_mask|decode_cssr_mask|isset).*',
            r'cssrlib\.(sgnss2sys|sys2sgnss)',
            r'sbas\.sbasDec\.(slot2sat|decode_sbas_mask|decode_dfmc_mask|init_sbas_gp)',
            r'rtcm\.rtcmUtil\..*', r'rtcm\.\w+\.(ssig2rsig|decode_sat|encode_sat)(@.*)?',
            r'qznma\.qznma\.svid2sat', r'osnma\..*'],
    'C15': [r'gnss\.(gtime_t.*|\w*time\w*|\w*gpst\w*|gst\w*|bdt\w*|utc2gpst|'
            r'tod2tow|str2time|gst2time)(@full)?',
            r'ephemeris\.dtadjust.*', r'rawnav\.gep2time',
            r'rtcm\.rtcmUtil\.adjustweek', r'rtcm\.rtcm\.(decode_time|decode_msm_time|decode_nrtk_time).*',
            r'rinex\.rnxdec\.(adjday|decode_time).*',
            r'peph\.(utc2gmst|time2sec|biasdec\.doy2time)', r'ppp\.utc2gmst.*',
            r'cssr\w*\.\w+\.(set_time|set_t0|adjust_time_week|decode_head)(@full)?',
            r'osnma\.osnma\.(difftime|set_gst_sf)', r'sbas\..*', r'dgps\..*'],
    'C16': [r'ephemeris\..*', r'gnss\.(Eph|Geph|Seph|Alm).*', r'tlesim\..*'],
    'C17': [r'ephemeris\.(satpos|satposs|findeph|eph2\w+|geph2\w+).*',
            r'cssr\w*\.\w+\.(check_validity|chk_stat|set_t0|set_time).*',
            r'(sbas|dgps)\.\w+\.(check_validity|add_\w+|set_dgps_corr).*',
            r'rtcm\.rtcm\.(out_log|decode_head).*', r'pppssr\.pppos\.(find_bias|zdres|process|qcedit).*',
            r'pntpos\.stdpos\.(zdres|process|qcedit).*'],
    'C18': [r'osnma\..*'],
    'C19': [r'qznma\..*'],
    'C20': [r'(pppssr\.pppos|pntpos\.stdpos|rtk\.rtkpos)\..*',
            r'gnss\.(satazel|geodist)'],
    'C21': [r'(pppssr\.pppos|pntpos\.stdpos|rtk\.rtkpos|ppprtk\.ppprtkpos)\..*',
            r'gnss\.(kfupdate|Nav.*)'],
    'C22': [r'(pppssr\.pppos|pntpos\.stdpos|rtk\.rtkpos)\..*', r'gnss\.(kfupdate|geodist|satazel|ionppp|vnorm)',
            r'pntpos\..*', r'gnss\.trop\w+(@full)?', r'peph\.(antModel\w+|substSig\w+|searchpcv|apc2com).*'],
    'C23': [r'mlambda\..*', r'pppssr\.pppos\.(resamb_lambda|restamb|holdamb|ddidx|process).*'],
    'C24': [r'gnss\.(trop\w+|meteo\w*|mapf\w*|atmos\w+|interpc|ionppp)(@full)?',
            r'pntpos\.ion\w+(@full)?', r'sbas\.(ionoSBAS|searchIGP|varsbas)',
            r'cssr\w*\.\w+\.(get_stec|get_trop|get_dpos|find_grid_index|get_inet|quality_idx|decode_cssr_stec\w*|decode_cssr_atmos|decode_cssr_grid|decode_mdc_\w+|read_griddef)(@full)?'],
    'C25': [r'gnss\.(ecef2\w+|pos2ecef|enu2xyz|xyz2enu|geodist|satazel|dops\w*|vnorm|deg2dms|ionppp)(@full)?'],
    'C26': [r'ppp\..*', r'peph\.(R[xyz]|ast_args|eci2ecef|nut_iau1980|orb2ecef|sunmoonpos\w*|utc2gmst|time2sec).*'],
    'C27': [r'cssr\w*\..*', r'rtcm\.rtcm\..*', r'(sbas|dgps)\..*'],
    'C28': [r'rtcm\.(rtcm|rtcmUtil)\.(sync|checksum|decode|is_\w+|mt2sct|sct2mt|msmtype|ssrtype|nrtktype|get_ssr_sys|decode_head|decode_igsssr)(@full)?',
            r'rtcm\.rtcme\..*', r'rawnav\..*', r'sbas\.sbasDec\.decode_cssr.*',
            r'cssr\w*\.\w+\.(decode_l6msg|decode_cssr|chk_stat|decode_cnav|decode_has_\w+).*',
            r'(osnma|qznma|ewss)\.\w+\.decode(_\w+)?(@full)?', r'dgps\.dgpsDec\.decode_cssr.*'],
}

# code the entry points above lean on, judged with them
HELP = r'cssrlib\.(cssr|local_corr)\.(sval|set_t0|set_time|decode_mask|isset|__init__|gnss2sys|quality_idx)(@full)?'
TIMES = (r'gnss\.(gpst2time|time2gpst|gst2time|bdt2time|bdt2gpst|gpst2bdt|'
         r'utc2gpst|gpst2utc|glo2time|timeadd|timediff|epoch2time|'
         r'time2epoch|time2bdt|time2gst)(@full)?')
MORE = {
    'C01': [TIMES, r'gnss\.(prn2sat|sat2prn)'],
    'C02': [HELP, r'ephemeris\.(seph\w+|satpos\w*)(@full)?'],
    'C03': [HELP, r'ephemeris\.(findeph|satpos\w*)(@full)?'],
    'C06': [HELP, r'gnss\.rSigRnx.*'],
    'C07': [r'gnss\.(Eph|Geph|Seph|Obs).*', TIMES],
    'C10': [r'rinex\.rnxdec\..*', TIMES],
    'C13': [r'gnss\.rSigRnx.*', r'ephemeris\.satpos\w*(@full)?'],
    'C15': [r'rawnav\..*', r'rinex\.rnx\w+\..*', r'rtcm\..*(time|eph)\w*(@.*)?',
            r'ewss\..*(time|add_day).*'],
    'C17': [r'cssr\w*\.\w+\.decode_\w+(@full)?', r'(sbas|dgps)\..*',
            r'rtcm\.rtcm\.decode_(cssr_\w+|\w+_sat|igsssr)(@.*)?'],
    'C20': [r'ephemeris\.satpos\w*(@full)?'],
    'C22': [r'ppp\.(windupcorr|shapiro|tidedisp\w*)(@full)?',
            r'ephemeris\.satpos\w*(@full)?', r'peph\.\w*(ant|apc|pcv)\w*(@full)?',
            r'gnss\.(ecef2\w+|pos2ecef)(@full)?',
            r'cssr\w*\.\w+\.get_\w+(@full)?'],
    'C24': [r'sbas\.sbasDec\.(decode_sbas_(igpmask|iono)|init_sbas_gp)',
            r'pppssr\.pppos\.zdres(@full)?'],
    'C26': [r'pppssr\.pppos\.zdres(@full)?'],
    'C27': [r'ephemeris\.satpos\w*(@full)?'],
    'C28': [r'cssr\w*\.\w+\.decode_\w+(@full)?', r'rtcm\.rtcm\.decode_\w+(@.*)?',
            r'sbas\.sbasDec\.decode_\w+(@full)?', r'dgps\.dgpsDec\.decode_\w+(@full)?'],
}
for _p, _x in MORE.items():
    SCOPES[_p] = SCOPES[_p] + _x

NOTE0 = ('Decides that every value, state change and ordered effect of the '
         'entry points in scope equals, on every path and for every input, '
         'the reviewed value-flow summary (as normalised terms over '
         'uninterpreted library functions); it does not bound numerical '
         'error. Facts whose equality the normaliser cannot decide are '
         'counted as undecided in the evidence and raise no alarm.')
NOTE = {}
TECH = {}

# C29: effects on arguments and sharing only
SCOPES['C29'] = [r'.*']


def isolation(k, m):
    if k == '<sharing>':
        return True
    return re.match(r'arg\d', k) is not None and \
        m.startswith('newly set: ')


ONLY = {'C29': isolation}
# rules that decide a property (default: all of checks/generic.py)
RULES = {
    'C29': ('shared_class_state', 'mutable_default', 'shared_module_state'),
    'C30': ('undefined_attr', 'call_arity', 'bit_formats', 'class_members',
            'unbound_local', 'undefined_names'),
}
# C30: rules only, over the whole program
NOVALUES = {'C30'}
SCOPES['C30'] = [r'.*']
TECH['C30'] = ('name, attribute, arity, format and definite-assignment '
               'analysis over the resolved program (scopes, star imports, '
               'class hierarchy, call targets)')
NOTE['C30'] = ('Decides for every read of a name, local, attribute of self, '
               'enumeration or class member, module member, and for every '
               'call of a program function and constant bit format, that it '
               'cannot fail on any path. Attributes of objects of unknown '
               'class and errors depending on values (index out of range, '
               'division by zero, truncated input) are not covered.')
TECH['C29'] = ('effect and alias analysis of every entry point (which '
               'arguments are changed in place, which results or attributes '
               'are the same object), plus rules on class-level, '
               'module-level and default-argument state')
NOTE['C29'] = ('Decides, for every entry point and path, that no argument '
               'is changed in place beyond the reviewed out-parameters, that '
               'no result or attribute newly is the same object as shared '
               'state, and that no class-level, module-level or default '
               'mutable object is changed. Aliases created through '
               'containers of unknown content are not followed.')
TECH['C08'] = ('codec-agreement rule (attribute, width, resolution written '
               'against read) over packed and extracted bit fields, plus '
               'gated value-flow terms of encoder and decoder compared with '
               'the reviewed reference')
_ICD = ('interface-document rule (width, sign, scale and position of every '
        'decoded field against transcribed ICD tables) over abstractly '
        'interpreted decoders, plus gated value-flow terms compared with '
        'the reviewed reference')
for _p in ('C01', 'C02', 'C04', 'C05', 'C06', 'C07'):
    TECH[_p] = _ICD
