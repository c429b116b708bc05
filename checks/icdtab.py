"""Field widths, signs and scales of the interface documents.

Each entry: (property, spec pattern, {fact key pattern: 'wS scale'}).  A field
is written as width with `s`/`u`, then scale as `p2-N` (2^-N), `p2-NS`
(2^-N semicircles, in radians), a number, and `^2` when the square is
stored; `|` separates alternatives (format variants).  `@n` pins the bit
position relative to the message parameter."""

# IS-GPS-200 20.3.3.3-4, IS-QZSS-PNT
LNAV = {
    'A': 'u32 p2-19 ^2', 'M0': 's32 p2-31S', 'OMG0': 's32 p2-31S',
    'OMGd': 's24 p2-43S', 'af0': 's22 p2-31', 'af1': 's16 p2-43',
    'af2': 's8 p2-55', 'cic': 's16 p2-29', 'cis': 's16 p2-29',
    'crc': 's16 p2-5', 'crs': 's16 p2-5', 'cuc': 's16 p2-29',
    'cus': 's16 p2-29', 'deln': 's16 p2-43S', 'e': 'u32 p2-33',
    'i0': 's32 p2-31S', 'idot': 's14 p2-43S', 'omg': 's32 p2-31S',
    'tgd': 's8 p2-31', 'toes': 'u16 16', 'iodc': 'u10 1', 'iode': 'u8 1',
    'code': 'u2 1', 'svh': 'u6 1'}
# IS-GPS-200 30.3.3, IS-GPS-800 3.5.3
CNAV = {
    'Adot': 's25 p2-21', 'M0': 's33 p2-32S', 'OMG0': 's33 p2-32S',
    'af0': 's26 p2-35', 'af1': 's20 p2-48', 'af2': 's10 p2-60',
    'cic': 's16 p2-30', 'cis': 's16 p2-30', 'crc': 's24 p2-8',
    'crs': 's24 p2-8', 'cuc': 's21 p2-30', 'cus': 's21 p2-30',
    'deln': 's17 p2-44S', 'delnd': 's23 p2-57S', 'e': 'u33 p2-34',
    'i0': 's33 p2-32S', 'idot': 's15 p2-44S', 'omg': 's33 p2-32S',
    'tgd': 's13 p2-35', r'isc\[\d\]': 's13 p2-35', 'toes': 'u11 300',
    'tops': 'u11 300', 'week': 'u13 1'}
# OS SIS ICD Galileo 5.1
GAL = {
    'A': 'u32 p2-19 ^2', 'M0': 's32 p2-31S', 'OMG0': 's32 p2-31S',
    'OMGd': 's24 p2-43S', 'af0': 's31 p2-34', 'af1': 's21 p2-46',
    'af2': 's6 p2-59', 'cic': 's16 p2-29', 'cis': 's16 p2-29',
    'crc': 's16 p2-5', 'crs': 's16 p2-5', 'cuc': 's16 p2-29',
    'cus': 's16 p2-29', 'deln': 's16 p2-43S', 'e': 'u32 p2-33',
    'i0': 's32 p2-31S', 'idot': 's14 p2-43S', 'omg': 's32 p2-31S',
    'tgd(_b)?': 's10 p2-32', 'toes': 'u14 60', 'iodc': 'u10 1',
    'iode': 'u10 1'}
# BDS-SIS-ICD-2.1 (D1/D2)
BDS = {
    'A': 'u32 p2-19 ^2', 'M0': 's32 p2-31S', 'OMG0': 's32 p2-31S',
    'OMGd': 's24 p2-43S', 'af0': 's24 p2-33', 'af1': 's22 p2-50',
    'af2': 's11 p2-66', 'cic': 's18 p2-31', 'cis': 's18 p2-31',
    'crc': 's18 p2-6', 'crs': 's18 p2-6', 'cuc': 's18 p2-31',
    'cus': 's18 p2-31', 'deln': 's16 p2-43S', 'e': 'u32 p2-33',
    'i0': 's32 p2-31S', 'idot': 's14 p2-43S', 'omg': 's32 p2-31S',
    'tgd(_b)?': 's10 1e-10', 'toes': 'u17 8', 'iodc': 'u5 1',
    'iode': 'u5 1', 'week': 'u13 1', 'svh': 'u1 1'}
# BDS-SIS-ICD-B1C/B2a/B2b
BCNAV = {
    'Adot': 's25 p2-21', 'M0': 's33 p2-32S', 'OMG0': 's33 p2-32S',
    'OMGd': 's19 p2-44S', 'af0': 's25 p2-34', 'af1': 's22 p2-50',
    'af2': 's11 p2-66', 'cic': 's16 p2-30', 'cis': 's16 p2-30',
    'crc': 's24 p2-8', 'crs': 's24 p2-8', 'cuc': 's21 p2-30',
    'cus': 's21 p2-30', 'deln': 's17 p2-44S', 'delnd': 's23 p2-57S',
    'e': 'u33 p2-34', 'i0': 's33 p2-32S', 'idot': 's15 p2-44S',
    'omg': 's33 p2-32S', 'tgd(_b)?': 's12 p2-34',
    r'isc\[\d\]': 's12 p2-34', 'toes': 'u11 300', 'tops': 'u11 300',
    'week': 'u13 1', 'sattype': 'u2 1', 'svh': 'u2 1',
    'iodc': 'u10 1', 'iode': 'u8 1'}
# ICD GLONASS 5.1, 4.4 (magnitudes; the sign bit is apart)
GLOF = {
    r'acc\[\d\]': 'u4 9.313225746154785e-07', 'age': 'u5 1',
    'dtaun': 'u4 p2-30', 'gamn': 'u10 p2-40', 'iode': 'u7 1',
    r'pos\[\d\]': 'u26 0.48828125', 'tau_c': 'u31 p2-31',
    'taun': 'u21 p2-30', r'vel\[\d\]': 'u23 9.5367431640625e-04'}
# ICD GLONASS CDMA L1/L3 1.0, 5
GLOC = {
    r'acc\[\d\]': 'u14 1.8189894035458565e-09',
    'beta': 'u14 p2-57', r'dpos\[\d\]': 'u12 p2-10',
    'dtau_c': 'u12 p2-49', 'gamn': 'u18 p2-48', 'taun': 'u31 p2-38',
    'tau_c': 'u39 p2-31', 'tau_gps': 'u29 p2-38',
    r'pos\[\d\]': 'u39 9.5367431640625e-04',
    r'vel\[\d\]': 'u34 9.313225746154785e-07'}
# NavIC ICD 1.1
IRN = {
    'A': 'u32 p2-19 ^2', 'M0': 's32 p2-31S', 'OMG0': 's32 p2-31S',
    'OMGd': 's22 p2-41S', 'af0': 's22 p2-31', 'af1': 's16 p2-43',
    'af2': 's8 p2-55', 'cic': 's15 p2-28', 'cis': 's15 p2-28',
    'crc': 's15 p2-4', 'crs': 's15 p2-4', 'cuc': 's15 p2-28',
    'cus': 's15 p2-28', 'deln': 's22 p2-41S', 'e': 'u32 p2-33',
    'i0': 's32 p2-31S', 'idot': 's14 p2-43S', 'omg': 's32 p2-31S',
    'tgd': 's8 p2-31', 'toes': 'u16 16', 'iodc': 'u8 1', 'iode': 'u8 1'}
# NavIC L1 ICD 1.0
IRN1 = {
    'Adot': 's26 p2-21', 'M0': 's33 p2-32S', 'OMG0': 's33 p2-32S',
    'OMGd': 's25 p2-44S', 'af0': 's29 p2-35', 'af1': 's22 p2-50',
    'af2': 's15 p2-66', 'cic': 's16 p2-30', 'cis': 's16 p2-30',
    'crc': 's24 p2-8', 'crs': 's24 p2-8', 'cuc': 's21 p2-30',
    'cus': 's21 p2-30', 'deln': 's19 p2-44S', 'delnd': 's23 p2-57S',
    'e': 'u33 p2-34', 'i0': 's33 p2-32S', 'idot': 's15 p2-44S',
    'omg': 's33 p2-32S', 'tgd': 's12 p2-35', 'toes': 'u11 300',
    'week': 'u13 1'}
# DO-229 A.4.4.11
SBSEPH = {
    r'acc\[[01]\]': 's10 1.25e-5', r'acc\[2\]': 's10 6.25e-5',
    'af0': 's12 p2-31', 'af1': 's8 p2-40', r'pos\[[01]\]': 's30 0.08',
    r'pos\[2\]': 's25 0.4', r'vel\[[01]\]': 's17 6.25e-4',
    r'vel\[2\]': 's18 0.004'}
# RTCM 10403.3: order of the fields (name or '', width)
R1019 = ['', 6, '', 10, '', 4, 'code', 2, 'idot', 14, 'iode', 8, '', 16,
         'af2', 8, 'af1', 16, 'af0', 22, 'iodc', 10, 'crs', 16, 'deln', 16,
         'M0', 32, 'cuc', 16, 'e', 32, 'cus', 16, 'A', 32, 'toes', 16,
         'cic', 16, 'OMG0', 32, 'cis', 16, 'i0', 32, 'crc', 16, 'omg', 32,
         'OMGd', 24, 'tgd', 8, 'svh', 6, '', 1, '', 1]
R1044 = ['', 4, '', 16, 'af2', 8, 'af1', 16, 'af0', 22, 'iode', 8,
         'crs', 16, 'deln', 16, 'M0', 32, 'cuc', 16, 'e', 32, 'cus', 16,
         'A', 32, 'toes', 16, 'cic', 16, 'OMG0', 32, 'cis', 16, 'i0', 32,
         'crc', 16, 'omg', 32, 'OMGd', 24, 'idot', 14, 'code', 2, '', 10,
         '', 4, 'svh', 6, 'tgd', 8, 'iodc', 10, '', 1]
R1042 = ['', 6, 'week', 13, '', 4, 'idot', 14, 'iode', 5, '', 17, 'af2', 11,
         'af1', 22, 'af0', 24, 'iodc', 5, 'crs', 18, 'deln', 16, 'M0', 32,
         'cuc', 18, 'e', 32, 'cus', 18, 'A', 32, 'toes', 17, 'cic', 18,
         'OMG0', 32, 'cis', 18, 'i0', 32, 'crc', 18, 'omg', 32, 'OMGd', 24,
         'tgd', 10, 'tgd_b', 10, 'svh', 1]
R1041 = ['', 6, '', 10, 'af0', 22, 'af1', 16, 'af2', 8, '', 4, '', 16,
         'tgd', 8, 'deln', 22, 'iode', 8, '', 10, '', 1, '', 1, 'cuc', 15,
         'cus', 15, 'cic', 15, 'cis', 15, 'crc', 15, 'crs', 15, 'idot', 14,
         'M0', 32, 'toes', 16, 'e', 32, 'A', 32, 'OMG0', 32, 'omg', 32,
         'OMGd', 22, 'i0', 32]
R1045 = ['', 6, '', 12, 'iode', 10, '', 8, 'idot', 14, '', 14, 'af2', 6,
         'af1', 21, 'af0', 31, 'crs', 16, 'deln', 16, 'M0', 32, 'cuc', 16,
         'e', 32, 'cus', 16, 'A', 32, 'toes', 14, 'cic', 16, 'OMG0', 32,
         'cis', 16, 'i0', 32, 'crc', 16, 'omg', 32, 'OMGd', 24, 'tgd', 10]
R1020 = ['', 6, '', 5, '', 1, '', 1, '', 2, '', 12, '', 1, '', 1, 'iode', 7,
         '', 1, r'vel\[0\]', 23, '', 1, r'pos\[0\]', 26, '', 1,
         r'acc\[0\]', 4, '', 1, r'vel\[1\]', 23, '', 1,
         r'pos\[1\]', 26, '', 1, r'acc\[1\]', 4, '', 1,
         r'vel\[2\]', 23, '', 1, r'pos\[2\]', 26, '', 1,
         r'acc\[2\]', 4, '', 1, '', 1, 'gamn', 10, '', 2, '', 1, '', 1,
         'taun', 21, '', 1, 'dtaun', 4, 'age', 5]


def at(order, table):
    """table with the positions implied by the order of the fields"""
    r, p = {}, 0
    for n, w in zip(order[::2], order[1::2]):
        for k, v in table.items():
            if n and (n == k or k.replace('(_b)?', '') == n or
                      k.replace('(_b)?', '_b') == n or
                      k.replace(r'\d', n[-3:-2]) == n):
                assert int(v.split()[0][1:]) == w, (n, v, w)
                r[n] = '%s @%d' % (v, p)
        p += w
    return r


def under(prefix, table):
    return {prefix + k: v for k, v in table.items()}


# IS-QZSS-L6 4.1.2, IGS SSR 1.00 / RTCM 10403.3, BDS-SIS-ICD-PPP-B2b,
# Galileo HAS SIS ICD 1.0, ED-259A
CSSR = {
    r'.*\.dorb(_d)?(\[.*\])?': 's15 0.0016 | s13 0.0064 | s15 -0.0016 | '
                                's13 -0.0064',
    r'.*\.dclk(\[.*\])?': 's15 0.0016',
    r'.*\.cbias(\[.*\])?': 's11 0.02', r'.*\.pbias(\[.*\])?': 's15 0.001',
    r'.*\.di(\[.*\])?': 'u2 1'}
STEC = {r'.*\.ci(\[.*\])?|ret.*': 's14 0.05 | s12 0.02 | s10 0.02 | s8 0.005'}
SSR = {
    r'.*\.dorb(_n)?(\[.*\])?': 's22 0.0001 | s20 0.0004 | u6 1',
    r'.*\.ddorb(_n)?(\[.*\])?': 's21 1e-6 | s19 4e-6 | u6 1',
    r'.*\.dclk(_n)?(\[.*\])?': 's22 0.0001 | u6 1',
    r'.*\.ddclk(_n)?(\[.*\])?': 's21 1e-6 | u6 1',
    r'.*\.dddclk(_n)?(\[.*\])?': 's27 2e-8 | u6 1',
    r'.*\.hclk(\[.*\])?': 's22 0.0001 | u6 1',
    r'.*\.cbias(\[.*\])?': 's14 0.01', r'.*\.pbias(\[.*\])?': 's20 0.0001',
    r'.*\.glo_bias(\[.*\])?': 's16 0.02'}
B2B = {
    r'.*\.dorb(\[.*\])?': 's15 0.0016 | s13 0.0064 | s15 -0.0016 | '
                           's13 -0.0064',
    r'.*\.dclk(\[.*\])?': 's15 0.0016 | s15 -0.0016',
    r'.*\.cbias(\[.*\])?': 's12 0.017'}
DFMC32 = {
    r'.*\.dorb(\[.*\])?': 's11 0.0625 | s11 -0.0625',
    r'.*\.dvel(\[.*\])?': 's8 p2-11 | s8 -p2-11',
    r'.*\.dclk(\[.*\])?': 's12 0.03125 | s12 -0.03125'}

TABLES = [
    ('C01', r'rawnav\..*decode_gps_lnav', under('ret.', LNAV)),
    ('C01', r'rawnav\..*decode_gps_cnav2?', under('ret.', CNAV)),
    ('C01', r'rawnav\..*decode_gal_[fi]nav', under('ret.', GAL)),
    ('C01', r'rawnav\..*decode_bds_d[12]', under('ret.', BDS)),
    ('C01', r'rawnav\..*decode_bds_b(1c|2a|2b)', under('ret.', BCNAV)),
    ('C01', r'rawnav\..*decode_glo_fdma', under('ret.', GLOF)),
    ('C01', r'rawnav\..*decode_glo_l[13]oc', under('ret.', GLOC)),
    ('C01', r'rawnav\..*decode_irn_lnav', under('ret.', IRN)),
    ('C01', r'rawnav\..*decode_irn_l1nav', under('ret.', IRN1)),
    ('C01', r'rawnav\..*decode_sbs_l1', under('ret.', SBSEPH)),
    ('C07', r'rtcm\..*decode_gps_eph', under(r'ret\[1\].', at(R1019, LNAV))),
    ('C07', r'rtcm\..*decode_qzs_eph', under(r'ret\[1\].', at(R1044, LNAV))),
    ('C07', r'rtcm\..*decode_gal_eph', under(r'ret\[1\].', at(R1045, GAL))),
    ('C07', r'rtcm\..*decode_bds_eph', under(r'ret\[1\].', at(R1042, BDS))),
    ('C07', r'rtcm\..*decode_irn_eph', under(r'ret\[1\].', at(R1041, IRN))),
    ('C07', r'rtcm\..*decode_glo_eph', under(r'ret\[1\].', at(R1020, GLOF))),
    ('C07', r'rtcm\..*decode_sbs_eph', under(r'ret\[1\].', SBSEPH)),
    ('C07', r'rtcm\..*decode_glo_bias', SSR),
    ('C06', r'rtcm\.rtcm\.decode_(cssr_\w+|\w+_sat)', SSR),
    ('C04', r'cssrlib\.cssr\.decode_(cssr_\w+|\w+_sat)', CSSR),
    ('C04', r'cssrlib\.cssr\.decode_cssr_(stec\w*|atmos)', STEC),
    ('C05', r'cssr_bds\..*decode_cssr_\w+', B2B),
    ('C05', r'cssr_pvs\..*decode_cssr_orb', DFMC32),
    ('C02', r'sbas\..*decode_cssr_orb', DFMC32),
    ('C02', r'sbas\..*decode_dfmc_eph_mt39', under(r'self\.Eph\.', {
        'M0': 's34 p2-33S', 'OMG0': 's34 p2-33S', 'omg': 's34 p2-33S'})),
    ('C02', r'sbas\..*decode_dfmc_eph_mt40', under(r'self\.Eph\.', {
        'A': 'u31 0.02', 'e': 'u30 p2-30', 'i0': 'u33 p2-33S'})),
    ('C02', r'sbas\..*decode_sbas_almanac', under(r'.*\.', {
        r'pos\[[01]\]': 's15 2600', r'pos\[2\]': 's9 26000',
        r'vel\[[01]\]': 's3 10', r'vel\[2\]': 's4 60'})),
    ('C02', r'sbas\..*decode_sbas_fast_corr(_blk)?', {
        r'.*\.hclk\[.*\]': 's12 -0.125', r'.*\.udrei\[.*\]': 'u4 1'}),
    ('C02', r'sbas\..*decode_sbas_iono', {
        r'.*\.vtec\[.*\]': 'u9 0.125', r'.*\.givei\[.*\]': 'u4 1'}),
]
