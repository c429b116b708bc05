"""Writes properties.jsonl (kept as data so that MANIFEST and DESIGN agree)."""
import json
P = []


def p(id, title, statement, over, text, why, files, mech):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': ['src/cssrlib/' + f for f in files],
                          'mechanism': [{'name': n, 'where': 'src/cssrlib/' + w}
                                        for n, w in mech]}})


IN = ['inputs']
IH = ['inputs', 'histories']
NOT = 'The stable tests only evaluate an ephemeris, read small RINEX/ANTEX/BSX files and post-process one RTK data set; '

p('C01', 'Broadcast navigation frames decode to the fields of the ICD',
  'For every GPS, QZSS, Galileo, BeiDou, NavIC, GLONASS and SBAS navigation '
  'frame, each decoded ephemeris, clock, health, ionosphere, UTC, Earth '
  'orientation and almanac value is the bits of the ICD field (position, '
  'width, sign) times its ICD scale and unit, in the parameter it names. A '
  'set is returned only when all of its subframes/pages are present and carry '
  'one consistent issue of data; otherwise nothing is returned.',
  IH, 'every frame bit pattern and every arrival order of subframes/pages',
  NOT + 'no test feeds a raw frame to a decoder, and a wrong scale, offset or '
  'sign shows only for particular bit patterns.',
  ['rawnav.py', 'gnss.py'],
  [('frame decoders', 'rawnav.py:RawNav.decode_*'),
   ('bit accessors', 'rawnav.py:RawNav.getbit*')])
p('C02', 'SBAS L1 and DFMC messages decode and apply per DO-229/ED-259',
  'Every SBAS L1 and L5 DFMC message field is read at its bit position, width '
  'and sign and scaled to its unit, and is stored for exactly the satellite, '
  'grid point or service region that the active mask assigns to its slot. '
  'Corrections are combined with the matching issue of data and time of '
  'applicability, and their variances follow the broadcast indicators and '
  'degradation parameters.',
  IH, 'every message bit pattern, every mask and every message order',
  NOT + 'no SBAS message is decoded by the stable tests.',
  ['sbas.py'],
  [('message decoders', 'sbas.py:sbasDec.decode_*'),
   ('corrections', 'sbas.py:sbasDec.add_*_corr'),
   ('ionosphere', 'sbas.py:ionoSBAS, searchIGP, varsbas')])
p('C03', 'QZSS sub-metre (DGPS) messages decode and apply to their satellites',
  'Every field of the QZSS sub-metre augmentation messages is read at its '
  'specified bit position, width, sign and scale and stored for the '
  'monitoring station and satellite it names. A differential correction is '
  'applied only from a valid station and only to an ephemeris whose issue of '
  'data matches.',
  IH, 'every message bit pattern, message order and user position',
  NOT + 'no sub-metre message is decoded by the stable tests.',
  ['dgps.py'], [('message decoders', 'dgps.py:dgpsDec.decode_mt*'),
                ('application', 'dgps.py:dgpsDec.set_dgps_corr')])
p('C04', 'Compact SSR (CLAS/MADOCA) sub-types decode per IS-QZSS-L6',
  'For each compact SSR sub-type the mask, orbit, clock, code/phase bias, '
  'accuracy, STEC, gridded troposphere/ionosphere and service information '
  'values are the message bits at the specified position, width, sign and '
  'scale; the reserved bit pattern decodes to "not available". Each value is '
  'stored for exactly the satellite, signal, network and grid point selected '
  'by the masks in force, and the decoder reports the bit position after the '
  'message.',
  IH, 'every message content, mask combination and network selection',
  NOT + 'the SSR decoders need data files that the stable tests do not read.',
  ['cssrlib.py'],
  [('sub-type decoders', 'cssrlib.py:cssr.decode_cssr_*'),
   ('mask decoding', 'cssrlib.py:cssr.decode_mask'),
   ('special value', 'cssrlib.py:cssr.sval'),
   ('encoders', 'cssrlib.py:cssre.*')])
p('C05', 'Galileo HAS, BDS PPP-B2b, SouthPAN and MADOCA iono decode per ICD',
  'Each SSR dialect (Galileo HAS pages and messages, BeiDou PPP-B2b, '
  'SouthPAN PVS, MADOCA wide-area ionosphere) decodes every field at its '
  'ICD bit position, width, sign, scale and sign convention. HAS pages are '
  'combined only within one message identity and size, and each dialect '
  'stores its values for the satellite, signal, region or grid the message '
  'names.',
  IH, 'every page and message content and reception order',
  NOT + 'none of these services is exercised by the stable tests.',
  ['cssr_has.py', 'cssr_bds.py', 'cssr_pvs.py', 'cssr_mdc.py', 'cssrlib.py'],
  [('HAS', 'cssr_has.py:cnav_msg, cssr_has'), ('PPP-B2b', 'cssr_bds.py:cssr_bds'),
   ('PVS', 'cssr_pvs.py:cssr_pvs'), ('MADOCA iono', 'cssr_mdc.py:cssr_mdc')])
p('C06', 'RTCM SSR messages decode per RTCM 10403 / IGS SSR',
  'For every RTCM and IGS SSR orbit, clock, high-rate clock, code bias, '
  'phase bias, accuracy, VTEC, gridded-atmosphere, metadata and antenna '
  'message, each field is the message bits at the standard position, width, '
  'sign and scale for that constellation, stored for the satellite and '
  'signal named, with the header time, update interval and issue of data.',
  IH, 'every message type, constellation, satellite count and field content',
  NOT + 'no RTCM message is decoded by the stable tests.',
  ['rtcm.py'], [('SSR decoders', 'rtcm.py:rtcm.decode_cssr_*, decode_*_sat'),
                ('header', 'rtcm.py:rtcm.decode_head')])
p('C07', 'RTCM observation, ephemeris, station and integrity messages decode',
  'Every RTCM multi-signal observation, broadcast ephemeris, station, '
  'receiver-bias, text and integrity message yields values equal to the '
  'message bits at the standard position, width, sign convention, scale and '
  'unit, in the parameter the standard names and on the right time scale. '
  'Observations exist exactly for the satellite/signal cells of the masks, '
  'and invalid-value codes yield no measurement.',
  IH, 'every message type, mask pattern and field content',
  NOT + 'no RTCM message is decoded by the stable tests.',
  ['rtcm.py'], [('MSM', 'rtcm.py:rtcm.decode_msm'),
                ('ephemerides', 'rtcm.py:rtcm.decode_*_eph'),
                ('integrity', 'rtcm.py:Integrity.*')])
p('C08', 'RTCM encoding is the inverse of RTCM decoding',
  'For every SSR message the encoder supports, the bits it writes (header, '
  'satellite identity, each scaled field, counts and flags) occupy the same '
  'positions and widths and use the same scale and sign as the decoder '
  'reads. Values are rounded to the field resolution, missing '
  'values become the "not available" code, and the frame carries '
  'the right length and checksum.',
  IN, 'every correction set and message type',
  NOT + 'no RTCM message is encoded by the stable tests, and a round trip '
  'must hold for every value.',
  ['rtcm.py'], [('encoder', 'rtcm.py:rtcme.encode*'),
                ('decoder', 'rtcm.py:rtcm.decode*')])
p('C09', 'Disaster-warning messages decode to the broadcast warning',
  'For every QZSS disaster/crisis report and extended early-warning message, '
  'each reported item (category, severity, time, hypocentre, magnitude, '
  'area, expected arrival, guidance) is the code at its specified bit '
  'position translated by the table for that category. Repeated entries are '
  'all reported, and unused entries are not.',
  IN, 'every message content', NOT + 'no warning message is decoded by the '
  'stable tests.', ['ewss.py'],
  [('JMA reports', 'ewss.py:jmaDec.*'), ('CAMF', 'ewss.py:camfDec.*')])
p('C10', 'RINEX navigation records are read into the right parameters',
  'For every RINEX 2/3/4 navigation file, each ephemeris, ionosphere, time '
  'offset and Earth-orientation parameter comes from the standard record '
  'line and column for that constellation and message type, in the '
  "library's units and time scale, with week ambiguities resolved. Records "
  'of constellations or message types not handled are skipped without '
  'disturbing the next record.',
  IN, 'every file, version, constellation and message type',
  NOT + 'they read one short file and look at a few values.',
  ['rinex.py', 'gnss.py'], [('reader', 'rinex.py:rnxdec.decode_nav')])
p('C11', 'RINEX observation and clock records are read at the right columns',
  'For every RINEX observation file the value, loss-of-lock and strength '
  'indicators of each observation are those at the column of its declared '
  'signal, for the satellite and epoch named, and only selected signals are '
  'kept. Clock products are stored for the satellite and epoch of their '
  'record.',
  IN, 'every header, signal selection and epoch record',
  NOT + 'they read one file with one signal layout.',
  ['rinex.py'], [('observations', 'rinex.py:rnxdec.decode_obs'),
                 ('header', 'rinex.py:rnxdec.decode_obsh'),
                 ('clock', 'rinex.py:rnxdec.decode_clk')])
p('C12', 'RINEX writing is the inverse of RINEX reading',
  'Every navigation and observation parameter is written at the record line '
  'and column, in the unit and time scale, from which the reader takes that '
  'same parameter. Headers announce exactly the systems, signals and epochs '
  'written.',
  IN, 'every ephemeris and observation set',
  NOT + 'nothing is ever written by the stable tests.',
  ['rinex.py'], [('writer', 'rinex.py:rnxenc.*'), ('reader', 'rinex.py:rnxdec.*')])
p('C13', 'Precise orbit, clock, antenna and bias products are read and used',
  'SP3, RINEX clock, ANTEX and Bias-SINEX records are stored for the '
  'satellite, epoch, frequency, signal and validity interval they name, in '
  'SI units, with missing-value codes treated as missing. Interpolation '
  'refuses epochs outside the product or across gaps, and antenna offsets, '
  'phase-centre variations and biases are looked up for the signal and time '
  'asked for.',
  IH, 'every product file content and query epoch, satellite and signal',
  NOT + 'they look up a handful of values in one file of each kind.',
  ['peph.py', 'rinex.py'],
  [('SP3', 'peph.py:peph.*'), ('ANTEX', 'peph.py:atxdec.*'),
   ('bias', 'peph.py:biasdec.*'), ('antenna model', 'peph.py:antModelRx, antModelTx')])
p('C14', 'Satellite and signal identities map one-to-one on every path',
  'Satellite number, system/PRN and text identity convert into each other '
  'without loss, and every message-specific slot, satellite mask, signal '
  'mask and signal code table maps to the satellite, signal and carrier '
  'frequency its standard defines. Unknown codes map to "none", never to '
  'another satellite or signal.',
  IN, 'every system, PRN, slot and signal code',
  NOT + 'they convert a few examples.',
  ['gnss.py', 'cssrlib.py', 'cssr_bds.py', 'cssr_pvs.py', 'sbas.py', 'rtcm.py',
   'qznma.py', 'osnma.py'],
  [('numbering', 'gnss.py:prn2sat, sat2prn, id2sat, sat2id'),
   ('signals', 'gnss.py:rSigRnx'), ('tables', '*:ssig2rsig, gnss2sys, msm2rsig')])
p('C15', 'Time scales are converted consistently and weeks disambiguated',
  'Conversions between calendar, GPS, Galileo, BeiDou, GLONASS and UTC time '
  'apply the defined offsets and leap seconds and invert each other, and '
  'every truncated time in a message (time of hour, day or week) is resolved '
  'to the instant nearest the reference time. Differences and additions of '
  'times keep the sub-second part and never alter their operands.',
  IN, 'every instant, including week, day and hour roll-over',
  NOT + 'they convert one date.',
  ['gnss.py', 'rtcm.py', 'cssrlib.py', 'cssr_pvs.py', 'rinex.py', 'rawnav.py',
   'sbas.py', 'dgps.py', 'peph.py', 'ppp.py'],
  [('time functions', 'gnss.py:gpst2time, time2gpst, ...'),
   ('week adjustment', '*:adjtime, adjustweek, adjust_time_week')])
p('C16', 'Satellite position and clock follow the broadcast orbit models',
  'For each constellation the satellite position, velocity, clock and '
  'relativistic correction are computed from the ephemeris by the interface '
  "specification's algorithm with that constellation's constants, and the "
  'ephemeris chosen for a satellite, time and issue of data is the matching '
  'valid one of minimum age. No ephemeris within its validity means no '
  'position.',
  IN, 'every ephemeris, satellite, time and issue of data',
  NOT + 'they compute two ephemerides to loose tolerance.',
  ['ephemeris.py', 'tlesim.py'],
  [('models', 'ephemeris.py:eph2pos, geph2pos, alm2pos'),
   ('selection', 'ephemeris.py:findeph')])
p('C17', 'Corrections apply only when complete, fresh and of matching issue',
  'A satellite takes part in a corrected solution only if its orbit and '
  'clock corrections are present, within their validity time and refer to '
  'the same SSR issue, and if the broadcast ephemeris used has exactly the '
  'issue of data the orbit correction refers to; otherwise it is left out '
  'for that epoch. Corrections are projected in the radial/along/cross axes '
  'and applied with the sign convention of the service.',
  IH, 'every history of corrections, ephemerides and query times',
  NOT + 'the stable tests use no SSR corrections.',
  ['ephemeris.py', 'cssrlib.py', 'cssr_pvs.py', 'sbas.py', 'pppssr.py', 'pntpos.py', 'rtcm.py', 'dgps.py'],
  [('application', 'ephemeris.py:satposs, satpos'),
   ('validity', '*:check_validity, chk_stat'),
   ('biases', 'pppssr.py:pppos.find_bias')])
p('C18', 'Galileo OSNMA accepts only data verified by the key chain',
  'A public key is adopted only if its Merkle proof reaches the trusted '
  'root, a root key only if its signature verifies, and a chain key only if '
  'hashing links it to a verified key; tags are compared only after the '
  'tag-sequence and key are verified for that time. Navigation data is '
  'reported authenticated only if every required tag matches the data '
  'received before the key was disclosed.',
  IH, 'every message history, including tampered or reordered pages',
  NOT + 'no authentication data is processed by the stable tests.',
  ['osnma.py'], [('state machine', 'osnma.py:osnma.decode'),
                 ('verification', 'osnma.py:osnma.verify_*')])
p('C19', 'QZSS navigation authentication accepts only signed data',
  'Navigation data of QZSS or another constellation is reported '
  'authenticated only if the digital signature of the service, under the '
  'public key with the broadcast key identity, verifies over exactly the '
  'masked navigation message bits, time and satellite identity received. '
  'Missing pages or failed verification leave it unauthenticated.',
  IH, 'every message history, including tampered pages',
  NOT + 'no authentication data is processed by the stable tests.',
  ['qznma.py'], [('state machine', 'qznma.py:qznma.decode'),
                 ('verification', 'qznma.py:qznma.verify_*'),
                 ('masking', 'qznma.py:qznma.*_to_mnav')])
p('C20', 'Only valid measurements enter the solution',
  'A measurement is used only if the satellite is selected, healthy, above '
  'the elevation mask, strong enough, has all required code, phase and '
  'correction data, and shows no slip by loss-of-lock, outage or geometry-'
  'free tests; a slip or a long outage resets its ambiguity. Residual '
  'screening rejects exactly the measurements beyond the threshold.',
  IH, 'every observation history',
  NOT + 'they process one clean RTK data set.',
  ['pppssr.py', 'pntpos.py', 'rtk.py'],
  [('editing', 'pppssr.py:pppos.qcedit'), ('screening', 'pppssr.py:pppos.valpos')])
p('C21', 'Each filter state is addressed, reset and propagated as itself',
  'Positions, velocity, troposphere, ionosphere and each ambiguity have their '
  'own place in the filter for every configuration and satellite, so that '
  'initialising, propagating, resetting or fixing one leaves the others '
  'alone. Process noise, initial variance and outage handling follow the '
  'configured model, and time, covariance and solution status advance once '
  'per epoch.',
  ['inputs', 'histories', 'configurations'],
  'every configuration, number of frequencies, satellite set and history',
  NOT + 'they run one configuration.',
  ['pppssr.py', 'pntpos.py', 'rtk.py', 'ppprtk.py', 'gnss.py'],
  [('layout', 'pppssr.py:pppos.II, IT, IB'),
   ('time update', 'pppssr.py:pppos.udstate'),
   ('configuration', 'pppssr.py:pppos.__init__')])
p('C22', 'Measurement models use the stated corrections with right signs',
  'Predicted code and phase for each satellite and signal contain geometry, '
  'clocks, troposphere, ionosphere (with the sign and scale of its '
  'frequency), antenna, wind-up, tide and bias terms with the defined signs, '
  'and the design matrix holds their derivatives in the matching state '
  'columns. Differences are formed between satellites of one system and '
  'signal against one reference, with the matching covariance.',
  ['inputs', 'configurations'],
  'every satellite set, signal set, frequency count and configuration',
  NOT + 'they run one configuration; a wrong small term stays under the '
  'tolerance.',
  ['pppssr.py', 'pntpos.py', 'rtk.py', 'peph.py', 'gnss.py'],
  [('residuals', 'pppssr.py:pppos.zdres, sdres'),
   ('covariance', 'pppssr.py:pppos.ddcov, varerr'),
   ('update', 'pppssr.py:pppos.kfupdate')])
p('C23', 'Integer ambiguities are fixed only after validated search',
  'Integer search decorrelates, searches and transforms back by integer-'
  'preserving steps that are mutually consistent, returns candidates in '
  'increasing distance, and in partial mode fixes only the subset meeting '
  'the success-rate bound. A fixed solution is adopted only when enough '
  'ambiguities take part and the ratio test passes, and the restored '
  'single-difference ambiguities reproduce the fixed differences.',
  IN, 'every float solution and covariance',
  NOT + 'they process one data set.',
  ['mlambda.py', 'pppssr.py'],
  [('search', 'mlambda.py:*'), ('fixing', 'pppssr.py:pppos.resamb_lambda, restamb, holdamb')])
p('C24', 'Atmospheric delays follow the configured model and grids',
  'Troposphere and ionosphere delays and mapping functions are those of the '
  'selected model with its published coefficients, interpolated over '
  'latitude, height, season and grid as the model defines. Gridded '
  'corrections use only grid points that are available around the user, with '
  'weights that sum to one.',
  ['inputs', 'configurations'],
  'every position, time, elevation, model and grid content',
  NOT + 'they evaluate one or two points.',
  ['gnss.py', 'pntpos.py', 'sbas.py', 'cssrlib.py', 'cssr_mdc.py'],
  [('troposphere', 'gnss.py:tropmodel*, tropmapf*, mapf*, meteo*'),
   ('ionosphere', 'pntpos.py:ionKlobuchar; sbas.py:ionoSBAS'),
   ('grids', 'cssrlib.py:cssr.find_grid_index, get_stec, get_trop')])
p('C25', 'Coordinate and geometry functions are consistent',
  'Geodetic, Cartesian and local coordinates convert consistently on the '
  'WGS-84 ellipsoid for every position including poles and the date line. '
  'Ranges include the Earth-rotation term, azimuth is measured from north towards east, and '
  'dilution-of-precision values use only satellites above the mask.',
  IN, 'every position and direction',
  NOT + 'they convert one or two points.',
  ['gnss.py'], [('coordinates', 'gnss.py:ecef2pos, pos2ecef, ecef2enu'),
                ('geometry', 'gnss.py:geodist, satazel, dops')])
p('C26', 'Tide, wind-up, Sun/Moon and frame models follow IERS definitions',
  'Solid-tide and pole-tide displacement, phase wind-up, relativistic path '
  'delay, Sun and Moon position and the celestial/terrestrial rotation are '
  'computed with the IERS/IAU coefficients, and the same quantity computed '
  'by two parts of the library is the same. Wind-up stays continuous between '
  'epochs.',
  IN, 'every epoch and position', NOT + 'these models are not evaluated.',
  ['ppp.py', 'peph.py'],
  [('tides', 'ppp.py:tidedisp, solid_tide'), ('wind-up', 'ppp.py:windupcorr'),
   ('frames', 'ppp.py:eci2ecef; peph.py:eci2ecef')])
p('C27', 'Correction state follows the issue and mask in force',
  'A correction message is interpreted with the mask of its own issue only: '
  'messages whose SSR issue differs from the active mask are not stored, a '
  'mask change retires the corrections of the old mask, and every stored '
  'correction carries the time and issue of the message it came from. '
  'Receiving one message never alters the stored corrections of other '
  'satellites, signals or networks.',
  IH, 'every message history and interleaving',
  NOT + 'no correction message is decoded by the stable tests.',
  ['cssrlib.py', 'cssr_has.py', 'cssr_bds.py', 'cssr_pvs.py', 'cssr_mdc.py',
   'rtcm.py', 'sbas.py', 'dgps.py'],
  [('bookkeeping', '*:set_t0, decode_head, decode_cssr_mask, decode_cssr')])
p('C28', 'Every message reaches the decoder of its type, and only if intact',
  'A framed message is decoded only after its preamble, length and checksum '
  '(where the format has one) are accepted, and each supported message type '
  'or sub-type reaches exactly its own decoder; unsupported types and '
  'damaged frames change no decoded state. The bit position is carried from '
  'header to body to next message so that consecutive messages are read '
  'back to back.',
  IH, 'every byte stream and message type sequence',
  NOT + 'no message stream is decoded by the stable tests.',
  ['rtcm.py', 'cssrlib.py', 'cssr_has.py', 'cssr_bds.py', 'cssr_mdc.py',
   'cssr_pvs.py', 'sbas.py', 'dgps.py', 'rawnav.py', 'osnma.py', 'qznma.py', 'ewss.py'],
  [('framing', 'rtcm.py:rtcm.sync, checksum'), ('dispatch', '*:decode, decode_cssr')])

p('C29', 'Objects are independent and calls leave their arguments alone',
  'Two decoders, receivers or filters in one process never influence each '
  'other: no call changes data that other instances share. A function '
  'changes an argument in place only where that is its documented purpose, '
  'and a result or stored value is never the same mutable object as data '
  'that is changed later.',
  IH, 'every number and interleaving of instances and calls',
  NOT + 'sharing shows only with a second instance or a later change, which '
  'no stable test has.',
  ['gnss.py', 'cssrlib.py', 'rtcm.py', 'osnma.py', 'qznma.py', 'pppssr.py',
   'rtk.py', 'peph.py', 'ephemeris.py'],
  [('state', '*:__init__, class attributes, default arguments'),
   ('arguments', '*: every public function')])
p('C30', 'No supported input fails on an internal programming error',
  'For every supported message, record, configuration and history the '
  'library produces a result or its documented refusal: it never stops '
  'because a name, attribute, enumeration member or variable does not exist '
  'on the path taken, a function is called with arguments it does not have, '
  'or a bit format does not fit its values.',
  IH, 'every path of every function',
  'Tests run a small part of the branches; the message types, options and '
  'error branches that no test takes are where such errors survive.',
  ['cssrlib.py', 'rtcm.py', 'sbas.py', 'rinex.py', 'rawnav.py', 'ewss.py',
   'gnss.py', 'pppssr.py'],
  [('all', '*: every function')])

p('C31', 'Position solutions converge to the true position within their accuracy',
  'With valid observations and corrections the single-point, SBAS, RTK, PPP '
  'and PPP-RTK engines converge to the true antenna position within the '
  'accuracy class of the method, and the reported standard deviations bound '
  'the actual error.',
  IH, 'every data set, geometry and error realisation',
  'The end-to-end tests sample a handful of data sets.',
  ['pppssr.py', 'rtk.py', 'pntpos.py', 'ppprtk.py'],
  [('filters', 'pppssr.py:pppos.process; pntpos.py:stdpos.process')])
p('C32', 'Ambiguity search returns the globally nearest integer vector',
  'For every float vector and positive definite covariance the LAMBDA search '
  'returns the integer vectors with the smallest and second smallest '
  'quadratic form, and terminates.',
  IN, 'every positive definite covariance and float vector',
  'Optimality over the infinite integer lattice cannot be sampled.',
  ['mlambda.py'], [('search', 'mlambda.py:search, mlambda')])
p('C33', 'Filter covariances stay symmetric positive semi-definite',
  'After every time and measurement update the state covariance stays '
  'symmetric and positive semi-definite in floating-point arithmetic, and '
  'iterations (Kepler, least squares, geodetic) converge.',
  IH, 'every state, observation set and rounding',
  'Numerical breakdown needs long histories or ill-conditioned geometry.',
  ['gnss.py', 'pppssr.py', 'pntpos.py', 'ephemeris.py'],
  [('update', 'gnss.py:kfupdate'), ('Kepler', 'ephemeris.py:eph2pos')])
p('C34', 'Arbitrary damaged or truncated input never raises',
  'For every byte string or text file, including truncated and damaged ones, '
  'the decoders and readers return or skip the item without raising an '
  'exception or looping forever.',
  IN, 'every byte string and text file',
  'The tests read well-formed files only.',
  ['rtcm.py', 'rinex.py', 'cssrlib.py', 'sbas.py', 'rawnav.py', 'osnma.py'],
  [('decoders', '*:decode*'), ('readers', 'rinex.py:rnxdec')])

if __name__ == '__main__':
    with open('/verif/properties.jsonl', 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, q['id']
            f.write(json.dumps(q) + '\n')
    print(len(P))
