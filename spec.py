"""What is verified: units (how a harness is built) and properties (which contracts decide them)."""
DEFAULT_SAT = 'cadical'
# loops of the model library whose bound is independent of the harness
UNWINDSET = {'F__ZNSt6vectorIhvEC2Em.0': 130, 'vf_strlen.0': 60, 'F__ZNKSt6string6equalsERKS_.0': 130, 'F__ZN8nlohmann12ordered_jsonixEPKc.1': 60}
TRUSTED = [
    'clang-18 front end and the opt-18 passes sroa, early-cse, simplifycfg, inline (the same front end builds redsea)',
    'tools/ll2c.py: LLVM IR to C translation (every run is cross-checked by executing the same harness natively)',
    'vstl/: fixed-capacity models of std::string, vector, deque, map, set, streams, and nlohmann::ordered_json (exceeding a capacity is a failed obligation)',
    'CBMC 6.11 and its SAT back end',
]
ALLSRC = ['src/groups.cc', 'src/util.cc', 'src/tables.cc', 'src/text/rdsstring.cc', 'src/tmc/tmc.cc']
NALL = ['src/tmc/csv.cc', 'src/tmc/events_data.cc', 'src/tmc/locationdb.cc']
def DATA(sec, paths, mdefs=[]):
    return dict(harness='h_data.cc', src=ALLSRC, nsrc=NALL, defs=['-D' + sec, '-DVF_JSON_PATHS=' + ','.join('"%s"' % p for p in paths.split())], mdefs=['-DVF_CAPS_FILE="caps_data.h"'] + mdefs)
def TMCU(sec, paths, mdefs=[]):
    return dict(harness='h_tmc.cc', src=[x for x in ALLSRC if x != 'src/tmc/tmc.cc'], nsrc=NALL, defs=['-D' + sec, '-DVF_JSON_PATHS=' + ','.join('"%s"' % p for p in paths.split())], mdefs=['-DVF_CAPS_FILE="caps_tmc.h"'] + mdefs)
UNITS = {
    'tff': TMCU('SEC_FF', 'x', ['-DVSTL_DEQCAP=112']),
    'tmsg': TMCU('SEC_MSG', 'x'),
    'tstr': TMCU('SEC_STR', 'x', ['-DVSTL_STRCAP=40']),
    'tjson': TMCU('SEC_JS', 'event_codes supplementary_codes diversion_route description update_class speed_limit encrypted_location location direction extent urgency starts until', ['-DVF_JSON_ITEMS=3']),
    'tasm': TMCU('SEC_ASM', 'x'),
    'tsvc': TMCU('SEC_SVC', ' '.join('tmc/system_info/' + p for p in 'is_encrypted location_table is_on_alt_freqs scope service_id gap ltcc ltecc country encryption_id'.split()) + ' tmc/service_provider ' + ' '.join('tmc/other_network/' + p for p in 'pi frequencies_khz pi_codes service_id location_table scope'.split()) + ' tmc/message/mark mark', ['-DVF_JSON_SITEMS=4']),
    'text': dict(harness='h_text.cc', src=ALLSRC, nsrc=NALL, defs=['-DVF_JSON_PATHS="ps","partial_ps","pty_name","long_ps","partial_long_ps","radiotext","partial_radiotext","rt_ab","ta","is_music","di/dynamic_pty","di/compressed","di/artificial_head","di/stereo"'], mdefs=['-DVF_CAPS_FILE="caps_station.h"']),
    'rds': dict(harness='h_rdsstring.cc', src=['src/util.cc', 'src/text/rdsstring.cc'], nsrc=['src/groups.cc', 'src/tables.cc', 'src/tmc/tmc.cc'] + NALL, defs=['-DVF_JSON_PATHS="ps"'], mdefs=['-DVF_CAPS_FILE="caps_station.h"', '-DVSTL_STRCAP=66', '-DCAP_BYTES=64']),
    'af': dict(harness='h_af.cc', src=ALLSRC, nsrc=NALL, defs=['-DVF_JSON_PATHS="alt_frequencies_a","partial_alt_frequencies","alt_frequencies_b/tuned_frequency","alt_frequencies_b/same_programme","alt_frequencies_b/regional_variants"'], mdefs=['-DVF_CAPS_FILE="caps_af.h"', '-DVF_JSON_ITEMS=25']),
    'input': dict(harness='h_input.cc', src=ALLSRC + ['src/io/input.cc'], nsrc=NALL, nlibs=['-lsndfile'], defs=['-DVF_JSON_PATHS="pi"'], mdefs=['-DVF_CAPS_FILE="caps_station.h"', '-DVSTL_STRCAP=8']),
    'inputp': dict(harness='h_input.cc', src=ALLSRC + ['src/io/input.cc'], nsrc=NALL, nlibs=['-lsndfile'], defs=['-DVF_JSON_PATHS="pi"'], mdefs=['-DVF_CAPS_FILE="caps_station.h"']),
    'mpx': dict(harness='h_input.cc', src=ALLSRC + ['src/io/input.cc'], nsrc=NALL, nlibs=['-lsndfile'], defs=['-DVF_JSON_PATHS="pi"'], mdefs=['-DVF_CAPS_FILE="caps_station.h"', '-DVSTL_STRCAP=80']),
    'channel': dict(harness='h_channel.cc', src=ALLSRC + ['src/channel.cc', 'src/block_sync.cc'], nsrc=NALL, defs=['-DVF_JSON_PATHS="pi","bler","stream"'], mdefs=['-DVF_CAPS_FILE="caps_channel.h"']),
    'clock': dict(DATA('SEC_CT', 'clock_time', ['-DCAP_BYTES=2']), harness='h_clock.cc'),
    'g1': DATA('SEC_G1', 'prog_item_number prog_item_started/day prog_item_started/time has_linkage country tmc_id language slc_broadcaster_bits ews'),
    'eon': DATA('SEC_EON', ' '.join('other_network/' + p for p in 'pi tp ta ps alt_frequencies kilohertz has_linkage linkage_set prog_type prog_item_number prog_item_started/day prog_item_started/time broadcaster_data'.split()), ['-DCAP_BYTES=2']),
    'eon1': DATA('SEC_EON', ' '.join('other_network/' + p for p in 'pi tp ta ps alt_frequencies kilohertz has_linkage linkage_set prog_type prog_item_number prog_item_started/day prog_item_started/time broadcaster_data'.split()), ['-DCAP_BYTES=2', '-DEON_ONE']),
    'data': DATA('SEC_DATA', 'in_house_data transparent_data/address transparent_data/raw transparent_data/full_text transparent_data/full_raw transparent_data/as_text dab/mode dab/kilohertz dab/channel dab/ensemble_id enhanced_radiotext', ['-DCAP_BYTES=4', '-DVSTL_STRCAP=32']),
    'oda': DATA('SEC_ODA', 'unknown_oda/raw_data unknown_oda/app_id unknown_oda/app_name open_data_app/oda_group open_data_app/app_name open_data_app/message'),
    'rtp': DATA('SEC_RTP', 'radiotext_plus/item_running radiotext_plus/item_toggle radiotext_plus/tags radiotext_plus/tags#0/content-type radiotext_plus/tags#0/data radiotext_plus/tags#1/content-type radiotext_plus/tags#1/data content-type data'),
    'station': dict(harness='h_station.cc', src=ALLSRC, nsrc=NALL, nlibs=[], defs=['-DVF_JSON_PATHS="pi","tp","prog_type","group","callsign","callsign_uncertain"'],
                    mdefs=['-DVF_CAPS_FILE="caps_station.h"']),
    'block': dict(harness='h_block.cc', src=['src/block_sync.cc', 'src/groups.cc', 'src/util.cc'],
                  nsrc=['src/tables.cc', 'src/text/rdsstring.cc', 'src/tmc/csv.cc', 'src/tmc/events_data.cc', 'src/tmc/tmc.cc', 'src/tmc/locationdb.cc'],
                  defs=[], mdefs=['-DVF_JSON_PATHS="pi"', '-DVF_CAPS_FILE="caps_block.h"']),
}
SYN = {'redsea::calculateSyndrome(unsigned int)': 'stub_syndrome'}
BLK0 = dict(SYN, **{'redsea::correctBurstErrors(redsea::Block, redsea::Offset)': 'stub_correct'})
BLK = dict(SYN, **{'redsea::correctBurstErrors(redsea::Block, redsea::Offset)': 'stub_correct',
       'redsea::RunningSum<int, 50ul>::getSum() const': 'stub_sum'})
HEX = {'std::string redsea::getHexString<%d>(unsigned int)' % n: 'stub_hex%d' % n for n in (2, 3, 4, 7)}
HEX['std::string redsea::getPrefixedHexString<4>(unsigned int)'] = 'stub_phex4'
HEX['redsea::GroupType::str() const'] = 'stub_typestr'
KEYS = {'redsea::tmc::(anonymous namespace)::loadServiceKeyTable()': 'stub_keys'}
DEC = {'redsea::Station::%s(redsea::Group const&)' % n: 'stub_' + n for n in 'decodeType0 decodeType1 decodeType2 decodeType3A decodeType4A decodeType5 decodeType6 decodeType7A decodeType9A decodeType10A decodeType14 decodeType15A decodeType15B decodeODAGroup decodeC'.split()}
DEC['redsea::tmc::TMCService::receiveUserGroup(unsigned short, unsigned short, unsigned short, nlohmann::ordered_json*)'] = 'stub_tmcuser'
NAMES = {'redsea::getPTYNameString[abi:cxx11](unsigned short)': 'stub_ptyname', 'redsea::getPTYNameStringRBDS[abi:cxx11](unsigned short)': 'stub_ptyname_rbds',
         'redsea::getPTYNameString(unsigned short)': 'stub_ptyname', 'redsea::getPTYNameStringRBDS(unsigned short)': 'stub_ptyname_rbds', 'redsea::getCallsignFromPI(unsigned short)': 'stub_callsign'}
RS = 'redsea::RDSString::'
ABS = {RS + 'set(unsigned long, unsigned char)': 'abs_set', RS + 'clear()': 'abs_clear', RS + 'resize(unsigned long)': 'abs_resize', RS + 'isComplete() const': 'abs_complete',
       RS + 'hasPreviouslyReceivedTerminators() const': 'abs_terms', RS + 'getReceivedLength() const': 'abs_received', RS + 'getLastCompleteString() const': 'abs_last', RS + 'str() const': 'abs_str'}
AF = 'redsea::AltFreqList::'
AFABS = {AF + 'insert(unsigned short)': 'abs_af_insert', AF + 'isComplete() const': 'abs_af_complete', AF + 'isMethodB() const': 'abs_af_methodb', AF + 'clear()': 'abs_af_clear', AF + 'getRawList() const': 'abs_af_list'}
ABS['redsea::rtrim(std::string)'] = 'abs_rtrim'
COMMON = dict(KEYS, **NAMES, **HEX)
def dec(*only):
    'Replace every group decoder except those under test'
    return {k: v for k, v in DEC.items() if v not in ['stub_' + o for o in only]}

def RDS_SZ(*sizes):
    return [('rds', 'h_set_%d' % n, dict(unwind=68, replace={RS + 'str() const': 'rds_str'})) for n in sizes] + [('rds', 'h_data_%d' % n, dict(unwind=68)) for n in sizes]
RDS_RESIZE = ('rds', 'h_resize', dict(unwind=68))
RDS_DECODE = ('rds', 'h_decode', dict(unwind=68, replace={RS + 'getData() const': 'rds_getdata', 'redsea::(anonymous namespace)::getRDSCharString(unsigned char)': 'rds_char'}))
RDS_CHARSET = ('rds', 'h_charset', dict(unwind=260, w=5))
RDS_TRIM = ('rds', 'h_rtrim', dict(unwind=68))
TEXTDEC = dict(h_ps_a='decodeType0', h_ps_b='decodeType0', h_ptyn='decodeType10A', h_longps='decodeType15A', h_rt_a='decodeType2', h_rt_b='decodeType2', h_flags15b='decodeType15B')
def TEXT(*names):
    return [('text', n, dict(unwind=130, replace=dict(COMMON, **ABS, **AFABS, **dec(TEXTDEC[n])))) for n in names]
PART = [('rds', 'h_charlen', dict(unwind=68)), ('rds', 'h_part', dict(unwind=131, w=9, replace={'redsea::charlen(std::string const&, unsigned long)': 'rds_charlen', 'std::string::substr(unsigned long, unsigned long) const': 'rds_substr'}))]
AFL = dict(AFABS, **{AF + 'isComplete() const': 'abs_l_complete', AF + 'isMethodB() const': 'abs_l_methodb', AF + 'getRawList() const': 'abs_l_list'})
UPD = {'redsea::Station::updateAndPrint(redsea::Group const&, std::ostream&)': 'ch_update'}
NOW = {'std::chrono::_V2::system_clock::now()': 'ch_now'}
BS = 'redsea::BlockStream::'
BITS = {BS + 'pushBit(bool)': 'ch_push', BS + 'hasGroupReady() const': 'ch_ready', BS + 'popGroup()': 'ch_pop', 'redsea::Channel::processGroup(redsea::Group, unsigned long)': 'ch_process'}
INP = {'std::getline(std::istream&, std::string&, char)': 'in_getline', 'std::chrono::_V2::system_clock::now()': 'in_now', 'std::string::substr(unsigned long, unsigned long) const': 'in_substr', 'std::operator!=(std::string const&, char const*)': 'in_ne', 'std::ostream::operator<<(std::string const&)': 'in_putstr', 'std::ostream::operator<<(char)': 'in_putchr'}
TBL = {'redsea::getCountryString(unsigned short, unsigned short)': 'stub_country', 'redsea::getLanguageString(unsigned short)': 'stub_language', 'redsea::getAppNameString(unsigned short)': 'stub_app', 'redsea::getRTPlusContentTypeString(unsigned int)': 'stub_tag', 'redsea::getHoursMinutesString(int, int)': 'stub_hm'}
ABS2 = dict(ABS, **{RS + 'getData() const': 'abs_data'})
OD = {'redsea::Station::parseDAB(redsea::Group const&)': 'od_dab', 'redsea::Station::parseEnhancedRT(redsea::Group const&)': 'od_ert', 'redsea::parseRadioTextPlus(redsea::Group const&, redsea::RadioText&, nlohmann::ordered_json&)': 'od_rtplus', 'redsea::tmc::TMCService::receiveSystemGroup(unsigned short, nlohmann::ordered_json*)': 'od_tmcsys'}
def OD2(but):
    return {k: v for k, v in OD.items() if v != but}
CTOR = {RS + 'RDSString(unsigned long)': 'abs_ctor'}
TM = 'redsea::tmc::'
TMSTUB = dict(KEYS, **{TM + 'getEvent(unsigned short)': 'stub_event', TM + '(anonymous namespace)::loadEventData()': 'stub_loadevents'})
TMM = {TM + 'Message::pushSingle(unsigned short, unsigned short, unsigned short)': 'tm_single', TM + 'Message::pushMulti(unsigned short, unsigned short, unsigned short)': 'tm_multi', TM + 'Message::json() const': 'tm_json', TM + 'Message::decrypt(redsea::tmc::ServiceKey const&)': 'tm_decrypt',
       TM + '(anonymous namespace)::decodeLocation(redsea::tmc::LocationDatabase const&, unsigned short, nlohmann::ordered_json*)': 'tm_loc', 'redsea::getCountryString(unsigned short, unsigned short)': 'tm_country'}
POPB = TM + '(anonymous namespace)::popBits(std::deque<bool, void>&, unsigned long)'
PROPS = {
    'C14': dict(rand=1, entries=[('tff', 'h_ff_%s' % x, dict(unwind=31, replace={POPB: 'tm_pop'})) for x in ('01', '34')] + [('tff', 'h_ffb_%d%d' % (g, n), dict(unwind=114, replace={POPB: 'tm_pop_first'})) for g in range(4) for n in range(1, g + 2)] + [('tff', 'h_popbits', dict(unwind=114))]
        + [('tmsg', 'h_msg_%s' % n, dict(unwind=45, replace=dict(TMSTUB, **{TM + '(anonymous namespace)::getFreeformFields(std::array<redsea::tmc::MessagePart, 5ul> const&)': 'tm_fields'}))) for n in 'first 0 1 2 3 4 5 6 7 8 9 10 11 13 14 9_4 9_5 4_4 5_5 4_5 6_6 10_10 1_1 9_9 9_1'.split()]
        + [('tasm', 'h_multi', dict(unwind=45, replace=dict(TMSTUB, **{TM + 'Message::decodeMulti()': 'tm_decode'}))), ('tasm', 'h_single', dict(unwind=45, replace=TMSTUB))]),
    'C26': dict(rand=1, entries=
[('tstr', n, dict(unwind=70, cbmc=['--object-bits', '14'])) for n in ['h_time_%d' % k for k in range(8)] + ['h_quant_%d_%d' % (t, k) for t in range(13) for k in range(1 if t <= 5 else 4)]]
        + [('tjson', 'h_json_%s' % x, dict(unwind=130, cbmc=['--object-bits', '12'], replace={**KEYS, TM + 'getEvent(unsigned short)': 'js_event', TM + '(anonymous namespace)::isValidEventCode(unsigned short)': 'js_valid', TM + '(anonymous namespace)::getTimeString(unsigned short)': 'js_time', TM + '(anonymous namespace)::getDescriptionWithQuantifier(redsea::tmc::Event const&, unsigned short)': 'js_quant'})) for x in range(9)]),
    'C15': dict(entries=[('tasm', 'h_decrypt', dict(unwind=45))] + [('tsvc', n, dict(unwind=130, cbmc=['--object-bits', '12'], replace=dict(TMSTUB, **HEX, **TMM, **ABS, **AFABS, **CTOR))) for n in ('h_system', 'h_user_admin', 'h_user_tuning', 'h_user_single', 'h_user_multi')]),
    'C10': dict(entries=[('clock', 'h_ct_%s' % k, dict(unwind=130, replace=dict(COMMON, **CTOR, **dec('decodeType4A')))) for k in ['early', *range(8)]]),
    'C05': dict(entries=[('g1', 'h_hours', dict(unwind=45)), *[('g1', n, dict(unwind=130, replace=dict(COMMON, **TBL, **dec('decodeType1')))) for n in ('h_group1_a', 'h_group1_b')]]),
    'C16': dict(entries=[('eon1' if n in ('h_eon_a', 'h_eon_b') else 'eon', n, dict(unwind=130, cbmc=['--object-bits', '12'], replace=dict(COMMON, **TBL, **ABS, **AFABS, **CTOR, **dec('decodeType14')))) for n in ['h_eon_b', 'h_eon_a', 'h_eon_af', 'h_eon_af_k'] + ['h_eon_ps_%d%s' % (k, x) for k in range(4) for x in ('', 'k')]] + [('g1', 'h_hours', dict(unwind=45)), ('af', 'h_frequency', dict(unwind=130)), ('af', 'h_af_insert', dict(unwind=130)), ('af', 'h_af_clear', dict(unwind=130)), *RDS_SZ(8)]),
    'C12': dict(entries=[*[('rtp', n, dict(unwind=130, cbmc=['--object-bits', '12'], replace=dict(COMMON, **TBL, **ABS, **CTOR, **OD2('od_rtplus'), **dec('decodeODAGroup'), **{RS + 'getLastCompleteString(unsigned long, unsigned long) const': 'rtp_part'}))) for n in ('h_rtplus_0', 'h_rtplus_1', 'h_rtplus_2')]] + PART + [RDS_TRIM]),
    'C24': dict(entries=[('data', 'h_group6_a', dict(unwind=130, replace=dict(COMMON, **CTOR, **dec('decodeType6')))), ('data', 'h_group6_b', dict(unwind=130, replace=dict(COMMON, **CTOR, **dec('decodeType6')))),
        *[('data', n, dict(unwind=130, replace=dict(COMMON, **ABS2, **CTOR, **dec('decodeType5')))) for n in ('h_group5_a', 'h_group5_b')], ('data', 'h_dab', dict(unwind=130, cbmc=['--object-bits', '12'], replace=dict(COMMON, **TBL, **ABS, **CTOR, **OD2('od_dab'), **dec('decodeODAGroup')))), ('data', 'h_ert', dict(unwind=130, cbmc=['--object-bits', '12'], replace=dict(COMMON, **TBL, **ABS, **CTOR, **OD2('od_ert'), **dec('decodeODAGroup')))),
        ('oda', 'h_routing', dict(unwind=130, replace=dict(COMMON, **DEC))), *[('oda', n, dict(unwind=130, replace=dict(COMMON, **TBL, **OD, **dec('decodeODAGroup')))) for n in ('h_oda_11a', 'h_oda_8a')], ('oda', 'h_oda_assign', dict(unwind=130, replace=dict(COMMON, **TBL, **OD, **dec('decodeType3A'))))] + RDS_SZ(64)),
    'C17': dict(entries=[('input', n, dict(unwind=45, cbmc=['--object-bits', '12'], bounded='lines of up to 29 characters in 26 patterns of blanks', replace=dict(COMMON, **INP))) for n in ['h_hex_%d' % k for k in range(6)]]
         + [('inputp', 'h_hex_print', dict(unwind=60, replace=dict(COMMON, **{'redsea::getTimePointString(std::chrono::time_point<std::chrono::_V2::system_clock, std::chrono::duration<long, std::ratio<1l, 1000000000l> > > const&, std::string const&)': 'in_timestr'}))), ('inputp', 'h_hex_print_stream', dict(unwind=60, replace=dict(COMMON, **{'redsea::getTimePointString(std::chrono::time_point<std::chrono::_V2::system_clock, std::chrono::duration<long, std::ratio<1l, 1000000000l> > > const&, std::string const&)': 'in_timestr'}))), ('inputp', 'h_hex_roundtrip', dict(unwind=60)), ('station', 'h_hex4', dict(unwind=45))]),
    'C18': dict(entries=[*[('input', n, dict(unwind=45, cbmc=['--object-bits', '12'], bounded='three lines in seven patterns', replace=dict(COMMON, **INP, **{'std::stol(std::string const&, unsigned long*, int)': 'in_stol'}))) for n in ('h_tef_0', 'h_tef_1', 'h_tef_2')], ('input', 'h_ascii_bits', dict(unwind=45, bounded='up to five characters before the next bit', replace={'getchar': 'in_getchar', 'putchar': 'in_putchar', 'getc': 'in_getc', 'putc': 'in_putc'}))]),
    'C22': dict(entries=[('mpx', 'h_mpx_' + c, dict(unwind=90, bounded='chunks of up to 16 samples', replace=INP)) for c in '74321'] + [('mpx', 'h_mpx_fill', dict(unwind=45, replace=INP))]),
    'C04': dict(entries=[('channel', 'h_pi_update', dict(unwind=130)), ('channel', 'h_channel_pi', dict(unwind=130, replace=dict(COMMON, **UPD))), ('channel', 'h_channel_reset', dict(unwind=130, replace=dict(COMMON, **UPD)))]),
    'C19': dict(entries=[('channel', 'h_bler', dict(unwind=130, replace=dict(COMMON, **UPD))), ('channel', 'h_bler_print', dict(unwind=130, replace=dict(COMMON, **DEC)))]),
    'C20': dict(entries=[('channel', 'h_time_group', dict(unwind=130, replace=dict(COMMON, **UPD, **NOW))), *[('channel', 'h_time_bits_' + c, dict(unwind=130, cbmc=['--object-bits', '12'], bounded='buffers of 0, 1, 2, 26, 51 and 77 bits with a group ending at the first, middle, last bit or nowhere, and of 78 bits with a group ending anywhere', replace=dict(COMMON, **UPD, **BITS))) for c in '9876543210']]),
    'C09': dict(entries=[('af', n, dict(unwind=130)) for n in ('h_frequency', 'h_af_insert', 'h_af_clear')] + [('af', n, dict(unwind=130, replace=dict(COMMON, **ABS, **AFL, **dec('decodeType0')))) for n in ('h_af_print_a', 'h_af_partial')]
         + [('af', 'h_af_b_%d' % n, dict(unwind=28, replace=dict(COMMON, **ABS, **AFL, **dec('decodeType0')))) for n in range(25, 1, -2)]),
    'C07': dict(entries=TEXT('h_ps_a', 'h_ps_b', 'h_ptyn', 'h_longps') + RDS_SZ(8, 32)),
    'C08': dict(entries=TEXT('h_rt_a', 'h_rt_b') + RDS_SZ(32, 64) + [RDS_RESIZE, RDS_TRIM]),
    'C11': dict(entries=[RDS_DECODE, RDS_CHARSET, RDS_TRIM]),
    'C06': dict(entries=[('station', 'h_basics', dict(unwind=130, replace=dict(DEC, **KEYS, **NAMES, **HEX))), *[('station', 'h_' + n, dict(unwind=45)) for n in ('hex2', 'hex3', 'hex4', 'hex7', 'phex4')], ('station', 'h_type_str', dict(unwind=45))] + TEXT('h_flags15b')),
    'C01': dict(entries=[
        ('block', 'h_burst_unique', dict(unwind=52)),
        ('block', 'h_rem_linear', dict(unwind=52)),
        ('block', 'h_word', dict(unwind=52)),
        ('block', 'h_syndrome', dict(unwind=52)),
        ('block', 'h_syndrome_basis', dict(unwind=52)),
        ('block', 'h_offset_word', dict(unwind=52, replace=SYN)),
        ('block', 'h_correct', dict(unwind=60, w=9, replace=SYN)),
        ('block', 'h_accept', dict(unwind=60, replace=BLK, w=5)),
        ('block', 'h_roundtrip', dict(unwind=60, replace=BLK, w=5)),
        ('block', 'h_initial', dict(unwind=60)),
    ]),
    'C02': dict(entries=[
        ('block', 'h_frame_bit', dict(unwind=60, replace=BLK)),
        ('block', 'h_frame_block', dict(unwind=60, replace=BLK)),
        ('block', 'h_initial', dict(unwind=60)),
    ]),
    'C03': dict(entries=[
        ('block', 'h_running_sum', dict(unwind=60)),
        ('block', 'h_sync_loss', dict(unwind=60, replace=BLK)),
        ('block', 'h_could_follow', dict(unwind=60)),
        ('block', 'h_sync_acquire', dict(unwind=60, replace=dict(BLK, **{'redsea::SyncPulse::couldFollow(redsea::SyncPulse const&) const': 'stub_follow'}))),
        ('block', 'h_initial', dict(unwind=60)),
    ]),
}
