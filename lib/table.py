"""property -> what decides it.  aspects: the names Conf.tla gives to what it
compares; a difference in one of them, seen while running the plan, is a
violation of the property."""
from plans import *

MC = 'model_checking'


def P(*plans, **kw):
    d = dict(plans=[('default', p) if not isinstance(p, tuple) else p for p in plans], level=MC, aspects=[''], scale=4.0)
    d.update(kw)
    return d


FRAMING = [r'^index', r'^units', r'^offset', r'^length', r'^null', r'^drop']
EXCEPT_BITS = [r'^(?!bits)']


def about(*kinds):
    """the decoding of these structures: accepted or refused, elements, and what
    is stored"""
    k = '|'.join(kinds)
    st = [r'^store'] if {'sps', 'pps', 'subset'} & set(kinds) else []
    return [r'^(accept|reject|fields|ipp|plen)\.(%s)$' % k] + st


# theorems of the specification, checked exhaustively within bounds
FRAMES = {'quick': ('MCFraming', 'MCFraming'), 'thorough': ('MCFramingDeep', 'MCFraming')}
CODES = {'quick': ('MCBits', 'MCBits'), 'thorough': ('MCBitsDeep', 'MCBits')}
MARKING = {'quick': ('MCDpb', 'MCDpb'), 'thorough': ('MCDpbDeep', 'MCDpb')}

TABLE = {
    'P01': P(p_annexb, p_large_frames, ('quiet', p_huge_frames), models=[FRAMES], aspects=[r'^index$', r'^units', r'^offset', r'^length', r'^null', r'^drop', r'^store', r'^header']),
    'P02': P(p_length, p_large_lengths, ('quiet', p_huge_lengths), models=[FRAMES], aspects=[r'^index', r'^units', r'^offset', r'^length', r'^null', r'^drop', r'^store', r'^header']),
    'P03': P(p_escape, p_large_escapes, models=[FRAMES], aspects=[r'^unescape', r'^(accept|reject|fields|plen)', r'^header', r'^drop', r'^checksum']),
    'P04': P(p_reader, ('quiet', p_huge_bits), models=[CODES]),
    'P05': P(p_writer, ('quiet', p_huge_writes), models=[CODES]),
    'P06': P(p_rbsp, ('quiet', p_huge_rbsp)),
    'P07': P(p_sps, aspects=about('sps', 'spsdata') + [r'^dv']),
    'P08': P(p_vui, aspects=about('sps', 'spsdata', 'vui', 'hrd', 'subset')),
    'P09': P(p_pps, aspects=about('pps')),
    'P10': P(p_slice, aspects=about('slice', 'rplm', 'pwt', 'drpm') + [r'^unimplemented']),
    'P11': P(p_header, aspects=about('hdr', 'prefix', 'none') + [r'^type', r'^header', r'^drop', r'^unimplemented']),
    'P12': P(p_subset, aspects=about('subset', 'svcext')),
    'P13': P(p_shise, aspects=about('shise') + [r'^unimplemented']),
    'P14': P(p_nal),
    'P15': P(p_store, p_histories, p_near, ('quiet', p_again), aspects=[r'^store', r'^stale', r'^(accept|reject|fields)\.(slice|shise)$']),
    'P16': P(p_unimpl, ('quiet', p_threads), ('tsan', p_race), aspects=[r'^unimplemented', r'^threads']),
    'P17': P(p_checksum, ('quiet', p_huge_sums), aspects=[r'^checksum', r'^(accept|reject|fields|plen)']),
    'P18': P(p_entry),
    'P19': P(p_rtp),
    'P20': P(('default:cli', p_cli_status), ('default:cli', p_cli_wide_status), aspects=[r'^cli\.(status|refused|left|unimplemented)$']),
    'P21': P(p_dump, aspects=[r'^dump']),
    'P22': P(('default:cli', p_cli_length), ('default:cli', p_cli_wide_length), p_types, aspects=[r'^cli\.(length|refused)$', r'^types']),
    'P23': P(p_robust, p_slow, aspects=[r'^store', r'^stale', r'^null'], limit=25, alloc=150),
    'P24': P(p_derived, aspects=[r'^dv', r'^widths']),
    'P25': P(p_range, aspects=[r'^(accept|reject)', r'^store', r'^ipp']),
    'P26': P(p_isolation, ('quiet', p_threads), ('quiet', p_mixed), ('quiet', p_again), ('tsan', p_race)),
    'P27': P(('plain:tools', p_split), aspects=[r'^split']),
    'P28': P(('plain:tools', p_summary), aspects=[r'^sum']),
    'P29': P(('plain:tools', p_dpb), models=[MARKING], aspects=[r'^dpb']),
    'P30': P(p_spx),
    'P31': P(('small', p_small), ('small:cli', p_small_cli), build_is_ours=True),
    'P32': P(('default:cli', p_cli_all), ('default:cli', p_cli_wide_all), aspects=[r'^cli\.(all|refused)$']),
}
