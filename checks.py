"""What each check explores."""
import os

COMMON = [
    'The translation of Python 2 and the models of the standard library in '
    'engine/ are faithful where they were not compared: on every run, one '
    'solver model per sampled path is re-run on the real code under Jython '
    'and its observations compared.',
    'Code points above U+FFFF and surrogates are outside: Jython represents '
    'them differently from CPython.',
]
CHECKS = {}


def c01(tier):
    big = tier == 'thorough'
    j = []
    for n in range(0, 12 if big else 9):
        j.append(('h_submit', 'seven',
                  {'n': n, 'ext': list(range(n))[:7 if big else 5],
                   'forced': n % 2 == 1}, {'cost': 2 ** n}))
    lens = [0] + list(range(9, 18)) + list(range(23, 160, 8)) + [
        63, 64, 126, 127, 128, 152, 153, 154, 160]
    if big:
        lens = list(range(0, 161))
    for n in lens:
        j.append(('h_submit', 'seven_len', {'n': n, 'nesc': 0},
                  {'cost': n}))
    if big:
        esc = [(40, 1, 0, None), (24, 2, 0, None)] + [
            (159, 1, k, min(k + 19, 158)) for k in range(0, 159, 20)] + [
            (158, 2, 140, 157), (80, 2, 60, 79)]
    else:
        esc = [(30, 1, 0, None), (159, 1, 0, 7), (159, 1, 151, 158),
               (158, 2, 154, 157)]
    for n, k, lo, hi in esc:
        j.append(('h_submit', 'seven_len', {'n': n, 'nesc': k, 'lo': lo,
                                            'hi': hi}, {'cost': 999}))
    for n in [1, 7, 8, 30] + ([100, 159, 160] if big else []):
        j.append(('h_submit', 'seven_str', {'n': n}))
    for n in (155, 156, 157, 158) if big else (156, 157):
        j.append(('h_submit', 'fits', {'n': n, 'tail': 3}))
    return j


CHECKS['C01'] = {
    'jobs': c01,
    'bounds': {
        'quick': 'every text of 0 to 8 characters of the alphabet (the first '
        'five of any kind, the others of the default table), every text of '
        '0, 9 to 17, 63, 64, 126 to 128, 152 to 154, 160 or 8k + 7 default '
        'characters, 30 with one '
        'extension character anywhere, 159 with one near either end, 158 '
        'with two near the end, and texts of 156 or 157 fixed and 3 free '
        'characters',
        'thorough': 'the same with up to 11 free characters (7 of any kind), '
        'every length from 0 to 160, one extension character anywhere among '
        '159 and two anywhere among 24'},
    'outside': 'many extension characters at free positions of long texts',
}


def c02(tier):
    big = True
    j = []
    for n in range(1, 71) if big else (1, 2, 10, 69, 70):
        j.append(('h_submit', 'ucs2', {'n': n, 'auto': False}))
    for n in (1, 2, 3, 4) + ((5, 6) if tier == 'thorough' else ()):
        j.append(('h_submit', 'ucs2', {'n': n, 'auto': True}))
        j.append(('h_submit', 'auto', {'n': n}))
    for n in (5, 20, 70) if tier == 'quick' else range(5, 71):
        j.append(('h_submit', 'one_other', {'n': n}, {'cost': n}))
    for n in range(0, 141) if big else (0, 1, 2, 10, 139, 140):
        j.append(('h_submit', 'eight', {'n': n}))
    return j


CHECKS['C02'] = {
    'jobs': c02,
    'bounds': {
        'quick': 'texts of every length from 1 to 70 free BMP characters '
        '(UCS2 requested), of 1 to 4 free characters (nothing requested), of '
        '5, 20 and 70 characters with a free one anywhere, and every length '
        'from 0 to 140 free octets',
        'thorough': 'also up to 6 free characters with nothing requested and '
        'every length with a free character anywhere'},
    'outside': 'surrogates and characters beyond U+FFFF',
}


def c03(tier):
    big = tier == 'thorough'
    j = []
    # free characters around the end of the one message and of the parts
    for n, win, k in [(160, 157, 3), (161, 0, 0), (161, 151, 3),
                      (170, 151, 3), (306, 151, 2), (307, 304, 3),
                      (320, 304, 3), (459, 456, 2)]:
        j.append(('h_multi', 'seven', {'n': n, 'win': win, 'k': k,
                                       'full': False}, {'cost': n}))
    if big:
        for n, win, k in [(165, 150, 5), (310, 303, 5), (460, 457, 3),
                          (620, 610, 3), (159, 155, 4)]:
            j.append(('h_multi', 'seven', {'n': n, 'win': win, 'k': k,
                                           'full': False}, {'cost': n}))
        for n in range(150, 166):
            j.append(('h_multi', 'seven', {'n': n, 'win': 150, 'k': 4,
                                           'full': False}, {'cost': n}))
            j.append(('h_multi', 'seven', {'n': n + 153, 'win': 303, 'k': 4,
                                           'full': False}, {'cost': n}))
    for n, win, k, e in [(78, 76, 3, 76), (90, 75, 3, 90), (153, 75, 3, 75),
                         (160, 153, 3, 160)] + (
            [(n, n - 4, 4, n) for n in range(79, 160, 3)] if big else []):
        j.append(('h_multi', 'seven', {'n': n, 'win': win, 'k': k,
                                       'full': False, 'dense': e},
                  {'cost': 200}))
    for n in (161, 200, 306, 307) if big else (161,):
        j.append(('h_multi', 'seven', {'n': n, 'win': 0, 'k': 0,
                                       'full': True}, {'cost': 500}))
    for n, a in [(70, 0), (71, 0), (134, 0), (135, 0), (71, 1)] + (
            [(100, 0), (201, 0), (202, 0), (268, 0), (269, 0)]
            if big else []):
        j.append(('h_multi', 'ucs2', {'n': n, 'auto': bool(a)},
                  {'cost': n}))
    # many parts
    for p in (9, 10, 16, 17, 32, 100, 128) + ((200, 254) if big
                                              else ()):
        for n in (153 * p, 153 * p + 1) if big or p < 20 else (153 * p,):
            j.append(('h_multi', 'seven', {'n': n, 'win': n - 2, 'k': 1,
                                           'full': False},
                      {'cost': n, 'max_steps': 9000000}))
        if p < 215:
            j.append(('h_multi', 'ucs2', {'n': 67 * p, 'auto': False,
                                          'win': 67 * p - 2, 'k': 2},
                      {'cost': n, 'max_steps': 9000000}))
        j.append(('h_multi', 'eight', {'n': 134 * p, 'win': 134 * p - 3,
                                       'k': 3},
                  {'cost': n, 'max_steps': 9000000}))
    for n in [140, 141, 268, 269] + (list(range(142, 150)) +
                                     [402, 403] if big else []):
        j.append(('h_multi', 'eight', {'n': n}, {'cost': n}))
    return j


CHECKS['C03'] = {
    'jobs': c03,
    'bounds': {
        'quick': '7-bit texts of 160 to 459 characters with a window of 2 or '
        '3 free characters at the end of the single message or of a part, '
        'one of 161 free default characters, and those of 78 to 160 extension '
        'characters; texts of 9 to 128 full parts in each coding with 1 to 3 '
        'free characters at the end; UCS2 texts of 70, 71, 134 '
        'and 135 free characters; 140, 141, 268 and 269 free octets; every '
        'reference',
        'thorough': 'also windows of 4 or 5 free characters at each length '
        'around both borders, up to 620 characters, 307 free default '
        'characters, 269 UCS2 characters and 403 octets, and up to 254 parts'},
    'outside': 'free characters outside the windows of longer texts, '
               'messages of more than 215 (UCS2) or 255 parts',
}


def c04(tier):
    deep = tier == 'thorough'
    j = []
    for n in list(range(1, 26)) + [32, 50, 64, 100, 128, 256] + (
            list(range(26, 60)) if deep else []):
        for w in ('new', 'number', 'csca'):
            j.append(('h_fields', 'validation', {'n': n, 'which': w}))
    for n in range(3, 21):
        for p in (False, True):
            j.append(('h_fields', 'address', {'n': n, 'plus': p, 'm': 0,
                                              'mplus': False}))
            j.append(('h_fields', 'address', {
                'n': 7, 'plus': p, 'm': n, 'mplus': not p}))
    j.append(('h_fields', 'address', {'n': 9, 'plus': True, 'm': 8,
                                      'mplus': False, 'end': '\n'}))
    for n in range(3, 21):
        for m in range(3, 21):
            for p in range(4) if deep else ((n + m) % 4,):
                j.append(('h_fields', 'address', {
                    'n': n, 'plus': p % 2 > 0, 'm': m, 'mplus': p > 1}))
    return j


CHECKS['C04'] = {
    'jobs': c04,
    'bounds': {
        'quick': 'all ASCII strings of 1 to 25, 32, 50, 64, 100, 128 and 256 '
        'characters for validation; all digit strings of 3 to 20 digits as '
        'destination with each length of service centre, one combination of '
        'the two types each',
        'thorough': 'all ASCII strings of 1 to 59 characters; all '
        'combinations of types'},
    'outside': 'characters beyond ASCII; the empty number, which stands for '
               'no number',
}


def c05(tier):
    j = []
    for kind in ('short', 'ucs2', 'eight', 'long', 'longucs2', 'longeight'):
        for v in ('none', 'relative', 'absolute'):
            for c in ('', '+447785016005', '1234567'):
                for k in (None, 0, 1, 2, 3):
                    for r in (False, True):
                        j.append(('h_fields', 'options', {
                            'kind': kind, 'validity': v, 'centre': c,
                            'klass': k, 'report': r}))
    j.append(('h_fields', 'bad_class', {}))
    j.append(('h_fields', 'bad_types', {'which': 'class'}))
    j.append(('h_fields', 'bad_types', {'which': 'validity'}))
    j.append(('h_fields', 'bad_coding', {}))
    return j


CHECKS['C05'] = {
    'jobs': c05,
    'bounds': {
        'quick': 'all 540 combinations of six kinds of text, three of '
        'validity, three service centres, five classes and status report, '
        'with every reference, protocol identifier, second of the absolute '
        'or length of the relative validity and a free text; every class '
        'from -300 to 300, every coding from -10 to 300',
        'thorough': 'the same'},
    'outside': 'longer texts than needed for each kind',
}


def c06(tier):
    big = True
    j = []
    for lo, hi in [(-86400, 300), (300, 43200), (43201, 86400),
                   (86401, 2592000), (2592001, 63 * 604800),
                   (63 * 604800 + 1, 3650 * 86400)]:
        for micro in (False, True):
            j.append(('h_fields', 'relative', {'lo': lo, 'hi': hi,
                                               'micro': micro}))
    if big:
        for micro in (False, True):
            j.append(('h_fields', 'relative', {
                'lo': -2 ** 30, 'hi': 2 ** 30, 'micro': micro}))
    j.append(('h_fields', 'relative_pdu', {'lo': 0, 'hi': 64 * 604800}))
    return j


CHECKS['C06'] = {
    'jobs': c06,
    'bounds': {
        'quick': 'every number of seconds and microseconds from -2^30 to '
        '2^30 s', 'thorough': 'the same'},
    'outside': 'longer durations',
}


def c07(tier):
    big = True
    j = []
    for lo, hi in [(2000, 2020), (2021, 2067)]:
        j.append(('h_fields', 'absolute', {'ylo': lo, 'yhi': hi, 'qlo': 0,
                                           'qhi': 0, 'how': 'naive'}))
    for lo, hi in [(-56, -1), (0, 56)]:
        j.append(('h_fields', 'absolute', {'ylo': 2000, 'yhi': 2067,
                                           'qlo': lo, 'qhi': hi,
                                           'how': 'zone'}))
    dates = [(2021, 12, 31), (2020, 2, 29), (2000, 1, 1)]
    dates += [(2067, 12, 31), (2019, 3, 1), (2010, 7, 15)]
    if tier == 'thorough':
        dates += [(2000, 2, 29), (2001, 3, 1), (2004, 2, 28), (2009, 12, 31),
                  (2031, 1, 31), (2032, 4, 30), (2048, 10, 31), (2049, 1, 1)]
    for y, mo, d in dates if big else dates[:2]:
        for q in range(-56, 57, 14):
            j.append(('h_fields', 'absolute_pdu', {
                'y': y, 'mo': mo, 'd': d, 'qlo': q, 'qhi': min(q + 13, 56)},
                {'cost': 10}))
    j.append(('h_fields', 'zone_string', {'how': 'digits'}))
    j.append(('h_fields', 'zone_string', {'how': 'format'}))
    j.append(('h_fields', 'zone_minutes', {}))
    j.append(('h_fields', 'absolute_zone_string', {}))
    return j


CHECKS['C07'] = {
    'jobs': c07,
    'bounds': {
        'quick': 'every time of the years 2000 to 2067 (days 1 to 28) with '
        'every offset of whole quarters from -14 h to +14 h as seven octets; '
        'every time of six border days with every offset there and back; '
        'every numeric zone string up to 14:59',
        'thorough': 'the same for fourteen days there and back'},
    'outside': 'days 29 to 31 but for the border days; offsets that are not '
               'whole quarters of an hour',
}


def c10(tier):
    big = tier == 'thorough'
    j = []
    for kind in ('short', 'ucs2', 'long', 'longucs2'):
        for fixed in (False, True):
            for u in (False, True):
                j.append(('h_multi', 'again', {
                    'kind': kind, 'fixed': fixed, 'user_ref': u,
                    'times': 9 if big else 6}))
    j.append(('h_multi', 'cycle', {'n': 2000 if big else 800},
              {'cost': 100, 'max_steps': 9000000}))
    j.append(('h_multi', 'history', {'n': 6 if big else 5, 'cid': 0},
              {'cost': 200}))
    return j


CHECKS['C10'] = {
    'jobs': c10,
    'bounds': {
        'quick': 'four kinds of text encoded seven times, with or without '
        'fixed references of up to 100000; 800 references in a row; every '
        'sequence of four operations (encode, change text, references) on '
        'one message',
        'thorough': 'ten encodings, 2000 references, five operations'},
    'outside': 'changing between codings once the coding has been chosen',
}
MODES = ('strict', 'ignore', 'replace')


def c08(tier):
    deep = tier == 'thorough'
    j = []
    for m in MODES:
        for n in range(0, 6 if deep else 5):
            j.append(('h_codec', 'encode_all', {'n': n, 'mode': m},
                      {'cost': 3 ** n}))
            j.append(('h_codec', 'decode_all', {'n': n, 'mode': m},
                      {'cost': 3 ** n}))
        for pre, post in [(1, 1), (7, 9), (40, 0), (120, 50), (159, 3),
                          (300, 20), (0, 300)]:
            for w in (False, True):
                for f in ('encode_all', 'decode_all'):
                    for n in (1, 2, 3) if deep else (1 + pre % 2,):
                        j.append(('h_codec', f, {
                            'n': n, 'mode': m, 'pre': pre, 'post': post,
                            'wild': w}))
    for n in range(0, 11 if deep else 9):
        j.append(('h_codec', 'there_and_back', {'n': n}, {'cost': 2 ** n}))
        j.append(('h_codec', 'back_and_there', {'n': n}, {'cost': 2 ** n}))
    for n in (1, 2, 3):
        j.append(('h_codec', 'byte_text', {'n': n}))
    j.append(('h_codec', 'unknown_mode', {}))
    return j


CHECKS['C08'] = {
    'jobs': c08,
    'bounds': {
        'quick': 'every BMP text and every octet string of up to 4 in all '
                 'three modes, 1 or 2 free ones in fixed texts of up to 320, '
                 'every alphabet text of up to 8 characters '
                 'and every valid septet string of up to 8 characters '
                 'there and back, ASCII byte strings of up to 3',
        'thorough': 'up to 5 in all modes, 3 in longer texts and 10 there '
                    'and back'},
    'outside': 'longer free strings (the codec keeps no state between '
               'characters but a pending escape)',
}


def c09(tier):
    j = []
    for n in range(0, 161):
        j.append(('h_codec', 'pack', {'n': n}, {'cost': n}))
        if n <= 153:
            j.append(('h_codec', 'pack_header', {'n': n}, {'cost': n}))
    for n in range(0, 141):
        j.append(('h_codec', 'unpack_any', {'n': n}))
    for n in (0, 1, 2, 70, 134, 140) if tier == 'quick' else range(141):
        j.append(('h_codec', 'octet_packing', {'n': n}))
    for n in (1, 2, 3, 8, 11, 20, 31, 64, 140, 200) if tier == 'quick' \
            else range(1, 201):
        j.append(('h_codec', 'helpers', {'n': n}))
    return j


CHECKS['C09'] = {
    'jobs': c09,
    'bounds': {
        'quick': 'every string of 0 to 160 septets, with (to 153) and '
                 'without header; every string of 0 to 140 octets unpacked',
        'thorough': 'also every length of the octet packing and the helpers'},
    'outside': 'headers of other lengths than 6 octets when packing',
}


def c11(tier):
    big = True
    j = []
    for n in range(1, 21):
        for ton in range(8):
            if ton == 5:
                continue
            if not big and ton > 1 and (n + ton) % 7:
                continue
            j.append(('h_deliver', 'addresses', {
                'm': (n * 7 + ton) % 21, 'cton': (0, 1, 2, 3)[(n + ton) % 4],
                'n': n, 'ton': ton}))
    for m in range(1, 21):
        for ton in (0, 1):
            for n in (5,) if tier == 'quick' else range(1, 21):
                j.append(('h_deliver', 'addresses', {
                    'm': m, 'cton': ton, 'n': n, 'ton': 1}))
    for n in range(1, 12):
        for m in (0, 11) if big or n in (7, 8) else (0,):
            j.append(('h_deliver', 'alphanumeric', {'n': n, 'm': m}))
    for n, p in [(3, 0), (6, 5), (7, 3), (9, 8)]:
        j.append(('h_deliver', 'alphanumeric_ext', {'n': n, 'pos': p}))
    return j


CHECKS['C11'] = {
    'jobs': c11,
    'bounds': {
        'quick': 'every sender of 1 to 20 digits of each type and centre '
                 'of 0 to 20 digits, every numbering plan, every '
                 'alphanumeric sender of 1 to 11 default characters, also '
                 'behind a centre, some with an extension character',
        'thorough': 'every length of centre with every length of sender'},
    'outside': 'semi-octets A to E',
}


def c12(tier):
    big = True
    j = []
    for lo, hi in ((0, 68), (69, 99)):
        for q in (0, 20, 40, 60):
            j.append(('h_deliver', 'stamp_wall', {
                'ylo': lo, 'yhi': hi, 'qlo': q, 'qhi': q + 19}))
    for y, mo, d in [(2011, 12, 31), (2012, 3, 1), (2011, 3, 1), (2012, 2, 29),
                     (2000, 1, 1), (1999, 12, 31), (2000, 2, 29),
                     (1996, 2, 29), (2010, 4, 30), (2023, 10, 31),
                     (2068, 1, 31), (1970, 1, 1)]:
        for q in (0, 40):
            j.append(('h_deliver', 'stamp_border', {
                'y': y, 'mo': mo, 'd': d, 'qlo': q, 'qhi': q + 39}))
    for f in [[0], [1], [2], [3], [4], [5], [1, 2], [0, 2], [3, 4]] + (
            [[0, 1], [4, 5], [2, 3], [2, 6], [3, 4, 5]] if big else []):
        j.append(('h_deliver', 'stamp_any', {'free': f}))
    j.append(('h_deliver', 'stamp_any', {'free': [0, 2], 'month': 2}))
    if big:
        j.append(('h_deliver', 'stamp_any', {'free': [0, 1, 2]},
                  {'cost': 99}))
    for f in ([[a, b] for a in range(7) for b in range(a)] +
              [[1, 2, 3], [2, 3, 4], [3, 4, 6]]
              if tier == 'thorough' else []):
        j.append(('h_deliver', 'stamp_any', {'free': f}, {'cost': 50}))
    return j


CHECKS['C12'] = {
    'jobs': c12,
    'bounds': {
        'quick': 'every time with days 1 to 28 in every year with every '
                 'offset of 0 to 79 quarters; twelve border days with every '
                 'time and offset; each octet, some pairs, one of them '
                 'in February, and all of the date taking all values',
        'thorough': 'the same with more pairs and triples of octets'},
    'outside': 'offsets whose units digit is above 9',
}


def c13(tier):
    big = tier == 'thorough'
    j = []
    for n in range(161) if big else (0, 1, 2, 7, 8, 9, 15, 16, 31, 63, 64,
                                     80, 127, 128, 152, 153, 154, 159, 160):
        j.append(('h_deliver', 'seven', {'n': n, 'esc': [], 'hdr': None},
                  {'cost': n}))
    for h in [0] + list(range(2, 21)):
        j.append(('h_deliver', 'seven', {'n': 9, 'esc': [], 'hdr': h}))
        j.append(('h_deliver', 'octets8', {'n': 5, 'hdr': h}))
        j.append(('h_deliver', 'ucs2', {'n': 3, 'hdr': h}))
        j.append(('h_deliver', 'seven', {'n': 0, 'esc': [], 'hdr': h}))
        if big:
            for n in range(1, 13):
                j.append(('h_deliver', 'seven', {'n': n, 'esc': [],
                                                 'hdr': h}))
    for h in (21, 31, 32, 40, 63, 64, 100, 127, 128, 137) if not big else \
            range(21, 138):
        j.append(('h_deliver', 'seven', {'n': 1, 'esc': [], 'hdr': h}))
        j.append(('h_deliver', 'octets8', {'n': 2, 'hdr': h}))
        j.append(('h_deliver', 'ucs2', {'n': 1, 'hdr': h}))
    for e in ([0], [3], [5], [0, 1], [2, 5]):
        j.append(('h_deliver', 'seven', {'n': 6, 'esc': e, 'hdr': None}))
        j.append(('h_deliver', 'seven', {'n': 6, 'esc': e, 'hdr': 5}))
    j.append(('h_deliver', 'seven', {'n': 153, 'esc': [], 'hdr': 5},
              {'cost': 200}))
    for n in range(141) if big else list(range(0, 140, 6)) + [
            1, 2, 3, 63, 64, 70, 127, 128, 139, 140]:
        j.append(('h_deliver', 'octets8', {'n': n, 'hdr': None}))
        j.append(('h_deliver', 'ucs2', {'n': n // 2, 'hdr': None}))
    # octets behind the user data
    for x in (1, 2, 3, 7, 30):
        for h in (None, 5, 6):
            for n in (0, 3, 8):
                j.append(('h_deliver', 'seven', {'n': n, 'esc': [], 'hdr': h,
                                                 'extra': x}))
                j.append(('h_deliver', 'octets8', {'n': n, 'hdr': h,
                                                   'extra': x}))
                j.append(('h_deliver', 'ucs2', {'n': n, 'hdr': h,
                                                'extra': x}))
    j.append(('h_deliver', 'octets8', {'n': 134, 'hdr': 5}))
    j.append(('h_deliver', 'ucs2', {'n': 67, 'hdr': 5}))
    return j


CHECKS['C13'] = {
    'jobs': c13,
    'bounds': {
        'quick': '7-bit: every text of 0 to 2, 7 to 9, 15, 16, 31, 63, 64, '
                 '80, 127, 128, 152 to 154, 159 and '
                 '160 default characters, 6 with one or two extension '
                 'characters, 9 and 0 behind headers of 0 and 2 to 20 '
                 'octets, 1 behind ten longer ones, 153 behind 5; 8-bit and '
                 'UCS2: 5 octets or 3 '
                 'characters behind every header, up to 140 octets '
                 'without; every coding of the general, message '
                 'waiting and class groups, '
                 'free fill bits; up to 30 octets behind the user data',
        'thorough': 'every length from 0 to 160 septets and 140 octets; every '
                    'header up to 20 octets with 1 to 12 characters, every '
                    'one up to 137 with 1'},
    'outside': 'compressed texts, reserved codings and the message '
               'waiting groups, extension '
               'characters in long texts, user data whose length field '
               'does not match the octets',
}


def c14(tier):
    big = True
    ks = ['c8', 'c16', 'p8', 'p16', '0', '3']
    seqs = [[]] + [[a] for a in ks] + [[a, b] for a in ks for b in ks]
    if big:
        seqs += [[a, b, c] for a in ks for b in ks for c in ks]
    else:
        seqs += [['c8', '2', 'p16'], ['1', 'p16', 'c8'], ['4', 'c16', 'p8'],
                 ['5', '1', 'c8'], ['2', '0', 'p16', 'c16'],
                 ['p8', '1', 'c8', '7'], ['c8', 'p16', 'c16'], ['12', 'c8']]
    j = []
    for n in range(1, 137, 1 if tier == 'thorough' else 9):
        seqs += [[str(n)]]
        if n < 131:
            seqs += [[str(n), 'c8'], ['p16', str(n)]]
    seqs += [['p16'] + ['1'] * 8 + ['c8'], ['0'] * 9 + ['p8'],
             ['c16'] + ['0'] * 9, ['3'] * 5 + ['c8', 'p16'] + ['2'] * 3]
    if tier == 'thorough':
        seqs += [[a, b, c, d] for a in ks for b in ks for c in ks
                 for d in ks]
    for s in seqs:
        j.append(('h_deliver', 'elements', {'kinds': s, 'via': 'bytes'}))
        if big or len(s) != 2:
            j.append(('h_deliver', 'elements', {'kinds': s, 'via': 'sms'}))
    return j


CHECKS['C14'] = {
    'jobs': c14,
    'bounds': {
        'quick': 'every header of up to three elements of the kinds 8- and '
                 '16-bit concatenation, 8- and 16-bit ports and unknown '
                 'with 0 or 3 octets, unknown ones of up to 136 octets and '
                 'some of ten elements, with every value',
        'thorough': 'every header of up to four such elements'},
    'outside': 'elements of the known kinds with another length',
}


def c15(tier):
    big = True
    j = []
    for n in range(1, 21):
        for ton in (0, 1, 2) if big else (n % 3,):
            j.append(('h_deliver', 'status_report', {
                'n': n, 'ton': ton, 'm': (n * 5) % 13, 'times': 'sd',
                'status': n % 5 != 0}))
    for n in range(1, 21) if tier == 'thorough' else ():
        for m in range(1, 21):
            j.append(('h_deliver', 'status_report', {
                'n': n, 'ton': m % 3, 'm': m, 'times': 'sd',
                'status': n % 5 != 0}))
    for t in ('s', 'd', '', 'sd'):
        for st in (True, False):
            j.append(('h_deliver', 'status_report', {
                'n': 9, 'ton': 1, 'm': 11, 'times': t, 'status': st,
                'full': big or t == 'sd'}, {'cost': 100 * st + len(t)}))
    return j


CHECKS['C15'] = {
    'jobs': c15,
    'bounds': {
        'quick': 'recipients of 1 to 20 digits of all three types, centres '
                 'of 0 to 12, every reference, pair of proper times (days 1 '
                 'to 28), status and first octet; every pair of improper '
                 'times of five kinds with every optional field',
        'thorough': 'the same with every length of centre'},
    'outside': 'reports cut short elsewhere than before the status',
}


KINDS = ['seven', 'eight', 'ucs2', 'concat', 'ports', 'alpha', 'report',
         'badreport', 'empty']


def c16(tier):
    big = True
    j = []
    for k in KINDS:
        j.append(('h_deliver', 'case', {'kind': k}))
        j.append(('h_deliver', 'odd', {'kind': k}))
        for l in KINDS:
            j.append(('h_deliver', 'reassign', {'kinds': [k, l]}))
            if big:
                for m in KINDS:
                    j.append(('h_deliver', 'reassign', {'kinds': [k, l, m]}))
                    for o in KINDS if tier == 'thorough' else ():
                        j.append(('h_deliver', 'reassign',
                                  {'kinds': [k, l, m, o]}))
    for k, l in [('seven', 'report'), ('report', 'seven')]:
        j.append(('h_deliver', 'strictness', {'first': k, 'then': l}))
    j.append(('h_deliver', 'refused', {'which': 0}))
    return j


CHECKS['C16'] = {
    'jobs': c16,
    'bounds': {
        'quick': 'nine kinds of messages with free contents: lower and '
                 'mixed case, an extra digit, and every pair and three '
                 'assigned one after the other',
        'thorough': 'also every four in a row'},
    'outside': 'PDUs refused for another reason than their length',
}


def c20(tier):
    h = 'h_wsp'
    j = [(h, 'uint8', {}), (h, 'not_integers', {}),
         (h, 'any_octet', {'kind': 'short'}),
         (h, 'any_octet', {'kind': 'length'})]
    for top in (0x7fffffff, 1 << 62, 1 << 200) + (
            (1 << 1000,) if tier == 'thorough' else ()):
        low = -top - 1
        j += [(h, 'uint_var', {'lo': 0, 'hi': top}),
              (h, 'value_length', {'lo': 0, 'hi': top}),
              (h, 'short_integer', {'lo': low, 'hi': top}),
              (h, 'short_length', {'lo': low, 'hi': top})]
        if top < 1 << 230:
            j += [(h, 'long_integer', {'lo': low, 'hi': top}),
                  (h, 'integer_value', {'lo': low, 'hi': top})]
    for n in range(1, 41):
        j.append((h, 'uint_var_decode', {'n': n}))
    for n in range(1, 31):
        for f in ('long_integer', 'integer_value', 'delta_seconds_value'):
            j.append((h, 'long_decode', {'n': n, 'name': 'decode_' + f}))
    return j


CHECKS['C20'] = {
    'jobs': c20,
    'bounds': {
        'quick': 'every integer from -2^200 to 2^200 (lengths and uintvars '
                 'from 0; long and generic integers from 2^31 on may be '
                 'refused), every octet as uint8, short integer or short '
                 'length, every received uintvar of 1 to 40 octets and long '
                 'integer of 1 to 30 octets',
        'thorough': 'lengths, uintvars and short forms up to 2^1000'},
    'outside': 'uint8 values above 255 and negative uintvars and lengths, '
               'which the encoder does not refuse',
}


def wspref_media():
    """Names of media types, from the tables of the harness."""
    ns = {}
    d = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(d, 'harness', 'wspref.py')) as f:
        exec(f.read(), ns)
    return [m for m in ns['MEDIA'] if '*' not in m]


def c21(tier):
    big = True
    h = 'h_wsp'
    j = [(h, 'media_number', {}), (h, 'media_name', {}), (h, 'no_value', {}),
         (h, 'version_octet', {}),
         (h, 'constrained', {'lo': -0x80000000, 'hi': 0x7fffffff}),
         (h, 'q_value', {'lo': 1, 'hi': 100})] + [
        (h, 'q_value', {'lo': k, 'hi': min(k + 249, 1099)})
        for k in range(101, 1100, 250)]
    for n in range(0, 21 if big else 7):
        j.append((h, 'text_string', {'n': n}))
        j.append((h, 'received_text', {'n': n}))
        j.append((h, 'quoted_string', {'n': n}))
        if n:
            j.append((h, 'extension', {'n': n}))
    deep = tier == 'thorough'
    for n in list(range(21, 40, 3)) + [
            31, 63, 64, 100, 126, 127, 128, 129, 254, 255, 256, 300, 1000] + (
            list(range(40, 300)) if deep else []):
        j.append((h, 'text_string', {'n': n}))
        j.append((h, 'received_text', {'n': n}))
        j.append((h, 'quoted_string', {'n': n}))
        j.append((h, 'extension', {'n': n}))
        j.append((h, 'token', {'n': n, 'ends': 2}))
    for n in range(1, 17 if deep else 13):
        j.append((h, 'token', {'n': n}, {'cost': n}))
    for n in [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 19, 24, 35, 40, 64,
              100, 127, 128, 255, 300] + (list(range(41, 100)) if deep
                                          else []):
        j.append((h, 'unknown_media', {'n': n}))
    for m in wspref_media():
        for how in '~+-':
            if how != '~' or m != '*/*':
                j.append((h, 'unknown_media', {'n': 0, 'spec': how + m}))
    for f in ('major', 'one', 'two', 'text'):
        j.append((h, 'version', {'form': f}))
    for n in (0, 1, 2, 4):
        j.append((h, 'version_text', {'n': n}))
    for n in (0, 1, 2, 3, 4):
        j.append((h, 'charset', {'n': n}))
    return j


CHECKS['C21'] = {
    'jobs': c21,
    'bounds': {
        'quick': 'every text, quoted string and extension media of '
                 'up to 20 octets and some lengths up to 1000, every token '
                 'of up to 12 and any two octets at both ends of longer ones, '
                 'unknown media types of up to 300, and the assigned ones in '
                 'other letter case or with a character more or less, every '
                 'assigned media number and name, every version major 0-9 '
                 'with minor 0-99 or micro part, every version octet, '
                 'character set numbers of up to 4 octets, every quality '
                 'factor',
        'thorough': 'texts of every length up to 299 and tokens of up to 16 '
                    'octets, every unknown media type of up to 99'},
    'outside': 'texts with a zero octet or starting with a control '
               'character or an octet above 126 (the encoder does not quote '
               'them), empty tokens, versions written with other spellings '
               'of their numbers',
}


STEPS = ['short_integer', 'long_integer', 'short_length', 'value_length',
         'integer_value', 'quoted_string', 'token_text', 'extension_media',
         'constrained_encoding', 'no_value', 'delta_seconds_value',
         'date_value', 'well_known_media', 'constrained_media',
         'well_known_parameter', 'well_known_charset', 'boolean_value',
         'priority_value', 'sender_visibility_value', 'message_class_value']


def c22(tier):
    big = True
    j = []
    for s in STEPS:
        for n in (1, 2, 3, 4) + ((5, 6) if tier == 'thorough' else ()):
            j.append(('h_wsp', 'failed_step', {'step': s, 'n': n}))
    for n, k in [(3, 1), (4, 2)] + [(6, 1), (6, 3), (6, 5)] + (
            [(8, k) for k in range(8)] if tier == 'thorough' else []):
        j.append(('h_wsp', 'chained', {'n': n, 'k': k}))
    for s in ('well_known_media', 'constrained_media',
              'well_known_parameter'):
        j.append(('h_wsp', 'unassigned', {'step': s, 'n': 3}))
    return j


CHECKS['C22'] = {
    'jobs': c22,
    'bounds': {
        'quick': 'every data of 1 to 4 octets for each of twenty steps, and '
                 'of 3 to 6 octets after 1 to 5 octets read',
        'thorough': 'every data of 1 to 6 octets, and of 8 after 0 to 7 '
                    'octets read'},
    'outside': 'data that ends in the middle of a value, and media and '
               'parameter numbers that are not assigned beyond the known '
               'findings',
}


def c23(tier):
    big = tier == 'thorough'
    j = []
    for n in range(0, 6 if big else 5):
        j.append(('h_wsp', 'history', {'n': n, 'ops': 8 if big else 6},
                  {'cost': n}))
    for kinds in ('pn', 'pnp', 'ppn', 'prp', 'npn', 'pnr', 'pnpn', 'nprp',
                  'prpn'):
        j.append(('h_wsp', 'runs', {
            'n': 24 if big else 12, 'kinds': kinds,
            'most': (9 if len(kinds) < 4 else 6) if not big else
            (16 if len(kinds) < 4 else 9)}, {'cost': 6}))
    return j


CHECKS['C23'] = {
    'jobs': c23,
    'bounds': {
        'quick': 'every sequence of 6 operations, then reading to the end, '
                 'over 0 to 4 items; nine sequences of two to four runs of up '
                 'to 9 (6 when there are four) reads or previews over 12 items',
        'thorough': 'every sequence of 8 operations over 0 to 5 items, '
                    'runs of up to 16 over 24 items'},
    'outside': 'longer histories',
}


def c24(tier):
    big = tier == 'thorough'
    sets = [[], [['Type', '', 4]], [['Type#', '', 0]], [['Name', '', 0]],
            [['Name', '', 4]], [['Filename', '', 4]], [['Start', '', 3]],
            [['Start-info', '', 3]], [['Level', '', 0]],
            [['Padding', '', 0]], [['foo', 'int', 0]],
            [['foo', 'token', 1]], [['foo', 'token', 4]],
            [['foo', 'quoted', 0]], [['foo', 'quoted', 3]],
            [['', 'int', 0]], [['', 'token', 3]], [['', 'quoted', 2]],
            [['Name', '', 22]], [['Name', '', 27]], [['Name', '', 28]],
            [['Name', '', 40]], [['foo', 'token', 125]],
            [['Name', '', 126]], [['Filename', '', 127]],
            [['Start', '', 128]], [['Type', '', 129]], [['Name', '', 255]],
            [['Name', '', 256]], [['Start-info', '', 300]],
            [['foo', 'token', 300]], [['Name', '', 1000]],
            [['Name', '', 16380]], [['foo', 'quoted', 130]],
            [['k%d' % i, 'token', 1] for i in range(4)],
            [['Type', '', 3], ['Start', '', 3]],
            [['Name', '', 2], ['foo', 'int', 0]],
            [['foo', 'int', 0], ['bar', 'token', 2]],
            [['Padding', '', 0], ['foo', 'quoted', 1]],
            [['Name', '', 2], ['Filename', '', 2], ['Level', '', 0]],
            [['Type', '', 2], ['Start-info', '', 1], ['foo', 'token', 1]]]
    if big:
        names = [['Type', '', 2], ['Name', '', 2], ['Start', '', 1],
                 ['Level', '', 0], ['Padding', '', 0], ['foo', 'int', 0],
                 ['bar', 'token', 2], ['baz', 'quoted', 1], ['', 'int', 0]]
        for a in range(len(names)):
            for b in range(a):
                sets.append([names[a], names[b]])
                for c in range(b):
                    if (a + b + c) % 3 == 0:
                        sets.append([names[a], names[b], names[c]])
        for n in range(5, 33):
            sets.append([['Name', '', n]])
    j = []
    i = 0
    for p in sets:
        i += 1
        j.append(('h_wsp', 'content_type', {
            'media': 'application/vnd.wap.multipart.related', 'n': 0,
            'params': p}, {'cost': 5 * len(p)}))
        if big or i % 3 == 0 or not p:
            j.append(('h_wsp', 'content_type', {
                'media': 'unknown', 'n': 3 + i % 4, 'params': p}))
    for a in ('Charset', 'Level', 'Type', 'Name', 'Filename', 'Padding',
              'Start', 'Start-info', 'Q', 'Differences'):
        for how in '~+-':
            if a + how != 'Q-':
                j.append(('h_wsp', 'content_type', {
                    'media': 'application/vnd.wap.multipart.related', 'n': 0,
                    'params': [[how + a, 'token', 2]]}))
    j.append(('h_wsp', 'content_type', {'media': 'known', 'n': 0,
                                        'params': []}))
    j.append(('h_wsp', 'content_type', {'media': 'known', 'n': 0,
                                        'params': [['Padding', '', 0]]},
              {'cost': 20}))
    for f in ('charset', 'charset long', 'q', 'number'):
        j.append(('h_wsp', 'received_type', {
            'form': f, 'size': 1 if f == 'q' else 0}))
    for f in ('name', 'name twice'):
        j.append(('h_wsp', 'received_type', {'form': f, 'size': 3}))
    j.append(('h_wsp', 'received_type', {'form': 'name', 'size': 30}))
    return j


CHECKS['C24'] = {
    'jobs': c24,
    'bounds': {
        'quick': 'every known and unknown media type (up to 6 characters) '
                 'without parameter or with one, and sets of two and three '
                 'parameters: typed, token, quoted (up to 4 characters) and '
                 'every integer below 2^31; values of 22 to 16380 characters; '
                 'names that differ from ten assigned ones by letter case or '
                 'by a character at their end; '
                 'received types with Charset, Q, long numbers and long '
                 'lengths',
        'thorough': 'every pair and a third of the triples of nine '
                    'parameters, every length up to 40 octets'},
    'outside': 'values that start with an octet above 126 or are empty '
               'without type, and parameters without encoder (Charset, Q)',
}

FIELDS = ['Bcc', 'Cc', 'To', 'Subject', 'Response-Text', 'From',
          'Message-ID', 'Transaction-Id', 'Message-Type', 'MMS-Version',
          'Message-Size', 'Status']


def c17(tier):
    deep = tier == 'thorough'
    j = [('h_mms', 'not_data', {})]
    for n in range(0, 13 if deep else 7):
        j.append(('h_mms', 'recognised', {'n': n}))
    for n in list(range(2, 14)) + [20, 40, 140] + ([200, 300] if deep
                                                   else []):
        j.append(('h_mms', 'not_push', {'n': n}, {'cost': n}))
    sets = [['From', 'Content-Location'], ['From', 'Message-Class'],
            ['Content-Location', 'Message-Size'], ['hidden', 'Expiry'],
            ['hidden', 'Content-Location'], ['Subject', 'own'], [],
            ['From', 'Subject', 'Message-Class', 'Message-Size', 'Expiry',
             'Content-Location']]
    for i, f in enumerate(sets):
        for h in (0, 1, 2, 5, 12, 40) + ((127, 128, 255) if i % 3 == 0
                                         else ()) + (
                (3, 20, 60, 100, 126, 129, 200) if deep else ()):
            j.append(('h_mms', 'push', {'fields': f, 'n': 1 + h % 4,
                                        'hlen': h}))
    for n in (20, 28, 29, 30, 40, 60, 126, 127, 128, 140, 255, 256, 300):
        j.append(('h_mms', 'push', {'fields': ['From', 'Content-Location'],
                                    'n': n, 'hlen': 7}))
    for i, f in enumerate(sets):
        for cuts in range(0, 7 if deep else 4):
            for wide in (False, True):
                j.append(('h_mms', 'push_sms', {
                    'fields': f, 'n': 3 + 2 * cuts, 'hlen': 3 + 4 * i,
                    'cuts': cuts, 'wide': wide}, {'cost': 5}))
    for n, cuts in ((200, 3), (120, 11), (40, 9), (100, 5)):
        for wide in (False, True):
            j.append(('h_mms', 'push_sms', {
                'fields': ['From', 'Content-Location'], 'n': n, 'hlen': 9,
                'cuts': cuts, 'wide': wide}, {'cost': 20}))
    return j


CHECKS['C17'] = {
    'jobs': c17,
    'bounds': {
        'quick': 'every data of up to 6 octets (recognition) and every data '
        'of up to 13, 20, 40 and 140 octets that is no push; every push whose '
        'header has 0, 1, 2, 5, 12, 40, 127, 128 or 255 octets of any value '
        'and whose notification has one of eight sets of headers with any '
        'values (texts of 1 to 300 characters), in one to twelve messages '
        'with 8 and 16 bit references',
        'thorough': 'recognition up to 12 octets, more header lengths, all '
        'sets of headers in up to seven messages'},
    'outside': 'messages out of order or lost (the caller puts them '
    'together), push headers of 128 octets and more in more than one octet',
}


def c25(tier):
    big = True
    j = []
    texts = ['Bcc', 'Cc', 'To', 'Subject', 'Response-Text', 'From',
             'Message-ID', 'Transaction-Id', '']
    for f in FIELDS + ['']:
        for n in range(1, 13 if tier == 'thorough' else 7):
            if n == 1 or f in texts:
                j.append(('h_mms', 'one_header', {'name': f, 'n': n}))
    for n in (0, 27, 28, 29, 30, 100, 127, 128) + (
            tuple(range(31, 90)) if big else ()):
        j.append(('h_mms', 'one_header', {'name': 'From', 'n': n}))
    for f in ('Subject', 'To', ''):
        for n in (30, 31, 40, 63, 127, 128, 160, 255, 256, 300, 1000):
            j.append(('h_mms', 'one_header', {'name': f, 'n': n}))
    for f in texts:
        for n in (20, 130, 260):
            j.append(('h_mms', 'one_header', {'name': f, 'n': n}))
    for i, a in enumerate(FIELDS):
        for k, b in enumerate(FIELDS):
            if big or (i + 5 * k) % 4 == 0:
                c = FIELDS[(i * 5 + k * 7 + 1) % len(FIELDS)]
                j.append(('h_mms', 'two_headers', {
                    'names': [a, b] + ([c] if big else []), 'n': 2},
                    {'cost': 3}))
    for k in range(56):
        if k != 31:
            for n in (1, 2, 3, 4, 5, 30, 140):
                if big or n == 1 or k % 7 == 4:
                    j.append(('h_mms', 'wsp_header', {'num': k, 'n': n}))
    for n in (1, 3, 6):
        j.append(('h_mms', 'wsp_header', {'num': -1, 'n': n}))
    for f in ('Subject', 'To', 'From', 'Date', 'Content-Type', 'MMS-Version',
              'Content-Location', 'Message-Type', 'Transaction-Id',
              'Message-ID'):
        for how in '~+-':
            j.append(('h_mms', 'one_header', {'name': how + f, 'n': 2}))
    for f in ('Accept', 'Content-Location', 'Content-Type', 'Date', 'Pragma',
              'Content-Disposition', 'Via', 'Content-ID'):
        for how in ('~', '+', '-', '' if f == 'Content-ID' else '~'):
            j.append(('h_mms', 'wsp_header', {'num': -1, 'n': 2,
                                              'spec': how + f}))
    for f in ('Accept', 'Content-ID', 'X-Mms-Subject', 'Subject-', 'Pragma'):
        j.append(('h_mms', 'one_header', {'name': f, 'n': 2}))
    for f in ('plain', 'quoted', 'short', 'long'):
        for n in (0, 1, 3, 25, 26, 27, 28, 29, 30, 31, 40, 130) + (
                tuple(range(4, 60, 5)) + (127, 128, 200, 300)):
            if n or f == 'plain':
                j.append(('h_mms', 'encoded_string', {'n': n, 'form': f}))
    for n in (1, 2) + ((3,) if big else ()):
        j.append(('h_mms', 'name_octet', {'n': n}))
    return j


CHECKS['C25'] = {
    'jobs': c25,
    'bounds': {
        'quick': 'every MMS header that has an encoder and any other header '
        'name of 3 to 6 octets, with every text of 1 to 6 octets and some '
        'lengths up to 1000, names that differ from assigned ones by letter '
        'case or a character at the end, senders of 0 to 128 octets, every '
        'assigned integer, version and name; every pair of headers followed '
        'by a third; every part header of WSP 1.2 but Pragma; encoded strings '
        'of 0 to 300 octets with and without quote and character set',
        'thorough': 'texts of up to 12 octets'},
    'outside': 'headers without encoder (it raises an error), Pragma, '
    'texts that start with a control character or an octet above 126, or '
    'that contain a zero octet',
}


def c26(tier):
    big = True
    j = []
    for f in ('message_type', 'status', 'response_status', 'priority',
              'sender_visibility', 'boolean'):
        j.append(('h_mms', 'enum', {
            'field': f + ('_value' if f != 'boolean' else '_value')}))
    j.append(('h_mms', 'enum', {'field': 'message_class_value'}))
    for f in ('Message-Type', 'Status', 'Response-Status', 'Priority',
              'Message-Class', 'Sender-Visibility', 'Delivery-Report',
              'Read-Reply', 'Report-Allowed'):
        j.append(('h_mms', 'enum_header', {'name': f}))
    for n in list(range(1, 20)) + [40, 127, 128, 300]:
        j.append(('h_mms', 'class_text', {'n': n}))
    for n in list(range(0, 18)) + [23, 27, 28, 32, 33, 37, 40, 60]:
        j.append(('h_mms', 'enum_encode', {'n': n}))
    return j


CHECKS['C26'] = {
    'jobs': c26,
    'bounds': {
        'quick': 'every octet for each of the nine fields, alone and in a '
        'header, every class name of up to 19 octets and some up to 300, '
        'every name to encode of up to 17 octets and some up to 60',
        'thorough': 'the same'},
    'outside': 'fields without encoder',
}

PAGES = [[], ['t'], ['i'], ['a'], ['it'], ['at'], ['ia'], ['iat'],
         ['t', 'i'], ['it', 'at'], ['a', 'i', 't'], ['iat', 'iat']]
LOOSE = [[], ['text'], ['file'], ['params'], ['headers'], ['empty'],
         ['text', 'text'], ['headers', 'params'],
         ['file', 'text', 'headers'], ['empty', 'params', 'file', 'text']]


def c27(tier):
    big = True
    j = []
    i = 0
    for p in PAGES:
        for q in LOOSE:
            i += 1
            if not p and not q:
                continue
            h = [[FIELDS[i % 12]], [],
                 [FIELDS[i % 12], FIELDS[(i * 5 + 1) % 12]],
                 ['To', 'Subject', 'From']][i % 4]
            h = sorted(set(h))
            for n in (range(0, 5) if big else [1 + i % 3]):
                j.append(('h_mms', 'message', {
                    'pages': p, 'loose': q, 'n': n, 'headers': h},
                    {'cost': 20 if 'MMS-Version' in h else 2}))
            if big or i % 5 == 0:
                j.append(('h_mms', 'again', {'pages': p, 'loose': q,
                                             'n': 2}))
    j.append(('h_mms', 'message', {'pages': ['t'], 'loose': [], 'n': 3,
                                   'plain': False}, {'cost': 20}))
    for p in ([], ['it']):
        for q in ([], [['Type', 3]], [['Start', 3]],
                  [['Type', 2], ['Start', 2]], [['Name', 2]],
                  [['foo', 2]]):
            j.append(('h_mms', 'message_type', {'pages': p, 'params': q},
                      {'cost': 20}))
    names = [x for x in wspref_fields() if x not in ('Pragma',
                                                     'Content-Type')]
    names += ['Content-Transfer-Encoding', 'Content-Description', 'Subject',
              'MIME-Version', 'Content-Features', 'Content-Id', 'To',
              'Content-ID', 'X-Mms-Status', 'content-location', 'Expect',
              'Set-Cookie', 'TE', 'Trailer', 'Message-ID']
    for i in range(0, len(names), 5):
        j.append(('h_mms', 'part_headers', {'names': names[i:i + 5],
                                            'n': 1 + i % 3}))
    for i in range(len(names) if big else 0):
        j.append(('h_mms', 'part_headers', {
            'names': [names[i], names[(i * 7 + 3) % len(names)]], 'n': 6}))
    for n in (0, 30, 31, 126, 127, 128, 129, 255, 256, 300, 16383, 16384,
              20000) + ((40000, 65535, 65536) if tier == 'thorough' else ()):
        j.append(('h_mms', 'big_part', {'n': n}, {'cost': n / 5,
                                                  'max_steps': 20000000}))
    for p, q in [(['it'] * 12, []), (['t', 'i', 'a'] * 5, []),
                 ([], ['text'] * 130), ([], ['text', 'file', 'empty'] * 43),
                 (['iat'] * 4, ['headers', 'params'] * 6),
                 ([], LOOSE[-1] * 6)]:
        j.append(('h_mms', 'message', {'pages': p, 'loose': q, 'n': 2,
                                       'headers': ['To']},
                  {'cost': 200, 'max_steps': 9000000}))
    for h in (FIELDS, FIELDS[:6], FIELDS[6:]):
        j.append(('h_mms', 'message', {
            'pages': ['t'], 'loose': ['file'], 'n': 1, 'headers': [
                x for x in h if x != 'MMS-Version']}, {'cost': 100}))
    return j


CHECKS['C27'] = {
    'jobs': c27,
    'bounds': {
        'quick': 'messages of twelve sets of pages (image, audio, text in '
        'any combination) and ten sets of loose parts (text, file, '
        'parameters, headers, empty), every data of up to 4 octets each, '
        'with headers of any value; four content types of the message with '
        'six sets of parameters; parts of up to 20000 octets; parts with '
        'each of 69 header names, five at a time and in pairs; messages of '
        '12 pages, 130 parts or 11 headers',
        'thorough': 'parts of up to 65536 octets'},
    'outside': 'media types '
    'other than those of the eight file names',
}


def c28(tier):
    big = True
    j = []
    i = 0
    for p in PAGES:
        for q in LOOSE:
            i += 1
            if not p and not q:
                continue
            if big or i % 3 == 0:
                h = [['To'], ['Subject'], [], ['Message-Type', 'Cc'],
                     ['From', 'Message-Size'], ['Status']][i // 3 % 6]
                j.append(('h_mms', 'unchanged', {
                    'pages': p, 'loose': q, 'headers': h,
                    'times': 4 + i % 2 + (3 if tier == 'thorough' else 0),
                    'prefixed': [[], ['Transaction-Id'],
                                 ['Message-Type', 'MMS-Version']][i % 3 if
                                                                 big else
                                                                 i // 3 % 3]
                    }, {'cost': 5}))
            if big or i % 7 == 0:
                j.append(('h_mms', 'file_trip', {
                    'pages': p, 'loose': q, 'headers': ['To', 'Subject']}))
    for p, q in [(['it'] * 11, []), ([], ['text', 'file'] * 20),
                 (['iat'] * 3, ['file'] * 9)]:
        j.append(('h_mms', 'unchanged', {
            'pages': p, 'loose': q, 'headers': ['To', 'Subject'], 'times': 3,
            'prefixed': []}, {'cost': 60}))
        j.append(('h_mms', 'file_trip', {'pages': p, 'loose': q,
                                         'headers': ['To']}, {'cost': 60}))
    for n in (1, 2, 3):
        j.append(('h_mms', 'no_transaction', {'times': n}))
    for p in (['i'], ['a'], ['t'], ['it'], ['ia'], ['at'], ['t', 'a']):
        for f in ('both', 'end', 'begin') if p[0] in 'iat' else ('end',):
            for later in (9000, 2):
                j.append(('h_mms', 'timed', {'pages': p, 'form': f,
                                             'later': later}))
    return j


CHECKS['C28'] = {
    'jobs': c28,
    'bounds': {
        'quick': 'messages of twelve sets of pages and ten sets of loose '
        'parts with headers of any value, plain and prefixed, encoded four '
        'or five times and through a file; some of 11 pages or 40 parts; '
        'pages with contents shown from and to any time close to their '
        'beginning and end, with their duration changed in between',
        'thorough': 'encoded up to eight times'},
    'outside': 'failing writes (see C36)',
}


def c29(tier):
    big = True
    kinds = ['known', 'text', 'general', 'headers', 'app', 'name', 'accept']
    sets = [[]] + [[k] for k in kinds]
    for i, a in enumerate(kinds):
        for k, b in enumerate(kinds):
            if big or (i * 3 + k) % 4 == 0:
                sets.append([a, b])
    sets.append(['general', 'headers', 'known'])
    sets.append(['name', 'app', 'text', 'accept'])
    j = []
    i = 0
    for q in sets:
        for n in range(0, 5 if big else 3):
            for form in (1, 2, 3):
                i += 1
                if big or i % 2 == 0 or len(q) == 1:
                    j.append(('h_mms', 'body', {'kinds': q, 'n': n,
                                                'form': form},
                              {'cost': len(q) ** 3}))
    for q in ([], ['known'], ['general', 'text']):
        for x in (1, 2, 4, 6):
            for form in (1, 2):
                j.append(('h_mms', 'body', {'kinds': q, 'n': 1, 'form': form,
                                            'extra': x}))
    for n in (20, 126, 127, 128, 200, 255, 256, 1000, 16383, 16384) + (
            (40000, 65536) if tier == 'thorough' else ()):
        j.append(('h_mms', 'body', {'kinds': ['name', 'text'], 'n': n,
                                    'form': 1 + n % 3},
                  {'cost': n / 100, 'max_steps': 20000000}))
    for q in (['general'] * 130, ['name', 'text', 'general'] * 10,
              ['headers', 'text'] * 8, ['app'] * 6):
        j.append(('h_mms', 'body', {'kinds': q, 'n': 0, 'form': 2},
                  {'cost': 200, 'max_steps': 9000000}))
    for a in kinds if tier == 'thorough' else []:
        for b in kinds:
            for c in kinds:
                j.append(('h_mms', 'body', {'kinds': [a, b, c], 'n': 2,
                                            'form': 1}, {'cost': 20}))
    return j


CHECKS['C29'] = {
    'jobs': c29,
    'bounds': {
        'quick': 'bodies of zero to four parts of seven kinds (assigned, '
        'text and general content types, known and own headers) with any '
        'data of 0 to 5 octets, lengths of one to three octets, any 1, 2, 4 '
        'or 6 octets behind the parts announced, two parts of 20 to 16384 '
        'octets, and six to 130 parts',
        'thorough': 'every three kinds, parts of up to 65536'},
    'outside': 'header values that the decoder does not know, repeated '
    'headers in one part',
}


def c30(tier):
    big = True
    rest = [[], ['To'], ['Cc'], ['Bcc'], ['Subject'], ['To', 'Subject'],
            ['From', 'To', 'Cc'], ['Message-Size'], ['Status', 'Message-ID'],
            ['Response-Text', 'Bcc', 'Subject', 'From'],
            ['Bcc', 'Cc', 'To', 'Subject', 'Message-ID']]
    first = ['Message-Type', 'Transaction-Id', 'MMS-Version']
    j = []
    i = 0
    for h in rest:
        for a in range(8):
            for b in range(8):
                if a & b:
                    continue
                i += 1
                if len(h) < 5 or tier == 'thorough' or i % 3 == 0:
                    j.append(('h_mms', 'header_order', {
                        'headers': h,
                        'absent': [x for k, x in enumerate(first)
                                   if a >> k & 1],
                        'prefixed': [x for k, x in enumerate(first)
                                     if b >> k & 1]},
                        {'cost': 3 * (3 - bin(a).count('1'))}))
    return j


CHECKS['C30'] = {
    'jobs': c30,
    'bounds': {
        'quick': 'ten sets of zero to four further headers, all '
        'of the ways in which each of the first three is '
        'absent, plain or prefixed, every value of each; five further '
        'headers with a third of these ways',
        'thorough': 'all of these ways also for five further headers'},
    'outside': 'texts of other lengths than three (first headers) and two '
    'octets',
}


def c31(tier):
    big = tier == 'thorough'
    j = []
    sets = [['t'], ['i'], ['a'], ['it'], ['at'], ['ia'], ['iat'], [''],
            ['t', 'i'], ['it', 'a', '']]
    i = 0
    j.append(('h_msg', 'smil', {'pages': [], 'n': 1, 'form': '',
                                'source': 'file', 'dur': ''}))
    for p in sets:
        size = len(''.join(p))
        for form in ('', 'set', 'end', 'begin', 'near'):
            for which in range(max(1, size) if form else 1):
                for source in ('file', 'location', 'id', 'both', 'data'):
                    i += 1
                    for k, dur in enumerate(('', 'any', 'near')):
                        if not big and (i + k) % 3:
                            continue
                        if size > 2 and i % 2 and not big:
                            continue
                        j.append(('h_msg', 'smil', {
                            'pages': p, 'n': 1 + size % 2, 'form': form,
                            'source': source, 'dur': dur, 'which': which},
                            {'cost': 4 ** size}))
    for p in ['it'] * 12, ['t', 'i', 'a', ''] * 4, ['iat'] * 5:
        j.append(('h_msg', 'smil', {'pages': p, 'n': 1, 'form': '',
                                    'source': 'file', 'dur': ''},
                  {'cost': 200}))
    for n in (0, 1, 3) + ((4, 5, 6) if big else ()):
        j.append(('h_msg', 'smil', {'pages': ['t'], 'n': n, 'form': '',
                                    'source': 'file', 'dur': ''}))
    for a in ('', 'i', 'a', 't', 'iat'):
        for b in ('i', 'a', 't'):
            j.append(('h_msg', 'changed', {'first': a, 'then': b, 'n': 1}))
    return j


CHECKS['C31'] = {
    'jobs': c31,
    'bounds': {
        'quick': 'no page to three pages with every combination of image, '
        'audio and text, and five to sixteen pages; printable ASCII texts of up to 3 characters; '
        'unset, partly set and fully set times from -2 to 12 and around a '
        'duration of 1000 for one of the contents, fixed times for the '
        'others; durations unset, 1 to 12 and around 1000; '
        'sources from the file name, Content-Location, Content-ID or data; '
        'pages changed after they were added',
        'thorough': 'all combinations of these, texts of up to 6 '
        'characters'},
    'outside': 'texts with control characters or beyond ASCII (the XML '
    'library replaces or refuses them), meta tags',
}


def c32(tier):
    big = tier == 'thorough'
    j = []
    for k in 'iat':
        for h in ('', 'i', 'at', 'iat'):
            j.append(('h_msg', 'page_times', {'kind': k, 'held': h,
                                              'lo': -0x80000000,
                                              'hi': 0x7fffffff}))
            j.append(('h_msg', 'page_refuses', {'kind': k, 'held': h}))
    for h in ('', 'i', 'at', 'iat'):
        j.append(('h_msg', 'duration', {'held': h}))
    for s in (1, 2, 3) + ((4,) if big else ()):
        j.append(('h_msg', 'history', {'steps': s, 'n': 1},
                  {'cost': 10 ** s, 'max_paths': 200000}))
        for n in (0, 1) if s < 3 else (s % 2,):
            j.append(('h_msg', 'part_history', {'steps': s, 'n': n},
                      {'cost': 10 ** s}))
    j.append(('h_msg', 'part_history', {'steps': 3, 'n': 0, 'down': True},
              {'cost': 1000}))
    for k in range(9):
        j.append(('h_msg', 'named_file', {'k': k, 'n': k % 4}))
    return j


CHECKS['C32'] = {
    'jobs': c32,
    'bounds': {
        'quick': 'every begin and end of 32 bits for each kind of content '
        'on pages that hold others, every duration of 32 bits, seven wrong '
        'contents, six wrong numbers, every sequence of up to three changes '
        '(valid and refused) of two pages and of a part, nine file names',
        'thorough': 'every sequence of up to four changes'},
    'outside': 'files that change or vanish after they were added, longer '
    'sequences',
}


def c33(tier):
    big = tier == 'thorough'
    heads = [[], [0x8c], [0x8c, 0x84], [0x96], [0x84], [0x84, 0xa3],
             [0x84, 0xa3, 1], [0x84, 0xa3, 1, 1], [0x84, 0xa3, 1, 2, 1],
             [0x84, 0xa3, 2, 1, 1], [0x84, 0xa3, 0], [0x84, 0xa3, 0, 1, 0],
             [0x84, 0xa3, 0, 1, 1, 0x83], [0x89], [0x89, 3, 128], [0x88],
             [0x87], [0x85], [0x8e], [0x8a], [0x41, 0]]
    j = []
    for h in heads:
        for n in range(0, 4 if big else 3):
            j.append(('h_mms', 'garbage', {'n': n, 'head': h},
                      {'cost': 20 ** n}))
    kinds = ['known', 'text', 'general', 'headers', 'app', 'name', 'accept']
    for i, a in enumerate(kinds):
        for k, b in enumerate(kinds):
            if True:
                j.append(('h_mms', 'cut', {
                    'kinds': [a, b], 'n': 1 + (i + k) % 3,
                    'form': 1 + i % 3, 'step': 1, 'first': 0},
                    {'cost': 10}))
        j.append(('h_mms', 'cut', {'kinds': [a], 'n': i, 'form': 1,
                                   'step': 1, 'first': 0}, {'cost': 5}))
    return j


CHECKS['C33'] = {
    'jobs': c33,
    'bounds': {
        'quick': 'every two octets behind 21 beginnings of messages; every '
        'truncation of messages with one part of each of seven kinds or two, '
        'any values',
        'thorough': 'every three octets behind the beginnings'},
    'outside': 'longer arbitrary octets',
}



def c34(tier):
    big = True
    j = []
    for n in range(1, 9 if tier == 'quick' else 31):
        if n <= 4:
            for z in (0, 1, 2, 4) if n > 2 else (0,):
                for w in ('date', 'expiry'):
                    j.append(('h_wsp', 'times', {
                        'what': w, 'n': n, 'form': 'abs', 'zeros': z},
                        {'cost': n}))
        for w in ('expiry', 'delivery_time'):
            for f in ('rel', 'bad') + (('abs',) if w != 'expiry' else ()):
                j.append(('h_wsp', 'times', {'what': w, 'n': n, 'form': f}))
    for w in ('expiry', 'delivery_time'):
        j.append(('h_wsp', 'times', {'what': w, 'n': 0, 'form': 'short'}))
    for n in (1, 3, 4):
        for f in ('abs', 'rel', 'abs date') if n == 4 else ('rel',):
            j.append(('h_mms', 'time_header', {'n': n, 'form': f}))
    return j


CHECKS['C34'] = {
    'jobs': c34,
    'bounds': {
        'quick': 'every value of 1 to 4 octets, absolute ones also behind 1, 2 or 4 zero '
        'octets, relative ones of up to 8, every token, short and long '
                 'form of lengths, alone and in a message header',
        'thorough': 'relative times and delivery times of up to 30 octets'},
    'outside': 'absolute times after 2106',
}


def c35(tier):
    j = [('h_wsp', 'versions', {}), ('h_wsp', 'version_used', {'n': 0})]
    for n in range(0, 6):
        j.append(('h_wsp', 'version_refused', {'n': n}))
    for v in ('1.1', '1.2', '1.3', '1.4'):
        for name, kind in (('Start', 'text'), ('Start-info', 'text'),
                           ('Comment', 'text'), ('Domain', 'text'),
                           ('Path', 'text'), ('Name', 'text'),
                           ('Filename', 'text'), ('Padding', 'short'),
                           ('Level', 'version')):
            if v == '1.1' and name.startswith('Start') or \
                    v in ('1.1', '1.2') and name in ('Comment', 'Domain',
                                                     'Path'):
                kind = 'token'
            j.append(('h_wsp', 'param_encoded', {'v': v, 'name': name,
                                                 'kind': kind}))
    return j


CHECKS['C35'] = {
    'jobs': c35,
    'bounds': {
        'quick': 'every pair of requests for the four versions, every '
                 'number, every other version text of up to 5 octets, nine '
                 'parameters written for each version',
        'thorough': 'the same'},
    'outside': 'parameters without encoder',
}


def c36(tier):
    big = True
    h = 'h_files'
    j = []
    for how in ('part', 'image', 'audio'):
        for why in ('missing', 'field', 'size', 'type', 'part_type',
                    'header'):
            for n in (0, 1, 5) if not big else (0, 1, 2, 5, 20):
                j.append((h, 'refused', {'why': why, 'n': n, 'how': how}))
        for n in (0, 1, 3, 40, 130, 500) + (
                (5000, 20000) if tier == 'thorough' else ()):
            j.append((h, 'own_file', {'n': n, 'how': how}))
            j.append((h, 'vanished', {'a': n, 'how': how}))
        for a in range(0, 4 if big else 3):
            for b in range(0, 4 if big else 3):
                for w in ('before', 'read', 'asked', 'encoded'):
                    j.append((h, 'changed', {'a': a, 'b': b, 'how': how,
                                             'when': w}))
        for a, b in ((3, 130), (130, 3)):
            for w in ('before', 'read', 'asked', 'encoded'):
                j.append((h, 'changed', {'a': a, 'b': b, 'how': how,
                                         'when': w}))
    for a, b in ((0, 0), (5, 1), (1, 5), (200, 3), (3, 200)):
        for how in ('other', 'same'):
            j.append((h, 'rewritten', {'a': a, 'b': b, 'how': how}))
    for i, p in enumerate(PAGES):
        for k, q in enumerate(LOOSE):
            if (p or q) and (big or (i + k) % 5 == 0):
                j.append((h, 'loaded', {'n': (i + k) % 3, 'pages': p,
                                        'loose': q}))
    return j


CHECKS['C36'] = {
    'jobs': c36,
    'bounds': {
        'quick': 'six ways in which a message cannot be encoded, with any '
        'old contents of up to 20 octets; a part, image or sound of 0 to 500 '
        'octets whose file is written over, changed (any old and new '
        'contents of up to 3 octets, and 3 and 130) before or after it was '
        'read, asked for its length or encoded, or removed; the '
        'messages of C27 read from a file',
        'thorough': 'contents of up to 20000 octets'},
    'outside': 'writes that fail half way, files that change while they '
    'are read',
}


def c37(tier):
    big = tier == 'thorough'
    h = 'h_files'
    j = []
    kinds = ['charset', 'name', 'level', 'int', 'token', 'quoted']
    sets = [[]] + [[k] for k in kinds] + [['charset', 'token'],
                                          ['name', 'int', 'charset']]
    i = 0
    for media in ('short', 'number', 'text'):
        for p in sets:
            for q in ('', 'q', 'extension'):
                for form in ('', 'quoted', 'long'):
                    i += 1
                    if big or i % 4 == 0 or not p and not form:
                        j.append((h, 'accept', {
                            'media': media, 'params': p, 'q': q,
                            'form': form, 'n': 1 + i % 3}))
    for n in (20, 27, 28, 40, 130):
        j.append((h, 'accept', {'media': 'short', 'params': ['name'],
                                'q': '', 'form': '', 'n': n}))
    for k in kinds + ['none']:
        for form in ('', 'quoted', 'long'):
            for n in (1, 3, 30) + ((2, 27, 28, 29, 130) if big else ()):
                if n == 1 or k in ('name', 'token', 'quoted'):
                    j.append((h, 'pragma', {'kind': k, 'form': form,
                                            'n': n}))
    return j


CHECKS['C37'] = {
    'jobs': c37,
    'bounds': {
        'quick': 'Accept values of every media number and text of 3 octets '
        'with no to three parameters of six kinds, any quality factor and an '
        'extension, and Pragma values of these parameters, with lengths in '
        'three forms: a quarter of the combinations, texts of 1 to 3 octets '
        'and 20 to 130; alone, at the end and between other headers of a '
        'part',
        'thorough': 'all of the combinations'},
    'outside': 'values whose length does not match their contents',
}


def c38(tier):
    big = tier == 'thorough'
    h = 'h_share'
    j = []
    for n in (0, 1, 2) + ((3,) if big else ()):
        j.append((h, 'submits', {'n': n}, {'cost': 16 ** n // 10}))
    j.append((h, 'long_ones', {'n': 5 if big else 4}, {'cost': 5}))
    got = ['seven', 'ucs2', 'eight', 'concat', 'ports', 'both', 'report',
           'name']
    for i, a in enumerate(got):
        for k, b in enumerate(got):
            j.append((h, 'delivers', {'kinds': [a, b]}))
            for x, c in enumerate(got):
                if big or (i + 3 * k + 5 * x) % 8 == 0:
                    j.append((h, 'delivers', {'kinds': [a, b, c]}))
    kinds = ['known', 'text', 'general', 'headers', 'app', 'name', 'accept']
    for how in ('decoder', 'message'):
        for i, a in enumerate(kinds):
            for k, b in enumerate(kinds):
                j.append((h, 'decoded', {'a': [a], 'b': [b], 'how': how}))
                if big or (i + k) % 3 == 0:
                    j.append((h, 'decoded', {
                        'a': [a, b], 'b': [kinds[(i + k) % 7]] * (i % 3),
                        'how': how}))
            j.append((h, 'decoded', {'a': [a], 'b': [], 'how': how}))
            j.append((h, 'decoded', {'a': [], 'b': [a, a], 'how': how}))
    names = ['To', 'Subject', 'From', 'Message-Size', 'Bcc', 'Cc', 'X-Own',
             'MMS-Version', 'Response-Text']
    for how in ('encoder', 'message'):
        for i, a in enumerate(([[], ['text']], [['it'], []],
                               [['ia', 't'], ['params']],
                               [[], ['headers', 'file']], [[], []])):
            for k, x in enumerate(names):
                for n, y in enumerate(names):
                    if big or (k + n + i) % 3 == 0:
                        j.append((h, 'encoded', {
                            'a': a, 'b': None, 'headers': [x, y],
                            'how': how}))
    j.append((h, 'fresh', {'n': 2}))
    for n in (0, 1, 3, 40):
        j.append((h, 'given', {'n': n}))
    for n in (0, 1, 2, 3):
        for same in (True, False):
            for ops in (3, 4) + ((5,) if big else ()):
                j.append((h, 'iterators', {'n': n, 'ops': ops, 'same': same},
                          {'cost': 6 ** ops // 100}))
    for x in ('uint8', 'uintvar', 'short', 'long', 'integer', 'length',
              'text', 'token'):
        j.append((h, 'answers', {'name': x}))
    for x in ('Bcc', 'Cc', 'From', 'Message-Type', 'Status', 'MMS-Version',
              'Message-Size', 'Subject', 'To', 'Transaction-Id',
              'Response-Text', 'Message-ID', 'X-Own'):
        for n in (2, 5):
            j.append((h, 'header_answers', {'name': x, 'n': n}))
    for a in range(3):
        for b in range(3):
            j.append((h, 'types', {'ka': a, 'kb': b}))
    for what in ('names', 'parameters'):
        for a in ('1.1', '1.2', '1.3', '1.4'):
            for b in ('1.1', '1.2', '1.3', '1.4'):
                j.append((h, 'tables', {'what': what, 'version': a,
                                        'other': b}))
    for n in (1, 2, 3, 7, 8, 9, 16, 40) + ((80, 159) if big else ()):
        j.append((h, 'codings', {'n': n}, {'cost': n}))
    return j


CHECKS['C38'] = {
    'jobs': c38,
    'bounds': {
        'quick': 'every two operations of seven kinds on either of two '
        'messages to send; four encodings of two long messages in any '
        'order; every pair and an eighth of the triples of eight kinds of '
        'received messages; pairs of MMS messages with up to two parts of '
        'seven kinds, decoded and spoiled; pairs of headers and five '
        'contents of messages, encoded in four orders; three changes of '
        'seven kinds to new messages, pages and parts; four operations on '
        'two iterators over up to three octets; two values of each '
        'primitive and header; every pair of versions of the tables; texts '
        'of up to 40 characters',
        'thorough': 'three operations on the messages to send, all triples '
        'of received messages, five operations on the iterators, texts of '
        'up to 159 characters, all combinations of the rest'},
    'outside': 'threads; longer sequences of operations; '
    'UserDataHeader.from_bytes, which takes its own argument apart',
}


def wspref_fields():
    from harness import wspref
    return wspref.FIELDS[:56]


def _labels():
    import json
    import os
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                     'labels.json')
    if os.path.exists(p):
        with open(p) as f:
            for k, v in json.load(f).items():
                if k in CHECKS:
                    CHECKS[k]['labels'] = v


_labels()
