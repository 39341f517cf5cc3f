"""WSP primitives (C20, C21, C22, C23, C24, C34, C35)."""
from array import array

from messaging.mms.iterator import PreviewIterator
from messaging.mms import wsp_pdu
from messaging.mms.wsp_pdu import (Encoder, Decoder, EncodeError,
                                   DecodeError, get_header_field_names,
                                   get_well_known_parameters)
from messaging.mms.mms_pdu import MMSDecoder
from harness import wspref

TAIL = [0x41, 0x9c, 0x00, 0x37]


def it_of(data):
    return PreviewIterator(array('B', list(data) + TAIL))


def check_rest(inp, it, rest, label):
    """Exactly the octets rest are left, to preview and to read."""
    try:
        first = it.preview()
        inp.check(len(rest) > 0 and first == rest[0], label + ' (preview)')
    except StopIteration:
        inp.check(len(rest) == 0, label + ' (preview)')
    got = []
    while True:
        try:
            got.append(it.next())
        except StopIteration:
            break
        if len(got) > len(rest):
            break
    inp.check(len(got) == len(rest), label)
    inp.check_eq(got, rest, label)


def back(inp, name, octets, want, label):
    """Decoding octets gives want and leaves the tail."""
    it = it_of(octets)
    got = getattr(Decoder, name)(it)
    inp.check(got == want, label + ' decodes to itself')
    check_rest(inp, it, TAIL, label + ' consumed exactly')


def octets_of(inp, enc, label):
    inp.check(type(enc) is list, label + ' octets')
    for x in enc:
        inp.check(type(x) in (int, long), label + ' octets')
        inp.check(inp.land(x >= 0, x <= 255), label + ' octets')


# -- C20 --------------------------------------------------------------------


def uint8(inp):
    v = inp.int('v', 0, 255)
    enc = Encoder.encode_uint_8(v)
    inp.check_eq(enc, [v], 'uint8 form')
    back(inp, 'decode_uint_8', enc, v, 'uint8')
    inp.observe('enc', enc)


def uint_var(inp, lo, hi):
    """A uintvar of any value."""
    v = inp.int('v', lo, hi)
    enc = Encoder.encode_uint_var(v)
    octets_of(inp, enc, 'uintvar')
    n = len(enc)
    inp.check(1 <= n, 'uintvar form')
    inp.check(inp.land(v < (1 << (7 * n)),
                       inp.lor(n == 1, v >= (1 << (7 * (n - 1))))),
              'uintvar is shortest')
    want = []
    for i in range(n):
        want.append(((v >> (7 * (n - 1 - i))) & 0x7f) |
                    (0x80 if i < n - 1 else 0))
    inp.check_eq(enc, want, 'uintvar form')
    back(inp, 'decode_uint_var', enc, v, 'uintvar')
    inp.observe('enc', enc)


def uint_var_decode(inp, n):
    """Any uintvar of n octets, also with leading zeros."""
    data = []
    want = 0
    for i in range(n):
        g = inp.int('g%d' % i, 0, 127)
        want = want * 128 + g
        data.append(g + 128 if i < n - 1 else g)
    back(inp, 'decode_uint_var', data, want, 'received uintvar')
    inp.observe('v', want)


def short_integer(inp, lo, hi):
    v = inp.int('v', lo, hi)
    ok = inp.land(v >= 0, v <= 127)
    try:
        enc = Encoder.encode_short_integer(v)
    except EncodeError:
        inp.check(inp.lnot(ok), 'short integers in range are accepted')
        inp.observe('refused', True)
        return
    inp.check(ok, 'short integers out of range are refused')
    inp.check_eq(enc, [v + 128], 'short integer form')
    back(inp, 'decode_short_integer', enc, v, 'short integer')
    inp.check(Decoder.decode_short_integer_from_byte(enc[0]) == v,
              'short integer from an octet')
    inp.observe('enc', enc)


def be(v, n):
    return [(v >> (8 * (n - 1 - i))) & 0xff for i in range(n)]


def check_long(inp, enc, v, label):
    n = len(enc) - 1
    inp.check(n >= 1, label + ' form')
    inp.check(inp.land(v < (1 << (8 * n)),
                       inp.lor(n == 1, v >= (1 << (8 * (n - 1))))),
              label + ' is shortest')
    inp.check_eq(enc, [n] + be(v, n), label + ' form')


def long_integer(inp, lo, hi):
    v = inp.int('v', lo, hi)
    try:
        enc = Encoder.encode_long_integer(v)
    except EncodeError:
        # a long of Python 2 may be refused as no int
        inp.check(inp.lor(v < 0, v > 0x7fffffff),
                  'long integers are accepted')
        inp.observe('refused', True)
        return
    inp.check(v >= 0, 'negative integers are refused')
    check_long(inp, enc, v, 'long integer')
    back(inp, 'decode_long_integer', enc, v, 'long integer')
    inp.observe('enc', enc)


def integer_value(inp, lo, hi):
    v = inp.int('v', lo, hi)
    try:
        enc = Encoder.encode_integer_value(v)
    except EncodeError:
        inp.check(inp.lor(v < 0, v > 0x7fffffff), 'integers are accepted')
        inp.observe('refused', True)
        return
    inp.check(v >= 0, 'negative integers are refused')
    if v <= 127:
        inp.check_eq(enc, [v + 128], 'small integers are short')
    else:
        check_long(inp, enc, v, 'integer')
    back(inp, 'decode_integer_value', enc, v, 'integer')
    back(inp, 'decode_delta_seconds_value', enc, v, 'delta seconds')
    inp.observe('enc', enc)


def not_integers(inp):
    """Only integers are accepted as such."""
    for bad in ('12', u'12', None, 1.5, [1]):
        for f in (Encoder.encode_integer_value, Encoder.encode_long_integer):
            try:
                f(bad)
                inp.fail('other types are refused')
            except EncodeError:
                inp.reach('other types are refused')


def long_decode(inp, n, name):
    """Any long integer of n octets."""
    data = inp.byte_list('d', n)
    want = 0
    for x in data:
        want = want * 256 + x
    back(inp, name, [n] + data, want, 'received long integer')
    inp.observe('v', want)


def short_length(inp, lo, hi):
    v = inp.int('v', lo, hi)
    ok = inp.land(v >= 0, v <= 30)
    try:
        enc = Encoder.encode_short_length(v)
    except EncodeError:
        inp.check(inp.lnot(ok), 'short lengths in range are accepted')
        inp.observe('refused', True)
        return
    inp.check(ok, 'short lengths out of range are refused')
    inp.check_eq(enc, [v], 'short length form')
    back(inp, 'decode_short_length', enc, v, 'short length')
    inp.observe('enc', enc)


def value_length(inp, lo, hi):
    v = inp.int('v', lo, hi)
    enc = Encoder.encode_value_length(v)
    octets_of(inp, enc, 'value length')
    if v <= 30:
        inp.check_eq(enc, [v], 'small lengths are short')
    else:
        inp.check(enc[0] == 31, 'length quote')
        n = len(enc) - 1
        inp.check(n >= 1, 'value length form')
        inp.check(inp.land(v < (1 << (7 * n)),
                           inp.lor(n == 1, v >= (1 << (7 * (n - 1))))),
                  'value length is shortest')
        want = []
        for i in range(n):
            want.append(((v >> (7 * (n - 1 - i))) & 0x7f) |
                        (0x80 if i < n - 1 else 0))
        inp.check_eq(enc[1:], want, 'value length form')
    back(inp, 'decode_value_length', enc, v, 'value length')
    inp.observe('enc', enc)


def any_octet(inp, kind):
    """One octet followed by others, as a short integer or length."""
    b = inp.byte('b')
    it = it_of([b])
    if kind == 'short':
        name, ok, want = 'decode_short_integer', b >= 128, b - 128
    else:
        name, ok, want = 'decode_short_length', b <= 30, b
    try:
        got = getattr(Decoder, name)(it)
    except DecodeError:
        inp.check(inp.lnot(ok), 'valid octets are decoded')
        check_rest(inp, it, [b] + TAIL, 'nothing consumed')
        return
    inp.check(ok, 'other octets are refused')
    inp.check(got == want, 'value of the octet')
    check_rest(inp, it, TAIL, 'one octet consumed')
    inp.observe('got', got)


# -- C21 --------------------------------------------------------------------


def text(inp, name, n, kind):
    """A text of n characters of a kind."""
    if n == 0:
        return ''
    if kind == 'token':
        return inp.pick_bytes(name, n, wspref.TOKEN)
    first = inp.bytes(name + 'f', 1, 32, 126)
    return first + inp.bytes(name, n - 1, 1, 255)


def near(inp, tag, spec):
    """A name that is nearly an assigned one: ~ in other letter case, +
    with one more character, - without its last, anything else as it is."""
    how, name = spec[:1], spec[1:]
    if how == '~':
        t = ''
        for i in range(len(name)):
            c = name[i]
            if c.lower() == c.upper():
                t += c
            else:
                t += inp.pick_bytes(tag + str(i), 1,
                                    [ord(c.lower()), ord(c.upper())])
        inp.assume(t != name)
        return t
    if how == '+':
        return name + text(inp, tag, 1, 'token')
    if how == '-':
        return name[:-1]
    return spec


def text_string(inp, n):
    t = text(inp, 't', n, 'text')
    enc = Encoder.encode_text_string(t)
    inp.check_eq(enc, [ord(c) for c in t] + [0], 'text form')
    back(inp, 'decode_text_string', enc, t, 'text')
    back(inp, 'decode_uri_value', enc, t, 'URI')
    back(inp, 'decode_text_string', [127] + enc, t, 'text behind a quote')
    inp.check_eq(Encoder.encode_text_value(t), enc, 'text value form')
    inp.observe('enc', enc)


def received_text(inp, n):
    """A text received behind a quote, which any octet may follow."""
    t = inp.bytes('t', n, 1, 255)
    data = [127] + [ord(c) for c in t] + [0]
    back(inp, 'decode_text_string', data, t, 'text behind a quote')
    back(inp, 'decode_uri_value', data, t, 'URI behind a quote')
    if n and ord(t[0]) == 127:
        return
    back(inp, 'decode_text_string', data[1:], t, 'text without quote')


def quoted_string(inp, n):
    """Quoted strings received, as such and as a text value."""
    t = text(inp, 't', n, 'text')
    data = [34] + [ord(c) for c in t] + [0]
    back(inp, 'decode_quoted_string', data, t, 'quoted string')
    back(inp, 'decode_text_value', data, t, 'quoted text value')
    back(inp, 'decode_untyped_value', data, t, 'quoted untyped value')


def token(inp, n, ends=0):
    """Any octets as a token, or only those at both ends."""
    if ends:
        t = inp.bytes('t', ends, 0, 126) + \
            ('a.b_0' * n)[:n - 2 * ends] + inp.bytes('u', ends, 0, 126)
    else:
        t = inp.bytes('t', n, 0, 126)
    bad = False
    for c in t:
        bad = inp.lor(bad, inp.lor(*[ord(c) == x for x in wspref.SEP]),
                      ord(c) < 32)
    try:
        enc = Encoder.encode_token_text(t)
    except EncodeError:
        inp.check(bad, 'tokens are accepted')
        inp.observe('refused', True)
        return
    inp.check(inp.lnot(bad), 'other texts are refused')
    inp.check_eq(enc, [ord(c) for c in t] + [0], 'token form')
    back(inp, 'decode_token_text', enc, t, 'token')
    back(inp, 'decode_text_value', enc, t, 'token value')
    inp.observe('enc', enc)


def extension(inp, n):
    """Any octets but zero as an unknown media type."""
    t = inp.bytes('t', n, 1, 255)
    f = ord(t[0])
    bad = inp.lor(f < 32, f == 127)
    try:
        enc = Encoder.encode_extension_media(t)
    except EncodeError:
        inp.check(bad, 'media types are accepted')
        inp.observe('refused', True)
        return
    inp.check(inp.lnot(bad), 'texts that start with a control are refused')
    inp.check_eq(enc, [ord(c) for c in t] + [0], 'media type form')
    if f < 128:
        back(inp, 'decode_extension_media', enc, t, 'extension media')
        back(inp, 'decode_constrained_encoding', enc, t, 'constrained text')
        back(inp, 'decode_constrained_media', enc, t, 'constrained media')
        back(inp, 'decode_media_type', enc, t, 'media type')
    inp.observe('enc', enc)


def unknown_media(inp, n, spec=''):
    """Media types without number."""
    t = near(inp, 't', spec) if spec else text(inp, 't', n, 'text')
    data = [ord(c) for c in t] + [0]
    if t in wspref.MEDIA:
        return
    inp.check_eq(Encoder.encode_media_type(t), data, 'unknown media as text')
    inp.check_eq(Encoder.encode_constrained_media(t), data,
                 'unknown media as text')
    inp.check_eq(Encoder.encode_content_type_value(t, {}), data,
                 'unknown media as text')
    inp.check_eq(Encoder.encode_accept_value(t), data,
                 'unknown media as text')
    it = it_of(data)
    got = Decoder.decode_content_type_value(it)
    inp.check(got[0] == t, 'unknown media decodes to itself')
    inp.check(got[1] == {}, 'no parameters')
    check_rest(inp, it, TAIL, 'media consumed exactly')
    back(inp, 'decode_accept_value', data, t, 'accept value')


def media_number(inp):
    """The number of each media type, from the octets."""
    b = inp.int('b', 0, len(wspref.MEDIA) - 1)
    for name in ('decode_well_known_media', 'decode_constrained_media',
                 'decode_media_type', 'decode_accept_value'):
        it = it_of([b + 128])
        got = getattr(Decoder, name)(it)
        inp.check(got == wspref.MEDIA[b], 'media of the number')
        check_rest(inp, it, TAIL, 'media consumed exactly')
    for name in ('decode_well_known_media', 'decode_media_type'):
        it = it_of([1, b])
        got = getattr(Decoder, name)(it)
        inp.check(got == wspref.MEDIA[b], 'media of the number')
        check_rest(inp, it, TAIL, 'media consumed exactly')
    it = it_of([b + 128])
    got = Decoder.decode_content_type_value(it)
    inp.check(got[0] == wspref.MEDIA[b], 'media of the number')
    inp.check(got[1] == {}, 'no parameters')
    check_rest(inp, it, TAIL, 'media consumed exactly')
    inp.observe('got', got[0])


def media_name(inp):
    """The octet of each media type."""
    k = inp.fix(inp.int('k', 0, len(wspref.MEDIA) - 1))
    t = wspref.MEDIA[k]
    for enc in (Encoder.encode_media_type(t),
                Encoder.encode_constrained_media(t),
                Encoder.encode_content_type_value(t, {}),
                Encoder.encode_accept_value(t)):
        inp.check_eq(enc, [k + 128], 'number of the media')


def constrained(inp, lo, hi):
    v = inp.int('v', lo, hi)
    ok = inp.land(v >= 0, v <= 127)
    try:
        enc = Encoder.encode_constrained_encoding(v)
    except EncodeError:
        inp.check(inp.lnot(ok), 'constrained integers are accepted')
        return
    inp.check(ok, 'integers out of range are refused')
    inp.check_eq(enc, [v + 128], 'constrained integer form')
    back(inp, 'decode_constrained_encoding', enc, v, 'constrained integer')


def version(inp, form):
    """Versions: major.minor, major, or text."""
    major = inp.int('major', 0, 9)
    s = chr(48 + major)
    small = inp.land(major >= 1, major <= 7)
    if form == 'major':
        want = (major << 4) | 15 | 128
    elif form == 'one':
        minor = inp.int('minor', 0, 9)
        s = s + '.' + chr(48 + minor)
        want = (major << 4) | minor | 128
    elif form == 'two':
        minor = inp.int('minor', 10, 99)
        s = s + '.' + chr(48 + minor // 10) + chr(48 + minor % 10)
        small = inp.land(small, minor <= 14)
        want = (major << 4) | minor | 128
    else:
        s = s + '.' + chr(48 + inp.int('minor', 0, 9)) + '.' + \
            chr(48 + inp.int('micro', 0, 9))
        small = False
        want = 0
    enc = Encoder.encode_version_value(s)
    if small:
        inp.check_eq(enc, [want], 'version octet')
    else:
        inp.check_eq(enc, [ord(c) for c in s] + [0], 'version text')
    back(inp, 'decode_version_value', enc, s, 'version')
    inp.observe('enc', enc)


def version_text(inp, n):
    """Other version texts: the first character is no digit."""
    plain = [x for x in range(33, 127) if x not in (43, 45, 76, 108)]
    f = inp.pick_bytes('f', 1, [x for x in plain if x not in range(48, 58)])
    s = f + inp.pick_bytes('t', n, plain)
    enc = Encoder.encode_version_value(s)
    inp.check_eq(enc, [ord(c) for c in s] + [0], 'version text')
    back(inp, 'decode_version_value', enc, s, 'version')


def version_octet(inp):
    b = inp.byte('b')
    inp.assume(b >= 128)
    it = it_of([b])
    got = Decoder.decode_version_value(it)
    check_rest(inp, it, TAIL, 'version consumed exactly')
    major = (b >> 4) & 7
    minor = b & 15
    if minor == 15:
        want = chr(48 + major)
    elif minor >= 10:
        want = chr(48 + major) + '.1' + chr(48 + minor - 10)
    else:
        want = chr(48 + major) + '.' + chr(48 + minor)
    inp.check_eq(got, want, 'version of the octet')
    inp.observe('got', got)


def charset(inp, n):
    """Character sets received."""
    if n == 0:
        b = inp.byte('b')
        inp.assume(b >= 128)
        data, v, star = [b], b - 128, b == 128
    else:
        d = inp.byte_list('d', n)
        data, v, star = [n] + d, 0, False
        for x in d:
            v = v * 256 + x
    it = it_of(data)
    got = Decoder.decode_well_known_charset(it)
    check_rest(inp, it, TAIL, 'charset consumed exactly')
    if star:
        inp.check(got == '*', 'any charset')
        return
    for k, name in wspref.CHARSETS:
        if v == k:
            inp.check(got == name, 'charset of the number')
            return
    inp.check(got == str(v), 'unassigned charset as its number')


def no_value(inp):
    inp.check_eq(Encoder.encode_no_value(), [0], 'no-value form')
    inp.check_eq(Encoder.encode_no_value('x'), [0], 'no-value form')
    back(inp, 'decode_no_value', [0], 0, 'no-value')


def q_value(inp, lo, hi):
    """Quality factors of one or two octets."""
    v = inp.fix(inp.int('v', lo, hi))
    data = [128 | (v >> 7), v & 127] if v > 127 else [v]
    want = (v - 1) / 100.0 if v <= 100 else (v - 100) / 1000.0
    it = it_of(data)
    got = Decoder.decode_q_value(it)
    inp.check(abs(got - want) < 1e-9, 'quality factor')
    check_rest(inp, it, TAIL, 'quality consumed exactly')


# -- C22 --------------------------------------------------------------------

STEPS = {
    'short_integer': Decoder, 'long_integer': Decoder,
    'short_length': Decoder, 'value_length': Decoder,
    'integer_value': Decoder, 'quoted_string': Decoder,
    'token_text': Decoder, 'extension_media': Decoder,
    'constrained_encoding': Decoder, 'no_value': Decoder,
    'delta_seconds_value': Decoder, 'date_value': Decoder,
    'well_known_media': Decoder, 'constrained_media': Decoder,
    'well_known_parameter': Decoder, 'well_known_charset': Decoder,
    'boolean_value': MMSDecoder, 'priority_value': MMSDecoder,
    'sender_visibility_value': MMSDecoder,
    'message_class_value': MMSDecoder,
}


def failed_step(inp, step, n):
    """A step that fails leaves the octets where they were."""
    data = inp.byte_list('d', n)
    if step in ('well_known_media', 'constrained_media',
                'well_known_parameter'):
        # a number that is not assigned: see unassigned
        inp.assume(data[0] < 128)
        if step != 'constrained_media':
            inp.assume(data[0] > 30)
    if step == 'date_value':
        inp.assume(data[0] > 30)
    it = PreviewIterator(array('B', data))
    try:
        getattr(STEPS[step], 'decode_' + step)(it)
    except DecodeError:
        check_rest(inp, it, data, 'nothing consumed by a failed step')
        inp.observe('failed', True)
        return
    except StopIteration:
        inp.observe('cut short', True)
        return
    inp.observe('done', True)


def unassigned(inp, step, n):
    """Numbers that are not assigned (known finding: the number stays
    consumed)."""
    data = inp.byte_list('d', n)
    inp.assume(data[0] >= 128)
    it = PreviewIterator(array('B', data))
    try:
        getattr(STEPS[step], 'decode_' + step)(it)
    except DecodeError:
        rest = []
        while True:
            try:
                rest.append(it.next())
            except StopIteration:
                break
        inp.check(rest == data, 'unassigned %s number left in place' % step)
        return
    inp.observe('done', True)


def chained(inp, n, k):
    """After k octets read: a failed step leaves the rest."""
    data = inp.byte_list('d', n)
    step = inp.choice('step', ['short_integer', 'short_length',
                               'value_length', 'integer_value',
                               'quoted_string', 'token_text',
                               'extension_media', 'no_value',
                               'constrained_encoding'])
    it = PreviewIterator(array('B', data))
    for i in range(k):
        inp.check(it.next() == data[i], 'octets in order')
    if inp.bool('peek'):
        inp.check(it.preview() == data[k], 'octets in order')
        it.reset_preview()
    try:
        getattr(Decoder, 'decode_' + step)(it)
    except DecodeError:
        check_rest(inp, it, data[k:], 'nothing consumed by a failed step')
    except StopIteration:
        pass


# -- C23 --------------------------------------------------------------------


def runs(inp, n, kinds, most):
    """Runs of up to most operations of each kind over n items, n small
    against the items that follow each other."""
    items = inp.byte_list('d', n)
    it = PreviewIterator(items)
    pos = pv = 0
    for i in range(len(kinds)):
        k = inp.fix(inp.int('k%d' % i, 0, most))
        if kinds[i] == 'r':
            it.reset_preview()
            pv = pos
            continue
        for x in range(k):
            if kinds[i] == 'n':
                try:
                    got = it.next()
                except StopIteration:
                    inp.check(pos == n, 'nothing lost')
                    pv = pos
                    break
                inp.check(pos < n, 'reading ends')
                inp.check(got == items[pos], 'items in order')
                pos += 1
                pv = pos
            else:
                try:
                    got = it.preview()
                except StopIteration:
                    inp.check(pv == n, 'preview up to the end')
                    break
                inp.check(pv < n, 'previewing ends')
                inp.check(got == items[pv], 'previews in order')
                pv += 1
    rest = []
    for x in it:
        rest.append(x)
    inp.check_eq(rest, items[pos:], 'the rest in order')
    inp.observe('rest', rest)


def history(inp, n, ops):
    """Any sequence of ops operations over n items."""
    items = inp.byte_list('d', n)
    it = PreviewIterator(items)
    inp.check(it.__iter__() is it, 'an iterator')
    pos = pv = 0
    for k in range(ops):
        op = inp.choice('op%d' % k, ['next', 'preview', 'reset'])
        if op == 'reset':
            it.reset_preview()
            pv = pos
        elif op == 'next':
            try:
                got = it.next()
            except StopIteration:
                inp.check(pos == n, 'nothing lost')
                pv = pos
                continue
            inp.check(pos < n, 'reading ends')
            if pos < n:
                inp.check(got == items[pos], 'items in order')
                pos += 1
            pv = pos
        else:
            try:
                got = it.preview()
            except StopIteration:
                inp.check(pv == n, 'preview up to the end')
                continue
            inp.check(pv < n, 'previewing ends')
            if pv < n:
                inp.check(got == items[pv], 'previews in order')
                pv += 1
    rest = []
    for x in it:
        rest.append(x)
    inp.check_eq(rest, items[pos:], 'the rest in order')
    inp.observe('rest', rest)


# -- C24 --------------------------------------------------------------------


def value_of(inp, name, kind, n):
    """A parameter value and its octets."""
    if kind == 'int':
        v = inp.int(name, 0, 0x7fffffff)
        if v <= 127:
            return v, [v + 128]
        k = 1
        while not v < (1 << (8 * k)):
            k += 1
        return v, [k] + be(v, k)
    if kind == 'short':
        v = inp.int(name, 0, 127)
        return v, [v + 128]
    if kind == 'version':
        a = inp.int(name + 'a', 1, 7)
        b = inp.int(name + 'b', 0, 9)
        return chr(48 + a) + '.' + chr(48 + b), [128 + a * 16 + b]
    if kind == 'token':
        t = text(inp, name, n, 'token')
        return t, [ord(c) for c in t] + [0]
    if kind == 'quoted':
        # at least one character that no token may hold
        t = text(inp, name, n, 'text') + inp.pick_bytes(name + 'q', 1,
                                                        wspref.SEP)
        return t, [34] + [ord(c) for c in t] + [0]
    t = text(inp, name, n, 'text')
    return t, [ord(c) for c in t] + [0]


TYPED = {'Level': (2, 'version'), 'Type': (9, 'text'),
         'Type#': (9, 'short'), 'Name': (5, 'text'), 'Filename': (6, 'text'),
         'Start': (10, 'text'), 'Start-info': (11, 'text'),
         'Padding': (8, 'short')}


def media_of(inp, media, n):
    if media == 'known':
        k = inp.fix(inp.int('media', 0, len(wspref.MEDIA) - 1))
        return wspref.MEDIA[k], [k + 128]
    if media == 'unknown':
        t = text(inp, 'media', n, 'text')
        inp.assume(inp.lnot(inp.lor(*[t == m for m in wspref.MEDIA])))
        return t, [ord(c) for c in t] + [0]
    k = wspref.MEDIA.index(media)
    return media, [k + 128]


def split_params(inp, octets, pieces):
    """octets are the pieces in some order; dictionaries have none."""
    if len(pieces) == 0:
        return octets == []
    if len(pieces) == 1:
        return octets == pieces[0]
    found = False
    for i in range(len(pieces)):
        p = pieces[i]
        if len(octets) >= len(p):
            found = inp.lor(found, inp.land(
                octets[:len(p)] == p,
                split_params(inp, octets[len(p):],
                             pieces[:i] + pieces[i + 1:])))
    return found


def content_type(inp, media, n, params):
    """params: [[name, kind, size]]; a name '' stands for a free token."""
    m, mo = media_of(inp, media, n)
    d = {}
    pieces = []
    i = 0
    for name, kind, size in params:
        i += 1
        if name in TYPED:
            num, knd = TYPED[name]
            v, o = value_of(inp, 'v%d' % i, knd, size)
            d[name.replace('#', '')] = v
            pieces.append([num + 128] + o)
        else:
            if name == '':
                name = 'x' + text(inp, 'n%d' % i, 3, 'token')
            name = near(inp, 'n%d' % i, name)
            v, o = value_of(inp, 'v%d' % i, kind, size)
            d[name] = v
            pieces.append([ord(c) for c in name] + [0] + o)
    enc = Encoder.encode_content_type_value(m, d)
    octets_of(inp, enc, 'content type')
    total = len(mo)
    for p in pieces:
        total += len(p)
    if params:
        head = [total] if total <= 30 else [31] + wspref.uintvar(total)
        inp.check_eq(enc[:len(head)], head, 'length of the general form')
        inp.check(len(enc) == len(head) + total, 'length of the general form')
        body = enc[len(head):]
        inp.check_eq(body[:len(mo)], mo, 'media type first')
        inp.check(split_params(inp, body[len(mo):], pieces),
                  'parameters follow')
    else:
        inp.check_eq(enc, mo, 'short form without parameters')
    it = it_of(enc)
    got, gp = Decoder.decode_content_type_value(it)
    inp.check(got == m, 'media type decodes to itself')
    inp.check(len(gp) == len(d), 'parameters decode to themselves')
    for k in d:
        inp.check(k in gp, 'parameters decode to themselves')
        inp.check(gp[k] == d[k], 'parameters decode to themselves')
        inp.check(isinstance(gp[k], str) == isinstance(d[k], str),
                  'parameters keep their kind')
    check_rest(inp, it, TAIL, 'content type consumed exactly')
    inp.observe('media', got)
    if len(params) < 2:
        inp.observe('enc', enc)


def received_type(inp, form, size):
    """Content types of other senders: long numbers, other lengths and
    parameters not encoded here."""
    charset = inp.int('c', 0, 127)
    k = inp.int('m', 0, len(wspref.MEDIA) - 1 if size == 0 else 9)
    inp.assume(charset != 0)
    if form == 'charset':
        body = [k + 128, 0x81, charset + 128]
    elif form == 'charset long':
        body = [k + 128, 0x81, 1, charset]
    elif form == 'q':
        body = [k + 128, 0x80, 1 + inp.int('q', 0, 99)]
    elif form == 'number':
        body = [1, k, 0x81, charset + 128]
    elif form == 'name twice':
        t = text(inp, 't', size, 'text')
        body = [k + 128, 0x85] + [ord(c) for c in t] + [0, 0x85] + \
            [ord(c) for c in t] + [0]
    else:
        t = text(inp, 't', size, 'text')
        body = [k + 128, 0x81, charset + 128, 0x85] + \
            [ord(c) for c in t] + [0]
    if form.startswith('charset') or len(body) > 30:
        data = [31] + wspref.uintvar(len(body)) + body
    else:
        data = [len(body)] + body
    it = it_of(data)
    m, p = Decoder.decode_content_type_value(it)
    check_rest(inp, it, TAIL, 'content type consumed exactly')
    inp.check(m == wspref.MEDIA[k], 'media of the number')
    if form == 'q':
        inp.check(p.keys() == ['Q'], 'parameters received')
        q = inp.fix(body[-1])
        inp.check(abs(p['Q'] - (q - 1) / 100.0) < 1e-9, 'quality received')
        return
    if form == 'name twice':
        inp.check(p.keys() == ['Name'], 'parameters received')
        inp.check_eq(p['Name'], t, 'name received')
        return
    want = ['Charset']
    if form == 'name':
        want = ['Charset', 'Name']
        inp.check_eq(p['Name'], t, 'name received')
    inp.check(sorted(p.keys()) == want, 'parameters received')
    for n, name in wspref.CHARSETS:
        if charset == n:
            inp.check(p['Charset'] == name, 'charset received')
            return
    inp.check(p['Charset'] == str(charset), 'charset received')


# -- C34 --------------------------------------------------------------------


def check_date(inp, got, secs, label):
    """got is the naive UTC time of secs."""
    inp.check(got.tzinfo is None, label)
    inp.check(got == wspref.at(secs), label)


def times(inp, what, n, form, zeros=0):
    """what: date, expiry or delivery; n octets of value.  form: abs, rel,
    short, bad."""
    if form == 'short':
        v = inp.int('v', 0, 127)
        val = [v + 128]
    else:
        d = inp.byte_list('d', n)
        v = 0
        for x in d:
            v = v * 256 + x
        val = [n + zeros] + [0] * zeros + d
    if what == 'date':
        it = it_of(val)
        got = MMSDecoder.decode_date_value(it)
        inp.check(got.tzinfo is None, 'date in UTC')
        inp.check(got == wspref.at(v), 'date in UTC')
        check_rest(inp, it, TAIL, 'date consumed exactly')
        inp.observe('date', got)
        return
    tok = {'abs': 128, 'rel': 129, 'short': 129}.get(form)
    if tok is None:
        tok = inp.byte('tok')
        inp.assume(inp.land(tok != 128, tok != 129))
    body = [tok] + val
    data = [len(body)] + body
    if inp.bool('quoted'):
        data = [31, len(body)] + body
    else:
        # 31 announces a quoted length
        inp.assume(len(body) < 31)
    it = it_of(data)
    name = 'decode_%s_value' % what
    try:
        got = getattr(MMSDecoder, name)(it)
    except DecodeError:
        inp.check(form == 'bad', 'absolute and relative times are decoded')
        inp.observe('refused', True)
        return
    inp.check(form != 'bad', 'other tokens are refused')
    if what == 'delivery_time':
        inp.check(got[0] == {128: 'absolute', 129: 'relative'}[tok],
                  'kind of the delivery time')
        inp.check(got[1] == v, 'delivery time')
    elif form == 'abs':
        inp.check(got.tzinfo is None, 'absolute expiry')
        inp.check(got == wspref.at(v), 'absolute expiry')
    else:
        inp.check(got == v, 'relative expiry')
    check_rest(inp, it, TAIL, 'time consumed exactly')
    inp.observe('got', got)


# -- C35 --------------------------------------------------------------------

VERSIONS = ['1.1', '1.2', '1.3', '1.4']


def versions(inp):
    """Two requests in any order."""
    a = inp.choice('a', VERSIONS)
    b = inp.choice('b', VERSIONS)
    k = inp.int('k', 0, 127)
    for v in (a, b, a):
        f = get_header_field_names(v)
        p = get_well_known_parameters(v)
        inp.check(f == wspref.FIELDS[:wspref.FIELDS_OF[v]],
                  'header names of the version')
        want = wspref.params(v)
        inp.check(sorted(p.keys()) == sorted(want.keys()),
                  'parameters of the version')
        for x in want:
            inp.check(p[x][0] == want[x], 'parameters of the version')
        inp.check((k in p) == (k in want), 'parameters of the version')
        # what the caller does with a table stays his
        f.append('X-Own')
        f[0] = 'Own'
        p[0x70] = ('Own', 'text_string')
        p.pop(1, None)
    inp.check(get_header_field_names() == wspref.FIELDS[:56],
              'default version')
    p = get_well_known_parameters()
    inp.check(dict([(x, p[x][0]) for x in p]) == wspref.params('1.2'),
              'default version')


def version_refused(inp, n):
    """Any other text."""
    v = inp.bytes('v', n)
    ok = inp.lor(*[v == x for x in VERSIONS])
    for f in (get_header_field_names, get_well_known_parameters):
        try:
            f(v)
        except ValueError:
            inp.check(inp.lnot(ok), 'known versions are accepted')
            continue
        inp.check(ok, 'other versions are refused')


def version_used(inp, n):
    """Parameters are read and written by the numbers of the version."""
    v = inp.choice('v', VERSIONS)
    k = inp.int('k', 0, 127)
    it = it_of([k + 128])
    want = wspref.params(v)
    if v == '1.2':
        call = lambda: Decoder.decode_well_known_parameter(it)
    else:
        call = lambda: Decoder.decode_well_known_parameter(it, v)
    try:
        got = call()
    except DecodeError:
        inp.check(k not in want, 'assigned parameters are decoded')
        return
    inp.check(k in want, 'numbers of later versions are refused')
    for x in want:
        if x == k:
            inp.check(got[0] == want[x], 'parameter of the number')
    inp.observe('got', got)


def param_encoded(inp, v, name, kind):
    """A parameter is encoded with a number of the version, else as text."""
    val, o = value_of(inp, 'v', kind, 3)
    enc = Encoder.encode_parameter(name, val, v)
    want = wspref.params(v)
    nums = [x for x in want if want[x] == name]
    if nums:
        inp.check(enc[0] - 128 == max(nums), 'number of the parameter')
        inp.check_eq(enc[1:], o, 'value of the parameter')
    else:
        inp.check_eq(enc, [ord(c) for c in name] + [0] + o,
                     'parameters of later versions as text')
    inp.observe('enc', enc)
