"""The codec (C08) and septet packing (C09)."""
from array import array

from messaging.sms import is_gsm_text
from messaging.sms.gsm0338 import encode as gsm_encode, decode as gsm_decode
from messaging.utils import (pack_8bits_to_7bits, unpack_msg, unpack_msg2,
                             pack_8bits_to_8bit, pack_8bits_to_ucs2,
                             encode_str, encode_bytes, to_array, swap,
                             swap_number, clean_number)
from harness import ref

# letters that look like one of the alphabet
ALIKE = [(0xe7, 9), (0x391, 0x41), (0x392, 0x42), (0x395, 0x45),
         (0x397, 0x48), (0x399, 0x49), (0x39a, 0x4b), (0x39c, 0x4d),
         (0x39d, 0x4e), (0x39f, 0x4f), (0x3a1, 0x50), (0x3a4, 0x54),
         (0x3a7, 0x58), (0x3a5, 0x59), (0x396, 0x5a)]
LIKE = [u for u, g in ALIKE]


# fixed text around the free one: letters, and letters with all the rest
TAME = u'Lorem ipsum @ dolor \u20ac sit {amet} '
WILD = u'a\u00e7\u20ac\u4e2d{\u0391'


def fixed_text(base, n):
    return (base * (n // len(base) + 1))[:n]


def encode_all(inp, n, mode, pre=0, post=0, wild=False):
    """Any text, character by character."""
    base = WILD if wild else TAME
    text = fixed_text(base, pre) + inp.uni('t', n) + fixed_text(base, post)
    want = ''
    bad = False
    for ch in text:
        c = ord(ch)
        if c in ref.REGULAR:
            want = want + chr(inp.table(c, ref.ENC))
        elif c in ref.EXT:
            want = want + '\x1b' + chr(inp.table(c, ref.ENC_EXT))
        else:
            bad = True
            if mode == 'replace':
                if c in LIKE:
                    want = want + chr(inp.table(c, ALIKE))
                else:
                    want = want + '?'
    g = is_gsm_text(text)
    inp.check(g == (not bad), 'the test for GSM text')
    try:
        got = text.encode('gsm0338', mode)
    except UnicodeError:
        inp.check(bad and mode == 'strict', 'refused only in strict mode')
        inp.observe('refused', True)
        return
    inp.check(not (bad and mode == 'strict'), 'refused in strict mode')
    inp.check(type(got) is str, 'octets')
    inp.check_eq(got, want, 'encoded as in the table')
    if not bad:
        inp.check_eq(got.decode('gsm0338'), text, 'decodes back')
    inp.observe('got', got)


def decode_all(inp, n, mode, pre=0, post=0, wild=False):
    """Any octets."""
    base = 'a\x1b\x65\x1b\x1b\xe9\x00\xff\x1b0' if wild else \
        'Lorem\x1be ipsum\x00\x1b<'
    data = fixed_text(base, pre) + inp.bytes('d', n) + fixed_text(base, post)
    n = len(data)
    want = u''
    bad = False
    i = 0
    while i < n:
        c = ord(data[i])
        i += 1
        if c == 0x1b:
            if i < n:
                e = ord(data[i])
                i += 1
                if e in ref.EXT_SEPTETS:
                    want = want + unichr(inp.table(e, ref.GSM_EXT))
                else:
                    want = want + u'\xa0'
            else:
                want = want + u'\xa0'
        elif c > 127:
            bad = True
            if mode == 'replace':
                want = want + u'?'
        else:
            want = want + unichr(inp.table(c, ref.DEC))
    try:
        got = data.decode('gsm0338', mode)
    except UnicodeError:
        inp.check(bad and mode == 'strict', 'refused only in strict mode')
        inp.observe('refused', True)
        return
    inp.check(not (bad and mode == 'strict'), 'refused in strict mode')
    inp.check_eq(got, want, 'decoded as in the table')
    inp.observe('got', got)


def there_and_back(inp, n):
    """Texts over the alphabet."""
    text = inp.pick_uni('t', n, ref.ALL)
    want = ref.to_septets(inp, text)
    got = text.encode('gsm0338')
    inp.check_eq([ord(c) for c in got], want, 'encoded as in the table')
    inp.check_eq(got.decode('gsm0338'), text, 'decodes back')
    inp.check(is_gsm_text(text), 'the test for GSM text')
    inp.observe('got', got)


def back_and_there(inp, n):
    """Septets that stand for a text."""
    data = ''
    for i in range(n):
        if inp.bool('e%d' % i):
            data = data + '\x1b' + inp.pick_bytes('x%d' % i, 1,
                                                  ref.EXT_SEPTETS)
        else:
            c = inp.bytes('c%d' % i, 1, 0, 127)
            inp.assume(ord(c) != 0x1b)
            data = data + c
    text = data.decode('gsm0338')
    inp.check(len(text) == n, 'one character each')
    inp.check_eq(text.encode('gsm0338'), data, 'encodes back')
    inp.observe('text', text)


def byte_text(inp, n):
    """ASCII byte strings as text."""
    text = inp.bytes('t', n, 0, 127)
    bad = False
    want = ''
    for ch in text:
        c = ord(ch)
        if c in ref.REGULAR:
            want = want + chr(inp.table(c, ref.ENC))
        elif c in ref.EXT:
            want = want + '\x1b' + chr(inp.table(c, ref.ENC_EXT))
        else:
            bad = True
    inp.check(is_gsm_text(text) == (not bad), 'the test for GSM text')
    if not bad:
        inp.check_eq(text.encode('gsm0338'), want, 'encoded as in the table')
    inp.observe('bad', bad)


def unknown_mode(inp):
    """Another error mode is an error, not a silent default."""
    c = inp.uni('t', 1)
    inp.assume(inp.lnot(ord(c) in ref.ALL))
    try:
        (u'a' + c).encode('gsm0338', 'xmlcharrefreplace')
        inp.fail('unknown modes are refused')
    except UnicodeError:
        inp.reach('unknown mode refused')


# -- C09 --------------------------------------------------------------------


def pack(inp, n):
    """n septets without header."""
    s = inp.bytes('s', n, 0, 127)
    seps = [ord(c) for c in s]
    h = pack_8bits_to_7bits(s)
    d = ref.octets(h)
    inp.check(d[0] == n, 'number of septets')
    inp.check(len(d) == 1 + (7 * n + 7) // 8, 'number of octets')
    inp.check_eq(d[1:], ref.pack(seps), 'octets as packed bits')
    back = unpack_msg(h[2:])
    inp.check_eq(back[:n], sep_text(s), 'unpacked from hexadecimal')
    back2 = unpack_msg2(to_array(h[2:]))
    inp.check_eq(back2[:n], sep_text(s), 'unpacked from octets')
    inp.check(len(back) - n <= 1 and back[n:] == u'\0' * (len(back) - n),
              'nothing but fill after the septets')
    inp.check_eq(back, back2, 'both unpack alike')
    inp.observe('h', h)


def sep_text(s):
    return u''.join([unichr(ord(c)) for c in s])


def pack_header(inp, n):
    """n septets behind a header of 6 octets."""
    s = inp.bytes('s', n, 0, 127)
    udh = '\x05' + inp.bytes('h', 5)
    # the fill bits are there already: one more septet of text
    h = pack_8bits_to_7bits(' ' + s, udh)
    d = ref.octets(h)
    inp.check(d[0] == n + 7, 'number of septets with the header')
    inp.check(len(d) == 1 + (7 * (n + 7) + 7) // 8, 'number of octets')
    inp.check_eq(d[1:7], [ord(c) for c in udh], 'header unchanged')
    inp.check_eq(d[7:], ref.pack([ord(c) for c in s], 1),
                 'septets from the next boundary')
    back = unpack_msg(h[2:])
    inp.check_eq(back[7:7 + n], sep_text(s), 'unpacked behind the header')
    inp.observe('h', h)


def unpack_any(inp, n):
    """Any octets."""
    d = inp.byte_list('d', n)
    k = min(8 * n // 7, 160)
    want = ref.septets(d, k)
    got = unpack_msg(ref.hexof(d))
    inp.check_eq([ord(c) for c in got[:k]], want, 'unpacked septets')
    got2 = unpack_msg2(array('B', d))
    inp.check_eq([ord(c) for c in got2[:k]], want, 'unpacked septets')
    low = unpack_msg(ref.hexof(d).lower())
    inp.check(low == got, 'case of the digits')
    inp.observe('got', got)


def octet_packing(inp, n):
    """8-bit and UCS2 packing."""
    s = inp.bytes('s', n)
    d = ref.octets(pack_8bits_to_8bit(s))
    inp.check_eq(d, [n] + [ord(c) for c in s], 'octets')
    if n <= 134:
        u = inp.bytes('u', 6)
        d = ref.octets(pack_8bits_to_8bit(s, u))
        inp.check_eq(d, [n + 6] + [ord(c) for c in u + s],
                     'octets behind a header')
    if n <= 70:
        t = inp.uni('t', n)
        d = ref.octets(pack_8bits_to_ucs2(t))
        want = [2 * n]
        for c in t:
            want += [ord(c) >> 8, ord(c) & 255]
        inp.check_eq(d, want, 'code units')
    inp.observe('d', d)


def helpers(inp, n):
    """Hexadecimal and semi-octet helpers."""
    s = inp.bytes('s', n)
    h = encode_str(s)
    inp.check(len(h) == 2 * n, 'two digits each')
    inp.check_eq(ref.octets(h), [ord(c) for c in s], 'hexadecimal')
    inp.check_eq(encode_bytes(array('B', s)), h, 'hexadecimal of octets')
    inp.check(to_array(h).tostring() == s, 'octets of hexadecimal')
    d = inp.bytes('n', n, 48, 57)
    swapped = swap_number(d if n % 2 == 0 else d[:n - 1] + 'f' + d[n - 1])
    want = []
    for i in range(0, n - 1, 2):
        want += [d[i + 1], d[i]]
    if n % 2:
        want.append(d[n - 1])
    inp.check_eq(swapped, ''.join(want), 'semi-octets swapped')
    inp.check(clean_number(' ' + d + ' ') == d, 'blanks around a number')
    inp.check(clean_number(d[:n // 2] + ' ' + d[n // 2:]) == d,
              'blanks in a number')
    inp.observe('h', h)
