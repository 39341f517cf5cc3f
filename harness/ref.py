"""Reference definitions written from the standards (3GPP TS 23.038, 23.040,
WAP-230, WAP-209), independent of the code under test."""

# 3GPP TS 23.038 section 6.2.1, position -> code point (27 is the escape)
GSM = [0x40, 0xa3, 0x24, 0xa5, 0xe8, 0xe9, 0xf9, 0xec, 0xf2, 0xc7, 0x0a,
       0xd8, 0xf8, 0x0d, 0xc5, 0xe5, 0x394, 0x5f, 0x3a6, 0x393, 0x39b, 0x3a9,
       0x3a0, 0x3a8, 0x3a3, 0x398, 0x39e, -1, 0xc6, 0xe6, 0xdf, 0xc9,
       0x20, 0x21, 0x22, 0x23, 0xa4] + range(0x25, 0x40) + [0xa1] + \
    range(0x41, 0x5b) + [0xc4, 0xd6, 0xd1, 0xdc, 0xa7, 0xbf] + \
    range(0x61, 0x7b) + [0xe4, 0xf6, 0xf1, 0xfc, 0xe0]

# section 6.2.1.1
GSM_EXT = [(0x0a, 0x0c), (0x14, 0x5e), (0x28, 0x7b), (0x29, 0x7d),
           (0x2f, 0x5c), (0x3c, 0x5b), (0x3d, 0x7e), (0x3e, 0x5d),
           (0x40, 0x7c), (0x65, 0x20ac)]

ENC = [(GSM[i], i) for i in range(128) if i != 27]
ENC_EXT = [(u, g) for g, u in GSM_EXT]
DEC = [(i, GSM[i]) for i in range(128) if i != 27]
REGULAR = [u for u, g in ENC]
EXT = [u for u, g in ENC_EXT]
ALL = REGULAR + EXT
EXT_SEPTETS = [g for g, u in GSM_EXT]


def octets(h):
    """Hexadecimal text -> list of integers."""
    return [int(h[i:i + 2], 16) for i in range(0, len(h), 2)]


def hexof(data):
    return ''.join(['%02X' % b for b in data])


def septets(data, n, bit=0):
    """n septets of the octets `data`, starting at bit `bit`."""
    out = []
    for i in range(n):
        b = bit + 7 * i
        o, s = b // 8, b % 8
        v = data[o] >> s
        if s > 1 and o + 1 < len(data):
            v = v | (data[o + 1] << (8 - s))
        out.append(v & 0x7f)
    return out


def pack(seps, bit=0):
    """Octets carrying the septets from bit `bit` on (bits before are 0)."""
    n = (bit + 7 * len(seps) + 7) // 8
    out = [0] * n
    for i in range(len(seps)):
        b = bit + 7 * i
        o, s = b // 8, b % 8
        out[o] = out[o] | ((seps[i] << s) & 0xff)
        if s > 1:
            out[o + 1] = out[o + 1] | (seps[i] >> (8 - s))
    return out


def to_septets(inp, text):
    """The default-alphabet septets of a text over the alphabet."""
    out = []
    for ch in text:
        c = ord(ch)
        if c in EXT:
            out.append(0x1b)
            out.append(inp.table(c, ENC_EXT))
        else:
            out.append(inp.table(c, ENC))
    return out


def semi(data, n):
    """n digits (nibbles, low one first) of the octets."""
    out = []
    for i in range(n):
        o = data[i // 2]
        if i % 2:
            out.append(o >> 4)
        else:
            out.append(o & 15)
    return out


def digit_codes(s):
    return [ord(c) - 48 for c in s]


def parse_address(data, i, smsc=False):
    """(type octet, digits, next index); the length octet counts octets
    including the type for a service centre, digits otherwise."""
    n = data[i]
    if smsc:
        if n == 0:
            return None, [], i + 1
        body = data[i + 2:i + 1 + n]
        d = semi(body, 2 * (n - 1))
        return data[i + 1], d, i + 1 + n
    k = (n + 1) // 2
    body = data[i + 2:i + 2 + k]
    return data[i + 1], semi(body, 2 * k), i + 2 + k
