from datetime import datetime, timedelta

from messaging.sms import SmsSubmit, SmsDeliver, is_gsm_text
from harness import ref

NUM = '+34616585119'
# the octets for that number after 23.040 9.1.2.5
NUM_OCT = [0x0b, 0x91, 0x43, 0x16, 0x56, 0x58, 0x11, 0xf9]


def fields(inp, pdu, nvp, hdr):
    """Split a SUBMIT without service centre, for NUM, into its fields."""
    d = ref.octets(pdu.pdu)
    inp.check(pdu.pdu == pdu.pdu.upper(), 'hex is upper case')
    inp.check(d[0] == 0, 'no service centre')
    inp.check(d[1] == hdr, 'first octet')
    inp.check_eq(d[3:11], NUM_OCT, 'destination')
    inp.check(pdu.length == len(d) - 1, 'length excludes service centre')
    r = {'ref': d[2], 'pid': d[11], 'dcs': d[12], 'vp': d[13:13 + nvp],
         'udl': d[13 + nvp], 'ud': d[14 + nvp:]}
    return r


def seven_text(inp, n, ext):
    """Text of n alphabet characters.  ext: indices that may be any
    character; the others are regular ones."""
    out = u''
    for i in range(n):
        if i in ext:
            out = out + inp.pick_uni('t%d' % i, 1, ref.ALL)
        else:
            out = out + inp.pick_uni('t%d' % i, 1, ref.REGULAR)
    return out


def check_seven(inp, ud, udl, bit, want):
    """ud holds exactly the septets `want` from bit `bit` on."""
    inp.check((7 * udl + 7) // 8 == len(ud), 'user data fills its octets')
    first = (bit + 6) // 7
    inp.check(udl == first + len(want), 'user data length in septets')
    inp.check_eq(ref.septets(ud, len(want), 7 * first), want, 'septets')
    used = 7 * udl % 8
    if used:
        inp.check(ud[-1] >> used == 0, 'fill bits are zero')


def deliver_of(f, dcs, udhi):
    """The SMS-DELIVER a network would build from the submitted fields."""
    return ref.hexof([0, udhi, 0x0b, 0x91, 0x43, 0x16, 0x56, 0x58, 0x11, 0xf9,
                      0, dcs, 0x11, 0x10, 0x10, 0x21, 0x43, 0x65, 0, f['udl']]
                     + f['ud'])


def seven(inp, n, ext, forced):
    """7-bit text in one part."""
    text = seven_text(inp, n, ext)
    sms = SmsSubmit(NUM, text)
    if forced:
        sms.fmt = 0
    sms.ref = inp.byte('ref')
    pdus = sms.to_pdu()
    inp.check(len(pdus) == 1, 'one part')
    inp.check(pdus[0].cnt == 1 and pdus[0].seq == 1, 'counted as 1 of 1')
    f = fields(inp, pdus[0], 0, 0x01)
    inp.check(f['dcs'] == 0, 'coding 7-bit')
    inp.check(f['pid'] == 0, 'pid')
    inp.check(f['ref'] == sms.ref, 'reference')
    check_seven(inp, f['ud'], f['udl'], 0, ref.to_septets(inp, text))
    inp.observe('pdu', pdus[0].pdu)
    got = SmsDeliver(deliver_of(f, 0, 0))
    inp.check_eq(got.text, text, 'decodes to the text')
    inp.check(got.fmt == 0, 'decoded format')


def seven_len(inp, n, nesc, lo=0, hi=None):
    """Long texts: nesc characters of the extension table at any positions
    from lo to hi, the others of the default one; n characters."""
    text = u''
    pos = []
    for i in range(nesc):
        pos.append(inp.fix(inp.int('pos%d' % i, lo,
                                   n - 1 if hi is None else hi)))
    for i in range(n):
        if i in pos:
            text = text + inp.pick_uni('t%d' % i, 1, ref.EXT)
        else:
            text = text + inp.pick_uni('t%d' % i, 1, ref.REGULAR)
    sms = SmsSubmit(NUM, text)
    sms.ref = 0
    pdus = sms.to_pdu()
    inp.check(len(pdus) == 1, 'one part')
    f = fields(inp, pdus[0], 0, 0x01)
    inp.check(f['dcs'] == 0, 'coding 7-bit')
    check_seven(inp, f['ud'], f['udl'], 0, ref.to_septets(inp, text))
    inp.observe('pdu', pdus[0].pdu)
    got = SmsDeliver(deliver_of(f, 0, 0))
    inp.check_eq(got.text, text, 'decodes to the text')


def seven_str(inp, n):
    """A byte string of ASCII characters of the alphabet as text."""
    codes = [c for c in ref.REGULAR if c < 128]
    text = inp.pick_bytes('t', n, codes)
    sms = SmsSubmit(NUM, text)
    sms.ref = 0
    pdus = sms.to_pdu()
    inp.check(len(pdus) == 1, 'one part')
    f = fields(inp, pdus[0], 0, 0x01)
    inp.check(f['dcs'] == 0, 'coding 7-bit')
    want = []
    for c in text:
        want.append(inp.table(ord(c), ref.ENC))
    check_seven(inp, f['ud'], f['udl'], 0, want)
    inp.observe('pdu', pdus[0].pdu)


def fits(inp, n, tail):
    """n ordinary characters then `tail` of any kind: at most 160 septets are
    one part."""
    text = u'x' * n
    for i in range(tail):
        text = text + inp.pick_uni('t%d' % i, 1, ref.ALL)
    sms = SmsSubmit(NUM, text)
    sms.ref = 0
    pdus = sms.to_pdu()
    want = ref.to_septets(inp, text)
    if len(want) > 160:
        inp.check(len(pdus) == 2, 'split when too long')
        return
    inp.check(len(pdus) == 1, 'one part')
    f = fields(inp, pdus[0], 0, 0x01)
    check_seven(inp, f['ud'], f['udl'], 0, want)
    inp.observe('pdu', pdus[0].pdu)


def ucs2(inp, n, auto):
    """UCS2 text in one part."""
    text = inp.uni('t', n, 0, 0xffff)
    sms = SmsSubmit(NUM, text)
    if auto:
        inp.assume(inp.lnot(gsm_only(inp, text)))
    else:
        sms.fmt = 0x08
    sms.ref = inp.byte('ref')
    pdus = sms.to_pdu()
    inp.check(len(pdus) == 1, 'one part')
    f = fields(inp, pdus[0], 0, 0x01)
    inp.check(f['dcs'] == 8, 'coding UCS2')
    inp.check(f['ref'] == sms.ref, 'reference')
    want = []
    for c in text:
        want.append(ord(c) >> 8)
        want.append(ord(c) & 255)
    inp.check(f['udl'] == 2 * n, 'user data length in octets')
    inp.check_eq(f['ud'], want, 'big-endian code units')
    inp.observe('pdu', pdus[0].pdu)
    got = SmsDeliver(deliver_of(f, 8, 0))
    inp.check_eq(got.text, text, 'decodes to the text')
    inp.check(got.fmt == 8, 'decoded format')


def one_other(inp, n):
    """One free character anywhere among n that are in the alphabet."""
    pos = inp.fix(inp.int('pos', 0, n - 1))
    c = inp.uni('c', 1)
    text = u'a' * pos + c + u'\xe8' * (n - pos - 1)
    g = ord(c) in ref.ALL
    sms = SmsSubmit(NUM, text)
    sms.ref = 0
    pdus = sms.to_pdu()
    inp.check(len(pdus) == 1, 'one part')
    f = fields(inp, pdus[0], 0, 0x01)
    inp.check(inp.implies(g, f['dcs'] == 0), '7-bit when possible')
    inp.check(inp.implies(inp.lnot(g), f['dcs'] == 8), 'UCS2 otherwise')
    inp.observe('pdu', pdus[0].pdu)
    got = SmsDeliver(deliver_of(f, f['dcs'], 0))
    inp.check_eq(got.text, text, 'decodes to the text')


def gsm_only(inp, text):
    conds = []
    for c in text:
        conds.append(ord(c) in ref.ALL)
    return inp.land(*conds)


def auto(inp, n):
    """The coding is chosen by the alphabet."""
    text = inp.uni('t', n, 0, 0xffff)
    sms = SmsSubmit(NUM, text)
    sms.ref = 0
    f = fields(inp, sms.to_pdu()[0], 0, 0x01)
    g = gsm_only(inp, text)
    inp.check(inp.implies(g, f['dcs'] == 0), '7-bit when possible')
    inp.check(inp.implies(inp.lnot(g), f['dcs'] == 8), 'UCS2 otherwise')
    inp.check(inp.land(inp.implies(g, is_gsm_text(text)), inp.implies(
        is_gsm_text(text), g)), 'is_gsm_text agrees')
    inp.observe('dcs', f['dcs'])


def eight(inp, n):
    """8-bit data in one part."""
    data = inp.bytes('d', n)
    sms = SmsSubmit(NUM, data)
    sms.fmt = 0x04
    sms.ref = inp.byte('ref')
    pdus = sms.to_pdu()
    inp.check(len(pdus) == 1, 'one part')
    f = fields(inp, pdus[0], 0, 0x01)
    inp.check(f['dcs'] == 4, 'coding 8-bit')
    inp.check(f['udl'] == n, 'user data length in octets')
    inp.check_eq(f['ud'], [ord(c) for c in data], 'octets')
    inp.observe('pdu', pdus[0].pdu)
    got = SmsDeliver(deliver_of(f, 4, 0))
    inp.check_eq(got.text, data, 'decodes to the data')
    inp.check(got.fmt == 4, 'decoded format')
