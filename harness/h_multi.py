"""Concatenated messages (C03) and repeated encoding (C10)."""
from messaging.sms import SmsSubmit, SmsDeliver
from harness import ref

NUM = '+34616585119'
HEAD = [0x0b, 0x91, 0x43, 0x16, 0x56, 0x58, 0x11, 0xf9]
SENDER = [0x0b, 0x91, 0x43, 0x16, 0x56, 0x58, 0x11, 0xf9]
STAMP = [0x11, 0x10, 0x10, 0x21, 0x43, 0x65, 0]


def split(inp, pdu, dcs):
    """(user data length, header, data) of one SUBMIT part."""
    d = ref.octets(pdu.pdu)
    inp.check(d[0] == 0, 'no service centre')
    inp.check(d[1] == 0x41, 'flagged as carrying a header')
    inp.check_eq(d[3:11], HEAD, 'destination')
    inp.check(d[11] == 0, 'protocol identifier')
    inp.check(d[12] == dcs, 'data coding')
    inp.check(pdu.length == len(d) - 1, 'length')
    ud = d[14:]
    inp.check(len(ud) <= 140, 'at most 140 octets')
    inp.check(ud[0] == 5, 'header length')
    return d[13], ud[1:6], ud[6:], ud


def deliver(udl, ud, dcs):
    return ref.hexof([0, 0x40] + SENDER + [0, dcs] + STAMP + [udl] + ud)


def headers(inp, pdus, hs, cref):
    n = len(pdus)
    for i in range(n):
        inp.check(pdus[i].cnt == n and pdus[i].seq == i + 1, 'cnt and seq')
        inp.check_eq(hs[i], [0, 3, cref, n, i + 1], 'concatenation element')


def received(inp, got, cref, n, i):
    c = got.udh.concat
    inp.check(c is not None and c.ref == cref and c.cnt == n and
              c.seq == i + 1, 'concatenation as received')


def window(inp, n, win, k, full, dense=0):
    """n characters; those at win..win+k-1 are any of the alphabet, the
    first `dense` of the others of the extension table, the rest ordinary."""
    out = u''
    for i in range(n):
        if win <= i < win + k:
            out = out + inp.pick_uni('t%d' % i, 1, ref.ALL)
        elif i < dense:
            out = out + (u'{', u'\u20ac', u'\\', u'|')[i % 4]
        elif full:
            out = out + inp.pick_uni('t%d' % i, 1, ref.REGULAR)
        else:
            out = out + unichr(97 + i % 26)
    return out


def seven(inp, n, win, k, full, dense=0):
    text = window(inp, n, win, k, full, dense)
    sms = SmsSubmit(NUM, text)
    sms.ref = 0
    sms.rand_id = inp.int('id', 0, 1000)
    cref = sms.rand_id & 255
    pdus = sms.to_pdu()
    want = ref.to_septets(inp, text)
    if len(want) <= 160:
        inp.check(len(pdus) == 1, 'not split when it fits')
        return
    inp.check(len(pdus) >= 2, 'split when it does not fit')
    hs = []
    at = 0
    back = u''
    for i in range(len(pdus)):
        udl, h, data, ud = split(inp, pdus[i], 0)
        hs.append(h)
        inp.check((7 * udl + 7) // 8 == len(ud), 'user data fills its octets')
        k = inp.fix(udl) - 7
        inp.check(0 < k <= 153, 'septets in a part')
        inp.check_eq(ref.septets(ud, k, 49), want[at:at + k], 'septets')
        at += k
        if i < len(pdus) - 1:
            # an escape is always followed by its second septet
            inp.check(want[at - 1] != 0x1b, 'escape sequence not divided')
        got = SmsDeliver(deliver(udl, ud, 0))
        back = back + got.text
        received(inp, got, cref, len(pdus), i)
    inp.check(at == len(want), 'all septets sent')
    headers(inp, pdus, hs, cref)
    inp.check_eq(back, text, 'reassembles to the text')
    inp.observe('pdus', [p.pdu for p in pdus])


def ucs2(inp, n, auto, win=0, k=None):
    if k is None:
        text = inp.uni('t', n, 0x400 if auto else 0, 0xffff)
    else:
        text = u''.join([unichr(0x4e00 + 7 * i % 4000) for i in range(win)])
        text = text + inp.uni('t', k, 0, 0xffff) + u''.join(
            [unichr(0x4e00 + 7 * i % 4000) for i in range(win + k, n)])
    sms = SmsSubmit(NUM, text)
    if not auto:
        sms.fmt = 8
    else:
        inp.assume(ord(text[0]) != 0x20ac)
    sms.ref = 0
    sms.rand_id = inp.byte('id')
    pdus = sms.to_pdu()
    if n <= 70:
        inp.check(len(pdus) == 1, 'not split when it fits')
        return
    inp.check(len(pdus) >= 2, 'split when it does not fit')
    want = []
    for c in text:
        want.append(ord(c) >> 8)
        want.append(ord(c) & 255)
    octet_parts(inp, sms, pdus, want, text, u'', 8)


def eight(inp, n, win=0, k=None):
    if k is None:
        data = inp.bytes('d', n)
    else:
        data = ''.join([chr(28 + 7 * i % 228) for i in range(win)])
        data = data + inp.bytes('d', k) + ''.join(
            [chr(28 + 7 * i % 228) for i in range(win + k, n)])
    sms = SmsSubmit(NUM, data)
    sms.fmt = 4
    sms.ref = 0
    sms.rand_id = inp.byte('id')
    pdus = sms.to_pdu()
    if n <= 140:
        inp.check(len(pdus) == 1, 'not split when it fits')
        return
    inp.check(len(pdus) >= 2, 'split when it does not fit')
    octet_parts(inp, sms, pdus, [ord(c) for c in data], data, '', 4)


def octet_parts(inp, sms, pdus, want, text, back, dcs):
    hs = []
    at = 0
    for i in range(len(pdus)):
        udl, h, data, ud = split(inp, pdus[i], dcs)
        hs.append(h)
        inp.check(udl == len(ud), 'user data length in octets')
        inp.check(dcs == 4 or len(data) % 2 == 0, 'whole characters')
        inp.check(len(data) > 0, 'no empty part')
        inp.check_eq(data, want[at:at + len(data)], 'user data')
        at += len(data)
        got = SmsDeliver(deliver(udl, ud, dcs))
        back = back + got.text
        received(inp, got, sms.rand_id, len(pdus), i)
    inp.check(at == len(want), 'everything sent')
    headers(inp, pdus, hs, sms.rand_id)
    inp.check_eq(back, text, 'reassembles to the text')
    inp.observe('pdus', [p.pdu for p in pdus])


# -- C10 --------------------------------------------------------------------


def texts(inp, kind):
    if kind == 'short':
        return inp.pick_uni('t', 3, ref.REGULAR)
    if kind == 'ucs2':
        return inp.uni('t', 3, 0x4e00, 0x9fff)
    if kind == 'long':
        return u'y' * 158 + inp.pick_uni('t', 4, ref.REGULAR)
    if kind == 'longucs2':
        return u'\u4e00' * 70 + inp.uni('t', 2, 0x4e00, 0x9fff)


def cref_of(inp, pdu):
    d = ref.octets(pdu.pdu)
    return d[17]


def without_ref(pdu):
    return pdu.pdu[:34] + pdu.pdu[36:]


def again(inp, kind, fixed, user_ref, times):
    """Encode the same message several times."""
    sms = SmsSubmit(NUM, texts(inp, kind))
    if user_ref:
        sms.ref = inp.int('ref', 0, 100000)
        want = sms.ref & 255
    if fixed:
        sms.rand_id = inp.int('id', 0, 100000)
    first = sms.to_pdu()
    if not user_ref:
        want = ref.octets(first[0].pdu)[2]
    inp.check(0 <= sms.ref <= 255, 'reference fits in an octet')
    multi = len(first) > 1
    refs = []
    if multi:
        refs.append(cref_of(inp, first[0]))
    for k in range(times):
        pdus = sms.to_pdu()
        inp.check(len(pdus) == len(first), 'same number of parts')
        for i in range(len(pdus)):
            d = ref.octets(pdus[i].pdu)
            inp.check(d[2] == want, 'message reference stays')
            inp.check(pdus[i].length == first[i].length and
                      pdus[i].cnt == first[i].cnt and
                      pdus[i].seq == first[i].seq, 'same length and number')
            if multi and not fixed:
                inp.check_eq(without_ref(pdus[i]), without_ref(first[i]),
                             'same but for the reference')
                inp.check(cref_of(inp, pdus[i]) == cref_of(inp, pdus[0]),
                          'one reference in all parts')
            else:
                inp.check_eq(pdus[i].pdu, first[i].pdu, 'same PDU')
        if multi and not fixed:
            r = cref_of(inp, pdus[0])
            for q in refs:
                inp.check(r != q, 'another reference each time')
            refs.append(r)
    inp.observe('refs', refs)
    inp.observe('first', [p.pdu for p in first])


def cycle(inp, n):
    """n references drawn one after the other."""
    sms = SmsSubmit(NUM, u'z' * 161)
    c = inp.byte('c')
    sms.text = u'z' * 160 + unichr(inp.table(c & 1, [(0, 97), (1, 98)]))
    sms.ref = 5
    last = []
    for i in range(n):
        pdus = sms.to_pdu()
        r = cref_of(inp, pdus[0])
        inp.check(r == cref_of(inp, pdus[1]), 'one reference in all parts')
        inp.check(0 <= r <= 255, 'reference fits in an octet')
        inp.check(r not in last[-254:], 'not drawn twice in a cycle')
        last.append(r)
    inp.observe('last', last[-3:])
    inp.reach('cycle completed')


def history(inp, n, cid):
    """Any sequence of n operations on one message."""
    sms = SmsSubmit(NUM, u'short')
    sms.ref = inp.byte('ref')
    long_text = u'l' * 159 + inp.pick_uni('t', 2, ref.REGULAR)
    cur = u'short'
    drawn = []
    fixed = None
    log = []
    for i in range(n):
        op = inp.choice('op%d' % i, ['encode', 'long', 'short', 'ref',
                                     'fix', 'free'])
        if op == 'long':
            cur = sms.text = long_text
        elif op == 'short':
            cur = sms.text = u'short'
        elif op == 'ref':
            sms.ref = inp.byte('ref%d' % i)
        elif op == 'fix':
            fixed = sms.rand_id = inp.byte('id%d' % i)
        elif op == 'free':
            fixed = sms.rand_id = None
        else:
            want = sms.ref
            pdus = sms.to_pdu()
            log.append([p.pdu for p in pdus])
            inp.check(len(pdus) == (1 if len(cur) < 161 else 2),
                      'number of parts')
            back = u''
            for p in pdus:
                d = ref.octets(p.pdu)
                inp.check(d[2] == want, 'message reference stays')
                inp.check(d[1] == (1 if len(cur) < 161 else 0x41),
                          'first octet')
                if len(pdus) == 2:
                    if fixed is not None:
                        inp.check(d[17] == fixed, 'fixed reference used')
                    else:
                        inp.check(d[17] not in drawn,
                                  'another reference each time')
                got = SmsDeliver(deliver(d[13], d[14:], 0) if len(pdus) == 2
                                 else ref.hexof([0, 0] + SENDER + [0, 0] +
                                                STAMP + d[13:]))
                back = back + got.text
            inp.check_eq(back, cur, 'carries the current text')
            if len(pdus) == 2 and fixed is None:
                drawn.append(d[17])
    inp.observe('log', log)
