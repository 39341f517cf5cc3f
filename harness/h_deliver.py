"""Received messages: C11 to C16."""
from datetime import datetime, timedelta

from messaging.sms import SmsDeliver
from messaging.sms.udh import UserDataHeader
from harness import ref
from array import array

SENDER = [0x0b, 0x91, 0x43, 0x16, 0x56, 0x58, 0x11, 0xf9]
STAMP = [0x11, 0x10, 0x10, 0x21, 0x43, 0x65, 0]
WHEN = datetime(2011, 1, 1, 12, 34, 56)


def semi_octets(digits):
    """Swapped semi-octets of a list of digits."""
    d = list(digits)
    if len(d) % 2:
        d.append(15)
    return [d[i] + 16 * d[i + 1] for i in range(0, len(d), 2)]


def text_of(digits):
    return ''.join([chr(48 + d) for d in digits])


def type_octet(inp, name, ton):
    """A type-of-address octet with the given type of number."""
    return 0x80 + 16 * ton + inp.int(name, 0, 15)


# -- C11 --------------------------------------------------------------------


def addresses(inp, m, cton, n, ton):
    """Centre of m digits (0: none), sender of n digits."""
    cd = inp.byte_list('c', m, 0, 9)
    sd = inp.byte_list('s', n, 0, 9)
    o = []
    if m:
        o += [1 + (m + 1) // 2, type_octet(inp, 'cplan', cton)]
        o += semi_octets(cd)
    else:
        o.append(0)
    o += [inp.choice('first', [0, 4]), n, type_octet(inp, 'plan', ton)]
    o += semi_octets(sd)
    o += [0, 0] + STAMP + [2, 0xe8, 0x34]
    sms = SmsDeliver(ref.hexof(o))
    if m:
        want = text_of(cd)
        if cton == 1:
            want = '+' + want
        inp.check_eq(sms.csca, want, 'service centre')
    else:
        inp.check(sms.csca is None, 'no service centre')
    want = text_of(sd)
    if ton == 1:
        want = '+' + want
    inp.check_eq(sms.number, want, 'sender')
    inp.check(sms.text == u'hi', 'text behind the addresses')
    inp.check(sms.date == WHEN, 'time behind the addresses')
    inp.check(sms.pid == 0 and sms.dcs == 0, 'octets behind the addresses')
    inp.observe('sms', (sms.csca, sms.number))


def alphanumeric(inp, n, m):
    """Sender of n septets, its length in useful semi-octets."""
    seps = inp.byte_list('s', n, 0, 127)
    want = u''
    i = 0
    for s in seps:
        inp.assume(s != 0x1b)
        want = want + unichr(inp.table(s, ref.DEC))
    body = ref.pack(seps)
    length = (7 * n + 3) // 4
    cd = inp.byte_list('c', m, 0, 9)
    o = [1 + (m + 1) // 2, 0x91] + semi_octets(cd) if m else [0]
    o += [0x04, length, type_octet(inp, 'plan', 5)] + body
    o += [0, 0] + STAMP + [2, 0xe8, 0x34]
    sms = SmsDeliver(ref.hexof(o))
    inp.check_eq(sms.number, want, 'alphanumeric sender')
    inp.check(sms.text == u'hi', 'text behind the addresses')
    inp.check(sms.date == WHEN, 'time behind the addresses')
    inp.observe('number', sms.number)


def alphanumeric_ext(inp, n, pos):
    """One extension character in an alphanumeric sender."""
    seps = inp.byte_list('s', n, 0, 127)
    want = u''
    e = inp.int('e', 0, 127)
    inp.assume(e in ref.EXT_SEPTETS)
    out = []
    for i in range(n):
        if i == pos:
            out += [0x1b, e]
            want = want + unichr(inp.table(e, ref.GSM_EXT))
        inp.assume(seps[i] != 0x1b)
        out.append(seps[i])
        want = want + unichr(inp.table(seps[i], ref.DEC))
    o = [0, 0x04, (7 * len(out) + 3) // 4, 0xd0] + ref.pack(out)
    o += [0, 0] + STAMP + [2, 0xe8, 0x34]
    sms = SmsDeliver(ref.hexof(o))
    inp.check_eq(sms.number, want, 'alphanumeric sender')
    inp.check(sms.text == u'hi', 'text behind the addresses')
    inp.observe('number', sms.number)


# -- C12 --------------------------------------------------------------------


def message(stamp):
    return ref.hexof([0, 0] + SENDER + [0, 0] + stamp + [2, 0xe8, 0x34])


def days_in(inp, y, mo):
    """Days of a month; y: years after 2000 or 1900 (both behave alike but
    for 1900, outside the range of two digit years here)."""
    leap = inp.land(y % 4 == 0)
    return inp.table(mo, [(1, 31), (2, 28), (3, 31), (4, 30), (5, 31),
                          (6, 30), (7, 31), (8, 31), (9, 30), (10, 31),
                          (11, 30), (12, 31)]) + inp.ite(
        inp.land(mo == 2, leap), 1, 0)


def bcd(o):
    """Digits of a swapped octet, first digit first."""
    return o & 15, o >> 4


def digits_of(inp, o, lo, hi):
    """Value of a swapped octet, assumed to be two digits from lo to hi."""
    a, b = bcd(o)
    inp.assume(a <= 9)
    inp.assume(b <= 9)
    v = a * 10 + b
    inp.assume(lo <= v)
    inp.assume(v <= hi)
    return v


def offset_of(inp, z, lo, hi):
    """Minutes meant by the offset octet."""
    a = z & 7
    b = z >> 4
    inp.assume(b <= 9)
    q = a * 10 + b
    inp.assume(lo <= q)
    inp.assume(q <= hi)
    if z & 8:
        return -15 * q
    return 15 * q


def stamp_wall(inp, ylo, yhi, qlo, qhi):
    """Any time and offset."""
    o = inp.byte_list('o', 7)
    lims = [(ylo, yhi), (1, 12), (1, 28), (0, 23), (0, 59), (0, 59)]
    y, mo, d, h, mi, s = [digits_of(inp, o[k], lims[k][0], lims[k][1])
                          for k in range(6)]
    m = offset_of(inp, o[6], qlo, qhi)
    sms = SmsDeliver(message(o))
    full = 2000 + y if yhi < 69 else 1900 + y
    want = datetime(full, mo, d, h, mi, s) - timedelta(minutes=m)
    inp.check(sms.date == want, 'time in UTC')
    inp.check(sms.text == u'hi', 'text behind the time')
    inp.observe('date', when(sms.date))


def when(d):
    if d is None:
        return None
    return [d.year, d.month, d.day, d.hour, d.minute, d.second]


def stamp_border(inp, y, mo, d, qlo, qhi):
    """One day, any time and offset."""
    o = [(v % 10) * 16 + v // 10 for v in (y % 100, mo, d)] + \
        inp.byte_list('o', 4)
    h = digits_of(inp, o[3], 0, 23)
    mi = digits_of(inp, o[4], 0, 59)
    s = digits_of(inp, o[5], 0, 59)
    m = offset_of(inp, o[6], qlo, qhi)
    sms = SmsDeliver(message(o))
    want = datetime(y, mo, d) + timedelta(hours=h, minutes=mi - m, seconds=s)
    inp.check(sms.date == want, 'time in UTC')
    inp.observe('date', when(sms.date))


def stamp_any(inp, free, month=1):
    """Any octets in the free fields, the others proper."""
    o = [0x11, 16 * month, 0x10, 0x21, 0x43, 0x65, 0]
    for k in free:
        o[k] = inp.byte('o%d' % k)
    v = []
    good = []
    for k in range(6):
        a, b = bcd(o[k])
        good.append(inp.land(a <= 9, b <= 9))
        v.append(a * 10 + b)
    y, mo, d, h, mi, s = v
    good += [1 <= mo, mo <= 12, 1 <= d, h <= 23, mi <= 59, s <= 59]
    ok = inp.land(*good)
    # the last day of the month
    if ok:
        ok = d <= days_in(inp, y, mo)
    try:
        sms = SmsDeliver(message(o))
    except ValueError:
        inp.check(inp.lnot(ok), 'proper times are decoded')
        inp.observe('refused', True)
        return
    inp.check(ok, 'other octets are refused')
    if 6 not in free:
        full = inp.ite(y < 69, 2000 + y, 1900 + y)
        t = sms.date
        inp.check(inp.land(t.year == full, t.month == mo, t.day == d,
                           t.hour == h, t.minute == mi, t.second == s),
                  'never another date')
    inp.observe('date', when(sms.date))


# -- C13 --------------------------------------------------------------------


def header_octets(inp, k):
    """A user data header of k octets after its length: one unknown element
    (k >= 2) or nothing."""
    if k == 0:
        return [0]
    return [k, 0x70, k - 2] + inp.byte_list('ie', k - 2)


def coding(inp, fmt, few=False):
    """A data coding scheme of the groups with that alphabet."""
    if few:
        return inp.choice('group', [0x00, 0x10]) + fmt
    g = inp.choice('group', [0x00, 0x10, 0x40, 0x50, 0xf0] +
                   {0: [0xc0, 0xd0], 8: [0xe0]}.get(fmt, []))
    if g in (0xc0, 0xd0, 0xe0):
        # message waiting: the indication and its kind in the other bits
        return g + inp.int('waiting', 0, 15)
    if g == 0xf0:
        inp.assume(fmt != 8)
    return g + fmt + inp.int('class', 0, 3)


def seven(inp, n, esc, hdr, extra=0):
    """n characters (indices esc: of the extension table), behind a header
    of hdr octets (None: no header)."""
    seps = []
    want = u''
    for i in range(n):
        if i in esc:
            e = inp.int('e%d' % i, 0, 127)
            inp.assume(e in ref.EXT_SEPTETS)
            seps += [0x1b, e]
            want = want + unichr(inp.table(e, ref.GSM_EXT))
        else:
            s = inp.int('s%d' % i, 0, 127)
            inp.assume(s != 0x1b)
            seps.append(s)
            want = want + unichr(inp.table(s, ref.DEC))
    dcs = coding(inp, 0, n > 40)
    if hdr is None:
        ud = ref.pack(seps)
        udl = len(seps)
        first = inp.choice('first', [0x00, 0x04, 0x24, 0x80])
    else:
        h = header_octets(inp, hdr)
        skip = (8 * len(h) + 6) // 7
        packed = ref.pack(seps, 7 * skip)
        ud = h + packed[len(h):]
        # fill bits may have any value
        used = 7 * skip - 8 * len(h)
        if used and len(ud) > len(h):
            fill = inp.int('fill', 0, 2 ** used - 1)
            ud[len(h)] = ud[len(h)] | fill
        udl = skip + len(seps)
        first = inp.choice('first', [0x40, 0x44, 0x60])
    total = 7 * udl
    if total % 8 and len(ud):
        pad = inp.int('pad', 0, 2 ** (8 - total % 8) - 1)
        ud[-1] = ud[-1] | (pad << (total % 8))
    sms = SmsDeliver(ref.hexof([0, first] + SENDER + [0, dcs] + STAMP +
                               [udl] + ud + inp.byte_list('x', extra)))
    inp.check_eq(sms.text, want, 'text')
    common(inp, sms, 0, dcs, hdr)


def common(inp, sms, fmt, dcs, hdr):
    inp.check(sms.fmt == fmt, 'format')
    inp.check(sms.dcs == dcs, 'data coding scheme')
    if hdr is None:
        inp.check(sms.udh is None, 'no header')
    else:
        inp.check(sms.udh is not None, 'a header')
    inp.check(sms.data['text'] == sms.text and sms.data['fmt'] == sms.fmt and
              sms.data['number'] == sms.number and
              sms.data['dcs'] == sms.dcs and sms.data['date'] == sms.date,
              'the old interface agrees')
    inp.observe('text', sms.text)


def octets8(inp, n, hdr, extra=0):
    data = inp.bytes('d', n)
    dcs = coding(inp, 4)
    h = []
    first = 0
    if hdr is not None:
        h = header_octets(inp, hdr)
        first = 0x40
    ud = h + [ord(c) for c in data]
    sms = SmsDeliver(ref.hexof([0, first] + SENDER + [0, dcs] + STAMP +
                               [len(ud)] + ud + inp.byte_list('x', extra)))
    inp.check_eq(sms.text, data, 'octets')
    common(inp, sms, 4, dcs, hdr)


def ucs2(inp, n, hdr, extra=0):
    text = inp.uni('t', n)
    dcs = coding(inp, 8)
    h = []
    first = 0
    if hdr is not None:
        h = header_octets(inp, hdr)
        first = 0x40
    ud = list(h)
    for c in text:
        ud += [ord(c) >> 8, ord(c) & 255]
    sms = SmsDeliver(ref.hexof([0, first] + SENDER + [0, dcs] + STAMP +
                               [len(ud)] + ud + inp.byte_list('x', extra)))
    inp.check_eq(sms.text, text, 'code units')
    common(inp, sms, 8, dcs, hdr)


# -- C14 --------------------------------------------------------------------


def elements(inp, kinds, via):
    """A header of the given elements: '0', '8' concatenation, '4', '5'
    ports, or the length of an unknown one."""
    o = []
    concat = ports = None
    heads = []
    for k in range(len(kinds)):
        kind = kinds[k]
        nm = 'k%d' % k
        if kind == 'c8':
            b = inp.byte_list(nm, 3)
            o += [0, 3] + b
            concat = (b[0], b[1], b[2], True)
            heads.append((0, b))
        elif kind == 'c16':
            b = inp.byte_list(nm, 4)
            o += [8, 4] + b
            concat = (b[0] * 256 + b[1], b[2], b[3], False)
            heads.append((8, b))
        elif kind == 'p8':
            b = inp.byte_list(nm, 2)
            o += [4, 2] + b
            ports = (b[0], b[1], True)
            heads.append((4, b))
        elif kind == 'p16':
            b = inp.byte_list(nm, 4)
            o += [5, 4] + b
            ports = (b[0] * 256 + b[1], b[2] * 256 + b[3], False)
            heads.append((5, b))
        else:
            n = int(kind)
            i = inp.int('iei%d' % k, 1, 255)
            for x in (4, 5, 8):
                inp.assume(i != x)
            for x, y in heads:
                inp.assume(i != x)
            b = inp.byte_list(nm, n)
            o += [i, n] + b
            heads.append((i, b))
    if via == 'sms':
        sms = SmsDeliver(ref.hexof([0, 0x40] + SENDER + [0, 4] + STAMP +
                                   [len(o) + 3, len(o)] + o + [7, 9]))
        udh = sms.udh
        inp.check(sms.text == '\x07\x09', 'text behind the header')
        if concat:
            inp.check(sms.data['ref'] == concat[0] and
                      sms.data['cnt'] == concat[1] and
                      sms.data['seq'] == concat[2], 'the old interface')
        else:
            inp.check('ref' not in sms.data and 'cnt' not in sms.data,
                      'the old interface without concatenation')
    else:
        udh = UserDataHeader.from_bytes(array('B', o))
    if concat:
        c = udh.concat
        inp.check(c is not None, 'concatenation found')
        inp.check(c.ref == concat[0], 'concatenation reference')
        inp.check(c.cnt == concat[1], 'concatenation total')
        inp.check(c.seq == concat[2], 'concatenation sequence number')
        inp.check(bool(c.eight_bits) == concat[3], 'concatenation width')
    else:
        inp.check(udh.concat is None, 'no concatenation')
    if ports:
        p = udh.ports
        inp.check(p is not None, 'ports found')
        inp.check(p.dest_port == ports[0], 'destination port')
        inp.check(p.orig_port == ports[1], 'source port')
        inp.check(bool(p.eight_bits) == ports[2], 'port width')
    else:
        inp.check(udh.ports is None, 'no ports')
    last = {}
    inp.check(len(udh.headers) == len(set([i if isinstance(i, int) else -k
                                           for k, (i, b) in
                                           enumerate(heads)])) or
              not distinct(kinds), 'number of elements')
    for k in range(len(heads)):
        i, b = heads[k]
        if kinds[k] in kinds[k + 1:] and kinds[k][0] in 'cp':
            continue
        inp.check(list(udh.headers[i]) == b, 'element')
    inp.observe('n', [(i, b) for i, b in heads])


def distinct(kinds):
    return len(set([k for k in kinds if k[0] in 'cp'])) == \
        len([k for k in kinds if k[0] in 'cp'])


# -- C15 --------------------------------------------------------------------


def wall(inp, p):
    """Octets of a proper time and the time."""
    o = inp.byte_list(p + 'o', 7)
    lims = [(0, 68), (1, 12), (1, 28), (0, 23), (0, 59), (0, 59)]
    y, mo, d, h, mi, s = [digits_of(inp, o[k], lims[k][0], lims[k][1])
                          for k in range(6)]
    t = [chr(48 + (v & 15)) + chr(48 + (v >> 4)) for v in o[:6]]
    txt = '/'.join(t[:3]) + ' ' + ':'.join(t[3:])
    return o, datetime(2000 + y, mo, d, h, mi, s), txt


def status_report(inp, n, ton, m, times, status, full=True):
    """Recipient of n digits, centre of m; which of the times are proper;
    with or without status."""
    rd = inp.byte_list('r', n, 0, 9)
    cd = inp.byte_list('c', m, 0, 9)
    o = [1 + (m + 1) // 2, 0x91] + semi_octets(cd) if m else [0]
    mr = inp.byte('mr')
    o += [inp.choice('first', [0x02, 0x06, 0x22, 0x46] if full else
                     [0x02]), mr, n,
          type_octet(inp, 'plan', ton)] + semi_octets(rd)
    scts = dt = None
    stext = dtext = ''
    if 's' in times:
        a, scts, stext = wall(inp, 's')
    else:
        a = improper(inp, 's')
    if 'd' in times:
        b, dt, dtext = wall(inp, 'd')
    else:
        b = improper(inp, 'd')
    o += a + b
    st = None
    if status:
        st = inp.byte('st')
        o.append(st)
        if full and inp.bool('more'):
            # optional fields may follow
            o += [0x01, inp.byte('pid')]
    sms = SmsDeliver(ref.hexof(o))
    want = text_of(rd)
    if ton == 1:
        want = '+' + want
    inp.check(sms.type == 3, 'told to be a status report')
    inp.check(sms.udh.concat.ref == mr, 'reference')
    inp.check(sms.data['ref'] == mr, 'reference in the old interface')
    inp.check_eq(sms.sr['recipient'], want, 'recipient')
    inp.check(sms.sr['status'] == st, 'status')
    if scts is None:
        inp.check(sms.sr['scts'] is None and sms.date is None,
                  'no submission time')
    else:
        inp.check(sms.sr['scts'] == scts, 'submission time')
        inp.check(sms.date == scts, 'date')
    if dt is None:
        inp.check(sms.sr['dt'] is None, 'no discharge time')
    else:
        inp.check(sms.sr['dt'] == dt, 'discharge time')
    if st is None:
        inp.check(sms.number == 'SR-UNKNOWN', 'kind without status')
    else:
        kind = sms.number
        inp.check(inp.implies(st == 0, kind == 'SR-OK'), 'delivered')
        inp.check(inp.implies(st == 0x30, kind == 'SR-STORED'), 'stored')
        inp.check(inp.implies(inp.land(st != 0, st != 0x30),
                              kind == 'SR-UNKNOWN'), 'any other status')
    parts = [want]
    # an improper time may be shown or not
    if 's' in times:
        inp.check(sms.text.startswith(want + '|' + stext + '|'),
                  'text of the report')
        if st is not None and 'd' in times:
            if st == 0:
                inp.check_eq(sms.text, want + '|' + stext + '|' + dtext,
                             'text with discharge time')
            else:
                inp.check_eq(sms.text, want + '|' + stext + '|',
                             'text without discharge time')
    if m:
        inp.check_eq(sms.csca, '+' + text_of(cd), 'service centre')
    else:
        inp.check(sms.csca is None, 'no service centre')
    inp.observe('sr', (sms.sr['recipient'], sms.sr['status'], sms.text,
                       sms.number, when(sms.date)))


def improper(inp, p):
    """Seven octets that are no time."""
    how = inp.choice(p + 'how', ['letter', 'month', 'day', 'zero', 'hour'])
    o = [0x11, 0x10, 0x10, 0x21, 0x43, 0x65, inp.byte(p + 'z')]
    if how == 'letter':
        k = inp.int(p + 'k', 0, 5)
        k = inp.fix(k)
        o[k] = 0xa0 + inp.int(p + 'v', 0, 0x5f)
    elif how == 'month':
        m = inp.int(p + 'v', 13, 99)
        o[1] = (m % 10) * 16 + m // 10
    elif how == 'day':
        m = inp.int(p + 'v', 32, 99)
        o[2] = (m % 10) * 16 + m // 10
    elif how == 'hour':
        m = inp.int(p + 'v', 24, 99)
        o[3] = (m % 10) * 16 + m // 10
    else:
        o = [0, 0, 0, 0, 0, 0, 0]
    return o


# -- C16 --------------------------------------------------------------------


def some(inp, kind, p):
    """A PDU of some kind with free contents."""
    n = 5
    digits = inp.byte_list(p + 'n', n, 0, 9)
    centre = [0x04, 0x91] + semi_octets(inp.byte_list(p + 'c', 6, 0, 9))
    sender = [n, 0x81] + semi_octets(digits)
    if kind == 'report':
        return [0, 2, inp.byte(p + 'r')] + sender + STAMP + STAMP + [
            inp.byte(p + 's')]
    if kind == 'badreport':
        return centre + [2, inp.byte(p + 'r')] + sender + [0] * 14
    if kind == 'seven':
        return centre + [4] + sender + [0, 0] + STAMP + [2] + ref.pack(
            [inp.int(p + 'a', 65, 90), inp.int(p + 'b', 97, 122)])
    if kind == 'eight':
        return [0, 0] + sender + [inp.byte(p + 'p'), 4] + STAMP + [
            2, inp.byte(p + 'a'), inp.byte(p + 'b')]
    if kind == 'ucs2':
        return centre + [0] + sender + [0, 0x18] + STAMP + [
            2, inp.int(p + 'a', 0, 0xd7), inp.byte(p + 'b')]
    if kind == 'concat':
        return [0, 0x44] + sender + [0, 4] + STAMP + [
            7, 5, 0, 3] + inp.byte_list(p + 'h', 3) + [inp.byte(p + 'd')]
    if kind == 'ports':
        return [0, 0x44] + sender + [0, 4] + STAMP + [
            8, 6, 5, 4] + inp.byte_list(p + 'h', 4) + [inp.byte(p + 'd')]
    if kind == 'alpha':
        return [0, 4, 0x07, 0xd0] + ref.pack(inp.byte_list(
            p + 'x', 4, 65, 90)) + [0, 0] + STAMP + [2, 0xe8, 0x34]
    return [0, 4] + sender + [0, 0] + STAMP + [0]


def state(sms):
    u = sms.udh
    c = p = None
    if u is not None:
        if u.concat is not None:
            c = (u.concat.ref, u.concat.cnt, u.concat.seq)
        if u.ports is not None:
            p = (u.ports.dest_port, u.ports.orig_port)
    sr = None
    if sms.sr is not None:
        sr = (sms.sr['recipient'], when(sms.sr['scts']),
              when(sms.sr['dt']), sms.sr['status'])
    return [sms.text, sms.number, sms.csca, sms.pid, sms.dcs, sms.fmt,
            sms.type, when(sms.date), c, p, u is None, sr, sms.mtype]


NAMES = ['text', 'number', 'csca', 'pid', 'dcs', 'fmt', 'type', 'date',
         'concat', 'ports', 'udh', 'sr', 'mtype']


def same(inp, a, b, what):
    x, y = state(a), state(b)
    for i in range(len(x)):
        inp.check(x[i] == y[i], what + ': ' + NAMES[i])
    d, e = a.data, b.data
    inp.check(sorted(d.keys()) == sorted(e.keys()), what + ': old interface')


def case(inp, kind):
    h = ref.hexof(some(inp, kind, 'p'))
    up = SmsDeliver(h)
    same(inp, SmsDeliver(h.lower()), up, 'lower case')
    mixed = ''
    k = inp.int('k', 0, 1)
    if k:
        mixed = h[:len(h) // 2].lower() + h[len(h) // 2:]
    else:
        for i in range(0, len(h), 2):
            mixed = mixed + h[i].lower() + h[i + 1]
    same(inp, SmsDeliver(mixed), up, 'mixed case')
    inp.observe('state', state(up))


def reassign(inp, kinds):
    """One object, several PDUs."""
    sms = None
    for i in range(len(kinds)):
        h = ref.hexof(some(inp, kinds[i], 'p%d' % i))
        if sms is None:
            sms = SmsDeliver(h)
        else:
            sms.pdu = h
        inp.check(sms.pdu == h, 'the PDU itself')
        same(inp, sms, SmsDeliver(h), 'decoded again')
    inp.observe('state', state(sms))


def odd(inp, kind):
    h = ref.hexof(some(inp, kind, 'p'))
    extra = inp.choice('x', ['0', 'A', 'f'])
    whole = SmsDeliver(h)
    try:
        SmsDeliver(h + extra)
        inp.fail('odd number of digits refused')
    except ValueError:
        inp.reach('odd number of digits refused')
    other = SmsDeliver(h)
    try:
        other.pdu = h + extra
        inp.fail('odd number of digits refused')
    except ValueError:
        same(inp, other, whole, 'unchanged when refused')
    same(inp, SmsDeliver(h + extra, False), whole, 'without its last digit')
    same(inp, SmsDeliver(h, False), whole, 'even and not strict')
    inp.observe('state', state(whole))


def strictness(inp, first, then):
    """The mode is that of the object, for later PDUs as well."""
    h = ref.hexof(some(inp, first, 'p'))
    g = ref.hexof(some(inp, then, 'q'))
    lax = SmsDeliver(h, False)
    lax.pdu = g + '7'
    same(inp, lax, SmsDeliver(g), 'without its last digit')
    inp.observe('state', state(lax))


def refused(inp, which):
    """Submit reports are refused."""
    o = [0, inp.choice('first', [1, 0x11, 0x31, 0x41])] + inp.byte_list(
        'x', 12)
    try:
        SmsDeliver(ref.hexof(o))
        inp.fail('submit reports are refused')
    except ValueError:
        inp.reach('submit reports are refused')
