"""Numbers (C04), options (C05) and validity periods (C06, C07)."""
from datetime import datetime, timedelta, tzinfo

from messaging.sms import SmsSubmit, SmsDeliver
from messaging.utils import (FixedOffset, timedelta_to_relative_validity,
                             datetime_to_absolute_validity)
from harness import ref

NUM = '+34616585119'


# -- C04 --------------------------------------------------------------------


def valid_number(inp, s):
    """An optional plus sign, 3 to 20 digits and maybe a line end."""
    n = len(s)

    def digits(i, k):
        return inp.land(3 <= k - i <= 20,
                        *[inp.land(ord(c) >= 48, ord(c) <= 57)
                          for c in s[i:k]])
    plus = ord(s[0]) == 43
    end = ord(s[n - 1]) == 10
    return inp.lor(digits(0, n), inp.land(plus, digits(1, n)),
                   inp.land(end, digits(0, n - 1)),
                   inp.land(plus, end, digits(1, n - 1)))


def validation(inp, n, which):
    s = inp.bytes('s', n, 0, 127)
    try:
        if which == 'new':
            SmsSubmit(s, u'hi')
        elif which == 'number':
            sms = SmsSubmit(NUM, u'hi')
            sms.number = s
        else:
            sms = SmsSubmit(NUM, u'hi')
            sms.csca = s
        ok = True
    except ValueError:
        ok = False
    inp.observe('ok', ok)
    good = valid_number(inp, s)
    if ok:
        inp.check(good, 'only numbers are accepted')
    else:
        inp.check(inp.lnot(good), 'every number is accepted')
        if which == 'number':
            inp.check(sms.number == NUM, 'refused number changes nothing')
        elif which == 'csca':
            inp.check(sms.csca is None, 'refused centre changes nothing')


def number(inp, name, n, plus):
    s = inp.bytes(name, n, 48, 57)
    if plus:
        return '+' + s
    return s


def address(inp, n, plus, m, mplus, end=''):
    """Destination of n digits, service centre of m (0: none), with `end`
    after them."""
    dst = number(inp, 'd', n, plus)
    sms = SmsSubmit(dst + end, u'hello')
    sms.ref = 3
    smsc = None
    if m:
        smsc = number(inp, 'c', m, mplus)
        sms.csca = smsc + end
    pdu = sms.to_pdu()[0]
    d = ref.octets(pdu.pdu)
    i = 1
    if m:
        ty, dig, i = ref.parse_address(d, 0, True)
        inp.check(d[0] == 1 + (m + 1) // 2, 'centre length in octets')
        inp.check(ty == (0x91 if mplus else 0x81), 'centre type')
        check_digits(inp, dig, smsc, m, 'centre digits')
    else:
        inp.check(d[0] == 0, 'no service centre')
    inp.check(pdu.length == len(d) - i, 'length excludes the centre')
    start = i
    i += 2
    inp.check(d[i] == n, 'destination length in digits')
    ty, dig, j = ref.parse_address(d, i)
    inp.check(ty == (0x91 if plus else 0x81), 'destination type')
    check_digits(inp, dig, dst, n, 'destination digits')
    inp.check_eq(d[j:j + 2], [0, 0], 'what follows the destination')
    inp.check(len(d) == j + 3 + 5, 'nothing else')
    # the same addresses in a received message
    got = SmsDeliver(ref.hexof(d[:start] + [0] + d[i:j] + [0, 0] +
                               [0x11, 0x10, 0x10, 0x21, 0x43, 0x65, 0] +
                               d[j + 2:]))
    inp.check_eq(got.number, dst, 'decodes to the number')
    if m:
        inp.check_eq(got.csca, smsc, 'decodes to the centre')
    else:
        inp.check(got.csca is None, 'decodes to no centre')
    inp.check(got.text == u'hello', 'rest of the message')
    inp.observe('pdu', pdu.pdu)


def check_digits(inp, dig, s, n, label):
    want = [ord(c) - 48 for c in s[len(s) - n:]]
    if n % 2:
        want.append(15)
    inp.check_eq(dig, want, label)


# -- C05 --------------------------------------------------------------------


def period(inp, v):
    """Seconds meant by a relative validity octet (23.040 9.2.3.12.1)."""
    a = (v + 1) * 300
    b = 43200 + (v - 143) * 1800
    c = (v - 166) * 86400
    d = (v - 192) * 604800
    return inp.ite(v <= 143, a, inp.ite(v <= 167, b, inp.ite(v <= 196, c, d)))


def options(inp, kind, validity, centre, klass, report):
    """kind: the text; the options given."""
    if kind == 'short':
        text = inp.pick_uni('t', 2, ref.REGULAR)
        fmt = 0
    elif kind == 'ucs2':
        text = inp.uni('t', 2, 0x4e00, 0x9fff)
        fmt = 8
    elif kind == 'eight':
        text = inp.bytes('t', 2)
        fmt = 4
    elif kind == 'long':
        text = u'y' * 160 + inp.pick_uni('t', 1, ref.REGULAR)
        fmt = 0
    elif kind == 'longucs2':
        text = u'\u4e00' * 70 + inp.uni('t', 1, 0x4e00, 0x9fff)
        fmt = 8
    else:
        text = 'q' * 140 + inp.bytes('t', 1)
        fmt = 4
    multi = kind[:4] == 'long'
    sms = SmsSubmit(NUM, text)
    if fmt == 4:
        sms.fmt = 4
    sms.ref = inp.int('ref', 0, 70000)
    want_ref = sms.ref & 255
    sms.pid = inp.byte('pid')
    sms.rand_id = 9
    sms.request_status = report
    dcs = fmt
    if klass is not None:
        sms.klass = klass
        dcs = fmt + 16 + klass
    head = 1
    if report:
        head += 32
    if multi:
        head += 64
    nvp = 0
    vp = []
    if validity == 'relative':
        secs = inp.int('secs', 300, 63 * 604800)
        sms.validity = timedelta(seconds=secs)
        head += 16
        nvp = 1
    elif validity == 'absolute':
        s = inp.int('sec', 0, 59)
        sms.validity = datetime(2021, 12, 31, 23, 58, s,
                                tzinfo=FixedOffset(-210, 'x'))
        head += 24
        nvp = 7
        vp = [0x12, 0x21, 0x13, 0x32, 0x85, (s % 10) * 16 + s // 10, 0x49]
    ncentre = 1
    if centre:
        sms.csca = centre
        ncentre = 2 + (len(centre.replace('+', '')) + 1) // 2
    pdus = sms.to_pdu()
    inp.check(len(pdus) == (2 if multi else 1), 'number of parts')
    for p in pdus:
        d = ref.octets(p.pdu)
        inp.check(p.length == len(d) - ncentre, 'length')
        inp.check(d[0] == ncentre - 1, 'service centre length')
        d = d[ncentre:]
        inp.check(d[0] == head, 'first octet')
        inp.check(d[1] == want_ref, 'reference')
        inp.check_eq(d[2:10], [0x0b, 0x91, 0x43, 0x16, 0x56, 0x58, 0x11,
                               0xf9], 'destination')
        inp.check(d[10] == sms.pid, 'protocol identifier')
        inp.check(d[11] == dcs, 'coding and class')
        if validity == 'relative':
            v = d[12]
            p1 = period(inp, v)
            inp.check(p1 <= secs, 'relative validity')
            inp.check(inp.lor(v == 255, period(inp, v + 1) > secs),
                      'relative validity is the longest')
        elif nvp:
            inp.check_eq(d[12:19], vp, 'absolute validity')
        udl = d[12 + nvp]
        n = len(d) - 13 - nvp
        if fmt:
            inp.check(udl == n, 'user data length')
        else:
            inp.check((7 * udl + 7) // 8 == n, 'user data length in septets')
    inp.observe('pdus', [(p.pdu, p.length) for p in pdus])


def bad_class(inp):
    k = inp.int('k', -300, 300)
    sms = SmsSubmit(NUM, u'hi')
    sms.klass = 2
    try:
        sms.klass = k
        ok = True
    except ValueError:
        ok = False
    inp.check(inp.implies(ok, 0 <= k <= 3), 'only classes 0 to 3')
    inp.check(inp.implies(0 <= k <= 3, ok), 'all classes 0 to 3')
    inp.check(sms.klass == (k if ok else 2), 'class as set')
    inp.observe('ok', ok)


def bad_types(inp, which):
    sms = SmsSubmit(NUM, u'hi')
    v = inp.choice('v', ['1', u'1', 1.0, None, [1], (1,)])
    if which == 'class':
        try:
            sms.klass = v
            inp.fail('a class that is no integer is refused')
        except TypeError:
            inp.reach('refused class')
    else:
        n = inp.int('n', -5, 5)
        bad = inp.choice('w', [n, '1', u'2', 1.5, [n], (n,)])
        try:
            sms.validity = bad
            inp.fail('a validity of another type is refused')
        except TypeError:
            inp.reach('refused validity')
        inp.check(sms.validity is None, 'validity unchanged')
        sms.validity = timedelta(days=2)
        sms.validity = None
        inp.check(ref.octets(sms.to_pdu()[0].pdu)[1] == 1,
                  'validity can be removed')
    inp.observe('which', which)


def bad_coding(inp):
    f = inp.int('f', -10, 300)
    sms = SmsSubmit(NUM, 'hi')
    sms.fmt = f
    sms.ref = 1
    good = inp.lor(f == 0, f == 4, f == 8)
    try:
        p = sms.to_pdu()
        ok = True
    except ValueError:
        ok = False
    if ok:
        inp.check(good, 'unknown codings are refused')
        inp.check(ref.octets(p[0].pdu)[12] == f, 'coding as asked')
    else:
        inp.check(inp.lnot(good), 'known codings are accepted')
    inp.observe('ok', ok)


# -- C06 --------------------------------------------------------------------


def relative(inp, lo, hi, micro):
    """Durations of lo to hi seconds."""
    s = inp.int('s', lo, hi)
    us = inp.int('us', 0, 999999) if micro else 0
    t = timedelta(seconds=s, microseconds=us)
    big = 63 * 604800
    low = s < 300
    high = inp.lor(s > big, inp.land(s == big, us > 0))
    try:
        v = timedelta_to_relative_validity(t)
    except ValueError:
        inp.check(inp.lor(low, high), 'valid durations are accepted')
        inp.observe('refused', True)
        return
    inp.check(inp.lnot(low), 'too short durations are refused')
    inp.check(inp.lnot(high), 'too long durations are refused')
    inp.check(0 <= v <= 255, 'one octet')
    inp.check(period(inp, v) <= s, 'not longer than asked')
    inp.check(inp.lor(v == 255, period(inp, v + 1) > s),
              'the longest that is not longer')
    inp.observe('v', v)


def relative_pdu(inp, lo, hi):
    s = inp.int('s', lo, hi)
    sms = SmsSubmit(NUM, u'hi')
    sms.ref = 0
    sms.validity = timedelta(seconds=s)
    inp.check(sms.validity == timedelta(seconds=s), 'kept as given')
    try:
        d = ref.octets(sms.to_pdu()[0].pdu)
    except ValueError:
        inp.check(inp.lor(s < 300, s > 63 * 604800),
                  'valid durations are accepted')
        return
    inp.check(300 <= s <= 63 * 604800, 'invalid durations are refused')
    inp.check(d[1] == 0x11, 'format of the validity')
    v = d[13]
    inp.check(period(inp, v) <= s, 'not longer than asked')
    inp.check(inp.lor(v == 255, period(inp, v + 1) > s),
              'the longest that is not longer')
    inp.check_eq(d[14:], [2, 0xe8, 0x34], 'text after the validity')
    inp.observe('d', d)


# -- C07 --------------------------------------------------------------------


def swapped(v):
    return (v % 10) * 16 + v // 10


def zone(inp, lo, hi):
    """An offset in quarters of an hour."""
    return inp.int('q', lo, hi)


def zone_octet(inp, q):
    a = inp.ite(q < 0, -q, q)
    return swapped(a) + inp.ite(q < 0, 8, 0)


def absolute(inp, ylo, yhi, qlo, qhi, how):
    y = inp.int('y', ylo, yhi)
    mo = inp.int('mo', 1, 12)
    d = inp.int('d', 1, 28)
    h = inp.int('h', 0, 23)
    mi = inp.int('mi', 0, 59)
    s = inp.int('s', 0, 59)
    if how == 'naive':
        q = 0
        t = datetime(y, mo, d, h, mi, s)
    else:
        q = zone(inp, qlo, qhi)
        t = datetime(y, mo, d, h, mi, s, tzinfo=FixedOffset(15 * q, 'zone'))
    want = [swapped(y % 100), swapped(mo), swapped(d), swapped(h),
            swapped(mi), swapped(s), zone_octet(inp, q)]
    got = datetime_to_absolute_validity(t)
    inp.check_eq(got, want, 'seven octets')
    inp.observe('got', got)


def absolute_pdu(inp, y, mo, d, qlo, qhi):
    """In a PDU, and back as a time stamp."""
    h = inp.int('h', 0, 23)
    mi = inp.int('mi', 0, 59)
    s = inp.int('s', 0, 59)
    q = zone(inp, qlo, qhi)
    t = datetime(y, mo, d, h, mi, s, tzinfo=FixedOffset(15 * q, 'zone'))
    sms = SmsSubmit(NUM, u'hi')
    sms.ref = 0
    sms.validity = t
    o = ref.octets(sms.to_pdu()[0].pdu)
    inp.check(o[1] == 0x19, 'format of the validity')
    want = [swapped(y % 100), swapped(mo), swapped(d), swapped(h),
            swapped(mi), swapped(s), zone_octet(inp, q)]
    inp.check_eq(o[13:20], want, 'seven octets')
    inp.check_eq(o[20:], [2, 0xe8, 0x34], 'text after the validity')
    got = SmsDeliver(ref.hexof([0, 0] + o[3:11] + [0, 0] + o[13:]))
    inp.check(got.date == datetime(y, mo, d, h, mi, s) -
              timedelta(minutes=15 * q), 'same instant')
    inp.observe('o', o)


def zone_string(inp, how):
    """Numeric zone strings."""
    sign = inp.choice('sign', ['+', '-'])
    hh = inp.int('hh', 0, 14)
    mm = inp.int('mm', 0, 59)
    if how == 'digits':
        z = sign + chr(48 + hh // 10) + chr(48 + hh % 10) + \
            chr(48 + mm // 10) + chr(48 + mm % 10)
    else:
        z = '%s%02d%02d' % (sign, hh, mm)
    tz = FixedOffset.from_timezone(z, 'name')
    off = tz.utcoffset(None)
    want = hh * 60 + mm
    if sign == '-':
        want = -want
    inp.check(off == timedelta(minutes=want), 'offset east of Greenwich')
    inp.check(tz.tzname(None) == 'name', 'name')
    inp.check(tz.dst(None) == timedelta(0), 'no daylight saving')
    inp.observe('off', off.days * 86400 + off.seconds)


def zone_minutes(inp):
    m = inp.int('m', -840, 840)
    inp.check(FixedOffset(m, 'n').utcoffset(None) == timedelta(minutes=m),
              'offset in minutes')
    inp.check(FixedOffset(timedelta(minutes=m), 'n').utcoffset(None) ==
              timedelta(minutes=m), 'offset as a duration')
    inp.check(FixedOffset.from_timezone('', 'n').utcoffset(None) ==
              timedelta(0), 'no zone is UTC')
    inp.observe('m', m)


def absolute_zone_string(inp):
    """A time in a zone made from its numeric string."""
    sign = inp.choice('sign', ['+', '-'])
    q = inp.int('q', 0, 56)
    z = '%s%02d%02d' % (sign, q // 4, q % 4 * 15)
    t = datetime(2012, 2, 29, 22, 5, 7,
                 tzinfo=FixedOffset.from_timezone(z, 'name'))
    if sign == '-':
        q = -q
    got = datetime_to_absolute_validity(t)
    inp.check_eq(got, [0x21, 0x20, 0x92, 0x22, 0x50, 0x70,
                       zone_octet(inp, q)], 'seven octets')
    inp.observe('got', got)
