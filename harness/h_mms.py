"""MMS headers and messages (C17, C25-C30, C33, C34)."""
from array import array

from messaging.mms.iterator import PreviewIterator
from messaging.mms.message import MMSMessage, MMSMessagePage, DataPart
from messaging.mms.wsp_pdu import DecodeError, EncodeError
from messaging.mms import wsp_pdu
from messaging.mms.mms_pdu import MMSDecoder, MMSEncoder
from messaging.sms import SmsDeliver
from messaging.sms.wap import (is_a_wap_push_notification,
                               is_mms_notification,
                               extract_push_notification)
from harness import wspref
from harness.h_wsp import (it_of, check_rest, octets_of, text, be, TAIL,
                           split_params, STEPS, near)

# assigned numbers of the MMS fields (WAP-209 table 8)
NUM = {'Bcc': 1, 'Cc': 2, 'Content-Location': 3, 'Content-Type': 4,
       'Date': 5, 'Delivery-Report': 6, 'Delivery-Time': 7, 'Expiry': 8,
       'From': 9, 'Message-Class': 10, 'Message-ID': 11, 'Message-Type': 12,
       'MMS-Version': 13, 'Message-Size': 14, 'Priority': 15,
       'Read-Reply': 16, 'Report-Allowed': 17, 'Response-Status': 18,
       'Response-Text': 19, 'Sender-Visibility': 20, 'Status': 21,
       'Subject': 22, 'To': 23, 'Transaction-Id': 24}

TYPES = ['m-send-req', 'm-send-conf', 'm-notification-ind',
         'm-notifyresp-ind', 'm-retrieve-conf', 'm-acknowledge-ind',
         'm-delivery-ind']
STATUS = ['Expired', 'Retrieved', 'Rejected', 'Deferred', 'Unrecognised']
RESPONSE = ['Ok', 'Error-unspecified', 'Error-service-denied',
            'Error-message-format-corrupt',
            'Error-sending-address-unresolved', 'Error-message-not-found',
            'Error-network-problem', 'Error-content-not-accepted',
            'Error-unsupported-message']
PRIORITY = ['Low', 'Normal', 'High']
CLASS = ['Personal', 'Advertisement', 'Informational', 'Auto']

TEXTS = ['Bcc', 'Cc', 'To', 'Subject', 'Response-Text', 'Message-ID',
         'Transaction-Id']


def ords(t):
    return [ord(c) for c in t]


def texto(t):
    return ords(t) + [0]


def lengtho(n):
    return [n] if n <= 30 else [31] + wspref.uintvar(n)


def longo(v):
    n = 1
    while not v < (1 << (8 * n)):
        n += 1
    return [n] + be(v, n)


def make(inp, name, tag, n):
    """A value of the MMS field name, what it decodes to and its octets
    behind the field number."""
    if name == 'From':
        if n == 0:
            return '', '<not inserted>', [1, 129]
        t = text(inp, tag, n, 'text')
        return t, t, lengtho(n + 2) + [128] + texto(t)
    if name == 'Message-Type':
        k = inp.fix(inp.int(tag, 0, len(TYPES) - 1))
        return TYPES[k], TYPES[k], [128 + k]
    if name == 'Status':
        k = inp.fix(inp.int(tag, 0, len(STATUS) - 1))
        return STATUS[k], STATUS[k], [128 + k]
    if name == 'MMS-Version':
        a = inp.int(tag + 'a', 1, 7)
        b = inp.int(tag + 'b', 0, 9)
        s = chr(48 + a) + '.' + chr(48 + b)
        return s, s, [128 + a * 16 + b]
    if name == 'Message-Size':
        v = inp.int(tag, 0, 0x7fffffff)
        return v, v, longo(v)
    t = text(inp, tag, n, 'text')
    return t, t, texto(t)


def fieldo(name):
    return [128 + NUM[name]] if name in NUM else texto(name)


# -- C25 --------------------------------------------------------------------


def one_header(inp, name, n):
    """A message header; '' is a field of any other name."""
    if name == '':
        name = 'X' + text(inp, 'n', 3, 'token')
    name = near(inp, 'n', name)
    v, want, o = make(inp, name, 'v', n)
    enc = MMSEncoder.encode_header(name, v)
    octets_of(inp, enc, 'header')
    inp.check_eq(enc, fieldo(name) + o, 'header form')
    it = it_of(enc)
    k, got = MMSDecoder.decode_header(it)
    inp.check(k == name, 'header name decodes to itself')
    inp.check(got == want, 'header value decodes to itself')
    inp.check(isinstance(got, str) == isinstance(want, str),
              'header value keeps its kind')
    check_rest(inp, it, TAIL, 'header consumed exactly')
    inp.observe('enc', enc)


def two_headers(inp, names, n):
    """Headers one after the other do not affect each other."""
    data = []
    want = []
    i = 0
    for name in names:
        i += 1
        v, w, o = make(inp, name, 'v%d' % i, n)
        data.extend(MMSEncoder.encode_header(name, v))
        want.append((name, w))
    it = it_of(data)
    for name, w in want:
        k, got = MMSDecoder.decode_header(it)
        inp.check(k == name, 'names one after the other')
        inp.check(got == w, 'values one after the other')
    check_rest(inp, it, TAIL, 'headers consumed exactly')


def wsp_header(inp, num, n, spec=''):
    """A part header by number; -1 is any other name."""
    if num < 0:
        name = (near(inp, 'n', spec) if spec else
                'X' + text(inp, 'n', 3, 'token'))
        o = texto(name)
    else:
        name = wspref.FIELDS[num]
        o = [128 + num]
    if name == 'Accept':
        k = inp.fix(inp.int('m', 0, len(wspref.MEDIA) - 1))
        v, vo = wspref.MEDIA[k], [128 + k]
    else:
        v = text(inp, 'v', n, 'text')
        vo = texto(v)
    enc = wsp_pdu.Encoder.encode_header(name, v)
    octets_of(inp, enc, 'part header')
    inp.check_eq(enc, o + vo, 'part header form')
    it = it_of(enc)
    k, got = wsp_pdu.Decoder.decode_header(it)
    inp.check(k == name, 'part header name decodes to itself')
    inp.check(got == v, 'part header value decodes to itself')
    check_rest(inp, it, TAIL, 'part header consumed exactly')


def encoded_string(inp, n, form):
    """Encoded strings as received: with character set, quoted, empty."""
    t = text(inp, 't', n, 'text') if n else ''
    if form == 'plain':
        data = texto(t)
    elif form == 'quoted':
        t = inp.bytes('q', n, 1, 255)
        data = [127] + texto(t)
    elif form == 'short':
        data = lengtho(n + 2) + [inp.int('cs', 128, 255)] + texto(t)
    else:
        cs = inp.byte_list('cs', 2)
        data = lengtho(n + 4) + [2] + cs + texto(t)
    it = it_of(data)
    got = MMSDecoder.decode_encoded_string_value(it)
    inp.check_eq(got, t, 'text of the encoded string')
    check_rest(inp, it, TAIL, 'encoded string consumed exactly')
    if form != 'quoted' and n:
        it = it_of(lengtho(len(data) + 1) + [128] + data)
        inp.check_eq(MMSDecoder.decode_from_value(it), t, 'text of the sender')
        check_rest(inp, it, TAIL, 'sender consumed exactly')


def name_octet(inp, n):
    """Headers of other names than MMS fields are left to WSP."""
    data = inp.byte_list('d', n)
    inp.assume(inp.lor(data[0] == 128, data[0] > 152, data[0] < 128))
    it = PreviewIterator(array('B', data))
    try:
        MMSDecoder.decode_mms_header(it)
    except DecodeError:
        check_rest(inp, it, data, 'other headers left in place')
        return
    inp.fail('other headers are refused')


# -- C26 --------------------------------------------------------------------


def enum(inp, field, lo=0, hi=255):
    """Any octet as the value of an enumerated field."""
    b = inp.int('b', lo, hi)
    it = it_of([b])
    tab = {'message_type_value': TYPES, 'status_value': STATUS,
           'response_status_value': RESPONSE, 'priority_value': PRIORITY,
           'message_class_value': CLASS,
           'sender_visibility_value': ['Hide', 'Show'],
           'boolean_value': [True, False]}[field]
    default = {'message_type_value': '<unknown>',
               'status_value': 'Unrecognised',
               'response_status_value': 'Error-unspecified'}.get(field)
    known = inp.land(b >= 128, b < 128 + len(tab))
    try:
        got = getattr(MMSDecoder, 'decode_' + field)(it)
    except DecodeError:
        inp.check(inp.lnot(known), 'assigned octets are decoded')
        inp.check(default is None, 'octets not assigned have a default')
        check_rest(inp, it, [b] + TAIL, 'nothing consumed')
        return
    if known:
        want = tab[b - 128]
        inp.check(got == want and type(got) is type(want),
                  'name of the octet')
        check_rest(inp, it, TAIL, 'one octet consumed')
    elif default is not None:
        inp.check(got == default, 'default of octets not assigned')
        check_rest(inp, it, TAIL, 'one octet consumed')
    else:
        inp.check(field == 'message_class_value', 'other octets refused')
        inp.check(got not in tab, 'no assigned name')
        inp.check(ord(got[0]) == b, 'class as a token')
    inp.observe('got', got)


def enum_header(inp, name):
    """The same inside a header, by the name of the field."""
    b = inp.byte('b')
    tab, default = {
        'Message-Type': (TYPES, '<unknown>'), 'Status': (STATUS,
                                                         'Unrecognised'),
        'Response-Status': (RESPONSE, 'Error-unspecified'),
        'Priority': (PRIORITY, None), 'Message-Class': (CLASS, None),
        'Sender-Visibility': (['Hide', 'Show'], None),
        'Delivery-Report': ([True, False], None),
        'Read-Reply': ([True, False], None),
        'Report-Allowed': ([True, False], None)}[name]
    known = inp.land(b >= 128, b < 128 + len(tab))
    if default is None:
        inp.assume(known)
    it = it_of([128 + NUM[name], b])
    k, got = MMSDecoder.decode_header(it)
    inp.check(k == name, 'field of the number')
    if known:
        inp.check(got == tab[b - 128], 'value of the field')
    else:
        inp.check(got == default, 'default of the field')
    check_rest(inp, it, TAIL, 'field consumed exactly')


def class_text(inp, n):
    """A message class of another name."""
    t = text(inp, 't', n, 'token')
    it = it_of(texto(t))
    inp.check(MMSDecoder.decode_message_class_value(it) == t,
              'class as a token')
    check_rest(inp, it, TAIL, 'class consumed exactly')


def enum_encode(inp, n):
    """Names that can be encoded, and others."""
    k = inp.fix(inp.int('k', 0, len(TYPES) + len(STATUS)))
    if k < len(TYPES):
        inp.check_eq(MMSEncoder.encode_message_type_value(TYPES[k]),
                     [128 + k], 'octet of the message type')
    elif k < len(TYPES) + len(STATUS):
        k -= len(TYPES)
        inp.check_eq(MMSEncoder.encode_status_value(STATUS[k]),
                     [128 + k], 'octet of the status')
    else:
        t = inp.bytes('t', n)
        if t not in TYPES:
            inp.check_eq(MMSEncoder.encode_message_type_value(t), [128],
                         'default message type')
        if t not in STATUS:
            inp.check_eq(MMSEncoder.encode_status_value(t), [132],
                         'default status')


# -- C27 --------------------------------------------------------------------

MEDIA_OF = {'jpg': 'image/jpeg', 'gif': 'image/gif', 'png': 'image/png',
            'wav': 'audio/x-wav', 'mp3': 'audio/mpeg', 'txt': 'text/plain',
            '': 'application/octet-stream'}


def add_file(inp, name, n):
    data = inp.bytes(name.replace('.', '_'), n)
    return inp.file(name, data), data


def item_times(inp, tag, form):
    """Begin and end of an item of a page that lasts 4000 ms."""
    if not form:
        return 0, 0
    b = inp.int('b' + tag, -1, 3)
    e = inp.int('e' + tag, 3998, 4003)
    return (b, e) if form == 'both' else (0, e) if form == 'end' else (b, 0)


def build(inp, pages, loose, n, plain=True, form=''):
    """A message; pages: strings over i, a, t; loose: kinds of parts.
    Returns it and (media, parameters, headers, data) of its parts."""
    m = MMSMessage()
    want = []
    k = 0
    for p in pages:
        k += 1
        page = MMSMessagePage()
        if 'i' in p:
            name = 'i%d.%s' % (k, ['jpg', 'gif', 'png'][k % 3])
            f, d = add_file(inp, name, n)
            page.add_image(f, *item_times(inp, 'i%d' % k, form))
            want.append((MEDIA_OF[name[-3:]], {},
                         {'Content-Location': name}, d))
        if 'a' in p:
            name = 'a%d.%s' % (k, ['wav', 'mp3'][k % 2])
            f, d = add_file(inp, name, n + 1)
            page.add_audio(f, *item_times(inp, 'a%d' % k, form))
            want.append((MEDIA_OF[name[-3:]], {},
                         {'Content-Location': name}, d))
        if 't' in p:
            if plain:
                t = inp.bytes('t%d' % k, n, 97, 122)
            else:
                t = inp.bytes('t%d' % k, n, 32, 126)
            page.add_text(t, *item_times(inp, 't%d' % k, form))
            want.append(('text/plain', {}, {}, t))
        m.add_page(page)
    for kind in loose:
        k += 1
        part = DataPart()
        if kind == 'text':
            d = inp.bytes('l%d' % k, n)
            part.set_text(d)
            want.append(('text/plain', {}, {}, d))
        elif kind == 'file':
            f, d = add_file(inp, 'f%d' % k, n)
            part = DataPart(f)
            want.append(('application/octet-stream', {},
                         {'Content-Location': 'f%d' % k}, d))
        elif kind == 'params':
            d = inp.bytes('l%d' % k, n)
            name = text(inp, 'name%d' % k, 2, 'text')
            part.set_data(d, 'image/gif', {'Name': name})
            want.append(('image/gif', {'Name': name}, {}, d))
        elif kind == 'headers':
            d = inp.bytes('l%d' % k, n)
            media = text(inp, 'media%d' % k, 3, 'text')
            loc = text(inp, 'loc%d' % k, 2, 'text')
            own = text(inp, 'own%d' % k, 2, 'text')
            part.set_data(d, media)
            part.headers['Content-Location'] = loc
            part.headers['X-Own'] = own
            want.append((media, {}, {'Content-Location': loc,
                                     'X-Own': own}, d))
        else:
            want.append(('application/octet-stream', {}, {}, ''))
        m.add_data_part(part)
    return m, want


def check_parts(inp, parts, want):
    inp.check(len(parts) == len(want) + 1, 'as many parts')
    smil = parts[0]
    inp.check(smil.content_type == 'application/smil', 'presentation first')
    inp.check(smil.headers.get('Content-ID') == '<0000>',
              'identifier of the presentation')
    for p, (media, params, headers, data) in zip(parts[1:], want):
        inp.check(p.content_type == media, 'content type of the part')
        inp.check(p.headers['Content-Type'][1] == params,
                  'parameters of the part')
        rest = dict(p.headers)
        del rest['Content-Type']
        inp.check(rest == headers, 'headers of the part')
        inp.check(len(p) == len(data), 'length of the part')
        inp.check_eq(p.data, data, 'data of the part')


def message(inp, pages, loose, n, headers=(), plain=True):
    """A whole message, there and back."""
    m, want = build(inp, pages, loose, n, plain)
    hwant = {'Message-Type': 'm-retrieve-conf', 'Transaction-Id': '1234',
             'MMS-Version': '1.0'}
    for name in headers:
        v, w, o = make(inp, name, 'h' + name, 3)
        m.headers[name] = v
        hwant[name] = w
    if 'Message-Type' not in headers and (
            'To' in headers or 'Cc' in headers or 'Bcc' in headers):
        hwant['Message-Type'] = 'm-send-req'
    elif hwant['Message-Type'] == 'm-send-req' and not (
            'To' in headers or 'Cc' in headers or 'Bcc' in headers):
        hwant['Message-Type'] = 'm-retrieve-conf'
    kind = 'related' if pages else 'mixed'
    hwant['Content-Type'] = ('application/vnd.wap.multipart.' + kind, {})
    smil = m.smil()
    data = m.encode()
    inp.check(isinstance(data, array), 'an array of octets')
    d = MMSMessage.from_data(data)
    inp.check(d.headers == hwant, 'headers of the message')
    inp.check(d.content_type == hwant['Content-Type'][0],
              'content type of the message')
    inp.check(len(d.pages) == 0, 'pages are not decoded')
    check_parts(inp, d.data_parts, want)
    inp.check(d.data_parts[0].data == str(smil), 'presentation of the message')
    inp.observe('size', len(data))


def message_type(inp, pages, params):
    """A message with its own content type and parameters."""
    m, want = build(inp, pages, ['text'], 2)
    d = {}
    for name, n in params:
        d[name] = text(inp, 'p' + name, n, 'text')
    media = inp.choice('media', ['application/vnd.wap.multipart.related',
                                 'application/vnd.wap.multipart.mixed',
                                 'application/vnd.wap.multipart.alternative',
                                 'multipart/x-own'])
    m.headers['Content-Type'] = (media, d)
    r = MMSMessage.from_data(m.encode())
    inp.check(r.headers['Content-Type'][0] == media,
              'own content type of the message')
    inp.check(r.headers['Content-Type'][1] == d,
              'parameters of the message')
    check_parts(inp, r.data_parts, want)


def part_headers(inp, names, n):
    """Headers of other names in a part, with values of any length."""
    m = MMSMessage()
    part = DataPart()
    data = inp.bytes('d', 2)
    part.set_data(data, 'image/png')
    want = {}
    i = 0
    for name in names:
        i += 1
        if name == 'Accept':
            v = 'image/gif'
        else:
            v = text(inp, 'v%d' % i, n, 'text')
        part.headers[name] = v
        want[name] = v
    m.add_data_part(part)
    other = DataPart()
    t = inp.bytes('t', 2)
    other.set_text(t)
    m.add_data_part(other)
    r = MMSMessage.from_data(m.encode())
    check_parts(inp, r.data_parts, [('image/png', {}, want, data),
                                    ('text/plain', {}, {}, t)])


def big_part(inp, n):
    """A part whose length takes more than one octet."""
    m = MMSMessage()
    part = DataPart()
    data = inp.bytes('d', n)
    part.set_data(data, 'image/png')
    m.add_data_part(part)
    other = DataPart()
    t = inp.bytes('t', 2)
    other.set_text(t)
    m.add_data_part(other)
    r = MMSMessage.from_data(m.encode())
    check_parts(inp, r.data_parts, [('image/png', {}, {}, data),
                                    ('text/plain', {}, {}, t)])


def again(inp, pages, loose, n):
    """A decoded message is encoded again: its parts come back."""
    m, want = build(inp, pages, loose, n)
    r = MMSMessage.from_data(m.encode())
    s = MMSMessage.from_data(r.encode())
    parts = s.data_parts
    inp.check(len(parts) == len(want) + 2, 'as many parts again')
    for p, q in zip(parts[1:], r.data_parts):
        inp.check(p.content_type == q.content_type, 'content types again')
        inp.check(p.headers == q.headers, 'headers of the parts again')
        inp.check_eq(p.data, q.data, 'data of the parts again')
    inp.check(s.headers == r.headers, 'headers again')


# -- C28 --------------------------------------------------------------------


def headers_of(x):
    h = dict(x.headers)
    if 'Content-Type' in h:
        media, params = h['Content-Type']
        h['Content-Type'] = media, dict(params)
    return h


def loose_parts(m):
    """Those that were added to the message, not to a page."""
    k = len(m.pages) and 1
    for p in m.pages:
        k += len(p.data_parts)
    return m.data_parts[k:]


def frozen(m):
    """Everything an encoding could change."""
    parts = []
    for p in loose_parts(m):
        parts.append((headers_of(p), p.data,
                      dict(p.content_type_parameters)))
    pages = []
    for p in m.pages:
        for x in (p.image, p.audio, p.text):
            if x is None:
                pages.append(None)
            else:
                pages.append((headers_of(x[0]), x[0].data, x[1], x[2]))
        pages.append(p.duration)
    return headers_of(m), pages, parts, [m.width, m.height]


def unchanged(inp, pages, loose, headers, times, prefixed):
    m, want = build(inp, pages, loose, 2)
    for name in headers:
        v, w, o = make(inp, name, 'h' + name, 2)
        if name in ('Message-Type', 'Transaction-Id') and prefixed:
            m.headers.pop(name, None)
            m.headers['X-Mms-' + name] = v
        elif name == 'MMS-Version' and prefixed:
            m.headers.pop(name)
            m.headers['X-Mms-Version'] = v
        else:
            m.headers[name] = v
    before = frozen(m)
    first = m.encode()
    after = frozen(m)
    inp.check(after[0] == before[0], 'headers left alone')
    inp.check(after[1] == before[1], 'pages left alone')
    inp.check(after[2] == before[2], 'parts left alone')
    for i in range(times - 1):
        inp.check(m.encode() == first, 'the same octets again')
    inp.check(frozen(m) == before, 'left alone after several encodings')


def timed(inp, pages, form, later):
    """Encoding a message whose pages show their contents for a time leaves
    these times alone, also for when the pages last longer."""
    m, want = build(inp, pages, [], 1, True, form)
    before = frozen(m)
    m.encode()
    inp.check(frozen(m) == before, 'pages left alone')
    for p in m.pages:
        p.set_duration(later)
    m.encode()
    for p in m.pages:
        p.set_duration(4000)
    inp.check(frozen(m) == before, 'pages left alone when they last longer')


def no_transaction(inp, times):
    """Without transaction identifier one is made up each time."""
    m, want = build(inp, [], ['text'], 2)
    del m.headers['Transaction-Id']
    to = text(inp, 'to', 3, 'text')
    m.headers['To'] = to
    for i in range(times):
        data = m.encode()
        inp.check('Transaction-Id' not in m.headers, 'headers left alone')
        r = MMSMessage.from_data(data)
        inp.check(r.headers['To'] == to, 'the same headers each time')
        inp.check(r.headers['Message-Type'] == 'm-send-req',
                  'the same headers each time')
        t = r.headers['Transaction-Id']
        inp.check(1 <= len(t) <= 40, 'an identifier is made up')
        check_parts(inp, r.data_parts, want)


def file_trip(inp, pages, loose, headers):
    """Writing to a file and reading it back."""
    m, want = build(inp, pages, loose, 2)
    for name in headers:
        v, w, o = make(inp, name, 'h' + name, 2)
        m.headers[name] = v
    f = inp.path('out.mms')
    m.to_file(f)
    data = m.encode()
    inp.check(inp.read_file(f) == data.tostring(), 'the octets in the file')
    a = MMSMessage.from_file(f)
    b = MMSMessage.from_data(data)
    inp.check(a.headers == b.headers, 'headers from the file')
    inp.check(len(a.data_parts) == len(b.data_parts), 'parts from the file')
    for p, q in zip(a.data_parts, b.data_parts):
        inp.check(p.headers == q.headers, 'part headers from the file')
        inp.check(p.data == q.data, 'data from the file')


# -- C29 --------------------------------------------------------------------


def vint(inp, v, form):
    """A uintvar of the least or of two or three octets."""
    o = wspref.uintvar(v)
    while len(o) < form:
        o = [128] + o
    return o


PART = ['known', 'text', 'general', 'headers', 'app', 'name', 'accept']


def received_part(inp, kind, tag, n):
    """(octets of the type and headers, media, parameters, headers)"""
    if kind == 'known':
        k = inp.fix(inp.int(tag + 'm', 0, 5) * 6 + 2)
        return [128 + k], wspref.MEDIA[k], {}, {}
    if kind == 'text':
        t = text(inp, tag + 'm', 2, 'text')
        return texto(t), t, {}, {}
    if kind == 'general':
        return [3, 0x83, 0x81, 0xea], 'text/plain', {'Charset': 'utf-8'}, {}
    if kind == 'name':
        t = text(inp, tag + 'p', n, 'text')
        b = [0x9e, 0x85] + texto(t)
        return lengtho(len(b)) + b, 'image/jpeg', {'Name': t}, {}
    if kind == 'headers':
        t = text(inp, tag + 'l', 2, 'text')
        u = text(inp, tag + 'i', 1, 'text')
        return [0x9d, 0x8e] + texto(t) + [0xae] + texto(u), 'image/gif', \
            {}, {'Content-Location': t, 'Content-Disposition': u}
    if kind == 'app':
        t = text(inp, tag + 'v', 2, 'text')
        k = 'X' + text(inp, tag + 'n', 1, 'token')
        return [0xa0] + texto(k) + texto(t), 'image/png', {}, {k: t}
    return [0x83, 0x80, 0x9d], 'text/plain', {}, {'Accept': 'image/gif'}


def body(inp, kinds, n, form, extra=0):
    """A received multipart body."""
    data = [0x8c, 0x84, 0x98, 0x31, 0, 0x8d, 0x90, 0x84, 0xa3]
    data.extend(vint(inp, len(kinds), 1 if form == 1 else 2))
    want = []
    i = 0
    for k in kinds:
        i += 1
        h, media, params, headers = received_part(inp, k, 'p%d' % i, 2)
        size = n + i - 1
        d = inp.byte_list('d%d' % i, size)
        data.extend(vint(inp, len(h), form))
        data.extend(vint(inp, size, 1 if i == 1 else form))
        data.extend(h)
        data.extend(d)
        want.append((media, params, headers, d))
    data.extend(inp.byte_list('extra', extra))
    m = MMSMessage.from_data(array('B', data))
    inp.check(m.headers == {
        'Message-Type': 'm-retrieve-conf', 'Transaction-Id': '1',
        'MMS-Version': '1.0',
        'Content-Type': ('application/vnd.wap.multipart.mixed', {})},
        'headers of the message')
    inp.check(len(m.data_parts) == len(want), 'as many parts as announced')
    for p, (media, params, headers, d) in zip(m.data_parts, want):
        inp.check(p.content_type == media, 'content type of the part')
        inp.check(p.headers['Content-Type'] == (media, params),
                  'parameters of the part')
        inp.check(p.content_type_parameters == params,
                  'parameters of the part')
        rest = dict(p.headers)
        del rest['Content-Type']
        inp.check(rest == headers, 'headers of the part')
        inp.check(len(p) == len(d), 'length of the part')
        inp.check_eq(ords(p.data), d, 'data of the part')
    inp.observe('n', len(m.data_parts))


# -- C30 --------------------------------------------------------------------


def header_order(inp, headers, absent, prefixed):
    """headers: set besides the first three and the content type; absent
    and prefixed: of the first three."""
    m = MMSMessage()
    first = {'Message-Type': [0x80], 'Transaction-Id': texto('1234'),
             'MMS-Version': [0x90]}
    kind = 'm-send-req'
    for name in ('Message-Type', 'Transaction-Id', 'MMS-Version'):
        if name in absent:
            del m.headers[name]
            if name == 'Message-Type':
                kind = 'm-retrieve-conf'
        else:
            v, w, o = make(inp, name, 'h' + name, 3)
            first[name] = o
            if name == 'Message-Type':
                kind = w
            if name in prefixed:
                # the prefixed one wins over the plain one
                if inp.bool('plain' + name):
                    del m.headers[name]
                short = {'MMS-Version': 'Version'}.get(name, name)
                m.headers['X-Mms-' + short] = v
            else:
                m.headers[name] = v
    pieces = []
    dest = False
    for name in headers:
        v, w, o = make(inp, name, 'h' + name, 2)
        m.headers[name] = v
        pieces.append(fieldo(name) + o)
        if name in ('To', 'Cc', 'Bcc'):
            dest = True
    if kind == 'm-send-req' and not dest:
        kind = 'm-retrieve-conf'
    full = m.encode()
    got = list(full)
    plain = list(MMSMessage().encode())
    body = plain[plain.index(0) + 5:]
    inp.check(got[len(got) - len(body):] == body, 'body of the message')
    got = got[:len(got) - len(body)]
    want = [0x8c, 128 + TYPES.index(kind), 0x98]
    inp.check_eq(got[:3], want, 'message type, then transaction identifier')
    if 'Transaction-Id' in absent:
        k = got.index(0)
        inp.check(4 <= k <= 43, 'transaction identifier is made up')
        for x in got[3:k]:
            inp.check(inp.land(x >= 48, x <= 57),
                      'transaction identifier is made up')
        got = got[k + 1:]
    else:
        o = first['Transaction-Id']
        inp.check_eq(got[3:3 + len(o)], o, 'transaction identifier')
        got = got[3 + len(o):]
    want = [0x8d] + first['MMS-Version']
    inp.check_eq(got[:len(want)], want, 'then the version')
    got = got[len(want):]
    inp.check_eq(got[-2:], [0x84, 0xa3], 'content type last')
    inp.check(split_params(inp, got[:-2], pieces),
              'every other header exactly once')
    r = MMSDecoder().decode_data(full)
    inp.check(r.headers['Message-Type'] == kind, 'decoded message type')


# -- C33 --------------------------------------------------------------------


def garbage(inp, n, head):
    """Any octets behind a beginning."""
    data = list(head) + inp.byte_list('d', n)
    try:
        m = MMSMessage.from_data(array('B', data))
    except Exception:
        inp.reach('an error')
        return
    inp.reach('a message')
    total = 0
    for p in m.data_parts:
        total += len(p)
        inp.check(len(p) == len(p.data), 'length is that of the data')
    inp.check(total <= len(data), 'no more data than octets')
    if head[:2] == [0x84, 0xa3] and len(head) > 2:
        inp.check(len(m.data_parts) <= head[2], 'no more parts than announced')
    inp.observe('n', len(m.data_parts))


def cut(inp, kinds, n, form, step, first):
    """Every truncation of a message with parts."""
    data = [0x8c, 0x84, 0x98, 0x31, 0, 0x8d, 0x90]
    s = text(inp, 's', 2, 'text')
    data = data + [0x96] + texto(s) + [0x84, 0xa3]
    data.extend(vint(inp, len(kinds), form))
    parts = []
    i = 0
    for k in kinds:
        i += 1
        h, media, params, headers = received_part(inp, k, 'p%d' % i, 1)
        d = inp.byte_list('d%d' % i, n)
        data.extend(vint(inp, len(h), form) + vint(inp, n, form) + h + d)
        parts.append((media, headers, d))
    for k in range(first, len(data), step):
        try:
            m = MMSMessage.from_data(array('B', data[:k]))
        except Exception:
            inp.reach('an error')
            continue
        inp.check(len(m.data_parts) == 0, 'no part without the whole body')
        for name in m.headers:
            inp.check(name in ('Message-Type', 'Transaction-Id', 'Subject',
                               'MMS-Version', 'Content-Type'),
                      'no header that was not sent')
        if 'Subject' in m.headers:
            inp.check(m.headers['Subject'] == s, 'headers are whole')


# -- C34 --------------------------------------------------------------------


def time_header(inp, n, form):
    """Expiry, delivery time and date among the headers of a
    notification."""
    d = inp.byte_list('d', n)
    v = 0
    for x in d:
        v = v * 256 + x
    val = [n] + d
    sz = inp.byte_list('z', 2)
    data = [0x8c, 0x82, 0x98, 0x31, 0, 0x8d, 0x90]
    tok = 129 if form == 'rel' else 128
    data += [0x88, n + 2, tok] + val
    data += [0x87, n + 2, tok] + val
    if form == 'abs date':
        data += [0x85] + val
    data += [0x8e, 2] + sz
    m = MMSMessage.from_data(array('B', data))
    if form == 'rel':
        inp.check(m.headers['Expiry'] == v, 'expiry in a message')
        inp.check(m.headers['Delivery-Time'] == ('relative', v),
                  'delivery time in a message')
    else:
        inp.check(m.headers['Expiry'] == wspref.at(v),
                  'expiry in a message')
        inp.check(m.headers['Delivery-Time'] == ('absolute', v),
                  'delivery time in a message')
    if form == 'abs date':
        inp.check(m.headers['Date'] == wspref.at(v),
                  'date in a message')
    inp.check(m.headers['Message-Size'] == sz[0] * 256 + sz[1],
              'size in a message')


# -- C17 --------------------------------------------------------------------


def recognised(inp, n):
    """Any data: is it a push?"""
    s = inp.bytes('s', n)
    got = is_a_wap_push_notification(s)
    if n < 2:
        inp.check(got is False, 'data too short is no push')
    else:
        inp.check(got == (ord(s[1]) == 6), 'a push by its second octet')
    inp.observe('got', got)


def not_data(inp):
    for bad in (1, None, [1, 6], u'\x01\x06', array('B', [1, 6])):
        try:
            is_a_wap_push_notification(bad)
            inp.fail('other types are refused')
        except TypeError:
            inp.reach('other types are refused')


def notification(inp, fields, n):
    """Octets of a notification and its headers."""
    tid = text(inp, 'tid', n, 'text')
    data = [0x8c, 0x82, 0x98] + texto(tid) + [0x8d, 0x90]
    want = {'Message-Type': 'm-notification-ind', 'Transaction-Id': tid,
            'MMS-Version': '1.0'}
    for f in fields:
        if f == 'From':
            t = text(inp, 'from', n, 'text')
            data += [0x89] + lengtho(n + 2) + [128] + texto(t)
            want['From'] = t
        elif f == 'hidden':
            data += [0x89, 1, 129]
            want['From'] = '<not inserted>'
        elif f == 'Content-Location':
            t = text(inp, 'loc', n, 'text')
            data += [0x83] + texto(t)
            want[f] = t
        elif f == 'Message-Class':
            k = inp.fix(inp.int('class', 0, 3))
            data += [0x8a, 128 + k]
            want[f] = CLASS[k]
        elif f == 'Message-Size':
            d = inp.byte_list('size', 3)
            data += [0x8e, 3] + d
            want[f] = d[0] * 65536 + d[1] * 256 + d[2]
        elif f == 'Expiry':
            d = inp.byte_list('exp', 3)
            data += [0x88, 5, 0x81, 3] + d
            want[f] = d[0] * 65536 + d[1] * 256 + d[2]
        elif f == 'Subject':
            t = text(inp, 'subj', n, 'text')
            data += [0x96] + lengtho(n + 2) + [0xea] + texto(t)
            want[f] = t
        else:
            t = text(inp, 'own', n, 'text')
            data += texto('X-Own') + texto(t)
            want['X-Own'] = t
    return data, want


def without_type(m):
    """The headers but the content type, which no octet gave."""
    h = dict(m.headers)
    h.pop('Content-Type', None)
    return h


def push(inp, fields, n, hlen):
    """A push with a header of hlen octets."""
    note, want = notification(inp, fields, n)
    data = [inp.byte('id'), 6, hlen] + inp.byte_list('h', hlen) + note
    s = ''.join([chr(x) for x in data])
    inp.check(is_a_wap_push_notification(s), 'recognised')
    m = extract_push_notification(s)
    inp.check(without_type(m) == want, 'headers of the notification')
    inp.check(len(m.data_parts) == 0, 'no parts')
    inp.check(bool(is_mms_notification(m)) ==
              ('From' in want and 'Content-Location' in want),
              'told by sender and content location')
    inp.observe('n', len(m.headers))


def not_push(inp, n):
    """Data that is no push is not extracted."""
    s = inp.bytes('s', n)
    inp.assume(ord(s[1]) != 6)
    try:
        extract_push_notification(s)
    except Exception:
        inp.reach('no push, nothing extracted')
        return
    inp.fail('no push, nothing extracted')


def push_sms(inp, fields, n, hlen, cuts, wide):
    """The same in several messages."""
    note, want = notification(inp, fields, n)
    data = [inp.byte('id'), 6, hlen] + inp.byte_list('h', hlen) + note
    k = len(data)
    at = [0] + [k * (i + 1) // (cuts + 1) for i in range(cuts)] + [k]
    ref = inp.int('ref', 0, 0xffff if wide else 0xff)
    total = len(at) - 1
    out = ''
    for i in range(total):
        chunk = data[at[i]:at[i + 1]]
        ports = [5, 4, 0x0b, 0x84, 0x23, 0xf0]
        if wide:
            cat = [8, 4, ref >> 8, ref & 255, total, i + 1]
        else:
            cat = [0, 3, ref, total, i + 1]
        udh = cat + ports if i % 2 == 0 else ports + cat
        ud = [len(udh)] + udh + chunk
        pdu = [0, 0x44, 4, 0x81, 0x21, 0x43, 0, 4,
               0x11, 0x10, 0x10, 0x21, 0x43, 0x65, 0, len(ud)] + ud
        sms = SmsDeliver(''.join(['%02X' % x for x in pdu]))
        inp.check(sms.udh.concat.cnt == total, 'number of messages')
        inp.check(sms.udh.concat.seq == i + 1, 'number of the message')
        inp.check(sms.udh.concat.ref == ref, 'reference of the messages')
        inp.check(sms.udh.ports.dest_port == 2948, 'push port')
        out += sms.text
    inp.check_eq(ords(out), data, 'data of the messages')
    m = extract_push_notification(out)
    inp.check(without_type(m) == want, 'headers of the notification')
