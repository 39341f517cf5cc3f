"""Independence of messages, parts, decoders and answers (C38)."""
from array import array
from datetime import datetime

from messaging import utils
from messaging.mms import wsp_pdu
from messaging.mms.iterator import PreviewIterator
from messaging.mms.message import MMSMessage, MMSMessagePage, DataPart
from messaging.mms.mms_pdu import MMSDecoder, MMSEncoder
from messaging.mms.wsp_pdu import Decoder, Encoder
from messaging.sms import SmsSubmit, SmsDeliver
from harness import ref, wspref
from harness.h_wsp import text
from harness.h_mms import (make, received_part, vint, texto, ords, check_parts,
                           build, lengtho)

NUMS = ['+34616585119', '600123']
PHONES = [[0x0b, 0x91, 0x43, 0x16, 0x56, 0x58, 0x11, 0xf9],
          [0x06, 0x81, 0x06, 0x10, 0x32]]
CSCA = ['+1234', '567']
CENTRES = [[3, 0x91, 0x21, 0x43], [3, 0x81, 0x65, 0xf7]]
STAMP = [0x11, 0x10, 0x10, 0x21, 0x43, 0x65, 0]
WHEN = datetime(2011, 1, 1, 12, 34, 56)


# -- messages to send -------------------------------------------------------

TODO = ['text', 'other', 'centre', 'class', 'report', 'ref', 'encode']


def octets_to_send(inp, s):
    """The octets of a short message with the settings s."""
    first = 1 + (0x20 if s['report'] else 0)
    o = (CENTRES[s['k']] if s['centre'] else [0])
    dcs = s['fmt'] + (0 if s['class'] is None else 0x10 + s['class'])
    o = o + [first, s['ref']] + PHONES[s['k']] + [0, dcs]
    if s['fmt'] == 0:
        seps = ref.to_septets(inp, s['text'])
        return o + [len(seps)] + ref.pack(seps)
    ud = []
    for c in s['text']:
        ud += [ord(c) >> 8, ord(c) & 255]
    return o + [len(ud)] + ud


def check_sent(inp, sms, s):
    pdus = sms.to_pdu()
    inp.check(len(pdus) == 1, 'one part')
    want = octets_to_send(inp, s)
    inp.check_eq(ref.octets(pdus[0].pdu), want, 'only its own settings')
    inp.check(pdus[0].length == len(want) - (4 if s['centre'] else 1),
              'only its own length')
    # what is done to an answer stays there
    pdus[0].pdu = pdus[0].pdu[:2]
    pdus.pop()


def submits(inp, n):
    """Any n operations on two messages made one after the other."""
    sms = [SmsSubmit(NUMS[0], u'a'), SmsSubmit(NUMS[1], u'bc')]
    set_ = []
    for k in range(2):
        sms[k].ref = inp.byte('ref%d' % k)
        set_.append({'k': k, 'text': [u'a', u'bc'][k], 'fmt': 0,
                     'ref': sms[k].ref, 'class': None, 'report': False,
                     'centre': False})
    for i in range(n):
        k = inp.choice('who%d' % i, [0, 1])
        op = inp.choice('op%d' % i, TODO)
        if op == 'text':
            set_[k]['text'] = sms[k].text = inp.pick_uni('t%d' % i, 2,
                                                         ref.REGULAR)
            set_[k]['fmt'] = sms[k].fmt = 0
        elif op == 'other':
            set_[k]['text'] = sms[k].text = inp.uni('t%d' % i, 1, 0x4e00,
                                                    0x9fff)
            sms[k].fmt = None
            set_[k]['fmt'] = 8
        elif op == 'centre':
            sms[k].csca = CSCA[k]
            set_[k]['centre'] = True
        elif op == 'class':
            c = inp.choice('c%d' % i, [0, 3])
            set_[k]['class'] = sms[k].klass = c
        elif op == 'report':
            set_[k]['report'] = sms[k].request_status = True
        elif op == 'ref':
            set_[k]['ref'] = sms[k].ref = inp.byte('ref%d' % (2 + i))
        else:
            check_sent(inp, sms[k], set_[k])
    for k in (1, 0):
        check_sent(inp, sms[k], set_[k])


def long_ones(inp, n):
    """Two long messages, one reference fixed, encoded in any order."""
    sms = []
    for k in range(2):
        m = SmsSubmit(NUMS[k], u'%d' % k * 160 +
                      inp.pick_uni('t%d' % k, 2, ref.REGULAR))
        m.ref = k
        sms.append(m)
    cref = sms[0].rand_id = inp.byte('id')
    drawn = []
    for i in range(n):
        k = inp.choice('who%d' % i, [0, 1])
        pdus = sms[k].to_pdu()
        inp.check(len(pdus) == 2, 'two parts')
        back = u''
        for x in range(2):
            d = ref.octets(pdus[x].pdu)
            inp.check(d[2] == k, 'its own message reference')
            inp.check_eq(d[3:3 + len(PHONES[k])], PHONES[k],
                         'its own destination')
            d = d[3 + len(PHONES[k]):]
            h = d[4:9]
            if k == 0:
                inp.check(h[2] == cref, 'its own reference')
            else:
                inp.check(h[2] not in drawn, 'another reference each time')
            inp.check(h[:2] == [0, 3] and h[3:] == [2, x + 1],
                      'concatenation element')
            udl = inp.fix(d[2])
            for c in ref.septets(d[9:], udl - 7, 49 - 48):
                back += unichr(inp.table(c, ref.DEC))
        if k == 1:
            drawn.append(h[2])
        inp.check_eq(back, sms[k].text, 'its own text')


# -- received messages ------------------------------------------------------

GOT = ['seven', 'ucs2', 'eight', 'concat', 'ports', 'both', 'report', 'name']


def incoming(inp, kind, tag):
    """A PDU and the attributes it is decoded to."""
    n = inp.byte_list(tag + 'n', 4, 0, 9)
    number = ''.join([chr(48 + d) for d in n])
    sender = [4, 0x81, n[0] + 16 * n[1], n[2] + 16 * n[3]]
    want = {'csca': None, 'number': number, 'text': u'hi', 'pid': 0,
            'dcs': 0, 'date': WHEN, 'udh': None, 'sr': None}
    if kind == 'report':
        r = inp.byte(tag + 'r')
        st = inp.byte(tag + 's')
        want['sr'] = st
        return ref.hexof([0, 6, r] + sender + STAMP + STAMP + [st]), r
    if kind == 'name':
        s = inp.byte_list(tag + 's', 4, 0x61, 0x7a)
        want['number'] = u''.join([unichr(c) for c in s])
        sender = [7, 0xd0] + ref.pack(s)
    first = 4
    ud = []
    if kind in ('concat', 'both', 'ports'):
        first = 0x44
        c = inp.byte_list(tag + 'c', 3)
        p = inp.byte_list(tag + 'p', 4)
        h = []
        want['udh'] = [None, None]
        if kind != 'ports':
            h += [0, 3] + c
            want['udh'][0] = c
        if kind != 'concat':
            h += [5, 4] + p
            want['udh'][1] = [p[0] * 256 + p[1], p[2] * 256 + p[3]]
        want['headers'] = h
        ud = [len(h)] + h
    if kind in ('seven', 'name'):
        s = inp.byte_list(tag + 't', 3, 0x61, 0x7a)
        want['text'] = u''.join([unichr(c) for c in s])
        o = [0, 0] + STAMP + [3] + ref.pack(s)
    elif kind == 'ucs2':
        t = inp.byte_list(tag + 't', 2, 0x20, 0x7f)
        want['text'] = unichr(t[0] * 256 + t[1])
        want['dcs'] = 8
        o = [0, 8] + STAMP + [2] + t
    else:
        t = inp.byte_list(tag + 't', 2)
        want['text'] = ''.join([chr(c) for c in t])
        want['dcs'] = 4
        o = [0, 4] + STAMP + [len(ud) + 2] + ud + t
    return ref.hexof([0, first] + sender + o), want


def check_got(inp, sms, want, label):
    if not isinstance(want, dict):
        inp.check(sms.udh.concat.ref == want, label + ' report')
        inp.check(sms.udh.ports is None, label + ' report')
        inp.check(len(sms.udh.headers) == 0, label + ' report')
        inp.check(sms.type == 0x03, label + ' report')
        return
    inp.check(sms.number == want['number'], label + ' sender')
    inp.check(sms.text == want['text'], label + ' text')
    inp.check(sms.dcs == want['dcs'], label + ' coding')
    inp.check(sms.date == WHEN, label + ' time')
    inp.check(sms.csca is None and sms.sr is None, label + ' others')
    data = sms.data
    if want['udh'] is None:
        inp.check(sms.udh is None, label + ' header')
        inp.check('ref' not in data, label + ' header')
        return
    c, p = want['udh']
    if c is None:
        inp.check(sms.udh.concat is None, label + ' concatenation')
        inp.check('ref' not in data, label + ' concatenation')
        inp.check(0 not in sms.udh.headers, label + ' elements')
    else:
        got = sms.udh.concat
        inp.check([got.ref, got.cnt, got.seq] == c, label + ' concatenation')
        inp.check([data['ref'], data['cnt'], data['seq']] == c,
                  label + ' concatenation')
        inp.check(list(sms.udh.headers[0]) == c, label + ' elements')
    if p is None:
        inp.check(sms.udh.ports is None, label + ' ports')
        inp.check(5 not in sms.udh.headers, label + ' elements')
    else:
        got = sms.udh.ports
        inp.check([got.dest_port, got.orig_port] == p, label + ' ports')
    inp.check(len(sms.udh.headers) == (c is not None) + (p is not None),
              label + ' elements')


def delivers(inp, kinds):
    """Received one after the other, all kept."""
    pdus = []
    got = []
    for i in range(len(kinds)):
        pdus.append(incoming(inp, kinds[i], 'm%d' % i))
        got.append(SmsDeliver(pdus[i][0]))
    for i in range(len(kinds)):
        check_got(inp, got[i], pdus[i][1], 'kept')
    # what is done to one, its dictionary or its header stays there
    d = got[0].data
    d['text'] = u'changed'
    d['ref'] = 777
    if got[0].udh is not None:
        got[0].udh.headers[0x70] = [1]
        got[0].udh.ports = got[0].udh.concat = None
    got[0].text = got[0].number = u'changed'
    got[0].csca = 'changed'
    for i in range(1, len(kinds)):
        check_got(inp, got[i], pdus[i][1], 'alone')
    got[0].pdu = pdus[-1][0]
    check_got(inp, got[0], pdus[-1][1], 'again')
    for i in range(1, len(kinds)):
        check_got(inp, got[i], pdus[i][1], 'still')
    check_got(inp, SmsDeliver(pdus[0][0]), pdus[0][1], 'anew')


# -- MMS messages -----------------------------------------------------------


def received(inp, kinds, tag):
    """Octets of a message, its headers and parts."""
    t = text(inp, tag + 's', 2, 'text')
    data = [0x8c, 0x84, 0x98, 0x31, 0, 0x8d, 0x90]
    want = {'Message-Type': 'm-retrieve-conf', 'Transaction-Id': '1',
            'MMS-Version': '1.0'}
    if len(kinds) % 2:
        data += [0x96] + texto(t)
        want['Subject'] = t
    else:
        data += texto('X-Own') + texto(t)
        want['X-Own'] = t
    data += [0x84, 0xa3]
    want['Content-Type'] = ('application/vnd.wap.multipart.mixed', {})
    data += vint(inp, len(kinds), 1)
    parts = []
    i = 0
    for k in kinds:
        i += 1
        h, media, params, headers = received_part(inp, k, tag + 'p%d' % i, 1)
        d = inp.byte_list(tag + 'd%d' % i, i)
        data += vint(inp, len(h), 1) + [i] + h + d
        parts.append((media, params, headers, d))
    return data, want, parts


def check_message(inp, m, got, label):
    data, want, parts = got
    inp.check(m.headers == want, label + ' headers')
    ps = m.data_parts
    inp.check(len(ps) == len(parts), label + ' parts')
    for p, (media, params, headers, d) in zip(ps, parts):
        inp.check(p.headers['Content-Type'] == (media, params),
                  label + ' content type')
        rest = dict(p.headers)
        del rest['Content-Type']
        inp.check(rest == headers, label + ' part headers')
        inp.check_eq(ords(p.data), d, label + ' data')


def spoil(m):
    """Do something to all a message holds."""
    m.headers['Content-Type'][1]['Spoiled'] = 'yes'
    m.headers['Subject'] = 'spoiled'
    m.headers['Spoiled'] = 'yes'
    for p in m.data_parts:
        p.headers['Content-Type'][1]['Spoiled'] = 'yes'
        p.content_type_parameters['Spoilt'] = 'yes'
        p.headers['Content-Location'] = 'spoiled'
        p.set_text('spoiled')
    m.add_data_part(DataPart())
    m.add_page(MMSMessagePage())


def decoded(inp, a, b, how):
    """Messages decoded one after the other."""
    one = received(inp, a, 'a')
    two = received(inp, b, 'b')
    src = array('B', one[0])
    dec = MMSDecoder()
    if how == 'decoder':
        m = dec.decode_data(src)
        k = dec.decode_data(array('B', two[0]))
    else:
        m = MMSMessage.from_data(src)
        k = MMSMessage.from_data(array('B', two[0]))
    check_message(inp, m, one, 'kept')
    check_message(inp, k, two, 'own')
    inp.check_eq(list(src), one[0], 'what was decoded is left alone')
    spoil(m)
    check_message(inp, k, two, 'alone')
    inp.check_eq(list(src), one[0], 'what was decoded is left alone')
    m = dec.decode_data(src) if how == 'decoder' else \
        MMSMessage.from_data(src)
    check_message(inp, m, one, 'again')
    for i in range(len(src)):
        src[i] = 0
    check_message(inp, m, one, 'after the octets changed')
    check_message(inp, k, two, 'still')


def encoded(inp, a, b, headers, how):
    """Messages encoded one after the other."""
    m, want = build(inp, a[0], a[1], 2)
    v, w, o = make(inp, headers[0], 'h', 2)
    m.headers[headers[0]] = v
    k = MMSMessage()
    part = DataPart()
    d = inp.bytes('other', 3)
    part.set_data(d, 'image/gif', {'Name': 'y'})
    k.add_data_part(part)
    v2, w2, o = make(inp, headers[1], 'g', 1)
    k.headers[headers[1]] = v2
    enc = MMSEncoder()
    order = inp.choice('order', [[0, 1, 0], [1, 0, 1], [0, 0, 1],
                                 [1, 0, 0]])
    out = [None, None]
    for x in order:
        msg = [m, k][x]
        got = enc.encode(msg) if how == 'encoder' else msg.encode()
        if out[x] is not None:
            inp.check(got == out[x], 'the same octets again')
        out[x] = got
    # what is done to an answer stays there
    extra = array('B', out[0])
    out[0].append(7)
    out[1][0] = 0
    a1 = MMSMessage.from_data(m.encode())
    inp.check(a1.headers[headers[0]] == w, 'its own header')
    if headers[1] != headers[0]:
        inp.check(headers[1] not in a1.headers or headers[1] in
                  MMSMessage().headers, 'no header of the other')
    check_parts(inp, a1.data_parts, want)
    b1 = MMSMessage.from_data(k.encode())
    inp.check(b1.headers[headers[1]] == w2, 'its own header')
    check_parts(inp, b1.data_parts, [('image/gif', {'Name': 'y'}, {}, d)])
    inp.check(extra == m.encode(), 'the same octets still')


def fresh_message(inp, m, label):
    inp.check(m.headers == {
        'Message-Type': 'm-send-req', 'Transaction-Id': '1234',
        'MMS-Version': '1.0',
        'Content-Type': ('application/vnd.wap.multipart.mixed', {})},
        label + ' headers')
    inp.check(len(m.pages) == 0, label + ' pages')
    inp.check(len(m.data_parts) == 0, label + ' parts')
    inp.check(m.content_type == 'application/vnd.wap.multipart.mixed',
              label + ' type')


def fresh_page(inp, p, label):
    inp.check(p.number_of_parts() == 0, label + ' contents')
    inp.check(p.image is None and p.text is None and p.audio is None,
              label + ' contents')
    inp.check(p.duration == 4000, label + ' duration')


def fresh_part(inp, p, label):
    inp.check(p.headers == {'Content-Type':
                            ('application/octet-stream', {})},
              label + ' headers')
    inp.check(p.content_type_parameters == {}, label + ' parameters')
    inp.check(len(p) == 0 and p.data == '', label + ' data')


def fresh(inp, n):
    """New messages, pages and parts hold nothing of others."""
    a, b = MMSMessage(), MMSMessage()
    p, q = MMSMessagePage(), MMSMessagePage()
    r, s = DataPart(), DataPart()
    t = inp.bytes('t', n, 97, 122)
    for i in range(3):
        op = inp.choice('op%d' % i, ['headers', 'page', 'part', 'size',
                                     'texts', 'data', 'type', 'file'])
        if op == 'headers':
            a.headers['Subject'] = t
            a.headers['Content-Type'][1]['Start'] = t
            a.headers['MMS-Version'] = '1.2'
        elif op == 'page':
            a.add_page(p)
        elif op == 'part':
            a.add_data_part(r)
        elif op == 'size':
            a.width = 1
            a.subject = t
            p.set_duration(5)
        elif op == 'texts':
            p.add_text(t)
        elif op == 'data':
            r.set_text(t)
            r.headers['Content-ID'] = t
        elif op == 'file':
            r.from_file(inp.file('other', t))
            p.add_image(inp.file('image', t))
        else:
            if p.image is not None:
                p.image[0].headers['Content-Type'][1]['Charset'] = 'utf-8'
            r.headers['Content-Type'][1]['Charset'] = 'utf-8'
            r.content_type_parameters['Charset'] = 'utf-8'
    for label, x, y, z in (('other', b, q, s), ('new', MMSMessage(),
                                                MMSMessagePage(),
                                                DataPart())):
        fresh_message(inp, x, label)
        fresh_page(inp, y, label)
        fresh_part(inp, z, label)
        inp.check(x.width == 176 and x.height == 220, label + ' size')
        z.set_text(t)
        inp.check(z.headers == {'Content-Type': ('text/plain', {})},
                  label + ' text headers')
        z.set_data(t, 'image/gif')
        inp.check(z.headers == {'Content-Type': ('image/gif', {})},
                  label + ' data headers')
        z.content_type = 'x/y'
        inp.check(z.headers == {'Content-Type': ('x/y', {})},
                  label + ' type')
        z.from_file(inp.file('file', t))
        inp.check(z.headers == {
            'Content-Location': 'file',
            'Content-Type': ('application/octet-stream', {})},
            label + ' file headers')


def given(inp, n):
    """What is given is left as it was."""
    params = {'Name': 'x'}
    data = array('B', inp.byte_list('d', n))
    before = list(data)
    part = DataPart()
    part.set_data(data, 'image/gif', params)
    m = MMSMessage()
    m.add_data_part(part)
    t = text(inp, 't', 2, 'text')
    ct = ('application/vnd.wap.multipart.related', {'Start': t, 'Type': 'b'})
    m.headers['Content-Type'] = ct
    m.headers['To'] = t
    first = m.encode()
    inp.check(params == {'Name': 'x'}, 'parameters are left alone')
    inp.check(ct == ('application/vnd.wap.multipart.related',
                     {'Start': t, 'Type': 'b'}), 'parameters are left alone')
    inp.check(m.headers['Content-Type'] is ct, 'parameters are left alone')
    inp.check(list(data) == before, 'data is left alone')
    r = MMSMessage.from_data(first)
    inp.check(r.headers['Content-Type'] == ct, 'parameters as given')
    check_parts(inp, r.data_parts, [('image/gif', {'Name': 'x'}, {},
                                     ''.join([chr(x) for x in before]))])
    inp.check(part.headers == {'Content-Type':
                               ('image/gif', {'Name': 'x'})},
              'headers are left alone')


# -- iterators --------------------------------------------------------------


def iterators(inp, n, ops, same):
    """Any operations on two iterators, over one array if `same`."""
    xs = inp.byte_list('d', n)
    ys = xs if same else inp.byte_list('e', n)
    src = array('B', xs)
    items = [xs, ys]
    its = [PreviewIterator(src),
           PreviewIterator(src if same else array('B', ys))]
    pos = [0, 0]
    pv = [0, 0]
    for k in range(ops):
        w = inp.choice('who%d' % k, [0, 1])
        op = inp.choice('op%d' % k, ['next', 'preview', 'reset'])
        if op == 'reset':
            its[w].reset_preview()
            pv[w] = pos[w]
            continue
        at = pos[w] if op == 'next' else pv[w]
        try:
            got = its[w].next() if op == 'next' else its[w].preview()
        except StopIteration:
            inp.check(at == n, 'ends with its own items')
            if op == 'next':
                pv[w] = pos[w]
            continue
        inp.check(at < n and got == items[w][at], 'its own items')
        if op == 'next':
            pos[w] += 1
            pv[w] = pos[w]
        else:
            pv[w] += 1
    for w in (1, 0):
        inp.check_eq([x for x in its[w]], items[w][pos[w]:],
                     'the rest of its own items')
    inp.check_eq(list(src), xs, 'the array is left alone')


# -- answers ----------------------------------------------------------------

ENC = {
    'uint8': ('encode_uint_8', 'int', 0, 255),
    'uintvar': ('encode_uint_var', 'int', 0, 0xfffff),
    'short': ('encode_short_integer', 'int', 0, 127),
    'long': ('encode_long_integer', 'int', 0, 0xffffff),
    'integer': ('encode_integer_value', 'int', 0, 0xffff),
    'length': ('encode_value_length', 'int', 0, 0x3fff),
    'text': ('encode_text_string', 'text', 0, 0),
    'token': ('encode_token_text', 'token', 0, 0),
}


def value(inp, tag, e):
    kind, lo, hi = e[1:]
    return inp.int(tag, lo, hi) if kind == 'int' else text(inp, tag, 2, kind)


def answers(inp, name):
    """Encoding a, then b, then a again; answers are spoiled."""
    e = ENC[name]
    f = getattr(Encoder, e[0])
    a = value(inp, 'a', e)
    b = value(inp, 'b', e)
    first = f(a)
    keep = list(first)
    second = f(b)
    inp.check(list(first) == keep, 'an answer is left alone')
    kept = list(second)
    first.append(1)
    first[0] = 255
    inp.check_eq(list(second), kept, 'answers are independent')
    second.append(3)
    inp.check(list(f(a)) == keep, 'the same answer again')
    inp.check(list(f(b)) == kept, 'the same answer again')


def header_answers(inp, name, n):
    """Headers of a message, to octets and back."""
    va, wa, oa = make(inp, name, 'a', n)
    vb, wb, ob = make(inp, name, 'b', n)
    one = MMSEncoder.encode_header(name, va)
    two = MMSEncoder.encode_header(name, vb)
    inp.check_eq(one[-len(oa):], oa, 'the first value')
    inp.check_eq(two[-len(ob):], ob, 'the second value')
    one.append(1)
    one[0] = 0
    inp.check_eq(two[-len(ob):], ob, 'the second value still')
    one = MMSEncoder.encode_header(name, va)
    inp.check_eq(one[-len(oa):], oa, 'the first value again')
    i, k = PreviewIterator(array('B', one)), PreviewIterator(array('B', two))
    a = MMSDecoder.decode_header(i)
    b = MMSDecoder.decode_header(k)
    inp.check(a == (name, wa) and b == (name, wb), 'each its own value')


MEDIA = ['image/gif', 'text/plain', 'x/y']


def types(inp, ka, kb):
    """Content types with parameters, to octets and back."""
    pa, pb = {}, {}
    ta = text(inp, 'a', 2, 'text')
    tb = text(inp, 'b', 2, 'text')
    pa['Name'] = ta
    if kb % 2:
        pb['Filename'] = tb
    one = Encoder.encode_content_type_value(MEDIA[ka], pa)
    two = Encoder.encode_content_type_value(MEDIA[kb], pb)
    inp.check(pa == {'Name': ta}, 'parameters are left alone')
    inp.check(pb == ({'Filename': tb} if kb % 2 else {}),
              'parameters are left alone')
    for i in range(2):
        a = Decoder.decode_content_type_value(
            PreviewIterator(array('B', one)))
        b = Decoder.decode_content_type_value(
            PreviewIterator(array('B', two)))
        inp.check(a == (MEDIA[ka], {'Name': ta}), 'each its own type')
        inp.check(b == (MEDIA[kb], {'Filename': tb} if kb % 2 else {}),
                  'each its own type')
        a[1]['Spoiled'] = 1
        a[1]['Name'] = 1
        inp.check('Spoiled' not in b[1], 'answers are independent')
    keep = list(one)
    two.append(9)
    one.append(9)
    one[0] = 9
    inp.check(list(Encoder.encode_content_type_value(MEDIA[ka], pa)) == keep,
              'the same answer again')


def tables(inp, what, version, other):
    """Tables handed out belong to the caller."""
    f = (wsp_pdu.get_header_field_names if what == 'names' else
         wsp_pdu.get_well_known_parameters)
    a = f(version)
    b = f(other)
    keep = a[:] if what == 'names' else dict(a)
    kept = b[:] if what == 'names' else dict(b)
    k = inp.fix(inp.int('k', 0, 8))
    one = Encoder.encode_header(wspref.FIELDS[9], 'x')
    two = Encoder.encode_content_type_value('image/gif', {'Name': 'x'})
    a[k] = 'spoiled'
    if what == 'names':
        a.append('spoiled')
        del a[9]
    else:
        a[0x70] = 'spoiled'
        del a[9 if version != '1.1' else 3]
    inp.check(b == kept, 'tables are independent')
    inp.check(f(version) == keep, 'the same table again')
    inp.check(f(other) == kept, 'the same table again')
    inp.check(Encoder.encode_header(wspref.FIELDS[9], 'x') == one,
              'what is done to a table changes no encoding')
    inp.check(Encoder.encode_content_type_value(
        'image/gif', {'Name': 'x'}) == two,
        'what is done to a table changes no encoding')
    inp.check(Decoder.decode_content_type_value(
        PreviewIterator(array('B', two))) == ('image/gif', {'Name': 'x'}),
        'what is done to a table changes no decoding')


# -- text coding ------------------------------------------------------------


def codings(inp, n):
    """Texts packed and coded one after the other."""
    a = inp.pick_uni('a', n, ref.REGULAR)
    b = inp.pick_uni('b', 1, ref.ALL) + inp.pick_uni('c', n - 1, ref.REGULAR)
    ea = a.encode('gsm0338')
    eb = b.encode('gsm0338')
    sa = ref.to_septets(inp, a)
    inp.check_eq(ords(ea), sa, 'the first text')
    inp.check_eq(ords(eb), ref.to_septets(inp, b), 'the second text')
    inp.check(a.encode('gsm0338') == ea, 'the first text again')
    inp.check(ea.decode('gsm0338') == a and eb.decode('gsm0338') == b,
              'each its own text')
    p = utils.pack_8bits_to_7bits(ea)
    q = utils.pack_8bits_to_7bits(eb)
    inp.check(utils.pack_8bits_to_7bits(ea) == p, 'the same octets again')
    data = array('B', ref.pack(sa))
    keep = list(data)
    inp.check_eq(ords(utils.unpack_msg2(data))[:len(sa)], sa, 'unpacked')
    inp.check_eq(list(data), keep, 'what is unpacked is left alone')
    inp.check_eq(ref.octets(p)[1:], keep, 'packed')
    inp.observe('q', q)
