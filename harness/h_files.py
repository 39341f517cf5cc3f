"""Files of parts and messages (C36), part headers with a length (C37)."""
from array import array

from messaging.mms.iterator import PreviewIterator
from messaging.mms.message import MMSMessage, MMSMessagePage, DataPart
from messaging.mms.wsp_pdu import Decoder, DecodeError, EncodeError
from harness import wspref
from harness.h_wsp import it_of, check_rest, text, TAIL
from harness.h_mms import texto, lengtho, ords, build, check_parts, vint


def with_part(inp, f, how):
    """A message with the file f in it."""
    m = MMSMessage()
    if how == 'part':
        m.add_data_part(DataPart(f))
    else:
        page = MMSMessagePage()
        if how == 'image':
            page.add_image(f)
        else:
            page.add_audio(f)
        m.add_page(page)
    return m


NAME = {'part': 'f.bin', 'image': 'i.png', 'audio': 'a.mp3'}
MEDIA = {'part': 'application/octet-stream', 'image': 'image/png',
         'audio': 'audio/mpeg'}


def spoil(inp, m, why, src):
    """m can no longer be encoded."""
    if why == 'missing':
        inp.remove_file(src)
    elif why == 'field':
        m.headers['Expiry'] = 12
    elif why == 'size':
        m.headers['Message-Size'] = inp.int('size', -0x80000000, -1)
    elif why == 'type':
        m.headers['Content-Type'] = ('', {})
    elif why == 'part_type':
        part = DataPart()
        part.set_data('xyz', '')
        m.add_data_part(part)
    else:
        part = DataPart()
        part.set_data('xyz', 'image/gif')
        part.headers['Pragma'] = 12
        m.add_data_part(part)


def refused(inp, why, n, how):
    """A message that cannot be written leaves the file as it was."""
    src = inp.file(NAME[how], inp.bytes('src', 2))
    m = with_part(inp, src, how)
    old = inp.bytes('old', n)
    dest = inp.file('dest.mms', old)
    none = inp.path('none.mms')
    ok = inp.bool('first')
    if ok:
        # written once before it is spoilt
        m.to_file(dest)
        old = inp.read_file(dest)
        inp.check(old == m.encode().tostring(), 'the octets in the file')
        m = with_part(inp, src, how)
    spoil(inp, m, why, src)
    for f in (dest, none):
        try:
            m.to_file(f)
        except Exception:
            inp.reach('a message that cannot be written')
            if f == dest:
                inp.check_eq(inp.read_file(f), old, 'the file is as it was')
            elif inp.has_file(f):
                inp.check(len(inp.read_file(f)) == 0, 'no half of a message')
            continue
        inp.check(inp.read_file(f) == m.encode().tostring(),
                  'the octets in the file')


def own_file(inp, n, how):
    """Written over the file that one of its parts comes from."""
    d = inp.bytes('d', n)
    src = inp.file(NAME[how], d)
    m = with_part(inp, src, how)
    m.to_file(src)
    r = MMSMessage.from_file(src)
    check_parts(inp, r.data_parts, [(MEDIA[how], {},
                                     {'Content-Location': NAME[how]}, d)])


def rewritten(inp, a, b, how):
    """A file written twice holds the second message only."""
    dest = inp.path('dest.mms')
    m = MMSMessage()
    p = DataPart()
    p.set_text(inp.bytes('a', a))
    m.add_data_part(p)
    m.to_file(dest)
    k = MMSMessage()
    p = DataPart()
    t = inp.bytes('b', b)
    p.set_text(t)
    k.add_data_part(p)
    if how == 'other':
        k.to_file(dest)
    else:
        m.data_parts[0].set_text(t)
        m.to_file(dest)
    inp.check(inp.read_file(dest) == k.encode().tostring(),
              'the octets of the last message')
    r = MMSMessage.from_file(dest)
    check_parts(inp, r.data_parts, [('text/plain', {}, {}, t)])


def changed(inp, a, b, how, when):
    """The file of a part changes."""
    d = inp.bytes('a', a)
    e = inp.bytes('b', b)
    src = inp.file(NAME[how], d)
    m = with_part(inp, src, how)
    if how == 'part':
        part = m.data_parts[0]
    else:
        part = {'image': m.pages[0].image, 'audio': m.pages[0].audio}[how][0]
    if when == 'read':
        inp.check_eq(part.data, d, 'data of the file')
    elif when == 'asked':
        inp.check(len(part) == a, 'length of the file')
    elif when == 'encoded':
        m.encode()
    inp.file(NAME[how], e)
    n = len(part)
    got = part.data
    inp.check(n == len(got), 'length is that of the data')
    inp.check(len(part) == len(got), 'length is that of the data')
    if when == 'before':
        inp.check_eq(got, e, 'data of the file')
    else:
        inp.check(inp.lor(got == d, got == e), 'data of the file')
    r = MMSMessage.from_data(m.encode())
    check_parts(inp, r.data_parts, [(MEDIA[how], {},
                                     {'Content-Location': NAME[how]}, got)])
    inp.observe('n', n)


def vanished(inp, a, how):
    """A file that was read and is gone."""
    d = inp.bytes('a', a)
    src = inp.file(NAME[how], d)
    m = with_part(inp, src, how)
    first = m.encode()
    inp.remove_file(src)
    inp.check(m.encode() == first, 'the same octets without the file')
    r = MMSMessage.from_data(first)
    check_parts(inp, r.data_parts, [(MEDIA[how], {},
                                     {'Content-Location': NAME[how]}, d)])


def loaded(inp, n, pages, loose):
    """From a file as from memory, whatever the octets."""
    m, want = build(inp, pages, loose, n)
    data = m.encode().tostring()
    f = inp.file('in.mms', data)
    r = MMSMessage.from_file(f)
    check_parts(inp, r.data_parts, want)
    inp.check_eq(inp.read_file(f), data, 'the file is as it was')
    try:
        MMSMessage.from_file(inp.path('none.mms'))
        inp.fail('missing files are refused')
    except (OSError, IOError):
        inp.reach('missing files are refused')
    inp.check(not inp.has_file(inp.path('none.mms')), 'no file appears')


# -- C37 --------------------------------------------------------------------


def param(inp, tag, kind, n):
    """Octets of a parameter and what it decodes to."""
    if kind == 'charset':
        return [0x81, 0xea], ('Charset', 'utf-8')
    if kind == 'name':
        t = text(inp, tag, n, 'text')
        return [0x85] + texto(t), ('Name', t)
    if kind == 'level':
        a = inp.int(tag, 1, 7)
        return [0x82, 128 + a * 16 + 15], ('Level', chr(48 + a))
    if kind == 'int':
        v = inp.int(tag, 0, 127)
        return texto('foo') + [128 + v], ('foo', v)
    if kind == 'token':
        t = text(inp, tag, n, 'token')
        return texto('foo') + texto(t), ('foo', t)
    t = text(inp, tag, n, 'text')
    return texto('foo') + [34] + texto(t), ('foo', t)


def head(inp, n, form):
    """A value length in any of its forms."""
    if form == 'quoted':
        return [31] + vint(inp, n, 1)
    if form == 'long':
        return [31] + vint(inp, n, 2)
    return lengtho(n)


def accept(inp, media, params, q, form, n):
    """An Accept header with parameters, another header behind it."""
    if media == 'text':
        name = text(inp, 'm', 3, 'text')
        body = texto(name)
    elif media == 'number':
        k = inp.int('m', 0, len(wspref.MEDIA) - 1)
        name = inp.fix(k)
        name = wspref.MEDIA[name]
        body = [1, k]
    else:
        k = inp.fix(inp.int('m', 0, 9) * 8 % len(wspref.MEDIA))
        name = wspref.MEDIA[k]
        body = [128 + k]
    i = 0
    for p in params:
        i += 1
        body = body + param(inp, 'p%d' % i, p, n)[0]
    if q:
        v = inp.int('q', 1, 1099)
        if v <= 100:
            inp.assume(v <= 100)
            body = body + [128, v]
        else:
            inp.assume(v > 127)
            body = body + [128, 128 + (v >> 7), v & 127]
        if q == 'extension':
            body = body + param(inp, 'ext', 'int', n)[0]
    data = head(inp, len(body), form) + body
    it = it_of(data)
    got = Decoder.decode_accept_value(it)
    inp.check_eq(got, name, 'media type of the Accept header')
    check_rest(inp, it, TAIL, 'Accept header consumed exactly')
    # as the only one, and before another
    it = PreviewIterator(array('B', [0x80] + data))
    k, got = Decoder.decode_header(it)
    inp.check(k == 'Accept', 'name of the Accept header')
    inp.check_eq(got, name, 'media type of the Accept header')
    check_rest(inp, it, [], 'Accept header at the end')
    loc = text(inp, 'loc', n, 'text')
    follow(inp, [0x80] + data, ('Accept', name), loc)


def follow(inp, octets, want, loc):
    """The header in a part, between two others."""
    h = [0x83] + [0xae] + texto('x') + octets + [0x8e] + texto(loc)
    d = inp.byte_list('d', 2)
    data = [0x8c, 0x84, 0x98, 0x31, 0, 0x8d, 0x90, 0x84, 0xa3, 2]
    data += wspref.uintvar(len(h)) + [2] + h + d
    data += [1, 2, 0x9d] + d
    m = MMSMessage.from_data(array('B', data))
    inp.check(len(m.data_parts) == 2, 'as many parts')
    p = m.data_parts[0]
    rest = dict(p.headers)
    inp.check(rest.pop('Content-Type') == ('text/plain', {}),
              'type of the part')
    inp.check(rest == {'Content-Disposition': 'x', want[0]: want[1],
                       'Content-Location': loc}, 'headers of the part')
    inp.check_eq(ords(p.data), d, 'data of the part')
    p = m.data_parts[1]
    inp.check(p.headers == {'Content-Type': ('image/gif', {})},
              'headers of the next part')
    inp.check_eq(ords(p.data), d, 'data of the next part')


def pragma(inp, kind, form, n):
    """A Pragma header with a parameter, or for no cache."""
    loc = text(inp, 'loc', n, 'text')
    if kind == 'none':
        data, want = [128], ('Cache-control', 'No-cache')
    else:
        body, want = param(inp, 'p', kind, n)
        data = head(inp, len(body), form) + body
    it = it_of(data)
    got = Decoder.decode_pragma_value(it)
    inp.check(got == want, 'parameter of the Pragma header')
    check_rest(inp, it, TAIL, 'Pragma header consumed exactly')
    follow(inp, [0x80 + 31] + data, ('Pragma', want), loc)
