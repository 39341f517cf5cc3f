"""Pages, parts and the presentation document (C31, C32)."""
from array import array

from messaging.mms.message import MMSMessage, MMSMessagePage, DataPart


# -- C31 --------------------------------------------------------------------


def times(inp, tag, form):
    """Begin and end of an item; the pages refuse an end before the
    beginning."""
    if form == '':
        return 0, 0
    if form == 'fixed':
        return 1, 2
    if form == 'set':
        b = inp.int('b' + tag, 0, 9)
        e = inp.int('e' + tag, 1, 12)
    elif form == 'end':
        b, e = 0, inp.int('e' + tag, -2, 9)
    elif form == 'begin':
        b, e = inp.int('b' + tag, -2, 9), 0
    else:
        b = inp.int('b' + tag, 990, 1010)
        e = inp.int('e' + tag, 995, 1015)
    inp.assume(inp.lor(e <= 0, e >= b))
    return b, e


def form_of(form, which, i):
    """The item i has any times, the others none or fixed ones."""
    if i == which:
        return form
    return 'fixed' if form and (which + i) % 2 else ''


def fill(inp, page, p, k, n, form, source='file', which=0):
    """Fills a page; p: a string over i, a, t.  Returns what its slide has
    to show: {tag: (src, begin, end)}"""
    want = {}
    if 'i' in p:
        name = 'pic%d.%s' % (k, ['jpg', 'gif', 'png'][k % 3])
        f = inp.file(name, inp.bytes('i%d' % k, 2, 32, 126))
        b, e = times(inp, 'i%d' % k, form_of(form, which, p.index('i')))
        page.add_image(f, b, e)
        part = page.image[0]
        want['img'] = [source_of(inp, part, source, 'i%d' % k, name), b, e]
    if 'a' in p:
        name = 'snd%d.%s' % (k, ['wav', 'mp3', 'amr'][k % 3])
        f = inp.file(name, inp.bytes('a%d' % k, 2, 32, 126))
        b, e = times(inp, 'a%d' % k, form_of(form, which, p.index('a')))
        page.add_audio(f, b, e)
        part = page.audio[0]
        want['audio'] = [source_of(inp, part, source, 'a%d' % k, name), b, e]
    if 't' in p:
        t = inp.bytes('t%d' % k, n, 32, 126)
        b, e = times(inp, 't%d' % k, form_of(form, which, p.index('t')))
        page.add_text(t, b, e)
        want['text'] = [t, b, e]
    return want


def source_of(inp, part, source, tag, name):
    if source == 'file':
        return name
    s = inp.bytes('s' + tag, 2, 97, 122)
    if source == 'location':
        part.headers['Content-Location'] = s
        return s
    del part.headers['Content-Location']
    if source == 'id':
        part.headers['Content-ID'] = s
        return s
    if source == 'both':
        part.headers['Content-ID'] = 'x'
        part.headers['Content-Location'] = s
        return s
    return part.data


REGION = {'img': 'Image', 'text': 'Text'}


def check_smil(inp, m, wants, durations):
    """wants: {tag: (src, begin, end)} of each slide"""
    tag, attrs, kids = inp.smil(m.smil())
    inp.check(tag == 'smil', 'a SMIL document')
    inp.check([k[0] for k in kids] == ['head', 'body'],
              'a head and a body')
    regions = []
    for t, a, layout in kids[0][2]:
        if t == 'layout':
            for t, a, none in layout:
                if t == 'region':
                    regions.append(a['id'])
                elif t == 'root-layout':
                    inp.check(a['width'] == str(m.width),
                              'width of the message')
                    inp.check(a['height'] == str(m.height),
                              'height of the message')
    slides = kids[1][2]
    inp.check(len(slides) == len(wants), 'one slide per page')
    for (t, a, items), want, duration in zip(slides, wants, durations):
        inp.check(t == 'par', 'slides')
        inp.check(a['duration'] == str(duration), 'duration of the page')
        inp.check(sorted([x[0] for x in items]) == sorted(want.keys()),
                  'exactly the contents of the page')
        for t, a, none in items:
            src, b, e = want[t]
            inp.check_eq(a['src'], src, 'source of the content')
            inp.check(len(none) == 0, 'nothing inside the content')
            names = ['src']
            if t in REGION:
                names.append('region')
                inp.check(a['region'] == REGION[t], 'region of the content')
                inp.check(a['region'] in regions, 'regions are laid out')
            if b > 0 or e > 0:
                names.append('begin')
                names.append('end')
                if e > duration:
                    e = duration
                inp.check(sorted(a.keys()) == sorted(names),
                          'times that are set')
                inp.check(a['begin'] == str(b), 'begin of the content')
                inp.check(a['end'] == str(e), 'end within the page')
            else:
                inp.check(sorted(a.keys()) == sorted(names),
                          'no times unless they are set')


def smil(inp, pages, n, form, source, dur, which=0):
    """The presentation of pages."""
    m = MMSMessage()
    wants = []
    durations = []
    k = 0
    for p in pages:
        k += 1
        page = MMSMessagePage()
        want = fill(inp, page, p, k, n, form, source, which)
        which -= len(p)
        if dur == '':
            d = 4000
        elif dur == 'any':
            d = inp.int('d%d' % k, 1, 12 if k < 2 else 5)
            page.set_duration(d)
        else:
            d = inp.int('d%d' % k, 995, 1012)
            page.set_duration(d)
        m.add_page(page)
        wants.append(want)
        durations.append(d)
    if n == 1:
        m.width = inp.int('w', 1, 200)
        m.height = inp.int('h', 1, 99)
    check_smil(inp, m, wants, durations)
    parts = m.data_parts
    if pages:
        inp.check(parts[0].content_type == 'application/smil',
                  'presentation among the parts')
        inp.check(inp.smil(parts[0].data) == inp.smil(m.smil()),
                  'presentation among the parts')


def changed(inp, first, then, n):
    """A page is changed behind adding it, and between presentations."""
    m = MMSMessage()
    page = MMSMessagePage()
    want = fill(inp, page, first, 1, n, '')
    m.add_page(page)
    other = MMSMessagePage()
    owant = fill(inp, other, 'it', 2, n, '')
    other.set_duration(7)
    m.add_page(other)
    check_smil(inp, m, [want, owant], [4000, 7])
    more = fill(inp, page, then, 3, n, 'end')
    for k in more:
        want[k] = more[k]
    d = inp.int('dur', 1, 9)
    page.set_duration(d)
    check_smil(inp, m, [want, owant], [d, 7])
    check_smil(inp, m, [want, owant], [d, 7])


# -- C32 --------------------------------------------------------------------


def state(page):
    r = []
    for x in (page.image, page.audio, page.text):
        if x is None:
            r.append(None)
        else:
            part, b, e = x
            r.append((part, b, e))
    return r + [page.duration]


def same(inp, page, before, label):
    now = state(page)
    for a, b in zip(now[:3], before[:3]):
        if a is None or b is None:
            inp.check(a is None and b is None, label)
        else:
            inp.check(a[0] is b[0], label)
            inp.check(a[1] == b[1] and a[2] == b[2], label)
    inp.check(now[3] == before[3], label)


def adder(page, kind):
    return {'i': page.add_image, 'a': page.add_audio,
            't': page.add_text}[kind]


def content(inp, kind, tag, n):
    """Argument, data and content type of an item."""
    d = inp.bytes(tag, n)
    if kind == 't':
        return d, d, 'text/plain'
    name = tag + {'i': '.jpg', 'a': '.mp3'}[kind]
    return inp.file(name, d), d, {'i': 'image/jpeg', 'a': 'audio/mpeg'}[kind]


def item_of(page, kind):
    return {'i': page.image, 'a': page.audio, 't': page.text}[kind]


def page_times(inp, kind, held, lo, hi):
    """Every begin and end of an item."""
    page = MMSMessagePage()
    for h in held:
        a, d, t = content(inp, h, 'held' + h, 1)
        adder(page, h)(a, 1, 2)
    before = state(page)
    arg, data, media = content(inp, kind, 'new', 2)
    b = inp.int('b', lo, hi)
    e = inp.int('e', lo, hi)
    good = inp.lor(e <= 0, e >= b)
    try:
        adder(page, kind)(arg, b, e)
    except ValueError:
        inp.check(inp.lnot(good), 'times in order are accepted')
        same(inp, page, before, 'refused times change nothing')
        inp.observe('refused', True)
        return
    inp.check(good, 'an end before the beginning is refused')
    part, gb, ge = item_of(page, kind)
    inp.check(gb == b, 'begin as given')
    inp.check(ge == e, 'end as given')
    inp.check(part.content_type == media, 'type of the content')
    inp.check_eq(part.data, data, 'data of the content')
    inp.check(len(part) == len(data), 'length of the content')
    kinds = [k for k in 'iat' if k in held or k == kind]
    inp.check(page.number_of_parts() == len(kinds), 'number of contents')
    inp.check(len(page.data_parts) == len(kinds), 'list of contents')
    now = state(page)
    i = 0
    for k in 'iat':
        x = now['iat'.index(k)]
        inp.check((x is not None) == (k in kinds), 'contents of the page')
        if x is not None:
            inp.check(page.data_parts[i][0] is x[0], 'list of contents')
            if k != kind:
                inp.check(x[0] is before['iat'.index(k)][0],
                          'the other contents stay')
            i += 1
    inp.observe('n', page.number_of_parts())


def page_refuses(inp, kind, held):
    """Arguments of the wrong type and files that do not exist."""
    page = MMSMessagePage()
    for h in held:
        a, d, t = content(inp, h, 'held' + h, 1)
        adder(page, h)(a, 1, 2)
    page.set_duration(77)
    before = state(page)
    arg, data, media = content(inp, kind, 'new', 2)
    b = inp.int('b', 0, 5)
    for bad in (None, 1, u'text', 2.5, ['x'], array('B', [1]), DataPart()):
        try:
            adder(page, kind)(bad, 0, 0)
            inp.fail('contents of the wrong type are refused')
        except TypeError:
            inp.reach('contents of the wrong type are refused')
        same(inp, page, before, 'refused contents change nothing')
    for bad in (None, '1', 1.0, u'2', [1], 5000000000):
        try:
            adder(page, kind)(arg, bad, 0)
            inp.fail('times of the wrong type are refused')
        except TypeError:
            inp.reach('times of the wrong type are refused')
        same(inp, page, before, 'refused times change nothing')
        try:
            adder(page, kind)(arg, b, bad)
            inp.fail('times of the wrong type are refused')
        except TypeError:
            inp.reach('times of the wrong type are refused')
        same(inp, page, before, 'refused times change nothing')
    if kind != 't':
        for name in ('missing.jpg', 'heldi', ''):
            try:
                adder(page, kind)(inp.path(name), b, 7)
                inp.fail('missing files are refused')
            except OSError:
                inp.reach('missing files are refused')
            same(inp, page, before, 'missing files change nothing')
    for bad in (None, '1', 1.0, u'2', [1], 5000000000):
        try:
            page.set_duration(bad)
            inp.fail('durations of the wrong type are refused')
        except TypeError:
            inp.reach('durations of the wrong type are refused')
        same(inp, page, before, 'refused durations change nothing')


def duration(inp, held):
    """Every duration."""
    page = MMSMessagePage()
    for h in held:
        a, d, t = content(inp, h, 'held' + h, 1)
        adder(page, h)(a, 1, 2)
    first = inp.int('first', 1, 0x7fffffff)
    page.set_duration(first)
    before = state(page)
    d = inp.int('d', -0x80000000, 0x7fffffff)
    try:
        page.set_duration(d)
    except ValueError:
        inp.check(d < 1, 'positive durations are accepted')
        same(inp, page, before, 'refused durations change nothing')
        return
    inp.check(d >= 1, 'durations below one are refused')
    inp.check(page.duration == d, 'duration as given')
    same(inp, page, before[:3] + [d], 'contents stay')


def history(inp, steps, n):
    """Any sequence of accepted and refused changes of two pages."""
    pages = [MMSMessagePage(), MMSMessagePage()]
    model = [{'d': 4000}, {'d': 4000}]
    for s in range(steps):
        op = inp.choice('op%d' % s, ['i', 'a', 't', 'd', 'bad i', 'bad t'])
        which = 0
        if s > 0:
            which = inp.choice('on%d' % s, [0, 1])
        page, mod = pages[which], model[which]
        if op == 'd':
            d = inp.int('d%d' % s, -2, 5)
            try:
                page.set_duration(d)
                inp.check(d > 0, 'durations below one are refused')
                mod['d'] = d
            except ValueError:
                inp.check(d < 1, 'positive durations are accepted')
        elif op == 'bad i':
            try:
                page.add_image(inp.path('none%d' % s))
                inp.fail('missing files are refused')
            except OSError:
                inp.reach('missing files are refused')
        elif op == 'bad t':
            try:
                page.add_text('x', 5, 3)
                inp.fail('an end before the beginning is refused')
            except ValueError:
                inp.reach('an end before the beginning is refused')
        else:
            arg, data, media = content(inp, op, 'c%d' % s, n)
            adder(page, op)(arg, s, s + 1)
            mod[op] = (data, media, s)
    for page, mod in zip(pages, model):
        check_page(inp, page, mod)
    m = MMSMessage()
    inp.check(len(m.pages) == 0 and len(m.data_parts) == 0, 'no page at first')
    i = 0
    for page in pages:
        i += 1
        m.add_page(page)
        inp.check(len(m.pages) == i and m.pages[i - 1] is page,
                  'pages in order')
    total = 1
    for mod in model:
        total += len(mod) - 1
    inp.check(len(m.data_parts) == total, 'parts of the pages')


def check_page(inp, page, mod):
    inp.check(page.duration == mod['d'], 'duration as given')
    inp.check(page.number_of_parts() == len(mod) - 1, 'number of contents')
    inp.check(len(page.data_parts) == len(mod) - 1, 'list of contents')
    for k in 'iat':
        x = item_of(page, k)
        if k not in mod:
            inp.check(x is None, 'contents of the page')
            continue
        data, media, s = mod[k]
        part, b, e = x
        inp.check(b == s and e == s + 1, 'times as given')
        inp.check(part.content_type == media, 'type of the content')
        inp.check_eq(part.data, data, 'data of the content')
        inp.check(len(part) == len(data), 'length of the content')


NAMES = [('a.jpg', 'image/jpeg'), ('b.gif', 'image/gif'),
         ('c.PNG', 'image/png'), ('d.mp2', 'audio/mpeg'),
         ('e.txt', 'text/plain'), ('f', 'application/octet-stream'),
         ('.hidden', 'application/octet-stream'),
         ('g.h.wav', 'audio/x-wav'), ('k.unknown', 'application/octet-stream')]


def part_history(inp, steps, n, down=False):
    """Any sequence of contents of one part, and a look at it anywhere."""
    part = DataPart()
    data, media, headers = '', 'application/octet-stream', {}
    params = {}
    for s in range(steps):
        op = inp.choice('op%d' % s, ['file', 'text', 'data', 'params',
                                     'array', 'missing', 'type', 'header',
                                     'look'])
        d = inp.bytes('d%d' % s, n + (steps - 1 - s if down else s))
        if op == 'file':
            name, media = NAMES[s % len(NAMES)]
            part.from_file(inp.file(name, d))
            data, headers, params = d, {'Content-Location': name}, {}
        elif op == 'text':
            part.set_text(d)
            data, media, headers, params = d, 'text/plain', {}, {}
        elif op == 'data':
            part.set_data(d, 'image/gif')
            data, media, headers, params = d, 'image/gif', {}, {}
        elif op == 'params':
            params = {'Name': 'x%d' % s}
            part.set_data(d, 'image/gif', params)
            data, media, headers = d, 'image/gif', {}
        elif op == 'array':
            part.set_data(array('B', [ord(c) for c in d]), 'audio/AMR')
            data, media, headers, params = d, 'audio/AMR', {}, {}
        elif op == 'missing':
            try:
                part.from_file(inp.path('none%d' % s))
                inp.fail('missing files are refused')
            except OSError:
                inp.reach('missing files are refused')
        elif op == 'type':
            media, params = 'x/y%d' % s, {}
            part.content_type = media
        elif op == 'header':
            headers = dict(headers)
            headers['X-%d' % s] = 'v'
            part.headers['X-%d' % s] = 'v'
        else:
            inp.check(len(part) == len(data), 'length of the data')
            inp.check_eq(part.data, data, 'data as given')
    inp.check(part.content_type == media, 'type as given')
    inp.check(part.headers['Content-Type'] == (media, params),
              'parameters as given')
    rest = dict(part.headers)
    del rest['Content-Type']
    inp.check(rest == headers, 'headers as given')
    inp.check(len(part) == len(data), 'length of the data')
    inp.check_eq(part.data, data, 'data as given')
    inp.check(isinstance(part.data, str), 'data is a string')
    inp.check(len(part) == len(data), 'length of the data')


def named_file(inp, k, n):
    """Type and name of a file."""
    name, media = NAMES[k]
    d = inp.bytes('d', n)
    part = DataPart(inp.file(name, d))
    inp.check(part.headers == {'Content-Location': name,
                               'Content-Type': (media, {})},
              'type and name of the file')
    inp.check(len(part) == n, 'length of the file')
    inp.check_eq(part.data, d, 'data of the file')
    inp.check(len(part) == n, 'length of the file')
    other = DataPart()
    inp.check(other.headers == {'Content-Type':
                                ('application/octet-stream', {})},
              'other parts have headers of their own')
    inp.check(len(other) == 0 and other.data == '', 'an empty part')
