"""What the WSP and MMS standards assign (WAP-230 tables 38-42, WAP-209)."""
from datetime import datetime, timedelta

SEP = [34, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64, 91, 92, 93, 123, 125,
       32]
TOKEN = [x for x in range(33, 127) if x not in SEP]

MEDIA = [
    '*/*', 'text/*', 'text/html', 'text/plain', 'text/x-hdml',
    'text/x-ttml', 'text/x-vCalendar', 'text/x-vCard', 'text/vnd.wap.wml',
    'text/vnd.wap.wmlscript', 'text/vnd.wap.wta-event', 'multipart/*',
    'multipart/mixed', 'multipart/form-data', 'multipart/byteranges',
    'multipart/alternative', 'application/*', 'application/java-vm',
    'application/x-www-form-urlencoded', 'application/x-hdmlc',
    'application/vnd.wap.wmlc', 'application/vnd.wap.wmlscriptc',
    'application/vnd.wap.wta-eventc', 'application/vnd.wap.uaprof',
    'application/vnd.wap.wtls-ca-certificate',
    'application/vnd.wap.wtls-user-certificate',
    'application/x-x509-ca-cert', 'application/x-x509-user-cert',
    'image/*', 'image/gif', 'image/jpeg', 'image/tiff', 'image/png',
    'image/vnd.wap.wbmp', 'application/vnd.wap.multipart.*',
    'application/vnd.wap.multipart.mixed',
    'application/vnd.wap.multipart.form-data',
    'application/vnd.wap.multipart.byteranges',
    'application/vnd.wap.multipart.alternative', 'application/xml',
    'text/xml', 'application/vnd.wap.wbxml',
    'application/x-x968-cross-cert', 'application/x-x968-ca-cert',
    'application/x-x968-user-cert', 'text/vnd.wap.si',
    'application/vnd.wap.sic', 'text/vnd.wap.sl', 'application/vnd.wap.slc',
    'text/vnd.wap.co', 'application/vnd.wap.coc',
    'application/vnd.wap.multipart.related', 'application/vnd.wap.sia',
    'text/vnd.wap.connectivity-xml',
    'application/vnd.wap.connectivity-wbxml', 'application/pkcs7-mime',
    'application/vnd.wap.hashed-certificate',
    'application/vnd.wap.signed-certificate',
    'application/vnd.wap.cert-response', 'application/xhtml+xml',
    'application/wml+xml', 'text/css', 'application/vnd.wap.mms-message',
    'application/vnd.wap.rollover-certificate',
    'application/vnd.wap.locc+wbxml', 'application/vnd.wap.loc+xml',
    'application/vnd.syncml.dm+wbxml', 'application/vnd.syncml.dm+xml',
    'application/vnd.syncml.notification', 'application/vnd.wap.xhtml+xml',
    'application/vnd.wv.csp.cir', 'application/vnd.oma.dd+xml',
    'application/vnd.oma.drm.message', 'application/vnd.oma.drm.content',
    'application/vnd.oma.drm.rights+xml',
    'application/vnd.oma.drm.rights+wbxml',
]

CHARSETS = [
    (0x07EA, 'big5'), (0x03E8, 'iso-10646-ucs-2'), (4, 'iso-8859-1'),
    (5, 'iso-8859-2'), (6, 'iso-8859-3'), (7, 'iso-8859-4'),
    (8, 'iso-8859-5'), (9, 'iso-8859-6'), (10, 'iso-8859-7'),
    (11, 'iso-8859-8'), (12, 'iso-8859-9'), (17, 'shift_JIS'),
    (3, 'us-ascii'), (0x6A, 'utf-8')]

FIELDS = [
    'Accept', 'Accept-Charset', 'Accept-Encoding', 'Accept-Language',
    'Accept-Ranges', 'Age', 'Allow', 'Authorization', 'Cache-Control',
    'Connection', 'Content-Base', 'Content-Encoding', 'Content-Language',
    'Content-Length', 'Content-Location', 'Content-MD5', 'Content-Range',
    'Content-Type', 'Date', 'Etag', 'Expires', 'From', 'Host',
    'If-Modified-Since', 'If-Match', 'If-None-Match', 'If-Range',
    'If-Unmodified-Since', 'Location', 'Last-Modified', 'Max-Forwards',
    'Pragma', 'Proxy-Authenticate', 'Proxy-Authorization', 'Public',
    'Range', 'Referer', 'Retry-After', 'Server', 'Transfer-Encoding',
    'Upgrade', 'User-Agent', 'Vary', 'Via', 'Warning', 'WWW-Authenticate',
    'Content-Disposition', 'X-Wap-Application-Id', 'X-Wap-Content-URI',
    'X-Wap-Initiator-URI', 'Accept-Application', 'Bearer-Indication',
    'Push-Flag', 'Profile', 'Profile-Diff', 'Profile-Warning', 'Expect',
    'TE', 'Trailer', 'Accept-Charset', 'Accept-Encoding', 'Cache-Control',
    'Content-Range', 'X-Wap-Tod', 'Content-ID', 'Set-Cookie', 'Cookie',
    'Encoding-Version', 'Profile-Warning', 'Content-Disposition',
    'X-WAP-Security', 'Cache-Control']
FIELDS_OF = {'1.1': 47, '1.2': 56, '1.3': 68, '1.4': 72}

PARAMS = [
    (0x00, 'Q', 1), (0x01, 'Charset', 1), (0x02, 'Level', 1),
    (0x03, 'Type', 1), (0x05, 'Name', 1), (0x06, 'Filename', 1),
    (0x07, 'Differences', 1), (0x08, 'Padding', 1), (0x09, 'Type', 2),
    (0x0a, 'Start', 2), (0x0b, 'Start-info', 2), (0x0c, 'Comment', 3),
    (0x0d, 'Domain', 3), (0x0e, 'Max-Age', 3), (0x0f, 'Path', 3),
    (0x10, 'Secure', 3), (0x11, 'SEC', 4), (0x12, 'MAC', 4),
    (0x13, 'Creation-date', 4), (0x14, 'Modification-date', 4),
    (0x15, 'Read-date', 4), (0x16, 'Size', 4), (0x17, 'Name', 4),
    (0x18, 'Filename', 4), (0x19, 'Start', 4), (0x1a, 'Start-info', 4),
    (0x1b, 'Comment', 4), (0x1c, 'Domain', 4), (0x1d, 'Path', 4)]


def params(version):
    minor = int(version[2])
    return dict([(n, name) for n, name, since in PARAMS
                 if since <= minor])


def uintvar(v):
    out = [v & 127]
    v >>= 7
    while v > 0:
        out = [128 | (v & 127)] + out
        v >>= 7
    return out


def at(v):
    """The naive time v seconds after the beginning of 1970."""
    return datetime(1970, 1, 1) + timedelta(seconds=v)
