From 4805489f3b0579e789e17fcd85cf0967fbe87779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 01/34] fix: build well-formed user data for concatenated 8-bit
 messages

---
 messaging/sms/submit.py | 5 +++--
 messaging/utils.py      | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index e426f13..3c4ba47 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -309,10 +309,11 @@ class SmsSubmit(SmsBase):
         for i, msg in enumerate(msgs):
             i += 1
             total_parts = len(msgs)
-            if limit == consts.SEVENBIT_SIZE:
+            if limit != consts.UCS2_SIZE:
                 udh = (chr(udh_len) + chr(mid) + chr(data_len) +
                        chr(sms_ref) + chr(total_parts) + chr(i))
-                padding = " "
+                # septet alignment after the user data header
+                padding = " " if limit == consts.SEVENBIT_SIZE else ""
             else:
                 udh = (unichr(int("%04x" % ((udh_len << 8) | mid), 16)) +
                        unichr(int("%04x" % ((data_len << 8) | sms_ref), 16)) +
diff --git a/messaging/utils.py b/messaging/utils.py
index 1456d79..9f9ea5d 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -150,7 +150,7 @@ def pack_8bits_to_8bit(message, udh=None):
         text = udh + text
 
     mlen = len(text)
-    message = chr(mlen) + message
+    message = chr(mlen) + text
     return encode_str(message)
 
 
-- 
2.43.0


From c8ed5f3d158f7ed10ee4e928bac5bb3b7d5eb7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 02/34] fix: mark 8-bit application port addresses as such

---
 messaging/sms/udh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/sms/udh.py b/messaging/sms/udh.py
index eecfa23..fb9f71a 100644
--- a/messaging/sms/udh.py
+++ b/messaging/sms/udh.py
@@ -68,7 +68,7 @@ class UserDataHeader(object):
             elif iei == 0x04:
                 # process App port addressing 8bit
                 dest_port, orig_port = ie_data
-                udh.ports = PortAddress(dest_port, orig_port, False)
+                udh.ports = PortAddress(dest_port, orig_port, True)
 
             elif iei == 0x05:
                 # process App port addressing 16bit
-- 
2.43.0


From c315059aadc46b4b0b4e23bbfa33a3bff8e8b785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 03/34] fix: compute the offset of timezones west of Greenwich

---
 messaging/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/messaging/utils.py b/messaging/utils.py
index 9f9ea5d..8fb0535 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -30,7 +30,7 @@ class FixedOffset(tzinfo):
         if sign == 1:
             td = timedelta(minutes=minutes)
         elif sign == -1:
-            td = timedelta(days=-1, minutes=minutes)
+            td = timedelta(minutes=-minutes)
 
         return cls(td, name)
 
@@ -256,7 +256,7 @@ def datetime_to_absolute_validity(d, tzname='Unknown'):
     # compute offset
     offset = FixedOffset.from_timezone(n[-1], tzname).offset
     # one unit is 15 minutes
-    s = "%02d" % int(floor(offset.seconds / (60 * 15)))
+    s = "%02d" % int(floor(abs(offset).seconds / (60 * 15)))
 
     if offset.days < 0:
         # set MSB to 1
-- 
2.43.0


From bf4e7ee1c17b9132a15bb68fcf45f3f567ad5b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 04/34] fix: drop the fields of the previous PDU when a new one
 is set

---
 messaging/sms/deliver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index 5a9ba6b..de9ece0 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -67,6 +67,11 @@ class SmsDeliver(SmsBase):
 
         data = to_array(self._pdu)
 
+        # forget whatever a previous PDU left behind
+        self.udh = self.sr = self.type = self.date = None
+        self.number = self.text = None
+        self.fmt = self.dcs = self.pid = None
+
         # Service centre address
         smscl = data.pop(0)
         if smscl > 0:
-- 
2.43.0


From 1eb529bdfdd1181d1702f39e4f78b7cc4d20d97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 05/34] fix: no stray character after 7-character alphanumeric
 senders

---
 messaging/sms/deliver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index de9ece0..83310c8 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -104,6 +104,8 @@ class SmsDeliver(SmsBase):
             raise ValueError("Cannot decode a SmsSubmitReport message yet")
 
         sndlen = data.pop(0)
+        # septets that fit in that many semi-octets
+        sndchars = sndlen * 4 // 7
         if sndlen % 2:
             sndlen += 1
         sndlen = int(sndlen / 2.0)
@@ -111,7 +113,7 @@ class SmsDeliver(SmsBase):
         sndtype = (data.pop(0) >> 4) & 0x07
         if sndtype == consts.ALPHANUMERIC:
             # coded according to 3GPP TS 23.038 [9] GSM 7-bit default alphabet
-            sender = unpack_msg2(data[:sndlen]).decode("gsm0338")
+            sender = unpack_msg2(data[:sndlen])[:sndchars].decode("gsm0338")
         else:
             # Extract phone number of sender
             sender = swap_number(encode_bytes(data[:sndlen]))
-- 
2.43.0


From 7f4a2de0739400921f754a58c886184811717e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 06/34] fix: decode all eight bits of a uint8

---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 7aa1eae..a4b1576 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -331,7 +331,7 @@ class Decoder:
         :rtype: int
         """
         # Make the byte unsigned
-        return byte_iter.next() & 0xf
+        return byte_iter.next() & 0xff
 
     @staticmethod
     def decode_uint_var(byte_iter):
-- 
2.43.0


From 85f475299f6244451681dce9180d3d812999bb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 07/34] fix: encode long integers most significant octet first

---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index a4b1576..52ee20f 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1528,7 +1528,7 @@ class Encoder:
         # Encode the Multi-octect-integer
         while longInt > 0:
             byte = 0xff & longInt
-            encoded_long_int.append(byte)
+            encoded_long_int.insert(0, byte)
             longInt = longInt >> 8
 
         # Now add the SHort-length value, and make sure it's ok
-- 
2.43.0


From f6e1533f5e72d236cf5733ec3ec57701e93b9366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 08/34] fix: refuse to encode negative integers

---
 messaging/mms/wsp_pdu.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 52ee20f..eec4f6d 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1523,6 +1523,9 @@ class Encoder:
         if not isinstance(integer, int):
             raise EncodeError('<integer> must be of type "int"')
 
+        if integer < 0:
+            raise EncodeError('Cannot encode negative integer: %d' % integer)
+
         encoded_long_int = []
         longInt = integer
         # Encode the Multi-octect-integer
-- 
2.43.0


From a7de78c9b88fe0f06ca33ef04c50b5848d8e98ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 09/34] fix: count octets in the length of a general form
 content type

---
 messaging/mms/wsp_pdu.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index eec4f6d..1495340 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1616,7 +1616,7 @@ class Encoder:
         else:
             val = Encoder.encode_text_string(content_type)
 
-        return [val]
+        return val
 
     @staticmethod
     def encode_parameter(parameter_name, parameter_value, version='1.2'):
@@ -1955,8 +1955,11 @@ class Encoder:
         # Encode the actual content type
         encoded_media_type = Encoder.encode_media_type(media_type)
         # Encode all parameters
-        encoded_parameters = [Encoder.encode_parameter(name, parameters[name])
-                                    for name in parameters]
+        encoded_parameters = []
+        for name in parameters:
+            encoded_parameters.extend(
+                    Encoder.encode_parameter(name, parameters[name]))
+
 
         value_length = len(encoded_media_type) + len(encoded_parameters)
         encoded_value_length = Encoder.encode_value_length(value_length)
-- 
2.43.0


From ef7cbd1a8b3c7df828d318cb325e965fcc4f4b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 10/34] fix: decode No-value

---
 messaging/mms/wsp_pdu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 1495340..dcfdf44 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1186,8 +1186,8 @@ class Decoder:
         :return: No-value, which is 0x00
         :rtype: int
         """
-        byte_iter, local_iter = byte_iter.next()
-        if local_iter.next() != 0x00:
+        if byte_iter.preview() != 0x00:
+            byte_iter.reset_preview()
             raise DecodeError('Expected No-value')
 
         byte_iter.next()
-- 
2.43.0


From cbd2b154ced84d9b87f0d2d96c4ff33e974d5f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 11/34] fix: Any-charset is octet 128

---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index dcfdf44..11bd3f0 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1285,7 +1285,7 @@ class Decoder:
         # Look for the Any-charset value
         byte = byte_iter.preview()
         byte_iter.reset_preview()
-        if byte == 127:
+        if byte == 128:
             byte_iter.next()
             decoded_charset = '*'
         else:
-- 
2.43.0


From f52b16ba46907f84fc954ebae5be57b1dbfdac92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 12/34] fix: decode versions that carry no minor number

---
 messaging/mms/wsp_pdu.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 11bd3f0..5e6629f 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1138,6 +1138,9 @@ class Decoder:
             byteValue = Decoder.decode_short_integer(byte_iter)
             major = (byteValue & 0x70) >> 4
             minor = byteValue & 0x0f
+            if minor == 15:
+                # only the major version is present
+                return '%d' % major
             return '%d.%d' % (major, minor)
         except DecodeError:
             return Decoder.decode_text_string(byte_iter)
-- 
2.43.0


From 8b376c8466ec86d76719cb66d705f902f2059212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 13/34] fix: spelling of the multipart/byteranges content type

---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 5e6629f..c3bee9b 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -103,7 +103,7 @@ well_known_content_types = [
     'text/x-vCard', 'text/vnd.wap.wml',
     'text/vnd.wap.wmlscript', 'text/vnd.wap.wta-event',
     'multipart/*', 'multipart/mixed', 'multipart/form-data',
-    'multipart/byterantes', 'multipart/alternative',
+    'multipart/byteranges', 'multipart/alternative',
     'application/*', 'application/java-vm',
     'application/x-www-form-urlencoded',
     'application/x-hdmlc', 'application/vnd.wap.wmlc',
-- 
2.43.0


From d5b6bcfb9e5a77ed53acb63001d414b4c82b07f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:50 +0000
Subject: [PATCH 14/34] fix: use proper defaults for unknown status values

---
 messaging/mms/mms_pdu.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index ed44c46..b7459e8 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -531,7 +531,7 @@ class MMSDecoder(wsp_pdu.Decoder):
         byte = byte_iter.preview()
         byte_iter.next()
         # Return error unspecified if it couldn't be decoded
-        return response_status_values.get(byte, 0x81)
+        return response_status_values.get(byte, 'Error-unspecified')
 
     @staticmethod
     def decode_status_value(byte_iter):
@@ -557,7 +557,7 @@ class MMSDecoder(wsp_pdu.Decoder):
 
         byte = byte_iter.next()
         # Return an unrecognised state if it couldn't be decoded
-        return status_values.get(byte, 0x84)
+        return status_values.get(byte, 'Unrecognised')
 
     @staticmethod
     def decode_expiry_value(byte_iter):
@@ -993,4 +993,4 @@ class MMSEncoder(wsp_pdu.Encoder):
         }
 
         # Return an unrecognised state if it couldn't be decoded
-        return [status_values.get(status_value, 'Unrecognised')]
+        return [status_values.get(status_value, 0x84)]
-- 
2.43.0


From 21f67314688489cb56ec6d0df31dd6e7cb090054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:50 +0000
Subject: [PATCH 15/34] fix: skip the octet of an unknown message type

---
 messaging/mms/mms_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index b7459e8..ee734ae 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -447,7 +447,7 @@ class MMSDecoder(wsp_pdu.Decoder):
             byte_iter.next()
             return message_types[byte]
 
-        byte_iter.reset_preview()
+        byte_iter.next()
         return '<unknown>'
 
     @staticmethod
-- 
2.43.0


From 989141bdce66aff44650acc5fecd2884864a187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:50 +0000
Subject: [PATCH 16/34] fix: a Bcc address is enough to send a message

---
 messaging/mms/mms_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index ee734ae..b15380e 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -662,7 +662,7 @@ class MMSEncoder(wsp_pdu.Encoder):
         # what she is doing
         if headers_to_encode['Message-Type'] == 'm-send-req':
             found_dest_address = False
-            for address_type in ('To', 'Cc', 'Bc'):
+            for address_type in ('To', 'Cc', 'Bcc'):
                 if address_type in headers_to_encode:
                     found_dest_address = True
                     break
-- 
2.43.0


From 468ee4c4b8496da4c5e2d6a9b1de622812ff071e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:50 +0000
Subject: [PATCH 17/34] fix: encoding a message does not change its headers

---
 messaging/mms/mms_pdu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index b15380e..d13e7ef 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -627,7 +627,8 @@ class MMSEncoder(wsp_pdu.Encoder):
         # Create an array of 8-bit values
         message_header = array.array('B')
 
-        headers_to_encode = self._mms_message.headers
+        # a copy, the headers of the message are left alone
+        headers_to_encode = self._mms_message.headers.copy()
 
         # If the user added any of these to the message manually
         # (X- prefix) use those instead
-- 
2.43.0


From 58ad3df242fc157cf4a20d94eec073eb1be8a626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:50 +0000
Subject: [PATCH 18/34] fix: encode the data parts that belong to no page

---
 messaging/mms/mms_pdu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index d13e7ef..c7e81d6 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -778,6 +778,8 @@ class MMSEncoder(wsp_pdu.Encoder):
                 if part_tuple is not None:
                     parts.append(part_tuple[0])
 
+        parts.extend(self._mms_message._data_parts)
+
         for part in parts:
             name, val_type = part.headers['Content-Type']
             part_content_type = self.encode_content_type_value(name, val_type)
-- 
2.43.0


From abc1182e993f3b9e81348a3a22bedd7569da47a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:50 +0000
Subject: [PATCH 19/34] fix: decode the headers of a part with the WSP tables

---
 messaging/mms/mms_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index c7e81d6..08e99f0 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -194,7 +194,7 @@ class MMSDecoder(wsp_pdu.Decoder):
             # have been read
             while True:
                 try:
-                    hdr, value = self.decode_header(ct_iter)
+                    hdr, value = wsp_pdu.Decoder.decode_header(ct_iter)
                     headers[hdr] = value
                 except StopIteration:
                     break
-- 
2.43.0


From ef259db055552a2499c5d216a4af74c9e50b7aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:50 +0000
Subject: [PATCH 20/34] fix: decode empty encoded strings

---
 messaging/mms/mms_pdu.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 08e99f0..10c0135 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -310,6 +310,12 @@ class MMSDecoder(wsp_pdu.Decoder):
         :return: The decoded text string
         :rtype: str
         """
+        if byte_iter.preview() == 0:
+            # an empty Text-string
+            byte_iter.next()
+            return ''
+
+        byte_iter.reset_preview()
         try:
             # First try "Value-length Char-set Text-string"
             value_length = wsp_pdu.Decoder.decode_value_length(byte_iter)
-- 
2.43.0


From 4978170af720846f56414a241c6b9cceb852fdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:51 +0000
Subject: [PATCH 21/34] fix: list the data parts of messages that have pages

---
 messaging/mms/message.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 6cff8a0..0fbe09c 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -97,9 +97,11 @@ class MMSMessage:
         including data parts that were added to slides in this message"""
         parts = []
         if len(self._pages):
-            parts.append(self.smil())
-            for slide in self._mms_message._pages:
-                parts.extend(slide.data_parts())
+            smil_part = DataPart()
+            smil_part.set_data(self.smil(), 'application/smil')
+            parts.append(smil_part)
+            for slide in self._pages:
+                parts.extend([part[0] for part in slide.data_parts])
 
         parts.extend(self._data_parts)
         return parts
-- 
2.43.0


From 6a9958c11b0fef2f4ba79eeace6036ba3f800781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:51 +0000
Subject: [PATCH 22/34] fix: pages with audio and no text

---
 messaging/mms/message.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 0fbe09c..7edf8b3 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -203,7 +203,6 @@ class MMSMessage:
                     audio_node.setAttribute('begin', str(begin))
                     audio_node.setAttribute('end', str(end))
 
-                par_node.appendChild(text_node)
                 par_node.appendChild(audio_node)
 
             body_node.appendChild(par_node)
-- 
2.43.0


From 88e322bd909144d2b7c45104749341f3586d23d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:20 +0000
Subject: [PATCH 23/34] fix: the quotation mark is no token character

Decoder.decode_text_value tries a token before a quoted string, and took
the start of every quoted string for a token.
---
 messaging/mms/wsp_pdu.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index c3bee9b..c1f00b5 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -520,8 +520,8 @@ class Decoder:
         :return: The token string if successful, otherwise the read byte
         :rtype: str or int
         """
-        separators = (11, 32, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64, 91,
-                      92, 93, 123, 125)
+        separators = (11, 32, 34, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64,
+                      91, 92, 93, 123, 125)
         token = ''
         byte = byte_iter.preview()
         if byte <= 31 or byte in separators:
@@ -1705,7 +1705,7 @@ class Encoder:
         :return: The encoded token string, as a list of byte values
         :rtype: list
         """
-        separators = (11, 32, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64,
+        separators = (11, 32, 34, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64,
                       91, 92, 93, 123, 125)
         # Sanity check
         for char in separators:
-- 
2.43.0


From aabdb89edea9c8e3e124ab707331b9fb6434f3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:20 +0000
Subject: [PATCH 24/34] fix: refuse control characters in tokens

---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index c1f00b5..976960a 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1708,7 +1708,7 @@ class Encoder:
         separators = (11, 32, 34, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64,
                       91, 92, 93, 123, 125)
         # Sanity check
-        for char in separators:
+        for char in range(32) + list(separators):
             if chr(char) in text:
                 raise EncodeError('Char "%s" in text string; cannot '
                                   'encode as Token-text' % chr(char))
-- 
2.43.0


From 705614a030fa56bd98361ab1411db94bb03fa1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:20 +0000
Subject: [PATCH 25/34] fix: encode untyped parameters that are no token as
 quoted strings

A text string with a separator was decoded as a shorter token.
---
 messaging/mms/wsp_pdu.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 976960a..9decf3e 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1687,7 +1687,11 @@ class Encoder:
             try:
                 value = Encoder.encode_integer_value(parameter_value)
             except EncodeError:
-                value = Encoder.encode_text_string(parameter_value)
+                # Text-value, a Token-text if possible or a Quoted-string
+                try:
+                    value = Encoder.encode_token_text(parameter_value)
+                except EncodeError:
+                    value = [34] + Encoder.encode_text_string(parameter_value)
 
             encoded_parameter.extend(value)
 
-- 
2.43.0


From 340a37ab84b841c6db6cf81f59def1b064aa9b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:20 +0000
Subject: [PATCH 26/34] fix: a long integer has at least one octet, also when
 it is zero

---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 9decf3e..265ac96 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1532,7 +1532,7 @@ class Encoder:
         encoded_long_int = []
         longInt = integer
         # Encode the Multi-octect-integer
-        while longInt > 0:
+        while longInt > 0 or not encoded_long_int:
             byte = 0xff & longInt
             encoded_long_int.insert(0, byte)
             longInt = longInt >> 8
-- 
2.43.0


From 625918feade7215dd9035f3dacce0c10160390f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:46 +0000
Subject: [PATCH 27/34] fix: encode versions of more than two numbers as text

They were encoded as nothing at all.
---
 messaging/mms/wsp_pdu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 265ac96..ca353b3 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1571,7 +1571,9 @@ class Encoder:
         encoded_version_val = []
         # First try short-integer encoding
         try:
-            if len(version.split('.')) <= 2:
+            if len(version.split('.')) > 2:
+                raise ValueError('Only major and minor version fit')
+            else:
                 major_version = int(version.split('.')[0])
                 if major_version < 1 or major_version > 7:
                     raise ValueError('Major version must be in range 1-7')
-- 
2.43.0


From 761ffc8ab165ab57ef761919696c9347b0022d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:18 +0000
Subject: [PATCH 28/34] fix: look at the first octet of headers without MMS
 field name

The preview of decode_mms_header was not undone, so the WSP decoder took
the second octet for the first.
---
 messaging/mms/mms_pdu.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 10c0135..9c5a39e 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -266,6 +266,7 @@ class MMSDecoder(wsp_pdu.Decoder):
         # Get the MMS-field-name
         mms_field_name = ''
         preview = byte_iter.preview()
+        byte_iter.reset_preview()
         byte = wsp_pdu.Decoder.decode_short_integer_from_byte(preview)
 
         if byte in mms_field_names:
-- 
2.43.0


From b839ee9b9df7aba7d72c36457e7d0a38e5ef2abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:54 +0000
Subject: [PATCH 29/34] fix: decode relative delivery times in the short form

---
 messaging/mms/mms_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 9c5a39e..97e7408 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -364,7 +364,7 @@ class MMSDecoder(wsp_pdu.Decoder):
     def decode_delivery_time_value(byte_iter):
         value_length = wsp_pdu.Decoder.decode_value_length(byte_iter)
         token = byte_iter.next()
-        value = wsp_pdu.Decoder.decode_long_integer(byte_iter)
+        value = wsp_pdu.Decoder.decode_integer_value(byte_iter)
         if token == 128:
             token_type = 'absolute'
         elif token == 129:
-- 
2.43.0


From 835b6f88859ad9abd88fc0ea606becb3622e6d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 30/34] fix: to_file leaves the file alone when the message
 cannot be encoded

The file was emptied before the message was encoded: an error lost what it
held, and a message with a part that comes from that file lost its data.
---
 messaging/mms/message.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 7edf8b3..10bc604 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -235,8 +235,11 @@ class MMSMessage:
         :rtype array.array('B')
         :return: The binary-encode MMS data, as an array of bytes
         """
+        # encode first: ``filename`` is left alone if that fails, and it may
+        # be the file of one of the parts
+        data = self.encode()
         with open(filename, 'wb') as f:
-            self.encode().tofile(f)
+            data.tofile(f)
 
     @staticmethod
     def from_data(data):
-- 
2.43.0


From 1a420fe468dcd6d84b58d027e4ac8828184d48ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 31/34] fix: the length of a data part is that of its data

The data of a file is read once, but its length was asked of the file each
time, so a part whose file had changed since announced a wrong length.
---
 messaging/mms/message.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 10bc604..7556be3 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -538,10 +538,7 @@ class DataPart(object):
 
     def __len__(self):
         """Provides the length of the data encapsulated by this object"""
-        if self._filename is not None:
-            return int(os.stat(self._filename)[6])
-        else:
-            return len(self.data)
+        return len(self.data)
 
     @property
     def data(self):
-- 
2.43.0


From 931177432e3bf360a5d6b2deed85461388c7f37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 32/34] fix: Accept values in the general form end where their
 length says

The length was ignored: parameters of the media range were read as further
headers, the octet behind a value without parameters was taken for a
Q-token, and a value at the end of the data was an error.
---
 messaging/mms/wsp_pdu.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index ca353b3..bf3db75 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1199,8 +1199,7 @@ class Decoder:
     @staticmethod
     def decode_accept_value(byte_iter):
         """
-        most of these things are currently decoded, but discarded (e.g
-        accept-parameters); we only return the media type
+        the parameters are currently discarded; we only return the media type
 
         From [5], section 8.4.2.7::
 
@@ -1222,22 +1221,20 @@ class Decoder:
         except DecodeError:
             # ...now try Accept-general-form
             value_length = Decoder.decode_value_length(byte_iter)
+
+            # The value ends after <value_length> octets, whatever follows
+            accept_bytes = array.array('B')
+            for i in xrange(value_length):
+                accept_bytes.append(byte_iter.next())
+
+            accept_iter = PreviewIterator(accept_bytes)
             try:
-                media = Decoder.decode_well_known_media(byte_iter)
+                media = Decoder.decode_well_known_media(accept_iter)
             except DecodeError:
-                media = Decoder.decode_extension_media(byte_iter)
+                media = Decoder.decode_extension_media(accept_iter)
 
-            # Check for the Q-Token (to see if there are Accept-parameters)
-            if byte_iter.preview() == 128:
-                byte_iter.next()
-                q_value = Decoder.decode_q_value(byte_iter)
-                try:
-                    accept_extension = Decoder.decode_parameter(byte_iter)
-                except DecodeError:
-                    # Just set an empty iterable
-                    accept_extension = []
-
-            byte_iter.reset_preview()
+            # The parameters of the media range and the Accept-parameters
+            # are the rest of these octets, they are discarded
             accept_value = media
 
         return accept_value
-- 
2.43.0


From d84d8f97803b0f8b2b3942fac61e7285774ea533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 33/34] fix: octets behind the user data are not part of the
 text

The text of 8-bit and UCS2 messages went on to the end of the PDU, whatever
the length of the user data said.
---
 messaging/sms/deliver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index 83310c8..aa67583 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -163,7 +163,9 @@ class SmsDeliver(SmsBase):
     def _process_message(self, data):
         # Now get message body
         msgl = data.pop(0)
-        msg = encode_bytes(data[:msgl])
+        # whatever follows the user data is not part of it
+        data = data[:msgl]
+        msg = encode_bytes(data)
         # check for header
         headlen = ud_len = 0
 
-- 
2.43.0


From 074f3b7b82e13f2776b2d067889b967fec12fe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 34/34] fix: alphabet of received messages with a message
 waiting indication

---
 messaging/sms/deliver.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index aa67583..d191a2b 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -127,7 +127,14 @@ class SmsDeliver(SmsBase):
         self.pid = data.pop(0)
         # 1 byte TP-DCS (Data Coding Scheme)
         self.dcs = data.pop(0)
-        if self.dcs & (0x04 | 0x08) == 0:
+        group = self.dcs & 0xf0
+        if group == 0xc0 or group == 0xd0:
+            # message waiting, default alphabet
+            self.fmt = 0x00
+        elif group == 0xe0:
+            # message waiting, UCS2
+            self.fmt = 0x08
+        elif self.dcs & (0x04 | 0x08) == 0:
             self.fmt = 0x00
         elif self.dcs & 0x04:
             self.fmt = 0x04
-- 
2.43.0

