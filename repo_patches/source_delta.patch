From 3539a7a5789a98ec7daeeb9674249fe48de96b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 01/48] fix: write the user data header of multipart 8-bit and
 UCS2 messages

The 8-bit packer counted the header in the length but left it out of the
PDU, and building the header from 16-bit characters fails for part counts
that fall in the surrogate range.
---
 messaging/sms/submit.py |  7 ++-----
 messaging/utils.py      | 22 +++++++---------------
 2 files changed, 9 insertions(+), 20 deletions(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index e426f13..652a2d4 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -309,14 +309,11 @@ class SmsSubmit(SmsBase):
         for i, msg in enumerate(msgs):
             i += 1
             total_parts = len(msgs)
+            udh = (chr(udh_len) + chr(mid) + chr(data_len) +
+                   chr(sms_ref) + chr(total_parts) + chr(i))
             if limit == consts.SEVENBIT_SIZE:
-                udh = (chr(udh_len) + chr(mid) + chr(data_len) +
-                       chr(sms_ref) + chr(total_parts) + chr(i))
                 padding = " "
             else:
-                udh = (unichr(int("%04x" % ((udh_len << 8) | mid), 16)) +
-                       unichr(int("%04x" % ((data_len << 8) | sms_ref), 16)) +
-                       unichr(int("%04x" % ((total_parts << 8) | i), 16)))
                 padding = ""
 
             pdu_msgs.append(packing_func(padding + msg, udh))
diff --git a/messaging/utils.py b/messaging/utils.py
index 1456d79..1885425 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -145,28 +145,20 @@ def pack_8bits_to_7bits(message, udh=None):
 
 
 def pack_8bits_to_8bit(message, udh=None):
-    text = message
-    if udh is not None:
-        text = udh + text
-
-    mlen = len(text)
-    message = chr(mlen) + message
-    return encode_str(message)
+    # encode each field on its own, message might be a unicode object
+    header = '' if udh is None else udh
+    mlen = len(header) + len(message)
+    return encode_str(chr(mlen)) + encode_str(header) + encode_str(message)
 
 
 def pack_8bits_to_ucs2(message, udh=None):
     # XXX: This does not control the size respect to UDH
-    text = message
-    nmesg = ''
-
-    if udh is not None:
-        text = udh + text
+    nmesg = '' if udh is None else udh
 
-    for n in text:
+    for n in message:
         nmesg += chr(ord(n) >> 8) + chr(ord(n) & 0xFF)
 
-    mlen = len(text) * 2
-    message = chr(mlen) + nmesg
+    message = chr(len(nmesg)) + nmesg
     return encode_str(message)
 
 
-- 
2.43.0


From 1a3a9c2c34fd8add06b9daa8f3962fed7248efca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 02/48] fix: only GSM-7 text has escape sequences to keep
 together when splitting

---
 messaging/sms/submit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index 652a2d4..c5a3a10 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -290,7 +290,7 @@ class SmsSubmit(SmsBase):
         pi, pe = 0, len_without_udh
 
         while pi < total_len:
-            if text[pi:pe][-1] == '\x1b':
+            if self.fmt == 0x00 and text[pi:pe][-1] == '\x1b':
                 pe -= 1
 
             msgs.append(text[pi:pe])
-- 
2.43.0


From 994eb1efae083b0704be464310a1759be2202213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 03/48] fix: do not read padding bits as an extra character of
 an alphanumeric sender

---
 messaging/sms/deliver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index 5a9ba6b..5529fab 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -99,6 +99,8 @@ class SmsDeliver(SmsBase):
             raise ValueError("Cannot decode a SmsSubmitReport message yet")
 
         sndlen = data.pop(0)
+        # number of whole septets in the useful semi-octets
+        sndseptets = sndlen * 4 // 7
         if sndlen % 2:
             sndlen += 1
         sndlen = int(sndlen / 2.0)
@@ -106,7 +108,7 @@ class SmsDeliver(SmsBase):
         sndtype = (data.pop(0) >> 4) & 0x07
         if sndtype == consts.ALPHANUMERIC:
             # coded according to 3GPP TS 23.038 [9] GSM 7-bit default alphabet
-            sender = unpack_msg2(data[:sndlen]).decode("gsm0338")
+            sender = unpack_msg2(data[:sndlen])[:sndseptets].decode("gsm0338")
         else:
             # Extract phone number of sender
             sender = swap_number(encode_bytes(data[:sndlen]))
-- 
2.43.0


From a7674d53e3d0b9bedf0b805b766dcfbfa87e6cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 04/48] fix: a zone west of UTC is minus its offset, not its
 offset minus one day

---
 messaging/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/messaging/utils.py b/messaging/utils.py
index 1885425..9bc5b1e 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -30,7 +30,7 @@ class FixedOffset(tzinfo):
         if sign == 1:
             td = timedelta(minutes=minutes)
         elif sign == -1:
-            td = timedelta(days=-1, minutes=minutes)
+            td = timedelta(minutes=-minutes)
 
         return cls(td, name)
 
@@ -248,9 +248,10 @@ def datetime_to_absolute_validity(d, tzname='Unknown'):
     # compute offset
     offset = FixedOffset.from_timezone(n[-1], tzname).offset
     # one unit is 15 minutes
-    s = "%02d" % int(floor(offset.seconds / (60 * 15)))
+    minutes = offset.days * 24 * 60 + offset.seconds // 60
+    s = "%02d" % (abs(minutes) // 15)
 
-    if offset.days < 0:
+    if minutes < 0:
         # set MSB to 1
         s = "%02x" % ((int(s[0]) << 4) | int(s[1]) | 0x80)
 
-- 
2.43.0


From f9a37ff7f1feb16f40c540667aef47952d6b3755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 05/48] fix: flag 8-bit application ports as eight_bits

---
 messaging/sms/udh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/sms/udh.py b/messaging/sms/udh.py
index eecfa23..fb9f71a 100644
--- a/messaging/sms/udh.py
+++ b/messaging/sms/udh.py
@@ -68,7 +68,7 @@ class UserDataHeader(object):
             elif iei == 0x04:
                 # process App port addressing 8bit
                 dest_port, orig_port = ie_data
-                udh.ports = PortAddress(dest_port, orig_port, False)
+                udh.ports = PortAddress(dest_port, orig_port, True)
 
             elif iei == 0x05:
                 # process App port addressing 16bit
-- 
2.43.0


From 27441c64dcc0247bcd5fd5897c4e507d3d504655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:22 +0000
Subject: [PATCH 06/48] fix: re-assigning SmsDeliver.pdu must not keep fields
 of the previous PDU

---
 messaging/sms/deliver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index 5529fab..51ca6ca 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -65,6 +65,11 @@ class SmsDeliver(SmsBase):
         # XXX: Should we keep the original PDU or the modified one?
         self._pdu = pdu
 
+        # forget whatever was decoded from a previous PDU
+        self.udh = self.number = self.text = self.fmt = self.dcs = None
+        self.pid = self.csca = self.type = None
+        self.date = self.mtype = self.sr = None
+
         data = to_array(self._pdu)
 
         # Service centre address
-- 
2.43.0


From e1e7acb24ecc004596093fb53fa0d136f90fbddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 07/48] fix: choose the alphabet from the coding group, not
 from two bits of the DCS

---
 messaging/sms/deliver.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index 51ca6ca..aa1183c 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -127,12 +127,20 @@ class SmsDeliver(SmsBase):
         self.pid = data.pop(0)
         # 1 byte TP-DCS (Data Coding Scheme)
         self.dcs = data.pop(0)
-        if self.dcs & (0x04 | 0x08) == 0:
-            self.fmt = 0x00
-        elif self.dcs & 0x04:
-            self.fmt = 0x04
-        elif self.dcs & 0x08:
+        # alphabet as per 3GPP TS 23.038 section 4
+        group = self.dcs >> 4
+        if group <= 0x07:
+            # general data coding, the 4th (reserved) alphabet is read as GSM-7
+            self.fmt = (0x00, 0x04, 0x08, 0x00)[(self.dcs >> 2) & 0x03]
+        elif group == 0x0e:
+            # message waiting indication in UCS2
             self.fmt = 0x08
+        elif group == 0x0f:
+            # data coding / message class
+            self.fmt = self.dcs & 0x04
+        else:
+            # message waiting indication in GSM-7 and reserved groups
+            self.fmt = 0x00
 
         datestr = ''
         # Get date stamp (sender's local time)
-- 
2.43.0


From 1c058817d2e3a8823b21aedbe5a796a08673d111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:47 +0000
Subject: [PATCH 08/48] fix: detect the format again when the text of a
 SmsSubmit changes

---
 messaging/sms/submit.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index c5a3a10..7b610c3 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -73,6 +73,13 @@ class SmsSubmit(SmsBase):
 
     klass = property(lambda self: self._klass, _set_klass)
 
+    def _set_fmt(self, fmt):
+        self._fmt = fmt
+        # without an explicit format, choose one for every text
+        self._detect_fmt = fmt is None
+
+    fmt = property(lambda self: self._fmt, _set_fmt)
+
     def to_pdu(self):
         """Returns a list of :class:`~messaging.pdu.Pdu` objects"""
         smsc_pdu = self._get_smsc_pdu()
@@ -203,11 +210,11 @@ class SmsSubmit(SmsBase):
 
     def _get_msg_pdu(self):
         # Data coding scheme
-        if self.fmt is None:
+        if self._detect_fmt:
             if is_gsm_text(self.text):
-                self.fmt = 0x00
+                self._fmt = 0x00
             else:
-                self.fmt = 0x08
+                self._fmt = 0x08
 
         self.dcs = self.fmt
 
-- 
2.43.0


From 66a2f7f625396239005402a6bff15fa2b6c7b463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:59 +0000
Subject: [PATCH 09/48] fix: refuse 8-bit text with characters that do not fit
 an octet

---
 messaging/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/messaging/utils.py b/messaging/utils.py
index 9bc5b1e..f9dde42 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -145,6 +145,9 @@ def pack_8bits_to_7bits(message, udh=None):
 
 
 def pack_8bits_to_8bit(message, udh=None):
+    if any(ord(n) > 0xff for n in message):
+        raise ValueError("Cannot encode %r as 8-bit data" % message)
+
     # encode each field on its own, message might be a unicode object
     header = '' if udh is None else udh
     mlen = len(header) + len(message)
-- 
2.43.0


From bb531c4f95b56acfaa291abc8d9205fbd2f3fc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:35 +0000
Subject: [PATCH 10/48] fix: refuse a PDU whose user data header is cut short

---
 messaging/sms/deliver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index aa1183c..0ceb5f8 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -177,6 +177,8 @@ class SmsDeliver(SmsBase):
 
         if self.mtype & 0x40:  # UDHI present
             ud_len = data.pop(0)
+            if ud_len > len(data):
+                raise ValueError("The user data header is truncated")
             self.udh = UserDataHeader.from_bytes(data[:ud_len])
             headlen = (ud_len + 1) * 8
             if self.fmt == 0x00:
-- 
2.43.0


From 5a03090f1e0299993416aee7fadff53d0517a7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:46 +0000
Subject: [PATCH 11/48] fix: refuse a status report whose recipient is cut
 short

---
 messaging/sms/deliver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index 0ceb5f8..141b7e4 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -214,6 +214,8 @@ class SmsDeliver(SmsBase):
         sndlen = int(sndlen / 2.0)
 
         sndtype = data.pop(0)
+        if len(data) < sndlen:
+            raise ValueError("The recipient of the status report is truncated")
         recipient = swap_number(encode_bytes(data[:sndlen]))
         if (sndtype >> 4) & 0x07 == consts.INTERNATIONAL:
             recipient = '+%s' % recipient
-- 
2.43.0


From 8b40bc153919d782918350d8410d0df224c19c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 12/48] fix: refuse phone numbers that end with a newline

---
 messaging/sms/submit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index 7b610c3..340b629 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -14,7 +14,7 @@ from messaging.sms.base import SmsBase
 from messaging.sms.gsm0338 import is_gsm_text
 from messaging.sms.pdu import Pdu
 
-VALID_NUMBER = re.compile("^\+?\d{3,20}$")
+VALID_NUMBER = re.compile("^\+?\d{3,20}\Z")
 
 
 class SmsSubmit(SmsBase):
-- 
2.43.0


From 73814e629275998822e9f91bf8ca7e1fa18abc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:38 +0000
Subject: [PATCH 13/48] fix: encode long integers most significant octet first

---
 messaging/mms/wsp_pdu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 7aa1eae..54dd762 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1528,7 +1528,8 @@ class Encoder:
         # Encode the Multi-octect-integer
         while longInt > 0:
             byte = 0xff & longInt
-            encoded_long_int.append(byte)
+            # most significant octet first
+            encoded_long_int.insert(0, byte)
             longInt = longInt >> 8
 
         # Now add the SHort-length value, and make sure it's ok
-- 
2.43.0


From b33fcf804d8bca614e3bea9b5a30bc75f164bd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:49 +0000
Subject: [PATCH 14/48] fix: refuse negative numbers instead of encoding
 another number

---
 messaging/mms/wsp_pdu.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 54dd762..5534fc9 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1441,6 +1441,9 @@ class Encoder:
         :return: the binary-encoded uint_var, as a list of byte values
         :rtype: list
         """
+        if uint < 0:
+            raise EncodeError('Cannot encode a negative uintvar: %d' % uint)
+
         uint_var = [uint & 0x7f]
         # Since this is the lowest entry, we do not set the continue bit to 1
         uint = uint >> 7
@@ -1523,6 +1526,10 @@ class Encoder:
         if not isinstance(integer, int):
             raise EncodeError('<integer> must be of type "int"')
 
+        if integer < 0:
+            raise EncodeError('Cannot encode a negative Long-integer value: '
+                              '%d' % integer)
+
         encoded_long_int = []
         longInt = integer
         # Encode the Multi-octect-integer
-- 
2.43.0


From 85aad7e371a7de40d073418ac6826b29b52ee481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:59 +0000
Subject: [PATCH 15/48] fix: a long integer has at least one octet

---
 messaging/mms/wsp_pdu.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 5534fc9..f1ff51f 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1539,6 +1539,10 @@ class Encoder:
             encoded_long_int.insert(0, byte)
             longInt = longInt >> 8
 
+        # a Multi-octet-integer has at least one octet
+        if not encoded_long_int:
+            encoded_long_int.append(0)
+
         # Now add the SHort-length value, and make sure it's ok
         shortLength = len(encoded_long_int)
         if shortLength > 30:
-- 
2.43.0


From 02f1b175df70b0f1719258f4689033c06ba2c6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:10 +0000
Subject: [PATCH 16/48] fix: count the octets, not the parameters, in a content
 type's length

---
 messaging/mms/wsp_pdu.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index f1ff51f..00ae455 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1623,9 +1623,9 @@ class Encoder:
             val = Encoder.encode_short_integer(
                     well_known_content_types.index(content_type))
         else:
-            val = Encoder.encode_text_string(content_type)
+            val = Encoder.encode_extension_media(content_type)
 
-        return [val]
+        return val
 
     @staticmethod
     def encode_parameter(parameter_name, parameter_value, version='1.2'):
@@ -1964,8 +1964,10 @@ class Encoder:
         # Encode the actual content type
         encoded_media_type = Encoder.encode_media_type(media_type)
         # Encode all parameters
-        encoded_parameters = [Encoder.encode_parameter(name, parameters[name])
-                                    for name in parameters]
+        encoded_parameters = []
+        for name in parameters:
+            encoded_parameters.extend(
+                    Encoder.encode_parameter(name, parameters[name]))
 
         value_length = len(encoded_media_type) + len(encoded_parameters)
         encoded_value_length = Encoder.encode_value_length(value_length)
-- 
2.43.0


From f5579f886e857f131a3167f8393326a46a4d8330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:22 +0000
Subject: [PATCH 17/48] fix: encode versions like 1.2.4 as text and read a lone
 major version

---
 messaging/mms/wsp_pdu.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 00ae455..7040712 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1138,6 +1138,10 @@ class Decoder:
             byteValue = Decoder.decode_short_integer(byte_iter)
             major = (byteValue & 0x70) >> 4
             minor = byteValue & 0x0f
+            if minor == 15:
+                # there is only a major version
+                return '%d' % major
+
             return '%d.%d' % (major, minor)
         except DecodeError:
             return Decoder.decode_text_string(byte_iter)
@@ -1577,21 +1581,24 @@ class Encoder:
         encoded_version_val = []
         # First try short-integer encoding
         try:
-            if len(version.split('.')) <= 2:
-                major_version = int(version.split('.')[0])
-                if major_version < 1 or major_version > 7:
-                    raise ValueError('Major version must be in range 1-7')
-
-                major = major_version << 4
-                if len(version.split('.')) == 2:
-                    minor_version = int(version.split('.')[1])
-                    if minor_version < 0 or minor_version > 14:
-                        raise ValueError('Minor version must be in range 0-14')
-                else:
-                    minor_version = 15
-
-                minor = minor_version
-                encoded_version_val = Encoder.encode_short_integer(major | minor)
+            numbers = version.split('.')
+            if len(numbers) > 2 or numbers != [str(int(n)) for n in numbers]:
+                raise ValueError('Not a major.minor version')
+
+            major_version = int(numbers[0])
+            if major_version < 1 or major_version > 7:
+                raise ValueError('Major version must be in range 1-7')
+
+            major = major_version << 4
+            if len(numbers) == 2:
+                minor_version = int(numbers[1])
+                if minor_version < 0 or minor_version > 14:
+                    raise ValueError('Minor version must be in range 0-14')
+            else:
+                minor_version = 15
+
+            minor = minor_version
+            encoded_version_val = Encoder.encode_short_integer(major | minor)
         except:
             # The value couldn't be encoded as a short-integer; use
             # a text-string instead
-- 
2.43.0


From b7b24264b6400f157e7a6fb98b7fb971967823c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:35 +0000
Subject: [PATCH 18/48] fix: report unknown statuses by name like the known
 ones

---
 messaging/mms/mms_pdu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index ed44c46..d9c2764 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -531,7 +531,7 @@ class MMSDecoder(wsp_pdu.Decoder):
         byte = byte_iter.preview()
         byte_iter.next()
         # Return error unspecified if it couldn't be decoded
-        return response_status_values.get(byte, 0x81)
+        return response_status_values.get(byte, 'Error-unspecified')
 
     @staticmethod
     def decode_status_value(byte_iter):
@@ -557,7 +557,7 @@ class MMSDecoder(wsp_pdu.Decoder):
 
         byte = byte_iter.next()
         # Return an unrecognised state if it couldn't be decoded
-        return status_values.get(byte, 0x84)
+        return status_values.get(byte, 'Unrecognised')
 
     @staticmethod
     def decode_expiry_value(byte_iter):
-- 
2.43.0


From 128fd60b86549a4dc9e130c6eb6c60422698bb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:48 +0000
Subject: [PATCH 19/48] fix: skip the value of an unknown message type

---
 messaging/mms/mms_pdu.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index d9c2764..33ed848 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -442,13 +442,7 @@ class MMSDecoder(wsp_pdu.Decoder):
             0x86: 'm-delivery-ind',
         }
 
-        byte = byte_iter.preview()
-        if byte in message_types:
-            byte_iter.next()
-            return message_types[byte]
-
-        byte_iter.reset_preview()
-        return '<unknown>'
+        return message_types.get(byte_iter.next(), '<unknown>')
 
     @staticmethod
     def decode_priority_value(byte_iter):
-- 
2.43.0


From efcac74edb01c7bef466dc0d1aaefd4a849179db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:01 +0000
Subject: [PATCH 20/48] fix: encode the data parts of a message that are in no
 page

---
 messaging/mms/mms_pdu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 33ed848..374ceff 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -771,6 +771,8 @@ class MMSEncoder(wsp_pdu.Encoder):
                 if part_tuple is not None:
                     parts.append(part_tuple[0])
 
+        parts.extend(self._mms_message._data_parts)
+
         for part in parts:
             name, val_type = part.headers['Content-Type']
             part_content_type = self.encode_content_type_value(name, val_type)
-- 
2.43.0


From 10caa6d33d9a0b6fa93716178269081bd0027124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:13 +0000
Subject: [PATCH 21/48] fix: a page with audio must not repeat a text of this
 or another page

---
 messaging/mms/message.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 6cff8a0..f5a91aa 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -201,7 +201,6 @@ class MMSMessage:
                     audio_node.setAttribute('begin', str(begin))
                     audio_node.setAttribute('end', str(end))
 
-                par_node.appendChild(text_node)
                 par_node.appendChild(audio_node)
 
             body_node.appendChild(par_node)
-- 
2.43.0


From 01ff6b62e093378e6c83f7c214e18ab4da3e2b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:24 +0000
Subject: [PATCH 22/48] fix: a message with only blind copies is still a send
 request

---
 messaging/mms/mms_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 374ceff..187c1d6 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -656,7 +656,7 @@ class MMSEncoder(wsp_pdu.Encoder):
         # what she is doing
         if headers_to_encode['Message-Type'] == 'm-send-req':
             found_dest_address = False
-            for address_type in ('To', 'Cc', 'Bc'):
+            for address_type in ('To', 'Cc', 'Bcc'):
                 if address_type in headers_to_encode:
                     found_dest_address = True
                     break
-- 
2.43.0


From bc906aae2beb55ae455f109c664820b180c97fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:35 +0000
Subject: [PATCH 23/48] fix: encoding a message must not remove its headers

---
 messaging/mms/mms_pdu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 187c1d6..dcf3a7a 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -621,7 +621,8 @@ class MMSEncoder(wsp_pdu.Encoder):
         # Create an array of 8-bit values
         message_header = array.array('B')
 
-        headers_to_encode = self._mms_message.headers
+        # leave the headers of the message as they are
+        headers_to_encode = self._mms_message.headers.copy()
 
         # If the user added any of these to the message manually
         # (X- prefix) use those instead
-- 
2.43.0


From d40113cda99a1ebe20d7bfd0e19e634c7ec46a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:16 +0000
Subject: [PATCH 24/48] fix: do not leave the look-ahead moved when a header is
 no MMS header

---
 messaging/mms/mms_pdu.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index dcf3a7a..645fb0a 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -266,6 +266,7 @@ class MMSDecoder(wsp_pdu.Decoder):
         # Get the MMS-field-name
         mms_field_name = ''
         preview = byte_iter.preview()
+        byte_iter.reset_preview()
         byte = wsp_pdu.Decoder.decode_short_integer_from_byte(preview)
 
         if byte in mms_field_names:
-- 
2.43.0


From 12003ce7758117cf90cad6f11c15744b63783a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:27 +0000
Subject: [PATCH 25/48] fix: read the headers of a part as WSP headers

---
 messaging/mms/mms_pdu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 645fb0a..c5c83da 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -194,7 +194,9 @@ class MMSDecoder(wsp_pdu.Decoder):
             # have been read
             while True:
                 try:
-                    hdr, value = self.decode_header(ct_iter)
+                    # these are WSP headers, their numbers mean other
+                    # fields than those of the MMS headers
+                    hdr, value = wsp_pdu.Decoder.decode_header(ct_iter)
                     headers[hdr] = value
                 except StopIteration:
                     break
-- 
2.43.0


From e5eaf3faf2e6cb5a5b0c0fb8bb63cb289cb9e944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:38 +0000
Subject: [PATCH 26/48] fix: list the data parts of a message that has pages

---
 messaging/mms/message.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index f5a91aa..afbca61 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -97,9 +97,11 @@ class MMSMessage:
         including data parts that were added to slides in this message"""
         parts = []
         if len(self._pages):
-            parts.append(self.smil())
-            for slide in self._mms_message._pages:
-                parts.extend(slide.data_parts())
+            smil_part = DataPart()
+            smil_part.set_data(self.smil(), 'application/smil')
+            parts.append(smil_part)
+            for slide in self._pages:
+                parts.extend(slide.data_parts)
 
         parts.extend(self._data_parts)
         return parts
@@ -285,8 +287,8 @@ class MMSMessagePage:
     @property
     def data_parts(self):
         """Returns a list of the data parst in this slide"""
-        return [part for part in (self.image, self.audio, self.text)
-                    if part is not None]
+        return [item[0] for item in (self.image, self.audio, self.text)
+                    if item is not None]
 
     def number_of_parts(self):
         """
-- 
2.43.0


From 72f2ce90610816ba3f9500fb97d731015e430a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:50 +0000
Subject: [PATCH 27/48] fix: an empty text is not the length of a text with a
 charset

---
 messaging/mms/mms_pdu.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index c5c83da..ee7d704 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -316,6 +316,9 @@ class MMSDecoder(wsp_pdu.Decoder):
         try:
             # First try "Value-length Char-set Text-string"
             value_length = wsp_pdu.Decoder.decode_value_length(byte_iter)
+            if value_length == 0:
+                # this was the end of an empty Text-string
+                return ''
             # TODO: add proper support for charsets...
             try:
                 charset = wsp_pdu.Decoder.decode_well_known_charset(byte_iter)
-- 
2.43.0


From b88d39b470d399f2eff721ac43a85ad09da317c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:01 +0000
Subject: [PATCH 28/48] fix: a relative delivery time may be a short integer

---
 messaging/mms/mms_pdu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index ee7d704..169ddf9 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -363,11 +363,12 @@ class MMSDecoder(wsp_pdu.Decoder):
     def decode_delivery_time_value(byte_iter):
         value_length = wsp_pdu.Decoder.decode_value_length(byte_iter)
         token = byte_iter.next()
-        value = wsp_pdu.Decoder.decode_long_integer(byte_iter)
         if token == 128:
             token_type = 'absolute'
+            value = wsp_pdu.Decoder.decode_long_integer(byte_iter)
         elif token == 129:
             token_type = 'relative'
+            value = wsp_pdu.Decoder.decode_delta_seconds_value(byte_iter)
         else:
             raise wsp_pdu.DecodeError('Delivery-Time type token value is undefined'
                 ' (%s), should be either 128 or 129' % token)
-- 
2.43.0


From 75aac7faf3187debb9d13f7a7664f4aab620871d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:13 +0000
Subject: [PATCH 29/48] fix: the length of the push headers may take more than
 one octet

---
 messaging/sms/wap.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/messaging/sms/wap.py b/messaging/sms/wap.py
index 46611ab..4062968 100644
--- a/messaging/sms/wap.py
+++ b/messaging/sms/wap.py
@@ -20,10 +20,16 @@ def is_a_wap_push_notification(s):
 def extract_push_notification(s):
     data = array("B", s)
 
-    wap_push, offset = data[1:3]
+    wap_push = data[1]
     assert wap_push == 0x06
 
-    offset += 3
+    # the length of the push headers is an uintvar
+    pos, offset = 2, data[2] & 0x7f
+    while data[pos] & 0x80:
+        pos += 1
+        offset = offset << 7 | data[pos] & 0x7f
+
+    offset += pos + 1
     data = data[offset:]
 
     # XXX: Not all WAP pushes are MMS
-- 
2.43.0


From 3f8f2d23cdfb64bcbfc93bc02fb5b601c0a3b4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:24 +0000
Subject: [PATCH 30/48] fix: an uint8 has eight bits

---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 7040712..8291e5b 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -331,7 +331,7 @@ class Decoder:
         :rtype: int
         """
         # Make the byte unsigned
-        return byte_iter.next() & 0xf
+        return byte_iter.next() & 0xff
 
     @staticmethod
     def decode_uint_var(byte_iter):
-- 
2.43.0


From afe6f9c2e24504b8db6c33829e081eabeb281233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:36 +0000
Subject: [PATCH 31/48] fix: Any-charset is octet 128

---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 8291e5b..5c278e5 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1289,7 +1289,7 @@ class Decoder:
         # Look for the Any-charset value
         byte = byte_iter.preview()
         byte_iter.reset_preview()
-        if byte == 127:
+        if byte == 128:
             byte_iter.next()
             decoded_charset = '*'
         else:
-- 
2.43.0


From ef2e34e712a12e155d58df4f4570e7dd788d12c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:48 +0000
Subject: [PATCH 32/48] fix: decode No-value

---
 messaging/mms/wsp_pdu.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 5c278e5..583ff1b 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1190,8 +1190,9 @@ class Decoder:
         :return: No-value, which is 0x00
         :rtype: int
         """
-        byte_iter, local_iter = byte_iter.next()
-        if local_iter.next() != 0x00:
+        byte = byte_iter.preview()
+        byte_iter.reset_preview()
+        if byte != 0x00:
             raise DecodeError('Expected No-value')
 
         byte_iter.next()
-- 
2.43.0


From 2c11d4323bb582494e823a2ed01e87b71cfa247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:02 +0000
Subject: [PATCH 33/48] fix: quote texts that do not start like one, refuse
 those cut short by a NUL

---
 messaging/mms/wsp_pdu.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 583ff1b..b6fa266 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1473,7 +1473,14 @@ class Encoder:
                      specified Text-string, as a list of byte values
         :rtype: list
         """
+        if '\x00' in string:
+            raise EncodeError('A Text-string can not contain its terminator')
+
         encoded_string = [ord(c) for c in string]
+        if encoded_string and not 32 <= encoded_string[0] < 127:
+            # Quote character (octet 127): it is not the first octet of
+            # some other kind of value
+            encoded_string.insert(0, 127)
         encoded_string.append(0x00)
         return encoded_string
 
@@ -1946,10 +1953,10 @@ class Encoder:
             except:
                 raise EncodeError('Invalid Extension-media: Cannot convert '
                                   'value to text string')
-        char = media_value[0]
-        if ord(char) < 32 or ord(char) == 127:
+        char = media_value[:1]
+        if not char or ord(char) < 32 or ord(char) >= 127:
             raise EncodeError('Invalid Extension-media: TEXT starts with '
-                              'invalid character: %s' % ord(char))
+                              'invalid character: %r' % char)
 
         return Encoder.encode_text_string(media_value)
 
-- 
2.43.0


From 58d6ceac4e651813f9654d90e858827261d9d7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:00 +0000
Subject: [PATCH 34/48] fix: quote parameter values that are no token

---
 messaging/mms/wsp_pdu.py | 46 +++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index b6fa266..c17ad13 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -508,7 +508,13 @@ class Decoder:
         byte_iter.next()
         # CHECK: should the quotation chars be pre- and appended before
         # returning *technically* we should not check for quote characters.
-        return Decoder.decode_text_string(byte_iter)
+        quoted_string = ''
+        byte = byte_iter.next()
+        while byte != 0x00:
+            quoted_string += chr(byte)
+            byte = byte_iter.next()
+
+        return quoted_string
 
     @staticmethod
     def decode_token_text(byte_iter):
@@ -520,8 +526,8 @@ class Decoder:
         :return: The token string if successful, otherwise the read byte
         :rtype: str or int
         """
-        separators = (11, 32, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64, 91,
-                      92, 93, 123, 125)
+        separators = (9, 11, 32, 34, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63,
+                      64, 91, 92, 93, 123, 125)
         token = ''
         byte = byte_iter.preview()
         if byte <= 31 or byte in separators:
@@ -1708,7 +1714,7 @@ class Encoder:
             try:
                 value = Encoder.encode_integer_value(parameter_value)
             except EncodeError:
-                value = Encoder.encode_text_string(parameter_value)
+                value = Encoder.encode_text_value(parameter_value)
 
             encoded_parameter.extend(value)
 
@@ -1726,13 +1732,13 @@ class Encoder:
         :return: The encoded token string, as a list of byte values
         :rtype: list
         """
-        separators = (11, 32, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64,
-                      91, 92, 93, 123, 125)
+        separators = (9, 11, 32, 34, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63,
+                      64, 91, 92, 93, 123, 125)
         # Sanity check
-        for char in separators:
-            if chr(char) in text:
-                raise EncodeError('Char "%s" in text string; cannot '
-                                  'encode as Token-text' % chr(char))
+        for char in text:
+            if not 31 < ord(char) < 127 or ord(char) in separators:
+                raise EncodeError('Char %r in text string; cannot '
+                                  'encode as Token-text' % char)
 
         return Encoder.encode_text_string(text)
 
@@ -1766,8 +1772,24 @@ class Encoder:
 
     @staticmethod
     def encode_text_value(text):
-        """Stub for encoding Text-values; see :func:`encode_text_string`"""
-        return Encoder.encode_text_string(text)
+        """
+        Encodes a parameter Text-value
+
+        From [5], section 8.4.2.3::
+
+            Text-value = No-value | Token-text | Quoted-string
+        """
+        if not isinstance(text, basestring):
+            raise EncodeError('<text> must be a string')
+
+        try:
+            return Encoder.encode_token_text(text)
+        except EncodeError:
+            if '\x00' in text:
+                raise
+
+            # Quoted-string
+            return [34] + [ord(c) for c in text] + [0x00]
 
     @staticmethod
     def encode_no_value(value=None):
-- 
2.43.0


From 034babd31a1fe120e0009b062dbd6d77a9a6fda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:12 +0000
Subject: [PATCH 35/48] fix: a parameter without value is not the number 0

---
 messaging/mms/wsp_pdu.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index c17ad13..ce0236d 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -440,11 +440,14 @@ class Decoder:
         :return: The decoded long integer
         :rtype: int
         """
-        try:
-            shortLength = Decoder.decode_short_length(byte_iter)
-        except DecodeError:
+        byte = byte_iter.preview()
+        byte_iter.reset_preview()
+        # a Multi-octet-integer has 1 to 30 octets
+        if not 1 <= byte <= 30:
             raise DecodeError('short-length byte is invalid')
 
+        shortLength = Decoder.decode_short_length(byte_iter)
+
         longInt = 0
         # Decode the Multi-octect-integer
         for i in xrange(shortLength):
@@ -1181,6 +1184,7 @@ class Decoder:
                 return Decoder.decode_quoted_string(byte_iter)
             except DecodeError:
                 # Ok, so it's a "No-value"
+                Decoder.decode_no_value(byte_iter)
                 return ''
 
     @staticmethod
-- 
2.43.0


From 7eb54bc5d4f8e6d7bacba6ee2a5b598ced79547a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:24 +0000
Subject: [PATCH 36/48] fix: the value of a typed parameter may be a text

---
 messaging/mms/wsp_pdu.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index ce0236d..96dc28e 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -907,8 +907,10 @@ class Decoder:
         typed_value = ''
         try:
             typed_value = getattr(Decoder, 'decode_%s' % value_type)(byte_iter)
-        except DecodeError, msg:
-            raise DecodeError('Could not decode Typed-parameter: %s' % msg)
+        except DecodeError:
+            # If the value cannot be encoded using the expected type, it
+            # shall be encoded as text
+            typed_value = Decoder.decode_text_value(byte_iter)
         except:
             debug('A fatal error occurred, probably due to an '
                   'unimplemented decoding operation')
-- 
2.43.0


From 5a155b03c5f2e313040d15aab11dbf671bb704bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:36 +0000
Subject: [PATCH 37/48] fix: stay in front of numbers that are not assigned, as
 documented

---
 messaging/mms/wsp_pdu.py | 76 ++++++++++++++++++++++++++++------------
 1 file changed, 53 insertions(+), 23 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 96dc28e..9bb6481 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -697,6 +697,47 @@ class Decoder:
 
         return integer
 
+    @staticmethod
+    def decode_assigned_number(byte_iter, assigned):
+        """
+        Decodes the integer value pointed by ``byte_iter`` if it is ``assigned``
+
+        :param assigned: The numbers that have a meaning
+        :type assigned: a container
+
+        :raise DecodeError: The sequence of bytes starting at ``byte_iter``
+                            does not contain an integer value, or the number
+                            is not assigned. If this is raised, the iterator
+                            is not modified.
+
+        :return: The decoded integer value
+        :rtype: int
+        """
+        byte_iter.reset_preview()
+        byte = byte_iter.preview()
+        if byte & 0x80:
+            length, integer = 0, byte & 0x7f
+        elif 1 <= byte <= 30:
+            length, integer = byte, 0
+            try:
+                for i in xrange(length):
+                    integer = integer << 8 | byte_iter.preview()
+            except StopIteration:
+                byte_iter.reset_preview()
+                raise DecodeError('Not a complete integer value')
+        else:
+            byte_iter.reset_preview()
+            raise DecodeError('Not a valid integer value')
+
+        byte_iter.reset_preview()
+        if integer not in assigned:
+            raise DecodeError('The number %d is not assigned' % integer)
+
+        for i in xrange(length + 1):
+            byte_iter.next()
+
+        return integer
+
     @staticmethod
     def decode_content_type_value(byte_iter):
         """
@@ -762,16 +803,12 @@ class Decoder:
         :rtype: str
         """
         try:
-            value = Decoder.decode_integer_value(byte_iter)
-        except DecodeError:
-            raise DecodeError('Invalid well-known media: could not read '
-                              'integer value representing it')
+            value = Decoder.decode_assigned_number(
+                byte_iter, xrange(len(well_known_content_types)))
+        except DecodeError, msg:
+            raise DecodeError('Invalid well-known media: %s' % msg)
 
-        try:
-            return well_known_content_types[value]
-        except IndexError:
-            raise DecodeError('Invalid well-known media: could not '
-                              'find content type in table of assigned values')
+        return well_known_content_types[value]
 
     @staticmethod
     def decode_media_type(byte_iter):
@@ -991,22 +1028,15 @@ class Decoder:
                  the format (<parameter name>, <expected type>)
         :rtype: tuple
         """
-        parameter_name = expected_value = ''
-        try:
-            parameter_value = Decoder.decode_integer_value(byte_iter)
-        except DecodeError:
-            raise DecodeError('Invalid well-known parameter token: could '
-                              'not read integer value representing it')
-
         wk_params = get_well_known_parameters(version)
-        if parameter_value in wk_params:
-            parameter_name, expected_value = wk_params[parameter_value]
-        else:
-            #If this is reached, the parameter isn't a WSP well-known one
-            raise DecodeError('Invalid well-known parameter token: could '
-                              'not find in table of assigned numbers '
-                              '(encoding version %s)' % version)
+        try:
+            parameter_value = Decoder.decode_assigned_number(byte_iter,
+                                                             wk_params)
+        except DecodeError, msg:
+            raise DecodeError('Invalid well-known parameter token: %s '
+                              '(encoding version %s)' % (msg, version))
 
+        parameter_name, expected_value = wk_params[parameter_value]
         return parameter_name, expected_value
 
     #TODO: somehow this should be more dynamic; we need to know what type
-- 
2.43.0


From c18d576c03947f17968383652b30f28e01e37d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:28 +0000
Subject: [PATCH 38/48] fix: do not take what follows an unknown content type
 for the content type

---
 messaging/mms/wsp_pdu.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 9bb6481..07dfda8 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -848,17 +848,20 @@ class Decoder:
         :return: The decoded media type
         :rtype: str
         """
+        byte = byte_iter.preview()
+        byte_iter.reset_preview()
+        if byte & 0x80 and byte & 0x7f >= len(well_known_content_types):
+            # do not skip it, it is no content type
+            raise DecodeError('Invalid constrained media: could not '
+                              'find well-known content type')
+
         try:
             media_value = Decoder.decode_constrained_encoding(byte_iter)
         except DecodeError, msg:
             raise DecodeError('Invalid Constrained-media: %s' % msg)
 
         if isinstance(media_value, int):
-            try:
-                return well_known_content_types[media_value]
-            except IndexError:
-                raise DecodeError('Invalid constrained media: could not '
-                                  'find well-known content type')
+            return well_known_content_types[media_value]
 
         return media_value
 
-- 
2.43.0


From c01dd796962ac15b86ea9c872fadf0e0a1a3051b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:41 +0000
Subject: [PATCH 39/48] fix: an Accept value ends where its length says

---
 messaging/mms/wsp_pdu.py | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 07dfda8..b4bcdd0 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1269,23 +1269,10 @@ class Decoder:
         except DecodeError:
             # ...now try Accept-general-form
             value_length = Decoder.decode_value_length(byte_iter)
-            try:
-                media = Decoder.decode_well_known_media(byte_iter)
-            except DecodeError:
-                media = Decoder.decode_extension_media(byte_iter)
-
-            # Check for the Q-Token (to see if there are Accept-parameters)
-            if byte_iter.preview() == 128:
-                byte_iter.next()
-                q_value = Decoder.decode_q_value(byte_iter)
-                try:
-                    accept_extension = Decoder.decode_parameter(byte_iter)
-                except DecodeError:
-                    # Just set an empty iterable
-                    accept_extension = []
-
-            byte_iter.reset_preview()
-            accept_value = media
+            # the parameters, with or without Q-token, are discarded
+            value_iter = PreviewIterator([byte_iter.next() for i in
+                                          xrange(value_length)])
+            accept_value = Decoder.decode_media_type(value_iter)
 
         return accept_value
 
-- 
2.43.0


From 92995b1d8cffb3a571dc86d675b2ff98e1b84092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 40/48] fix: decode the Content-ID other encoders give a part

---
 messaging/mms/wsp_pdu.py | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index b4bcdd0..2a3113f 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -219,6 +219,9 @@ header_field_names = [
 # Temporary fix to allow different types of header field values to be
 # dynamically decoded
 header_field_encodings = {'Accept': 'accept_value', 'Pragma': 'pragma_value'}
+# fields of later encoding versions, that we only decode
+header_field_decodings = {'Content-ID': 'content_id_value'}
+header_field_decodings.update(header_field_encodings)
 
 
 def get_header_field_names(version='1.2'):
@@ -1276,6 +1279,22 @@ class Decoder:
 
         return accept_value
 
+    @staticmethod
+    def decode_content_id_value(byte_iter):
+        """
+        Decodes the Content-ID value pointed by ``byte_iter``
+
+        From [5], section 8.4.2.64::
+
+            Content-ID-value = Quoted-string
+
+        Some encoders send a Text-string.
+        """
+        try:
+            return Decoder.decode_quoted_string(byte_iter)
+        except DecodeError:
+            return Decoder.decode_text_string(byte_iter)
+
     @staticmethod
     def decode_pragma_value(byte_iter):
         """
@@ -1352,21 +1371,21 @@ class Decoder:
                  (<str:header_name>, <str:header_value>)
         :rtype: tuple
         """
-        field_value = Decoder.decode_short_integer(byte_iter)
-        hdr_fields = get_header_field_names()
-        # TODO: *technically* this can fail, but then we have already
-        # read a byte... should fix?
-        if field_value not in xrange(len(hdr_fields)):
-            raise DecodeError('Invalid Header Field value: %d' % field_value)
+        hdr_fields = get_header_field_names('1.4')
+        byte = byte_iter.preview()
+        byte_iter.reset_preview()
+        if byte & 0x80 and byte & 0x7f not in xrange(len(hdr_fields)):
+            raise DecodeError('Invalid Header Field value: %d' % (byte & 0x7f))
 
+        field_value = Decoder.decode_short_integer(byte_iter)
         field_name = hdr_fields[field_value]
 
         # TODO: make this flow better, and implement it in
         # decode_application_header also
         # Currently we decode most headers as text_strings, except
         # where we have a specific decoding algorithm implemented
-        if field_name in header_field_encodings:
-            wap_value_type = header_field_encodings[field_name]
+        if field_name in header_field_decodings:
+            wap_value_type = header_field_decodings[field_name]
             try:
                 decoded_value = getattr(Decoder,
                                        'decode_%s' % wap_value_type)(byte_iter)
-- 
2.43.0


From efa6769e1bb655e937a939136cd300baf44bda52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:04 +0000
Subject: [PATCH 41/48] fix: a medium without end is shown until the end of the
 page

---
 messaging/mms/message.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index afbca61..4c92aa2 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -162,7 +162,7 @@ class MMSMessage:
                 image_node.setAttribute('src', src)
                 image_node.setAttribute('region', 'Image')
                 if begin > 0 or end > 0:
-                    if end > page.duration:
+                    if end <= 0 or end > page.duration:
                         end = page.duration
 
                     image_node.setAttribute('begin', str(begin))
@@ -177,7 +177,7 @@ class MMSMessage:
                 text_node.setAttribute('src', src)
                 text_node.setAttribute('region', 'Text')
                 if begin > 0 or end > 0:
-                    if end > page.duration:
+                    if end <= 0 or end > page.duration:
                         end = page.duration
 
                     text_node.setAttribute('begin', str(begin))
@@ -197,7 +197,7 @@ class MMSMessage:
                 audio_node = smil_doc.createElement('audio')
                 audio_node.setAttribute('src', src)
                 if begin > 0 or end > 0:
-                    if end > page.duration:
+                    if end <= 0 or end > page.duration:
                         end = page.duration
 
                     audio_node.setAttribute('begin', str(begin))
-- 
2.43.0


From 08c187da35569c0033792c999951329feac4062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:15 +0000
Subject: [PATCH 42/48] fix: the length of a part is that of the data it
 delivers

---
 messaging/mms/message.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 4c92aa2..c0982cd 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -535,10 +535,7 @@ class DataPart(object):
 
     def __len__(self):
         """Provides the length of the data encapsulated by this object"""
-        if self._filename is not None:
-            return int(os.stat(self._filename)[6])
-        else:
-            return len(self.data)
+        return len(self.data)
 
     @property
     def data(self):
-- 
2.43.0


From 4a6274ce4e0e33de3e17c42d80e74ad1f4d78b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:29 +0000
Subject: [PATCH 43/48] fix: read the data of a part as binary

---
 messaging/mms/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index c0982cd..a95ba30 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -546,7 +546,7 @@ class DataPart(object):
             return self._data
 
         elif self._filename is not None:
-            with open(self._filename, 'r') as f:
+            with open(self._filename, 'rb') as f:
                 self._data = f.read()
             return self._data
 
-- 
2.43.0


From 36f01ef8b9b966db4bccf1193df58921205d6041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 44/48] fix: an empty string is no token

---
 messaging/mms/wsp_pdu.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 2a3113f..902af9a 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1780,6 +1780,9 @@ class Encoder:
         separators = (9, 11, 32, 34, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63,
                       64, 91, 92, 93, 123, 125)
         # Sanity check
+        if not text:
+            raise EncodeError('A token can not be empty')
+
         for char in text:
             if not 31 < ord(char) < 127 or ord(char) in separators:
                 raise EncodeError('Char %r in text string; cannot '
@@ -1827,6 +1830,9 @@ class Encoder:
         if not isinstance(text, basestring):
             raise EncodeError('<text> must be a string')
 
+        if not text:
+            return Encoder.encode_no_value()
+
         try:
             return Encoder.encode_token_text(text)
         except EncodeError:
-- 
2.43.0


From 24653be64cc78f1fc1e7b11a2606ddfce9e9ae0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:08 +0000
Subject: [PATCH 45/48] fix: SMIL times were written without unit (read as
 seconds) and page durations under a name SMIL does not have

---
 messaging/mms/message.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index a95ba30..d3637ee 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -146,7 +146,7 @@ class MMSMessage:
         # Add pages to body
         for page in self._pages:
             par_node = smil_doc.createElement('par')
-            par_node.setAttribute('duration', str(page.duration))
+            par_node.setAttribute('dur', '%dms' % page.duration)
             # Add the page content information
             if page.image is not None:
                 #TODO: catch unpack exception
@@ -165,8 +165,8 @@ class MMSMessage:
                     if end <= 0 or end > page.duration:
                         end = page.duration
 
-                    image_node.setAttribute('begin', str(begin))
-                    image_node.setAttribute('end', str(end))
+                    image_node.setAttribute('begin', '%dms' % begin)
+                    image_node.setAttribute('end', '%dms' % end)
 
                 par_node.appendChild(image_node)
 
@@ -180,8 +180,8 @@ class MMSMessage:
                     if end <= 0 or end > page.duration:
                         end = page.duration
 
-                    text_node.setAttribute('begin', str(begin))
-                    text_node.setAttribute('end', str(end))
+                    text_node.setAttribute('begin', '%dms' % begin)
+                    text_node.setAttribute('end', '%dms' % end)
 
                 par_node.appendChild(text_node)
 
@@ -200,8 +200,8 @@ class MMSMessage:
                     if end <= 0 or end > page.duration:
                         end = page.duration
 
-                    audio_node.setAttribute('begin', str(begin))
-                    audio_node.setAttribute('end', str(end))
+                    audio_node.setAttribute('begin', '%dms' % begin)
+                    audio_node.setAttribute('end', '%dms' % end)
 
                 par_node.appendChild(audio_node)
 
-- 
2.43.0


From 45c3b16c6ba94f881cb7f774d581edeb639f1ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 46/48] fix: keep the file when the message cannot be encoded

---
 messaging/mms/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index d3637ee..1d567ea 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -235,8 +235,9 @@ class MMSMessage:
         :rtype array.array('B')
         :return: The binary-encode MMS data, as an array of bytes
         """
+        data = self.encode()
         with open(filename, 'wb') as f:
-            self.encode().tofile(f)
+            data.tofile(f)
 
     @staticmethod
     def from_data(data):
-- 
2.43.0


From 2d318bb6a8d80dbfe44a210f33166bf71b9f88ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:53 +0000
Subject: [PATCH 47/48] fix: semi-octets above 9 in addresses are *, #, a, b
 and c

---
 messaging/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/messaging/utils.py b/messaging/utils.py
index f9dde42..0c97d2b 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -77,9 +77,13 @@ def swap(s):
     return what
 
 
+# semi-octets over 9 in an address (3GPP TS 23.040 section 9.1.2.3)
+SEMI_OCTETS = {'a': '*', 'b': '#', 'c': 'a', 'd': 'b', 'e': 'c'}
+
+
 def swap_number(n):
     data = swap(list(n.replace('f', '')))
-    return ''.join(data)
+    return ''.join([SEMI_OCTETS.get(c, c) for c in data])
 
 
 def clean_number(n):
-- 
2.43.0


From 248097a8b4054874c9d9cfc9df30e68195ead322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 48/48] fix: the text region of the SMIL lay outside of its
 layout

---
 messaging/mms/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 1d567ea..5856a03 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -127,7 +127,7 @@ class MMSMessage:
         layout_node.appendChild(root_layout_node)
 
         areas = (('Image', '0', '0', '176', '144'),
-                 ('Text', '176', '144', '176', '76'))
+                 ('Text', '0', '144', '176', '76'))
 
         for region_id, left, top, width, height in areas:
             region_node = smil_doc.createElement('region')
-- 
2.43.0

