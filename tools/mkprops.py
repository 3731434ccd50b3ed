import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None)))
S='messaging/sms/'; M='messaging/mms/'; U='messaging/utils.py'
p('C01','GSM 03.38 text codec is exact, context free and honours its error modes',
 'Encoding text with the "gsm0338" codec yields, character by character and independently of context, exactly the 3GPP TS 23.038 default-alphabet and escape-extension codes, and decoding is its exact inverse (0xA0 for an unknown or cut escape). Characters or bytes outside the alphabet raise UnicodeError in strict mode, are dropped in ignore mode, and become the documented look-alike or "?" in replace mode, never anything else. is_gsm_text(text) is true exactly when strict encoding succeeds.',
 ['inputs'],'every BMP character and every byte in every error mode; every ordered pair (and triples over the class representatives) of alphabet characters and of bytes',
 'Tests walk the table once, one character at a time, from the same table the code uses; context dependence (escape handling, cut escapes, mixtures of error modes) over all sequences is never reached.',
 [S+'gsm0338.py'],[('encode/decode tables and escape handling',S+'gsm0338.py: encode, decode'),('is_gsm_text',S+'gsm0338.py: is_gsm_text')],obs=['text.encode("gsm0338", errors)','bytes.decode("gsm0338", errors)','is_gsm_text'])
p('C02','Septet packing and hex/nibble helpers are lossless at every length',
 'Packing a string of septets into octets yields the 23.038 bit layout with the right length octet, with or without a user data header in front, and unpacking returns exactly the septets packed, for every length that fits one message. The 8-bit and UCS2 packers emit the length in octets followed by exactly the given data, and the nibble-swap and hex helpers are exact inverses of each other.',
 ['inputs'],'every length 0..160 (7-bit), 0..140 (8-bit), 0..70 (UCS2) times every septet/octet value at every position (single and adjacent-pair deviations), with and without a 6 octet UDH; every digit string up to a bound',
 'Carry bits between septets depend on length mod 8 and on position; tests pack a handful of short strings.',
 [U],[('pack_8bits_to_7bits/8bit/ucs2, unpack_msg, unpack_msg2',U),('swap, swap_number, encode_str, encode_bytes, to_array, to_bytes',U)],obs=['return values of messaging.utils functions'])
p('C03','A single-part SUBMIT PDU carries exactly the requested message',
 'For every combination of valid recipient, service centre, text, alphabet, class, protocol id, message reference, validity and status-report request that fits one SMS, to_pdu returns exactly one PDU (count 1, sequence 1, no user data header) that an independent 3GPP TS 23.040 parser decodes to exactly those requested values. The announced length is the number of TPDU octets after the service-centre prefix, the PDU is even-length upper-case hex, and with no explicit alphabet GSM-7 is chosen exactly when the whole text is representable, otherwise UCS2. An alphabet that does not exist is refused with ValueError.',
 ['inputs','configurations'],'all options of every attribute (every number length, text length, BMP character, pid, reference, class, validity form) with up to 2 (quick) / 3 (thorough) attributes away from their default at once, plus a reduced full cross product',
 'Tests compare about a dozen literal PDUs; interactions between options (prefix digits, odd lengths, class bits, validity flags) are not sampled.',
 [S+'submit.py',S+'pdu.py',U],[('PDU assembly',S+'submit.py: SmsSubmit.to_pdu and helpers'),('Pdu length and hex',S+'pdu.py: Pdu')],obs=['SmsSubmit.to_pdu()','Pdu.pdu/length/cnt/seq'])
p('C04','Long texts are segmented losslessly, minimally and with correct headers',
 'A text that does not fit one SMS becomes the fewest parts that fit 140 octets each without splitting an escape sequence or character, in order, all carrying the same concatenation reference, the true part count and sequence numbers 1..n in a well-formed 8-bit concatenation header, and every other field as requested. Removing the headers and joining the parts gives back exactly the text, in all three alphabets and up to 255 parts; a text needing more than 255 parts is refused.',
 ['inputs','configurations'],'every text length from the single-part limit across the 3rd/4th part boundary, two-septet characters at every position in a window around every part boundary and in every boundary pattern, every concatenation reference, and part counts 9..16, 99/100, 127..129, 200, 215..224, 254, 255, 256',
 'Tests have five literal multipart messages; boundary alignment of escapes, large part counts and 8-bit segmentation are unreached.',
 [S+'submit.py',S+'consts.py',U],[('segmentation',S+'submit.py: SmsSubmit._split_sms_message'),('packers with UDH',U)],obs=['SmsSubmit.to_pdu() on long texts'])
p('C05','A sent message survives the network and is read back identically',
 'If every PDU produced for a text is relayed by a conforming service centre (SUBMIT turned into DELIVER, user data and its header unchanged), then decoding the deliveries, grouping them by concatenation reference and ordering them by sequence number, whatever the arrival order and the interleaving with other messages that carry a different reference, gives back exactly the text, sender, protocol id and class/alphabet that were sent.',
 ['inputs','histories','configurations'],'every text length in the window of each part boundary, every alphabet, every BMP character; every arrival permutation of up to 4 parts and every interleaving of two concurrent multipart messages',
 'No existing test chains encoder and decoder; arrival orders and interleavings are never exercised.',
 [S+'submit.py',S+'deliver.py',S+'udh.py',U],[('encode',S+'submit.py: SmsSubmit'),('decode and concat attributes',S+'deliver.py: SmsDeliver')],obs=['SmsDeliver(...).text/number/data','udh.concat'])
p('C06','Relative validity is the longest representable period not over the request',
 'For every requested duration between 5 minutes and 63 weeks inclusive, the encoded relative validity octet denotes, under the 23.040 table, the largest representable period that does not exceed the request; longer requests give octets that never decrease. Durations outside that range raise ValueError and produce no PDU.',
 ['inputs'],'every second up to 25 hours, every minute up to 63 weeks, and every table boundary plus or minus one second and one microsecond, directly and through to_pdu',
 'Tests check under ten durations; the property is about every duration and about each of four table segments and their seams.',
 [U,S+'submit.py'],[('timedelta_to_relative_validity',U),('validity flags in the first octet',S+'submit.py')],obs=['timedelta_to_relative_validity','SmsSubmit.validity + to_pdu'])
p('C07','Absolute times and time zones are converted exactly both ways',
 'An absolute validity is encoded as the 7 octet timestamp of exactly that local time and zone offset, for every representable date and every quarter-hour offset from -19:45 to +19:45, with naive datetimes encoded as offset zero. A "+HHMM"/"-HHMM" zone string yields exactly that UTC offset, and a delivery timestamp (years 2000 to 2068) in any zone is reported as the exact UTC instant, independently of the machine\'s own zone.',
 ['inputs','configurations'],'every quarter-hour zone, every day of the years 2000..2099 bounds (leap days, month/year turns), every hour, minute and second value, several process time zones',
 'Tests use two or three zones and one or two dates.',
 [U,S+'deliver.py'],[('datetime_to_absolute_validity, FixedOffset',U),('TP-SCTS decoding',S+'deliver.py: SmsDeliver._set_pdu')],obs=['datetime_to_absolute_validity','FixedOffset.from_timezone','SmsDeliver.date'])
p('C08','Every well-formed DELIVER PDU is decoded field for field',
 'For every well-formed SMS-DELIVER built by an independent encoder (any service-centre prefix, any originator type and length, digits, * # a b c or alphanumeric, any protocol id, any alphabet, any user data header length and fill bits, upper or lower case hex), decoding reports exactly the originator, service centre, UTC date, protocol id, coding, alphabet, header and text that were encoded. A PDU of a type other than deliver and status report is refused.',
 ['inputs','configurations'],'every originator length 0..20 digits and 1..11 characters in every number type, every pid, every text length 0..160/140/70, every header length times text length that fits, all option pairs (quick) / triples (thorough)',
 'Tests decode about 15 captured PDUs.',
 [S+'deliver.py',S+'udh.py',U],[('DELIVER parser',S+'deliver.py: SmsDeliver')],obs=['SmsDeliver attributes and .data'])
p('C09','Every data coding scheme selects the alphabet the standard assigns',
 'For each of the 256 data coding scheme values that denote uncompressed text, a delivered message is decoded with the alphabet (GSM-7, 8-bit, UCS2) TS 23.038 assigns to it, reserved groups being read as GSM-7, and the reported coding value is the one received. The text comes out identical whatever the class or message-waiting bits, with or without a user data header.',
 ['inputs'],'all 256 values times text lengths times header presence',
 'Tests use four coding values.',
 [S+'deliver.py'],[('DCS to alphabet',S+'deliver.py: SmsDeliver._set_pdu')],obs=['SmsDeliver.fmt/.dcs/.text'])
p('C10','User data header elements are found in any order and combination',
 'Parsing a user data header made of any sequence of information elements (8/16-bit concatenation, 8/16-bit ports, unknown elements of any length) reports every element\'s exact data by identifier, and concatenation and port values with the right numbers and width flag, wherever they appear; the last of repeated elements wins and unknown ones never disturb others.',
 ['inputs','histories'],'every sequence of up to 3 (quick) / 4 (thorough) elements from a representative set, every value of each single-octet field and boundary values of 16-bit fields, directly and inside a delivered PDU',
 'Tests parse two literal headers.',
 [S+'udh.py',S+'deliver.py'],[('IE loop',S+'udh.py: UserDataHeader.from_bytes')],obs=['UserDataHeader.from_bytes','SmsDeliver.udh'])
p('C11','Status reports yield exactly the recipient, times and outcome received',
 'Every well-formed SMS-STATUS-REPORT decodes to the recipient, message reference, service-centre time, discharge time and status it carries, with the summary label SR-OK exactly for status 0x00, SR-STORED exactly for 0x30 and SR-UNKNOWN otherwise (also when the status is missing), and the textual form recipient|time|discharge-time, the latter when it was delivered or the status is missing. Unreadable timestamps leave the corresponding value empty without disturbing the other fields.',
 ['inputs','configurations'],'all 256 statuses, all 256 references, all recipient lengths and types, timestamp field sweeps, option pairs/triples',
 'Tests decode four captured reports.',
 [S+'deliver.py',S+'udh.py'],[('status report parser',S+'deliver.py: SmsDeliver._decode_status_report_pdu')],obs=['SmsDeliver.sr/.number/.text/.udh'])
p('C12','Damaged SMS PDUs are refused or read as a prefix, never hang or invent',
 'Cutting a delivered PDU at any hex digit, in strict or lenient mode, either raises an exception or yields a message whose header fields equal the original\'s and whose text is a prefix of the original text (an escape sequence cut in two may read as a no-break space). An odd number of digits is a ValueError in strict mode and is read as if the last digit were absent in lenient mode, and replacing any single octet by any value always terminates.',
 ['inputs','fault_sequences'],'every cut point of a family of base PDUs covering every field layout in both modes; every (position, octet value) substitution',
 'Tests have one odd-length PDU.',
 [S+'deliver.py'],[('length checks',S+'deliver.py: SmsDeliver._set_pdu')],obs=['SmsDeliver(pdu, strict)'])
p('C13','A message object\'s output depends only on its current attributes',
 'Encoding an SMS after any history of encodings and attribute changes gives the same PDUs as a fresh object with the same attributes (apart from automatically allocated references), and re-assigning a PDU to a received-message object, even after a failed assignment, leaves exactly the state a fresh object would have. Automatic references are always single octets, consecutive long messages of one object carry different concatenation references, and an automatically chosen alphabet follows the current text.',
 ['histories'],'all ordered pairs (quick) / triples (thorough) of attribute settings with encodings in between; all sequences up to length 3/4 over a pool of PDUs including invalid ones',
 'Tests build one object per message and encode it once.',
 [S+'submit.py',S+'deliver.py'],[('to_pdu computes from attributes',S+'submit.py'),('pdu setter',S+'deliver.py')],state=[('SmsSubmit.fmt/dcs/ref/text_gsm','values cached between encodings',S+'submit.py'),('SmsDeliver attributes','decoded state replaced on re-assignment',S+'deliver.py')],obs=['SmsSubmit.to_pdu','SmsDeliver.pdu = ...'])
p('C14','Message attributes accept exactly the valid values and fail without effect',
 'Recipient and service-centre numbers are accepted exactly when they are an optional plus followed by 3 to 20 digits (None or the empty string leave the number unset), message class exactly for the integers 0 to 3 (TypeError for non-integers), and validity exactly for None, timedelta and datetime; anything else raises ValueError or TypeError. A rejected assignment leaves the object, and every PDU it produces, unchanged.',
 ['inputs','histories'],'all strings over a character-class alphabet up to length 5, all lengths 0..24, every single-character corruption of valid numbers, type tables, and all operation sequences up to length 3/4 mixing valid and invalid assignments with encodings',
 'Tests try a few invalid values and never look at the object afterwards.',
 [S+'submit.py'],[('VALID_NUMBER and property setters',S+'submit.py')],obs=['SmsSubmit.number/csca/klass/validity setters'])
p('C15','WSP value encoders and decoders are inverse and self-delimiting',
 'For every WSP primitive the library can encode (uintvar, short/long/integer values, value lengths, text, tokens, versions, media types, parameters, content types, headers), decoding the encoding, followed by arbitrary other bytes, returns the original value and leaves the iterator exactly after it, and the encodings are those of the WSP specification. Integers, lengths and uintvars outside the range of their encoding raise EncodeError, other values that cannot be represented raise some exception, and the decoders of primitive values leave the iterator unmoved when they raise DecodeError, which they do for every value that does not start with one of their octets. Each WSP encoding version (1.1 to 1.4, 1.2 by default) has exactly its own and earlier field names and parameter numbers, other versions raise ValueError.',
 ['inputs'],'all integers up to 2^14/2^16 plus neighbourhoods of every power of two, all characters at every short position, all well-known names, all pairs of parameters, every following byte class; all 1- and 2-byte inputs and every first octet of every decoder for iterator discipline; all sequences of encoding versions',
 'Tests never call the primitives directly.',
 [M+'wsp_pdu.py',M+'iterator.py'],[('Encoder/Decoder pairs',M+'wsp_pdu.py')],obs=['wsp_pdu.Encoder.encode_*','wsp_pdu.Decoder.decode_*'])
p('C16','MMS headers survive encoding and decoding unchanged',
 'Every header value that the MMS encoder accepts (addresses, subject, identifiers, message type, version, status, content type with parameters, application headers with names in any case) is returned unchanged by decoding, in any combination of headers; a header the encoder cannot represent raises an exception instead of being corrupted. A send request with any destination header (To, Cc or Bcc) stays one and becomes a retrieve confirmation without, and a message of an unknown type is sent, as documented, as a send request.',
 ['inputs','configurations'],'every subset of the encodable headers with every value of its value set up to 2/3 deviations, all strings up to length 2 over a character-class alphabet plus all lengths 0..300',
 'Tests encode two messages with fixed headers.',
 [M+'mms_pdu.py',M+'wsp_pdu.py',M+'message.py'],[('encode_message_header/decode_message_header',M+'mms_pdu.py')],obs=['MMSMessage.encode','MMSMessage.from_data(...).headers'])
p('C17','MMS body parts round-trip byte for byte',
 'Encoding a message with any pages (image, audio, text) and attached data parts and decoding it gives the presentation part followed by exactly the same parts in order (that of its own part list), each with identical bytes, content type, content-type parameters and part headers, and the content type of the message (multipart.related once it has pages), for every content byte value and for sizes across every length-encoding boundary.',
 ['inputs','configurations'],'all page shapes up to 2/3 pages times data-part combinations, the same slides and parts added again; every byte value; every size 0..300 and around 2^7, 2^14, 2^16, 2^21; header lengths across 127/128',
 'Tests encode one message with one page and compare only headers or lengths.',
 [M+'mms_pdu.py',M+'message.py'],[('encode_message_body/decode_message_body',M+'mms_pdu.py')],obs=['MMSMessage.encode','data_parts of the decoded message'])
p('C18','Every well-formed MMS PDU from another encoder is decoded faithfully',
 'For every MMS PDU built by an independent encoder of MMS 1.0 encapsulation (WAP-209) with each header at most once (all message types, all header kinds including dates, expiry, delivery time, class, priority, booleans, statuses, encoded strings with charset; parts with Content-Location, Content-ID and application headers and typed parameters), decoding reports exactly the values encoded, in any header order; the four default headers keep their defaults when absent.',
 ['inputs','configurations'],'every header kind with its whole value table and both encodings of each alternative, all pairs/triples of deviations, all orders of short header lists',
 'Tests decode about a dozen captured messages.',
 [M+'mms_pdu.py',M+'wsp_pdu.py'],[('MMSDecoder value decoders',M+'mms_pdu.py')],obs=['MMSMessage.from_data'])
p('C19','Truncated or damaged MMS data is refused or yields only intact content',
 'Cutting an encoded MMS message or notification at any byte either raises an exception or gives a message all of whose headers and parts are complete and identical to the original\'s (a prefix of them, beside the default headers of any message). Replacing any byte by any value always terminates.',
 ['inputs','fault_sequences'],'every cut point of a family of base messages covering every header and part kind; every (position, byte) substitution',
 'Tests decode only intact messages.',
 [M+'mms_pdu.py',M+'iterator.py'],[('end-of-data handling',M+'mms_pdu.py: decode_message_header, decode_message_body')],obs=['MMSMessage.from_data on damaged input'])
p('C20','The generated SMIL describes every page in order with its media and timing',
 'The SMIL of a message is well-formed and contains one time container per page, in page order, with that page\'s duration and exactly one element per medium present on that page and none of another page, referring to the right source (its location or content id, or the text itself) and to a region of the layout, all of which lie within the screen. Durations, begin and end are SMIL clock values equal to the times given, in milliseconds, with an end that is absent or later than the page taken as the page\'s end.',
 ['inputs','configurations'],'all page shapes up to 2/3 pages and every begin/end/duration combination from a boundary grid',
 'Tests never look at the SMIL text.',
 [M+'message.py'],[('smil()',M+'message.py: MMSMessage.smil')],obs=['MMSMessage.smil()'])
p('C21','Encoding an MMS is repeatable and side-effect free',
 'Encoding or describing a message with a transaction id any number of times, by any mixture of in-memory encoding, writing to file, SMIL generation, part listing and reading of part data, returns the same bytes every time and leaves the message\'s headers, pages and parts as they were; file and in-memory forms are identical both ways; an encoding that fails leaves the message, its parts and an existing file as they were. A data part\'s length always equals the length of the data it delivers, also when its content is replaced or the underlying file changes.',
 ['histories'],'all operation sequences up to length 3/4 over the public operations on a family of messages and data parts, with file rewrites between any two operations',
 'Tests encode each message once.',
 [M+'message.py',M+'mms_pdu.py'],[('encode/to_file/from_file',M+'message.py'),('DataPart caching',M+'message.py: DataPart')],state=[('MMSMessage.headers','caller-visible headers',M+'message.py'),('DataPart data/filename','source of part content',M+'message.py')],obs=['MMSMessage.encode/to_file/from_file','len(DataPart), DataPart.data'])
p('C22','WAP pushes are recognised and extracted exactly',
 'A byte string is recognised as a WAP push exactly when its second byte is the push PDU type, non-strings raise TypeError, and extracting a push with any transaction id and any length of push headers decodes exactly the notification that follows the headers. A notification split over several SMS by a conforming sender and joined again is extracted identically, and it is classified as an MMS notification exactly when it has both a sender and a content location, empty ones included.',
 ['inputs','configurations'],'all transaction ids, all push header lengths 0..300 (one and two byte length encodings), all 2-byte prefixes, every presence pattern of notification headers, every split point into 2-3 SMS',
 'Tests use three captured pushes.',
 [S+'wap.py',M+'mms_pdu.py'],[('push header skipping',S+'wap.py: extract_push_notification')],obs=['is_a_wap_push_notification, extract_push_notification, is_mms_notification'])
p('C23','The preview iterator behaves as a list with two cursors',
 'Under every sequence of next, preview and reset operations the preview iterator returns exactly what a list with a read cursor and a look-ahead cursor would: previews never consume, next returns the element after the last consumed one and resets the look-ahead, and exhaustion raises StopIteration, repeatedly and without losing buffered elements; an exception of the underlying source is passed on and loses nothing either.',
 ['histories'],'all reachable states and all operation sequences up to length 11 (quick) / 14 (thorough) over inputs of length 0..5, shorter ones for seven kinds of sources',
 'No test uses the iterator directly.',
 [M+'iterator.py'],[('PreviewIterator',M+'iterator.py')],state=[('cached values and preview position','look-ahead buffer',M+'iterator.py')],obs=['next(), preview(), reset_preview()'])
p('C24','Messages processed one after another never influence each other',
 'Whatever messages (SMS submitted, SMS delivered, MMS encoded, MMS decoded, WAP pushes, failures included) were processed before in the same process, processing a message gives the same result (automatic references included) as processing it first, and objects returned earlier do not change afterwards.',
 ['histories'],'all ordered pairs (quick) and triples of 28 (thorough) of a pool of 36 encoding and decoding operations as the first uses of a freshly loaded library, each third (each) pair followed by all other operations, every operation 260 (1030) times followed by all others, and before and between sweeps over all primitive encoders and decoders',
 'Tests run each operation in isolation and never re-examine earlier objects.',
 ['messaging/sms/','messaging/mms/'],[('no shared mutable state',S+'submit.py, '+M+'message.py, '+M+'wsp_pdu.py')],state=[('module tables and class attributes','must stay constant','messaging/')],obs=['all public encode/decode entry points'])
p('C25','Concurrent use on distinct messages equals sequential use',
 'Two or three threads each encoding or decoding its own message at the same time obtain, under every interleaving of their steps, exactly the results they obtain alone, and never an unexpected exception.',
 ['schedules'],'all schedules of two threads with one preemption at the first and last execution of every source line, for partner operations that together enter every shared function (quick) or all pairs (thorough), and for 7 pairs that make the same calls with other values (both ways); two preemptions for 12 pairs (thorough), three threads, and threads that are the first users of the library',
 'Tests are single-threaded.',
 ['messaging/sms/','messaging/mms/'],[('no shared mutable state','messaging/')],obs=['all public encode/decode entry points'])
p('C26','MMS slides and parts hold what the last accepted call gave them',
 'A slide holds exactly the image, audio, text and duration of the last accepted call of each kind, each with its times, and no call touches another medium, slide, part or message. Arguments of a wrong type raise TypeError, missing files OSError, an end before the begin and a duration below 1 ValueError, and a refused call leaves the slide or part unchanged. A data part has exactly the content, type and headers of the last accepted from_file, set_data or set_text, earlier headers cleared, and a message lists its pages and parts in the order they were added.',
 ['histories'],'every reachable state of a slide over 11 accepted calls times all calls (about 110 refused ones included), all pairs of calls, triples (quadruples) of a subset; all sequences of up to 3 (4) calls on a part and on two parts and two slides; all sequences of up to 4 (6) additions to a message',
 'Tests add one image and one text to one page each.',
 [M+'message.py'],[('MMSMessagePage.add_image/add_audio/add_text/set_duration',M+'message.py'),('DataPart.from_file/set_data/set_text',M+'message.py'),('MMSMessage.add_page/add_data_part',M+'message.py')],state=[('image, audio, text, duration of a slide','what is shown',M+'message.py: MMSMessagePage')],obs=['MMSMessagePage and DataPart attributes','MMSMessage.pages/data_parts','MMSMessage.encode()'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
