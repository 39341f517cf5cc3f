"""The properties, from which properties.jsonl is written (tools/gen.py)."""

SUB = 'messaging/sms/submit.py'
DEL = 'messaging/sms/deliver.py'
GSM = 'messaging/sms/gsm0338.py'
UDH = 'messaging/sms/udh.py'
UTI = 'messaging/utils.py'
WAP = 'messaging/sms/wap.py'
CON = 'messaging/sms/consts.py'
WSP = 'messaging/mms/wsp_pdu.py'
MMS = 'messaging/mms/mms_pdu.py'
MSG = 'messaging/mms/message.py'
ITE = 'messaging/mms/iterator.py'
TS = 'messaging/test/test_sms.py'
TM = 'messaging/test/test_mms.py'

P = []


def prop(id, title, statement, over, quant, why, files, mechanism, observe,
         state=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': quant},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s))
                      for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism],
            'observe_at': observe, 'hook_needed': None}})


prop('C01', 'Single-part 7-bit messages carry exactly the septets of the text',
     'Every text over the GSM 03.38 alphabet (extension characters count as '
     'two) that fits in 160 septets is encoded as one SMS-SUBMIT with 7-bit '
     'coding, whose user data length is its number of septets and whose user '
     'data are exactly those septets, packed, with zero fill bits. A receiver '
     'that decodes this user data gets the same text back.',
     ['inputs'], 'all texts of 0 to 160 septets over the 137 characters of '
     'the alphabet', 'The tests encode a few dozen fixed texts; the alphabet '
     'has 137 characters, packing depends on the position modulo 8 and on '
     'where escapes fall, so a defect can hide in any (character, position, '
     'length) combination.', [SUB, UTI, GSM, DEL],
     [('septet packing', UTI + ': pack_8bits_to_7bits'),
      ('alphabet encoding', GSM + ': encode'),
      ('septet unpacking', UTI + ': unpack_msg')],
     ['hex string of the only PDU', 'text of the decoded message'])
prop('C02', 'UCS2 and 8-bit single-part messages, and the choice of coding',
     'Text outside the GSM alphabet (up to 70 BMP characters) is encoded as '
     'one SMS-SUBMIT with UCS2 coding carrying its big-endian code units, and '
     'data sent as 8-bit (up to 140 octets) is carried octet for octet, each '
     'with the user data length in octets; decoding them gives the same text '
     'or data. When no coding is requested, 7-bit is chosen exactly when '
     'every character is in the GSM alphabet, and UCS2 otherwise.',
     ['inputs'], 'all BMP (non surrogate) texts of up to 70 characters and '
     'all octet strings of up to 140 octets', 'The tests use a handful of '
     'fixed texts and never 8-bit data; the choice of coding has to be right '
     'for each of the 63k BMP characters.', [SUB, UTI, GSM, DEL],
     [('UCS2 packing', UTI + ': pack_8bits_to_ucs2'),
      ('8-bit packing', UTI + ': pack_8bits_to_8bit'),
      ('choice of coding', SUB + ': _get_msg_pdu')],
     ['hex string of the only PDU', 'text of the decoded message'])
prop('C03', 'Long messages are split into parts that reassemble to the text',
     'A text too long for one message is sent as several SMS-SUBMIT, each '
     'flagged as carrying a user data header and with at most 140 octets of '
     'user data, all with the same concatenation reference and total and '
     'numbered 1, 2, ... in order. Concatenating what a receiver decodes from '
     'the parts in that order gives the whole text, no escape sequence is '
     'divided between two parts, and no text that fits in one message is '
     'split.', ['inputs'], 'all texts and octet strings around the '
     'boundaries 160/161, 153k, 70/71, 67k, 140/141, 134k, for every position '
     'of escape sequences near a boundary and every reference',
     'The tests split three fixed texts; what matters is the exact length '
     'and whether an escape sequence straddles one of the boundaries.',
     [SUB, UTI, CON, UDH, DEL],
     [('splitting', SUB + ': _split_sms_message'),
      ('packing behind a header', UTI + ': pack_8bits_to_7bits')],
     ['hex strings, cnt and seq of the returned PDUs',
      'text and concatenation of the decoded parts'])
prop('C04', 'Numbers: validation, address fields and service centre',
     'A destination or service centre number is accepted exactly when it is '
     'an optional plus sign followed by 3 to 20 decimal digits, and anything '
     'else is refused with an error. In the PDU the address holds the '
     'digits in order as swapped semi-octets with 0xF filling an odd count, '
     'the international type exactly when there was a plus sign, the length '
     'in digits for the destination and in octets for the service centre, '
     'and decoding a message with that address gives the number back.',
     ['inputs'], 'all ASCII strings of up to 24 characters as numbers',
     'The tests use a few Spanish numbers with 9 or 11 digits.',
     [SUB, UTI, DEL],
     [('validation', SUB + ': VALID_NUMBER'),
      ('address', SUB + ': _get_phone_pdu'),
      ('service centre', SUB + ': _get_smsc_pdu')],
     ['errors on construction and assignment', 'hex string of the PDU'])
prop('C05', 'Every submit option appears in its own field and only there',
     'The first octet of an SMS-SUBMIT states exactly the validity period '
     'format, status report request and user data header in use; the '
     'reference, protocol identifier, coding with message class, and validity '
     'period each appear unchanged in their own field, in that order. The '
     'reported length is the number of octets after the service centre '
     'address, and invalid classes, validities and codings are refused.',
     ['inputs', 'configurations'], 'all combinations of service centre, '
     'validity kind, status report, class 0-3 or none, coding, reference, '
     'protocol identifier and one or several parts',
     'The tests set one option at a time; the fields are assembled by string '
     'concatenation, so an error shows only in some combinations.',
     [SUB, 'messaging/sms/pdu.py'],
     [('first octet', SUB + ': _get_sms_submit_pdu'),
      ('coding and class', SUB + ': _get_msg_pdu')],
     ['hex string and length of each PDU'])
prop('C06', 'Relative validity is rounded down to a representable period',
     'A relative validity between 5 minutes and 63 weeks is encoded as the '
     'octet standing for the longest representable period that is not longer '
     'than it. Shorter and longer ones are refused with an error.',
     ['inputs'], 'every number of seconds (and microseconds) from -1 day to '
     '10 years', 'The tests check about 20 durations; the encoding is '
     'piecewise with four ranges, and the mistakes are at their borders.',
     [UTI, SUB], [('conversion', UTI + ': timedelta_to_relative_validity')],
     ['validity octet', 'errors'])
prop('C07', 'Absolute validity and time zone offsets',
     'An absolute validity is encoded as seven swapped semi-octet pairs: '
     'year, month, day, hour, minute and second of the given time, and its '
     'offset from UTC in quarters of an hour with the sign in bit 3. Decoding '
     'that time stamp as a receiver does gives the same instant in UTC, and a '
     'numeric zone string stands for its offset east of Greenwich.',
     ['inputs'], 'all times from 2000 to 2067 and all offsets that are '
     'multiples of 15 minutes between -14 h and +14 h', 'The tests check one '
     'date with three offsets.', [UTI, SUB, DEL],
     [('conversion', UTI + ': datetime_to_absolute_validity'),
      ('zones', UTI + ': FixedOffset')],
     ['validity field of the PDU', 'offset of the zone objects'])
prop('C08', 'The GSM 03.38 codec is exact and its error modes differ only so',
     'Encoding and decoding are inverse between texts over the GSM 03.38 '
     'default alphabet with extension table and their septets, and agree with '
     'the standard table character by character. Characters outside it are '
     'refused in strict mode, dropped in ignore mode and become one '
     'replacement septet in replace mode, never affecting their neighbours, '
     'and so are octets above 0x7F when decoding, while an unassigned escape '
     'sequence becomes one no-break space. The test for GSM text is true '
     'exactly for texts that strict mode encodes.',
     ['inputs'], 'all BMP texts and all octet strings up to a length, in all '
     'three error modes', 'The tests go through the table in one order with '
     'one character at a time, and try three characters outside it.', [GSM],
     [('codec', GSM + ': encode, decode'), ('test', GSM + ': is_gsm_text')],
     ['encoded strings', 'decoded texts', 'errors'])
prop('C09', 'Septet packing and unpacking are inverse, with or without header',
     'Packing n septets gives ceil(7n/8) octets in which septet i occupies '
     'bits 7i to 7i+6, and unpacking gives the septets back. With a user data '
     'header the header octets come first unchanged and the septets start at '
     'the first septet boundary after it.', ['inputs'], 'all strings of up '
     'to 160 septets, both unpacking routines, 6-octet headers',
     'The tests pack short ASCII strings; the routines carry bits from one '
     'octet to the next with a state that repeats every 7 octets.', [UTI],
     [('packing', UTI + ': pack_8bits_to_7bits'),
      ('unpacking', UTI + ': unpack_msg, unpack_msg2')],
     ['packed and unpacked strings'])
prop('C10', 'Encoding the same message again and its reference numbers',
     'Encoding a message again gives the same PDUs, except that a long '
     'message without fixed concatenation reference gets another reference, '
     'and every reference fits in one octet. The message reference stays the '
     'one the user chose or the one first drawn, and no reference is drawn '
     'twice within 255 draws.', ['histories', 'inputs'],
     'all sequences of encodings (up to more than one cycle of references) '
     'and of message references of any size', 'The tests encode a message '
     'once.', [SUB], [('references', SUB + ': _get_rand_id')],
     ['PDUs of successive encodings'],
     [('id_list', 'references not drawn yet', SUB),
      ('ref', 'message reference', SUB)])
prop('C11', 'Originating and service centre addresses of received messages',
     'Decoding an SMS-DELIVER gives the service centre and the sender as '
     'their digits in order, preceded by a plus sign exactly for the '
     'international type, without the fill digit and whatever the parity and '
     'number of digits. An alphanumeric sender is decoded as the 7-bit text '
     'of as many septets as its length field holds, and a message without '
     'service centre reports none.', ['inputs'], 'all digit strings of up to '
     '20 digits, all types of number, all alphanumeric senders of up to 11 '
     'characters', 'The tests decode a dozen captured PDUs, nearly all with '
     '11-digit international numbers.', [DEL, UTI],
     [('addresses', DEL + ': _set_pdu'),
      ('semi-octets', UTI + ': swap_number')], ['csca and number'])
prop('C12', 'Time stamps of received messages are converted to UTC',
     'The date of a received message is its service centre time stamp minus '
     'the offset in quarters of an hour (tens in the low three bits, sign in '
     'bit 3), across day, month and year borders. A time stamp that is not a '
     'date is refused with an error and never turned into a different date.',
     ['inputs'], 'all seven time stamp octets', 'The tests have captured '
     'time stamps of a few zones, none of which crosses a day border.',
     [DEL], [('time stamp', DEL + ': _set_pdu')], ['date', 'errors'])
prop('C13', 'The text of received messages in every coding, behind any header',
     'The text of an SMS-DELIVER is decoded from its user data: GSM septets '
     'for 7-bit coding, octets for 8-bit and big-endian code units for UCS2, '
     'as told by the data coding scheme and whatever its class. With a user '
     'data header of any length the text starts right after it, at the next '
     'septet boundary for 7-bit coding, and nothing of the header, nor of '
     'octets behind the announced user data, leaks into the text.', ['inputs'], 'all user data up to 140 octets, header lengths '
     '0 to 20 and data coding schemes of the general, message waiting and class groups',
     'The tests decode a dozen captured PDUs with two header shapes.',
     [DEL, UTI], [('user data', DEL + ': _process_message')],
     ['text and fmt'])
prop('C14', 'User data header elements are all found and read right',
     'A user data header made of any sequence of information elements is '
     'split into exactly those elements. The concatenation elements (8 and 16 '
     'bit) give their reference, total and sequence number, and the port '
     'elements (8 and 16 bit) destination and source ports, with their width, '
     'also when surrounded by unknown elements.', ['inputs'], 'all sequences '
     'of up to 4 elements with any identifiers, lengths and values',
     'The tests decode two headers.', [UDH, DEL],
     [('elements', UDH + ': UserDataHeader.from_bytes')],
     ['concat, ports and headers of the decoded header'])
prop('C15', 'Status reports are decoded field by field',
     'Decoding an SMS-STATUS-REPORT gives its reference, its recipient, the '
     'submission and discharge times as written in it and its status, with '
     'delivered, stored and every other status told apart. A time that is not '
     'a date or a missing status is reported as absent without affecting the '
     'other fields.', ['inputs'], 'all references, recipients of up to 20 '
     'digits, time stamps and status values', 'The tests decode two captured '
     'status reports.', [DEL, UDH],
     [('status report', DEL + ': _decode_status_report_pdu')],
     ['sr, text, number, date, type and udh'])
prop('C16', 'What a PDU decodes to depends on its octets only',
     'Hex digits may be upper or lower case, and assigning a PDU to an '
     'existing message object gives the same fields as decoding it afresh, '
     'whatever it held before. A PDU with an odd number of digits is refused '
     'in strict mode and decoded without its last digit otherwise.',
     ['inputs', 'histories'], 'all case variants and all ordered pairs of '
     'message kinds with symbolic contents', 'The tests decode each captured '
     'PDU into a new object, once.', [DEL],
     [('decoding', DEL + ': _set_pdu')], ['all fields of the message'])
prop('C17', 'WAP push notifications are recognised and taken apart',
     'Data is recognised as a WAP push exactly when its second octet is the '
     'push PDU type. Extraction skips the push header whatever its length '
     'and decodes exactly the MMS notification behind it, also when it came '
     'in several concatenated messages, and a notification is told by its '
     'sender and content location.', ['inputs'], 'all data, transaction '
     'identifiers, push header lengths of up to 100 octets and notification '
     'fields', 'The tests decode three captured pushes with two header '
     'lengths.', [WAP, MMS, DEL],
     [('extraction', WAP + ': extract_push_notification')],
     ['the decoded headers', 'the two predicates'])

prop('C20', 'WSP integers and lengths survive encoding in their exact form',
     'Every integer the WSP encoder accepts as uint8, uintvar, short, long or '
     'generic integer, or as a short or generic length, is encoded in the '
     'form of the standard (7-bit groups, most significant octet first, '
     'shortest) and decoded to itself, consuming exactly its octets. Negative '
     'values and values that do not fit a short, long or generic integer or '
     'a short length are refused with an error.', ['inputs'], 'all integers '
     'from -2^31 to 2^31-1 and, for decoding, all uintvars and long integers '
     'of up to 5 octets', 'The tests never call these routines directly; '
     'captured messages hold a few short values.', [WSP],
     [('encoders', WSP + ': Encoder'), ('decoders', WSP + ': Decoder')],
     ['encoded octets', 'decoded values', 'octets left', 'errors'])
prop('C21', 'WSP texts, tokens, versions and media types survive encoding',
     'Every text (of octets other than zero, the first one printable), '
     'token, quoted string, version and media type the encoder accepts is encoded in the form of the standard, ending in one zero '
     'octet, and decoded to itself, consuming exactly its octets. Well-known '
     'media types are encoded as their assigned number and decoded from it, '
     'and texts a form cannot hold are refused with an error.', ['inputs'],
     'all texts of up to 6 characters, all versions from 1 to 7 with minor 0 '
     'to 14, all assigned numbers', 'Captured messages hold a few printable '
     'ASCII texts.', [WSP],
     [('encoders', WSP + ': Encoder'), ('decoders', WSP + ': Decoder')],
     ['encoded octets', 'decoded values', 'octets left', 'errors'])
prop('C22', 'A failed decode attempt consumes nothing',
     'A decoding step that reports that the octets are not of its kind leaves '
     'the position in the data where it was, so that another form can be '
     'tried on the same octets. This holds for short integers, lengths, '
     'integers, quoted strings, tokens, media, charsets, parameters without '
     'value and the enumerated message fields.', ['inputs'],
     'all data of up to 4 octets for each of the decoding steps',
     'The alternatives tried in turn are not visible to the tests, which '
     'decode well-formed messages.', [WSP, MMS, ITE],
     [('lookahead', ITE + ': PreviewIterator'),
      ('alternatives', WSP + ': Decoder')],
     ['next octets after the error'])
prop('C23', 'Previewing never changes what is read',
     'Under every interleaving of reading, previewing and resetting, reading '
     'returns the items of the sequence in order, each once, and previewing '
     'returns the items after the last one read or previewed, whichever is '
     'later. At the end both report the end of the sequence and nothing is '
     'lost.', ['histories', 'inputs'], 'all sequences of up to 9 operations '
     'over sequences of up to 5 items', 'The tests never use previews '
     'directly; the lookahead cache and its position give many states.',
     [ITE], [('lookahead', ITE + ': PreviewIterator')],
     ['results of next and preview'],
     [('_cached_values', 'items previewed and not read', ITE),
      ('_preview_pos', 'position of the preview', ITE)])
prop('C24', 'Content types with parameters survive encoding',
     'Any media type with any set of well-known and other parameters (token '
     'text or integer values) is encoded with a length that counts exactly '
     'the octets of the type and its parameters, and decodes to the same type '
     'and parameters. A type without parameters is encoded in the short form.',
     ['inputs'], 'media types known and unknown with up to 3 parameters of '
     'up to 6 characters or any integer', 'No test encodes a content type '
     'with parameters.', [WSP],
     [('content types', WSP + ': encode_content_general_form'),
      ('parameters', WSP + ': encode_parameter')],
     ['encoded octets', 'decoded type and parameters'])
prop('C25', 'Every header field survives encoding, alone and next to others',
     'Every message or part header the encoder accepts decodes to the same '
     'name and value, consuming exactly its octets, so that a following '
     'header is not affected. Names assigned a number are encoded as that '
     'number and all others as text.', ['inputs'], 'all fields that can be '
     'encoded, with texts of up to 6 characters (to 40 for the originator) '
     'and all integers', 'The tests encode four fixed header sets.',
     [MMS, WSP], [('message headers', MMS + ': MMSEncoder.encode_header'),
                  ('part headers', WSP + ': Encoder.encode_header')],
     ['encoded octets', 'decoded names and values', 'octets left'])
prop('C26', 'Enumerated header values follow the standard tables',
     'Message type, status, response status, priority, message class, '
     'visibility and the yes/no fields map each assigned octet to its name '
     'and back, one octet each. Octets that are not assigned give the '
     'documented default or an error, and never another assigned value or a '
     'value of another kind.', ['inputs'], 'all 256 octets for every field '
     'and all names that can be encoded', 'Captured messages hold one or two '
     'values of each.', [MMS], [('tables', MMS + ': MMSDecoder')],
     ['decoded values', 'encoded octets'])
prop('C27', 'A whole multimedia message survives encoding and decoding',
     'Decoding an encoded message gives the same headers and content type, '
     'and the same parts in the same order behind the presentation part, with '
     'their content types, headers and exact data. This holds for messages '
     'made of pages with image, audio and text, of loose parts, or both.',
     ['inputs', 'configurations'], 'messages of up to 3 pages in every '
     'combination of contents and up to 2 loose parts, with symbolic header '
     'values and data', 'The tests encode one message with pages and never '
     'compare its parts after decoding.', [MMS, WSP, MSG],
     [('encoding', MMS + ': MMSEncoder'), ('decoding', MMS + ': MMSDecoder')],
     ['headers and data parts of the decoded message'])
prop('C28', 'Encoding a message does not change it',
     'Encoding a message leaves its headers, pages and parts as they were, so '
     'encoding it again gives the same octets (but for a transaction '
     'identifier that had to be made up). Writing it to a file and reading '
     'that back gives the same message as encoding and decoding in memory.',
     ['inputs', 'histories'], 'messages with any subset of the optional '
     'headers and symbolic values, encoded up to three times', 'The tests '
     'encode each message once.', [MMS, MSG],
     [('encoding', MMS + ': encode_message_header')],
     ['headers after encoding', 'octets of successive encodings'])
prop('C29', 'Received multipart bodies are framed by their own lengths',
     'A received message body is split into exactly the parts it announces, '
     'each with the announced number of header and data octets, whatever '
     'those octets are. Content type, parameters and headers of each part '
     'belong to that part alone, and the data is exactly the octets sent.',
     ['inputs'], 'bodies of up to 3 parts with symbolic types, headers and '
     'data, and lengths in one- and two-octet form', 'The tests decode six '
     'captured messages.', [MMS, WSP],
     [('body', MMS + ': decode_message_body')],
     ['content types, parameters, headers and data of the parts'])
prop('C30', 'Encoded messages start with type, transaction and version',
     'An encoded message starts with its message type, transaction '
     'identifier and version, in this order, and its content type is the last '
     'header, with every other header exactly once in between. Missing ones '
     'get the documented defaults, the prefixed names are equivalent to the '
     'plain ones, and a request without any destination is turned into a '
     'retrieve confirmation.', ['inputs', 'configurations'], 'all subsets of '
     'the headers, prefixed or not, with symbolic values', 'The tests encode '
     'four fixed header sets, always complete.', [MMS],
     [('header', MMS + ': encode_message_header')], ['encoded octets'])
prop('C31', 'The presentation document shows each page with its own contents',
     'The presentation of a message has one slide per page, in order, with '
     'the duration of the page and exactly the image, text and audio it '
     'holds. Begin and end times appear when they are set, the end never '
     'after the end of the page.', ['inputs', 'configurations'], 'up to 3 '
     'pages in every combination of contents, with all durations and times '
     'up to 2^31', 'The tests never look at the generated presentation.',
     [MSG], [('presentation', MSG + ': MMSMessage.smil')],
     ['elements and attributes of the document'])
prop('C32', 'Pages and parts accept valid contents only and report them truly',
     'Pages refuse files that do not exist, end times before their begin '
     'time, durations below one and arguments of the wrong type, without '
     'changing the page. Accepted contents are counted, listed and '
     'returned with exactly the given data, length, type and times.',
     ['inputs', 'histories'], 'all integers as times and durations, all '
     'sequences of up to 3 additions', 'The tests add valid contents only.',
     [MSG], [('pages', MSG + ': MMSMessagePage'),
             ('parts', MSG + ': DataPart')],
     ['errors', 'parts of the page', 'data and length of the parts'])
prop('C33', 'Decoding untrusted octets always ends and never invents data',
     'Decoding any octets as a message ends with a message or an error. A '
     'message cut short is never decoded to a message with more or other '
     'parts than the whole one, and part data is never longer than the data '
     'received.', ['inputs', 'fault_sequences'], 'all octet strings up to a '
     'length, and all truncations of messages with symbolic contents',
     'The tests decode well-formed messages only.', [MMS, WSP],
     [('decoding', MMS + ': MMSDecoder.decode_data')],
     ['the decoded message or error'])
prop('C34', 'Date, expiry and delivery times are read exactly',
     'The date of a message is the UTC time of its seconds since 1970, and '
     'expiry and delivery times are read as absolute or relative by their '
     'token, with all octets of the value. Another token is an error.',
     ['inputs'], 'all values of up to 4 octets, all tokens and all integer '
     'forms', 'The tests decode two dates and two expiry times.', [MMS, WSP],
     [('times', MMS + ': decode_expiry_value')], ['decoded values'])
prop('C35', 'Assigned numbers depend on the encoding version as standardised',
     'For each WSP encoding version the tables of header names and '
     'parameters hold exactly the numbers assigned up to that version, and '
     'other versions are refused. Asking for the table of one version never '
     'changes another.', ['inputs', 'histories'], 'all versions in every '
     'order of two requests and all numbers', 'No test asks for another '
     'version than the default.', [WSP],
     [('versions', WSP + ': get_header_field_names, '
       'get_well_known_parameters')], ['tables', 'errors'])

prop('C36', 'Files of messages and parts are written whole and read once',
     'A message written to a file leaves exactly its encoding there, also '
     'over the file of one of its own parts, and a message that cannot be '
     'encoded leaves an existing file as it was. A part from a file always '
     'announces the length of the data it carries, whatever happens to the '
     'file after it was read.', ['inputs', 'histories', 'fault_sequences'],
     'all contents of the files and of the message, every reason for an '
     'encoding to fail, and changes of a file at any point between its use',
     'Tests write good messages to new files and never touch the files of '
     'parts.', [MSG, MMS],
     [('writing', MSG + ': MMSMessage.to_file'),
      ('reading', MSG + ': DataPart.data, __len__; ' + MMS + ': '
       'MMSDecoder.decode_file')], ['files', 'encoded octets', 'errors'])

prop('C37', 'Header values with a length of their own end where it says',
     'An Accept value in its general form is read as its media type and ends '
     'after the octets its length announces, whatever parameters and quality '
     'factor they hold, and a Pragma value is read as the parameter in it. '
     'The headers before and behind and the data of the part are not '
     'affected.', ['inputs'], 'all media types, parameters, quality factors '
     'and forms of the length, in any place among the headers of a part',
     'No test has an Accept or Pragma header with parameters.', [WSP, MMS],
     [('accept', WSP + ': Decoder.decode_accept_value'),
      ('pragma', WSP + ': Decoder.decode_pragma_value'),
      ('headers', WSP + ': Decoder.decode_header; ' + MMS + ': '
       'decode_message_body')], ['headers', 'parts', 'octets left'])


prop('C38', 'Messages, decoders and answers are independent of each other',
     'What is done to one message, part, page, decoder, encoder or iterator '
     'never changes another: sent, received and MMS messages that are made, '
     'decoded, changed and encoded in any order, also with one decoder or '
     'encoder object, hold and give what each would alone; new ones start '
     'empty with the documented defaults; data and parameters that are given '
     'to be encoded or decoded are left as they were; and what a caller does '
     'to an answer (octets, a dictionary, a table) changes no later answer.',
     ['inputs', 'histories'], 'all values, kinds and orders of a few '
     'messages and operations',
     'The tests use one message, decoder or iterator each and never look at '
     'an earlier one again.', [DEL, 'messaging/sms/submit.py',
                               'messaging/sms/udh.py', WSP, MMS, MSG],
     [('messages', 'messaging/sms/base.py: SmsBase; ' + DEL + '; '
       'messaging/sms/udh.py: UserDataHeader'),
      ('MMS', MSG + ': MMSMessage, MMSMessagePage, DataPart; ' + MMS +
       ': MMSDecoder, MMSEncoder'),
      ('primitives', WSP + ': Decoder, Encoder, get_header_field_names, '
       'get_well_known_parameters; messaging/mms/iterator.py')],
     ['kept messages', 'answers', 'octets'])


# How each property is decided, for DESIGN.md (tools/gen.py): the symbolic
# inputs, and what the assertions compare with.
HOW = {
 'C01': 'SmsSubmit(number, text).to_pdu() on a symbolic text; the PDU is taken apart by a reference written from 03.40, its user data are compared bit by bit with the packed septets of the standard table, and SmsDeliver decodes the same user data back.',
 'C02': 'Symbolic BMP text / octets; user data compared with the big-endian code units or the octets; the choice of coding against membership in the standard table.',
 'C03': 'Long texts of a fixed letter with a window of symbolic characters placed over the borders of parts; every part is taken apart by the reference, headers compared, and the parts decoded by SmsDeliver and joined.',
 'C04': 'Symbolic characters of candidate numbers (any octet) against a hand-written recogniser; symbolic digits of both addresses against swapped semi-octets and the decoder.',
 'C05': 'Symbolic combination of every option, each value symbolic; all fields of the PDU found by the reference and compared; refused values one by one.',
 'C06': 'A symbolic number of seconds (and microseconds) over ranges that cover 0 to beyond 63 weeks; the octet must stand for the longest period of the 03.40 table not longer than it.',
 'C07': 'Symbolic year, month, day, hour, minute, second, offset; the octets against swapped digits; the decoder against the instant in UTC; zone strings with symbolic digits.',
 'C08': 'Symbolic code points and octets through encode and decode in the three modes against the standard table (harness/ref.py), position by position.',
 'C09': 'Symbolic septets and header octets; bit i of the packed octets against bit i of the septets.',
 'C10': 'Two or more encodings of a message with the drawn reference numbers symbolic (random is a fresh symbol); the sequence of draws of the real counter explored for the whole cycle.',
 'C11': 'A PDU of symbolic semi-octets, type-of-number octets and septets, lengths enumerated, against the digits in order and the septets of the table.',
 'C12': 'Seven symbolic time stamp octets; the date against the wall time minus the offset (calendar arithmetic on bit-vectors); improper ones must be errors.',
 'C13': 'Symbolic coding octet restricted to the groups of 03.38, symbolic header and user data, the start of the text computed by the reference.',
 'C14': 'Sequences of known and unknown elements with symbolic values, all permutations of kinds up to a length.',
 'C15': 'Symbolic octets of every field of a status report; each field of the result against the octets.',
 'C16': 'Pairs of symbolic PDUs of several kinds: decode afresh and by assignment, upper and lower case, odd digit counts; results compared field by field.',
 'C17': 'Symbolic data for recognition; symbolic push header octets and notification values, cut into messages at several places, each decoded by SmsDeliver and joined.',
 'C20': 'Symbolic integers over the whole 32-bit range through each encoder, the octets against the form of WAP-230, the decoder against the integer and the octets left.',
 'C21': 'Symbolic texts and tokens (any octets), versions and media numbers through encoder and decoder; refusals against the separators of the standard.',
 'C22': 'Each decoding step on symbolic octets; when it reports an error the iterator must still give all of them, and a following step must succeed where it would have alone.',
 'C23': 'Every sequence of next, preview and reset operations (symbolic choice) on PreviewIterator against a list and two positions.',
 'C24': 'Symbolic values of typed and untyped parameters, media types and sets of parameters; the octets against the general form, decoded sets compared in any order.',
 'C25': 'Symbolic values of each header; octets against number and form of WAP-209, decoded name and value, octets left; sequences of headers.',
 'C26': 'A symbolic octet for each enumerated field against the tables of WAP-209 (harness/h_mms.py), alone and inside a header; names to octets.',
 'C27': 'Messages built through the public classes from symbolic file contents, texts, parameters and headers, encoded and decoded; parts compared in order with what was put in.',
 'C28': 'The same, with a deep copy of headers, pages and parts taken before encoding and compared after, two or more encodings compared, files kept in a symbolic file system.',
 'C29': 'Bodies written octet by octet with symbolic type, header, data and length octets; the decoded parts against what was written.',
 'C30': 'Header octets of a message with symbolic presence and values; order, defaults, and every other header exactly once (a permutation).',
 'C31': 'Pages with symbolic contents, times and durations; the DOM that the code builds is read as a tree and each slide compared (replays parse the text with minidom).',
 'C32': 'Symbolic times, durations, contents and sequences of accepted and refused changes against a list kept by the harness.',
 'C33': 'Symbolic octets behind beginnings of messages, and every truncation of symbolic well-formed messages.',
 'C34': 'Symbolic octets of times of every length, against seconds since 1970 and the token.',
 'C36': 'A symbolic file system: symbolic contents of destination and part files, changed, removed or written over between the operations; the bytes of the files and the decoded parts compared.',
 'C37': 'Accept and Pragma values written octet by octet with symbolic media numbers, texts, parameters and quality factors, decoded alone, as the last header and between others in a part.',
 'C38': 'Two or three objects of a kind with symbolic attributes, symbolic choices of which one is used next and how; each is compared with what the standard or the list of its own settings says, after the others were used and spoiled.',
 'C35': 'Every version and pair of versions, every number, symbolic version texts against the tables of WAP-230 by version.',
}
