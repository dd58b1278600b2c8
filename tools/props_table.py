P('C01', 'RTP packets are parsed exactly and malformed ones rejected',
 '''For every byte string, parsing an RTP packet either fails, returning no packet, or returns exactly the version, flags, marker, payload type,
 sequence number, timestamp, source identifiers, header extension and payload that RFC 3550 assigns to those octets, the payload excluding the padding announced by the padding flag.
 It succeeds exactly when the version is 2 and everything the header announces (sources, extension, at least one and at most all remaining octets of padding) fits in the data, and it never panics.''',
 'inputs', 'every byte string of any length', 'The package has no tests at all; any length, flag combination and truncation point matters.',
 'net/rtp/packet.go', [('Unpack', 'net/rtp/packet.go'), ('P, X, CC, M, PT accessors', 'net/rtp/packet.go')])
P('C02', 'Packing an RTP packet and parsing it back loses nothing',
 '''Packing a packet lays out its header fields, contributing sources, header extension and payload as RFC 3550 does and returns nothing for a missing packet.
 For every packet without padding whose flags describe its contents, parsing the packed octets returns an equal packet, and for every unpadded well formed byte string, parsing and packing returns the same octets.''',
 'inputs', 'every packet value and every byte string', 'The package has no tests; the round trip must hold for every combination of source count, extension length and payload.',
 'net/rtp/packet.go', [('Pack', 'net/rtp/packet.go'), ('Unpack', 'net/rtp/packet.go')])
P('C03', 'RTCP packets are parsed exactly and truncated ones rejected',
 '''For every byte string, parsing an RTCP packet either fails, returning no packet, or returns exactly the flags, count, type and length of the header and, for a sender report only, the sender identifier, 64-bit NTP time,
 RTP time, packet count and octet count at their RFC 3550 positions.
 It succeeds exactly when the version is 2, the header is complete and a sender report is long enough for the sender information and all report blocks its count announces; it never panics.''',
 'inputs', 'every byte string of any length', 'The package has no tests at all.',
 'net/rtcp/packet.go', [('Unpack', 'net/rtcp/packet.go'), ('P, C accessors', 'net/rtcp/packet.go')])
P('C05', 'Bit reader returns exactly the requested bits or fails cleanly',
 '''Reading or skipping n bits (n up to 32, single flags, or byte reads clamped to 8 bits) at any bit position succeeds exactly when that many bits are left; it then returns those bits, most significant first, and advances by exactly n.
 A failed read or skip leaves the position unchanged and returns zero, the number of available bits is always exact, and nothing ever panics.''',
 'inputs histories', 'every buffer, every position reached by any sequence of reads, every width', 'Tests read a handful of fixed widths from one or two short buffers; unaligned widths of 25 to 32 bits, ends of data and all position and width combinations are unreached.',
 'net/h264/bits.go', [('ReadBits, SkipBits, Available', 'net/h264/bits.go'), ('ReadByteBits, ReadFlag', 'net/h264/bits.go')])
P('C06', 'Exp-Golomb codes decode to the value the standard assigns',
 '''At any bit position, reading or skipping an unsigned or signed Exp-Golomb code succeeds exactly when a complete code with at most 31 leading zeros is present; it consumes exactly that code, and yields the value of H.264 clause 9.1 (signed values by the mapping of 9.1.1), including the largest magnitudes.
 Longer or truncated codes are errors, never wrong values or panics.''',
 'inputs', 'every buffer and position, every code length', 'Tests decode a few small codes; long codes, overflow at 32 bits and truncation are never reached.',
 'net/h264/bits.go', [('ReadUnsignedGolomb, ReadSignedGolomb, SkipGolomb', 'net/h264/bits.go')])
P('C07', 'Scaling lists, trailing bits and SEI parameters follow the syntax',
 '''Reading a scaling list of any length yields entry by entry the values of H.264 clause 7.3.2.1.1.1 (deltas modulo 256, the last scale repeated after the list ends) and asks for the default list exactly when the first next-scale is zero; a delta outside -128..127 is an error.
 There is more data exactly when the last one bit of the buffer lies ahead of the next bit. Trailing bits are accepted exactly when a stop bit is followed by zero bits up to the byte boundary.
 An SEI type or size is the sum of its run of 255 octets and the octet that ends it.''',
 'inputs', 'every buffer, position and list length', 'No test covers scaling lists that end early, the default matrix indicator, trailing bits or SEI parameters.',
 'net/h264/bits.go', [('ReadScalingList', 'net/h264/bits.go'), ('SkipTrailingBits', 'net/h264/bits.go'), ('ReadPayloadParam', 'net/h264/bits.go')])
P('C08', 'Emulation prevention round trip',
 '''For every octet string, removing emulation prevention yields exactly the octets in order without each 3 that follows two zero octets.
 For every octet string, encapsulating it inserts an octet 3 exactly where two zeros already written are followed by an octet of at most 3 or by the end, so that neither a start code nor two trailing zeros remain;
 decapsulating the result returns the original octets.''',
 'inputs', 'every octet string', 'Tests use a handful of hand made strings; overlapping zero runs, trailing zeros and emulation at the ends are unreached.',
 'net/h264/annexb.go', [('EBSPToRaw', 'net/h264/annexb.go'), ('RBSPToEncapsulated', 'net/h264/annexb.go')])
P('C09', 'Annex B streams are split at every start code and nowhere else',
 '''For every octet string, splitting yields, in order, exactly the non-empty runs of octets between three and four octet start codes, the last one reaching to the end, each without its emulation prevention octets and with its header octet intact; it never panics and never returns memory of the input.
 An input without start code is one unit.''',
 'inputs', 'every octet string', 'Tests use two or three streams; adjacent start codes, start codes at both ends and long zero runs are unreached.',
 'net/h264/annexb.go', [('SplitAnnexB', 'net/h264/annexb.go')])
P('C10', 'Aggregation packets yield exactly the units they contain',
 '''For every STAP-A, STAP-B, MTAP16 and MTAP24 payload, exactly the whole non-empty units it contains are queued, in order, each with its header, its data without emulation prevention octets, its timestamp (packet time, plus the 16 or 24 bit offset in MTAPs) and
 its decoding order number (sink counter, STAP-B number, or MTAP base plus difference, modulo 65536). A truncated or empty unit is an error, nothing ever panics, and start code lookalikes in headers do not matter.''',
 'inputs histories', 'every payload, every sink state', 'No test pushes any aggregation packet.',
 'net/h264/packet.go', [('parseSTAP', 'net/h264/packet.go'), ('parseMTAP', 'net/h264/packet.go'), ('parseNAL', 'net/h264/packet.go'), ('Push', 'net/h264/packet.go')])
P('C11', 'Fragmentation units reassemble to the original unit',
 '''For every sequence of FU-A or FU-B payloads, a start fragment begins a new unit dropping any unfinished one, further fragments append their octets, and the end fragment queues one unit: header from the indicator and the type,
 data of all its fragments in order without emulation prevention octets, number of its first fragment, time of its last. A fragment whose start was lost yields nothing. Other payloads in between leave the fragments alone, and later changes to a caller's buffer do not.''',
 'inputs histories', 'every payload and every state of the fragment queue', 'No test pushes any fragment; loss and interleaving are unreached.',
 'net/h264/packet.go', [('AddFragment', 'net/h264/packet.go'), ('parseNAL', 'net/h264/packet.go'), ('Push', 'net/h264/packet.go')])
P('C12', 'Each push queues the units of that payload, numbered in order',
 '''After every push the unit queue holds exactly the units of that payload. For a payload of ordinary units in Annex B form these are all of them, in order, with their header octet, timestamp and consecutive decoding order numbers modulo 65536, emulation prevention removed, and the counter ends one past the last; an empty payload is an error.
 Header accessors return the fields of the header octet and a new sink is empty.''',
 'inputs histories', 'every payload and sink state', 'No test pushes a payload at all.',
 'net/h264/packet.go', [('Push', 'net/h264/packet.go'), ('NewNALSink', 'net/h264/packet.go'), ('SplitAnnexB', 'net/h264/annexb.go')])
P('C13', 'Decoding order distance takes the short way round',
 '''For all 2^32 pairs of decoding order numbers the difference is congruent to don2 - don1 modulo 65536 and lies in [-32768, 32768], with the sign RFC 6184 assigns to numbers half way round.''',
 'inputs', 'all pairs', 'No test exists; wrap-around decides order.',
 'net/h264/packet.go', [('DonDiff', 'net/h264/packet.go')])
P('C14', 'Sequence parameter sets are parsed by the standard, picture size included',
 '''For every octet string, parsing a sequence parameter set succeeds exactly when every syntax element of H.264 clause 7.3.2.1.1 up to the VUI flag is present, for every profile, chroma format, scaling matrix, picture order count type and cropping;
 each stored field then equals the element at its place (0, or the inferred value, when absent; profile, log2 and minus-one values as coded) and width and height are the cropped luma dimensions of clause 7.4.2.1.1. It never panics.''',
 'inputs', 'every octet string', 'Tests parse one real camera SPS; the optional branches, scaling matrices, interlaced pictures, monochrome, truncation are all unreached.',
 'net/h264/spspps.go', [('ParseSPS', 'net/h264/spspps.go'), ('BitReader', 'net/h264/bits.go')])
P('C15', 'Picture parameter sets are parsed by the syntax of the standard',
 '''For every octet string, parsing a picture parameter set succeeds exactly when every syntax element of H.264 clause 7.3.2.2 is present and there are at most 8 slice groups: all slice group map types, the transform, scaling matrix and second chroma elements exactly when more data precedes the trailing bits,
 as many scaling lists as the chroma format of the sequence set it refers to requires (4:4:4 when that is unknown). Each stored field equals the element at its place, zero or the inferred value when absent. It never panics and never allocates more than the data can fill.''',
 'inputs histories', 'every octet string and every store', 'Tests parse one four octet PPS; slice groups, the tail and truncation are unreached.',
 'net/h264/spspps.go', [('ParsePPS', 'net/h264/spspps.go'), ('MoreData and the other readers', 'net/h264/bits.go')])
P('C16', 'The store of parameter sets changes only by complete sets, under their id',
 '''A new store is empty; looking an id up returns exactly the set stored under it. Parsing a set that is complete replaces the set of that kind under its id by a new one and leaves all other ids and the other kind alone; a set that cannot be parsed changes nothing.
 A parameter set NAL unit from SDP is parsed as its kind, from its octets after the header without emulation prevention; other units and empty data are ignored without error.''',
 'inputs histories', 'every store and every octet string', 'Tests look up one set after one parse; failures, replacement and interference between ids are unreached.',
 'net/h264/spspps.go', [('ParseSprop, GetSPS, GetPPS, NewParameterSets', 'net/h264/spspps.go'), ('ParseSPS, ParsePPS', 'net/h264/spspps.go')])
P('C17', 'A playlist announces the latest segments, back to back',
 '''A new playlist has room for the number of segments asked for (at least one, otherwise an error), announces none, and serves them under the given address with the base name of the file appended.
 Adding a segment to a playlist in any state announces it last, right behind the segments announced before, in their order and unchanged; when the ring is full exactly the oldest one goes.
 The first segment starts at position 0 and each further one where the one before it ends. It never panics, however many segments are added.''',
 'inputs histories', 'every ring size, every state of the ring, every segment', 'The test adds six segments to a ring of five: the ring never wraps a second time and other sizes are unreached.',
 'net/hls/playlist.go', [('NewPlaylist', 'net/hls/playlist.go'), ('AddSegment', 'net/hls/playlist.go')])
P('C18', 'A rendered playlist lists exactly the announced segments, oldest first',
 '''For every playlist, rendering yields the header with its version, then for each announced segment, oldest first, its duration, its byte range (length@position) and the address, one per line and nothing else, and the end mark; an empty playlist has only header and end mark.
 Rendering always ends and never panics.''',
 'inputs histories', 'every ring size and state', 'The test renders one state of one ring.',
 'net/hls/playlist.go', [('String', 'net/hls/playlist.go')])
P('C21', 'Authorization answers challenges by RFC 2617, request after request',
 '''For all credentials, challenges, verbs and bodies the Authorization value is the one RFC 2617 prescribes: Basic credentials are the base64 of user:password; a digest repeats user, realm, nonce, uri, algorithm and opaque (when given) and
 its response is the MD5 hash for no qop, auth and auth-int, of H(A1), nonce, count, client nonce, qop and H(A2) in this order. With MD5-sess H(A1) is derived once, from the first client nonce. The nonce count grows by one with every request that sends it.''',
 'inputs histories', 'every challenge, credential, verb, body, and sequence of requests', 'Tests answer one digest and one basic challenge once; auth-int, MD5-sess, no qop and the second request are unreached.',
 'net/rtsp/digest.go', [('Authenticate', 'net/rtsp/digest.go'), ('response', 'net/rtsp/digest.go'), ('Next', 'net/rtsp/digest.go'), ('colonnade, md5hex', 'net/rtsp/digest.go')])
P('C22', 'Authentication challenges are taken apart at the right commas',
 '''For every challenge string: other schemes than Digest and Basic are refused; directives are separated at exactly the commas outside quoted strings; names are case insensitive, values are without their quotes, unknown directives are ignored and the last of a name counts;
 the algorithm is MD5 when not given, the first qop offered is used. A challenge with a nonce is refused exactly when its algorithm is neither MD5 nor MD5-sess. It never panics.''',
 'inputs', 'every challenge string', 'Tests parse two well formed challenges; commas in quotes, unknown directives and damaged challenges are unreached.',
 'net/rtsp/digest.go', [('NewDigest', 'net/rtsp/digest.go'), ('splitDirectives', 'net/rtsp/digest.go')])
P('C19', 'Transport headers are parsed parameter by parameter',
 '''For every transport header value, parsing fails exactly when a parameter that needs a value has none or a number or pair of numbers does not parse, wherever in the header it is.
 Otherwise each attribute is what the last parameter of its (case insensitive) name says and unchanged when there is none; TCP is the lower transport exactly when the transport specification, the first parameter, names it, and no other parameter is mistaken for it. It never panics.''',
 'inputs', 'every header value and every transport state before', 'No test exists for the parser; order, repetition and malformed values are unreached.',
 'net/rtsp/transport.go', [('Transport.Parse', 'net/rtsp/transport.go'), ('ParsePair', 'net/rtsp/transport.go')])
P('C20', 'Transports offered name the channels or ports of their stream',
 '''For every protocol a new transport offers exactly what the protocol needs: a pair of interleaved channels over TCP and HTTP, a pair of client ports for unicast, a pair of group ports for multicast, and nothing else.
 Rendered, a header value has exactly the parameters that are set, in one fixed order, each with its value; the lower transport, unicast and multicast follow the transport.''',
 'inputs', 'every protocol, port and transport', 'No test renders a transport.',
 'net/rtsp/transport.go', [('NewTransport', 'net/rtsp/transport.go'), ('Transport.String, Pair.String', 'net/rtsp/transport.go')])
P('C28', 'Session descriptions are parsed line by line into their video streams',
 '''For every octet string, parsing a session description yields exactly one stream for every media line of a video, in order. Each has the attributes which the attribute lines following its media line, up to the next media line, give it, the last one counting:
 payload type, rtpmap number, codec, time scale, control address, configuration, size and index length, and all parameter sets in order, decoded; what is not given is zero. Attributes are told apart by their names only. Lines of other media and of the session are ignored; it never panics.''',
 'inputs', 'every octet string', 'No test exists in the package; a media line without a port panicked, and other attributes were mistaken for the ones above.',
 'net/sdp/packet.go', [('Parse', 'net/sdp/packet.go')])
P('C30', 'Message headers are found under any spelling of their name',
 '''For every header collection, setting a header stores exactly that value under the canonical form of its name and leaves the others alone, getting one returns the value stored under the canonical form or the empty string, also of a missing collection, and deleting removes exactly that one:
 names differing only in case denote the same header.''',
 'inputs histories', 'every header collection, name and value', 'No test exists for headers.',
 'net/rtsp/message.go', [('Set, Get, Del', 'net/rtsp/message.go')])
P('C23', 'Requests are written as RFC 2326 prescribes, with nothing lost or added',
 '''For every request the message on the wire is: the request line with verb, resource and version, its sequence number, every header it has exactly once, the session it belongs to unless the verb opens one or asks for options, the credentials if there are any, the agent, a content length of zero, and an empty line.
 The requests that open RTSP over HTTP name verb, resource and the cookie both connections share, and only POST announces a length. Messages never share memory.''',
 'inputs', 'every request, header collection, verb, resource and cookie', 'No test packs a request or a response.',
 'net/rtsp/message.go net/rtsp/http.go', [('Request.Pack, Response.Pack', 'net/rtsp/message.go'), ('ConnectHTTP', 'net/rtsp/http.go')])
P('C24', 'Responses are read exactly: status, headers, body, and not a byte more',
 '''For every byte stream, however it arrives in pieces, reading a response succeeds exactly when a status line of RTSP 1.0 with a three digit code, header lines with a colon each and an empty line follow each other and the announced body is complete, however large it is.
 The response then has the status, code, sequence number, for each header name the value of its last line, and a body of its own of exactly the announced length; the stream stands right behind the body. For HTTP responses likewise, without body. It never panics.''',
 'inputs histories', 'every byte stream and every division of it into pieces', 'No test reads a response; bodies larger than the buffer failed, repeated or malformed headers and truncated messages are unreached.',
 'net/rtsp/message.go net/rtsp/connection.go net/rtsp/http.go', [('Unpack', 'net/rtsp/message.go'), ('ReceiveHTTP', 'net/rtsp/http.go'), ('ReadLine, ReadBytes', 'net/rtsp/connection.go')])
P('C25', 'Interleaved binary data is read from the stream in exact portions',
 '''For every byte stream, peeking, discarding and reading single bytes, 16-bit numbers (higher byte first) and runs of bytes deliver exactly the next bytes of the stream in order, consume exactly these (peeking none), and fail exactly when there are not enough left;
 what was read never changes afterwards when more is read.''',
 'inputs histories', 'every byte stream, division into pieces, and length', 'No test reads binary data; packets larger than the buffer failed and packets shared the memory of the buffer.',
 'net/rtsp/connection.go net/rtsp/session.go', [('Peek, Discard, ReadByte, ReadUint16, ReadBytes', 'net/rtsp/connection.go')])
P('C26', 'Each command gets the next number, waits for its response, and goes out once',
 '''Every command of a connected session gets the number after the last one used, is queued under it with the verb, resource, session, credentials and headers it was given and leaves the other waiting requests alone; unless an error is reported exactly its message is written to the connection and nothing else:
 as it is, or over HTTP in base 64, behind a single request that opens the sending connection. A request that is repeated keeps its number. A response number finds exactly the request waiting under it and removes that one only. Without a connection a command fails and changes nothing.
 The session is kept alive over UDP only, from set up to tear down.''',
 'inputs histories', 'every state of a session, every command and every history of commands and responses', 'No test sends a command; over HTTP the first command panicked.',
 'net/rtsp/session.go net/rtsp/connection.go', [('command, enqueue, dequeue', 'net/rtsp/session.go'), ('Options, Describe, Play, Pause, Teardown, KeepAlive', 'net/rtsp/session.go'), ('Conn.Write', 'net/rtsp/connection.go')])
P('C29', 'Each video stream becomes a feed of its own, with the transport that was agreed',
 '''For every session description there is one feed for each video stream, in order, with the attributes of its stream, no parameter sets yet, and a transport of its own that offers the channels or ports 2k and 2k+1 of the protocol for the k-th stream; the header of SETUP says what that transport offers.
 A feed is set up exactly when the transport of the response parses and all parameter sets of its description do; its transport is then the one of the response and its store has exactly these sets. A failure never sets a feed up and never damages the store.''',
 'inputs', 'every session description, protocol and transport header', 'No test makes or sets up a feed.',
 'net/rtsp/feed.go', [('ParseFeeds, TransportHeader, TransportSetup', 'net/rtsp/feed.go')])
