#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that long statements stay readable).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Priority wire codec is exact and strict",
 "Encoding any priority from 0 to 255 yields exactly '<', its decimal value without leading zeros, '>1', and decoding that text yields the same priority. Decoding an arbitrary byte string succeeds exactly when it is '<', one to three decimal digits, '>1', and then yields that decimal value; otherwise it returns an error, leaves the target unchanged and never panics.",
 ["inputs"],"every priority value 0..255; every byte string (decoder)",
 "TestPriorityMarshal5424 only runs the encoder on 256 values; the decoder is never given malformed or arbitrary bytes.",
 ["priority.go"],[("Priority.Marshal5424","priority.go"),("Priority.Unmarshal5424","priority.go")],observe=["Priority.Marshal5424","Priority.Unmarshal5424"])
p("C02","Priority names and facility/severity parts are consistent",
 "Every priority is the union of its facility part and its severity part, and for every known facility and severity the text form is 'facility.severity' and setting a priority from that text gives the priority back. Setting from any other text is refused with an error and leaves the value unchanged. The text form is available, without a panic, for every priority that can be decoded from the wire.",
 ["inputs"],"every priority 0..999 and every text up to the bound given to Set",
 "TestPriority tries two valid and three invalid names; the other facility/severity pairs and arbitrary texts are not sampled.",
 ["priority.go"],[("Priority.Set","priority.go"),("Priority.String","priority.go"),("Priority.Facility/Severity","priority.go")],observe=["Priority.Set","Priority.String","Priority.Facility","Priority.Severity"])
p("C03","Header fields can never carry separators or exceed their limits",
 "Whatever strings the caller (or the operating system's host name) supplies for hostname, app-name, proc-id and msg-id, through any constructor, setter, logger or channel, the encoded message carries in each of these fields 1 to 255/48/128/32 printable US-ASCII characters (33..126), an empty value becoming '-'. A value that already satisfies this is carried unchanged; a longer one is cut to its first characters, and each byte outside the range is replaced by '%'.",
 ["inputs"],"every string for each header field, on every public path that sets it",
 "The tests only use well-formed short ASCII names, so neither sanitising, truncation nor the paths that may bypass them are exercised.",
 ["helpers.go","message.go","syslog.go","channel.go"],[("validatorGeneric","helpers.go"),("validHost/validApp/validProcid/validMsgid","helpers.go"),("Create*Message and setters","message.go"),("New/SubSyslog","syslog.go"),("AppName/Msgid","channel.go")],observe=["Message.Marshal5424","bytes handed to the connection"])
p("C04","A message encodes to exactly its RFC 5424 layout",
 "The encoding of a message is exactly priority, timestamp, hostname, app-name, proc-id, msg-id and structured data in that order separated by single spaces, followed by one space and the text if and only if the text is non-empty; the text is the supplied text with its trailing white space removed and nothing else changed. Setting one field leaves all others as they were, and if structured data cannot be encoded an error is returned and no bytes.",
 ["inputs","histories"],"every field content, every text, and every order of applying the setters up to the bound",
 "TestMessage checks three fixed messages without trailing white space or setters.",
 ["message.go","sdata/list.go"],[("Message.Marshal5424","message.go"),("setters of Message","message.go"),("List.Marshal5424","sdata/list.go")],observe=["Message.Marshal5424","Message.String"])
p("C05","Parsing arbitrary bytes never panics",
 "For every byte string, every transport (or none) and either end-of-file flag, parsing returns normally; and for every message that was returned without an error, all accessors, conversion to a writable message and its re-encoding return normally too.",
 ["inputs"],"every byte string up to the bound, for each transport and flag",
 "The parse tests only feed ten well-formed messages with no transport; one hostile packet is enough to kill a logging server.",
 ["message-immutable.go","transport.go","sdata/tokens.go","sdata/sd-unknown.go","sdata/timequality/tq.go"],[("Parse","message-immutable.go"),("MessageImmutable accessors","message-immutable.go"),("PrefixStrip/SuffixStrip","transport.go"),("Found implementations","sdata/sd-unknown.go")],observe=["Parse","MessageImmutable methods"])
p("C06","Encoding then parsing gives the same message back",
 "Parsing the encoding of any message, directly or framed by any transport, succeeds and gives back its priority, timestamp (to the microsecond), hostname, app-name, proc-id, msg-id, structured data and text, whatever characters the text and the structured data values contain. Converting the parsed message to a writable one and encoding it reproduces the same bytes.",
 ["inputs"],"every combination of header fields, zero or more structured data elements with arbitrary values, and arbitrary text (free of the terminator for terminator-based transports)",
 "Ten fixed strings are round-tripped today; none has ']' or quotes in the text after structured data, escaped characters next to delimiters, or elements without parameters.",
 ["message.go","message-immutable.go","sdata/structured-data-encoder.go"],[("Message.Marshal5424","message.go"),("Parse","message-immutable.go"),("Writable","message-immutable.go")],observe=["Parse","MessageImmutable accessors"])
p("C07","Only well-formed messages are accepted, and fields partition the packet",
 "Whenever parsing a byte string without a transport succeeds, the string starts with six non-empty space-separated fields followed by '-' or by one or more bracketed structured data elements, and then either ends or continues with a space and the text. The accessors return exactly these parts (header names after the same sanitising as on output, structured data elements in order, the text as all bytes after that space), so no byte is lost, duplicated or taken from outside; every other string is refused with an error.",
 ["inputs"],"every byte string up to the bound",
 "No test gives the parser a malformed message, and the accessors are compared on two messages.",
 ["message-immutable.go"],[("Parse","message-immutable.go"),("searchNextSep","message-immutable.go"),("accessors","message-immutable.go")],state=[("index/text","offsets of the fields in the packet","message-immutable.go")],observe=["Parse","MessageImmutable accessors"])
p("C08","Framing and unframing are inverse for every transport",
 "For each transport, the frame built for a message (without the terminator byte, for terminator-based transports) contains the message bytes unchanged, and stripping that frame from a buffer that continues with arbitrary other bytes returns exactly the message and exactly the remaining bytes. A buffer that holds only part of a frame never yields a complete message, and a length header that is not a plain decimal count is refused with an error, never a panic.",
 ["inputs"],"every message content, every continuation, every truncation and every header text up to the bound",
 "The transport tests use one message and two fixed buffers per transport.",
 ["transport.go"],[("Encode","transport.go"),("PrefixStrip","transport.go"),("SuffixStrip","transport.go")],observe=["Transport.Encode","Transport.PrefixStrip","Transport.SuffixStrip"])
p("C09","A receiver delivers exactly the messages sent, however the stream is cut",
 "For each transport, if a peer writes a sequence of framed well-formed messages, the receiver delivers exactly those messages, byte for byte, once each and in order, for every way the stream is split into reads, and including messages without text and the last one before the peer closes. A delivered message never changes afterwards, whatever arrives later on the connection.",
 ["inputs","schedules"],"every split of the byte stream into reads, every message content and every position in the receive buffer, within the bound",
 "The burst test sends identical messages and depends on whatever splits the kernel happens to make.",
 ["listener.go","message-immutable.go","transport.go"],[("Receiver.tokenize","listener.go"),("Parse/parseReturn","message-immutable.go")],state=[("buffer/done","pending bytes of the connection","listener.go")],observe=["Receiver.Receive"])
p("C10","Bad input or a failing connection cannot take a receiver down",
 "Whatever bytes a peer sends, and whatever errors reading from a connection or accepting one reports, the receiver neither panics nor stops serving: a read error ends only that connection, a failed accept is reported and later connections are still served. A malformed message in its own frame is reported together with an error, and the well-formed messages framed after it are still delivered.",
 ["inputs","fault_sequences"],"every byte content up to the bound and every position of read and accept errors",
 "The tests never send malformed data and never make an accept or a read fail.",
 ["listener.go","message-immutable.go","transport.go"],[("Receiver.runQueue","listener.go"),("Receiver.tokenize","listener.go")],observe=["Receiver.Receive","error channel of NewReceiver"])
p("C11","Stopping a receiver is safe under every schedule",
 "Ending a receiver while connections are open, data is arriving or nobody is receiving never causes a panic. Once it has been ended, its listener gets closed and every call to Receive returns, reporting the end of the stream after the messages that were already delivered.",
 ["schedules","histories"],"every interleaving of End, Accept, reads, deliveries and Receive within the bound",
 "The tests end the receiver last, just before the process exits, so its shutdown is never observed.",
 ["listener.go"],[("Receiver.End","listener.go"),("Receiver.runQueue","listener.go"),("Receiver.Receive","listener.go")],observe=["Receiver.Receive","Listener.Close"])
p("C12","A sender transmits every message exactly once and in order",
 "With a healthy connection, every message accepted by Send before End is called is written to the connection exactly once, framed by the chosen transport, as one write per message, and before End returns; messages of one goroutine keep their order, for every interleaving of senders, flush ticks and End. Concurrent senders never corrupt the queue (no data race).",
 ["schedules","inputs"],"every interleaving of up to the bound of concurrent Send calls, flush ticks and End, with arbitrary message contents",
 "The tests use one sending goroutine with identical messages and one timing of ticks.",
 ["connector.go","transport.go"],[("Sender.Send","connector.go"),("Sender.flushQueue","connector.go"),("Sender.runQueue","connector.go")],state=[("queue","encoded messages waiting to be written, guarded by lock","connector.go")],observe=["WriteCloser.Write","Sender.End"])
p("C13","Connection failures never lose, reorder or tear messages",
 "If connecting or writing fails, at any point and after any part of a message was written, the failure is reported on the error channel, the failed connection is closed and messages not yet completely written stay queued. After reconnecting, what the sender writes on the new connection starts at a message boundary and continues with the first message not completely written before, each following message whole and in order.",
 ["fault_sequences","inputs"],"every sequence of connect and write results (including partial writes) within the bound",
 "No test makes a connection fail.",
 ["connector.go"],[("Sender.flushQueue","connector.go")],state=[("output","current connection or nil","connector.go"),("queue","messages not yet written","connector.go")],observe=["Connector.Connect","WriteCloser.Write","error channel of NewSender"])
p("C14","Ending a sender always completes and never panics",
 "End returns for every history: with nothing ever sent, with no connection ever established, after connection errors, and whether or not anybody reads the error channel; it flushes what the connection accepts, closes an established connection exactly once and then closes the error channel, and no step panics.",
 ["histories","fault_sequences","schedules"],"every combination of sent messages, connector outcomes and ticks before End, within the bound",
 "Every test ends its sender after a successful flush on a working connection.",
 ["connector.go"],[("Sender.End","connector.go"),("Sender.runQueue","connector.go")],observe=["Sender.End","WriteCloser.Close","error channel"])
p("C15","Severity filtering is exact",
 "For every minimum priority given to a new logger and every severity, a message logged on the channel of that severity is sent if and only if the severity is at least as urgent as the minimum, and then carries the logger's facility and the channel's severity. A channel reports itself as null exactly when it discards, and the same holds for sub-loggers.",
 ["inputs","configurations"],"every minimum priority and requested severity (with arbitrary facility bits)",
 "The tests use a single minimum priority and two severities.",
 ["syslog.go","channel.go"],[("New","syslog.go"),("Syslog.Channel","syslog.go"),("SubSyslog","syslog.go"),("devnull","channel.go")],observe=["Channel.Log","Channel.IsDevNull"])
p("C16","Derived loggers and channels extend names and never affect others",
 "Deriving with an application name appends '/name' to the current one (or replaces '-'), deriving with a message id sets it, in any order and any number of times; priority, host, process id and destination are kept, an enabled channel stays enabled and a null channel stays null. Deriving never changes what the parent or any sibling logs.",
 ["histories","inputs"],"every sequence of derivations up to the bound with arbitrary names",
 "The only derivation tested is one SubSyslog with a fixed name.",
 ["channel.go","syslog.go"],[("trueChannel.AppName/Msgid","channel.go"),("SubSyslog","syslog.go")],observe=["bytes handed to the connection","Channel.IsDevNull"])
p("C17","One write or log call is exactly one message with the caller's text",
 "Each Write or Log call on an enabled channel, directly or through its standard logger, queues exactly one message carrying the given text (trailing white space removed), the channel's header fields, the current time and the given structured data; Write reports all bytes written and does not keep or modify the caller's buffer. On a null channel nothing is sent and Write still reports all bytes written.",
 ["inputs","histories"],"every text and every structured data value up to the bound; later changes of the caller's buffer",
 "Tests log four fixed texts and never reuse a buffer.",
 ["channel.go"],[("msgChannel.Write","channel.go"),("msgChannel.Log","channel.go"),("Logger","channel.go")],observe=["bytes handed to the connection","Channel.Write result"])
p("C18","Structured data values cannot break out of their quotes",
 "For every string value in a struct field, map entry or list of a structured data element, the encoded element is '[' name, then for each parameter a space, its name, '=', and the value in quotes where '\"', '\\' and ']' (and only these) are preceded by a backslash, then ']'; undoing the escapes gives the value back. Fields appear in declaration order and map entries sorted by name; nil or empty values are left out and list values repeat the name.",
 ["inputs"],"every value string, any number of parameters and list lengths within the bound",
 "Three fixed elements are encoded today, with one escaped character.",
 ["sdata/structured-data-encoder.go"],[("PrefixedWrite","sdata/structured-data-encoder.go"),("newStructEncoder/newMapEncoder/newListEncoder","sdata/structured-data-encoder.go")],observe=["StructuredData.Marshal5424 of GenericSD","sdata.MarshalSD"])
p("C19","Encoding any structured data value returns bytes or an error, never a panic",
 "For every Go value given as generic structured data, encoding returns either a complete bracketed element or an error: values of unsupported types, nil pointers and maps, fixed-size arrays, interface-typed members and missing mandatory fields included. If one element of a list fails, the whole message is refused instead of sent incomplete.",
 ["inputs"],"every kind of member type and nil/non-nil combination in the catalogue of types, arbitrary contents",
 "The tests encode three well-formed values.",
 ["sdata/structured-data-encoder.go","sdata/sd-generic.go","sdata/list.go"],[("encodeState.marshal","sdata/structured-data-encoder.go"),("newTypeEncoder","sdata/structured-data-encoder.go")],observe=["StructuredData.Marshal5424 of GenericSD","Message.Marshal5424"])
p("C20","Decoding a structured data element is total, strict and lossless",
 "Decoding any byte string as a structured data element returns normally; it is accepted exactly when it is '[' name, then zero or more ' name=\"value\"' with '\"', '\\' and ']' escaped inside the value, then ']', and is refused otherwise. Re-encoding an accepted element of an unregistered kind reproduces the element up to the number of separating spaces.",
 ["inputs"],"every byte string up to the bound",
 "The element parser is only tested with two invalid and no arbitrary inputs.",
 ["sdata/sd-unknown.go","sdata/tokens.go","sdata/list.go"],[("unknownDef.Found","sdata/sd-unknown.go"),("NextHeader/NextNonSpace/NextSDName/NextSDValue","sdata/tokens.go")],observe=["sdata.Parse","StructuredData.Marshal5424"])
p("C21","timeQuality elements are validated and round-trip",
 "A time quality value is encoded if and only if it is consistent (synchronised implies known time zone, an accuracy implies synchronised), for every accuracy value, and decoding the encoding gives an equal value. Decoding any byte string never panics and never yields an inconsistent value or one that differs from what the parameters say.",
 ["inputs"],"all flag combinations, every accuracy integer and every byte string up to the bound",
 "Seven valid and thirteen invalid fixed elements are tested; no zero, negative or extreme accuracy, no truncated element.",
 ["sdata/timequality/tq.go"],[("TimeQuality.Marshal5424","sdata/timequality/tq.go"),("tqdef.Found","sdata/timequality/tq.go"),("IsValid","sdata/timequality/tq.go")],observe=["TimeQuality.Marshal5424","TQ.Found","sdata.Parse"])
p("C22","Messages are values: deriving or reading one never changes another",
 "Every setter of a message, adding structured data included, returns a new message and leaves the original, and every message derived earlier from it, encoding exactly as before. Accessors, conversion and writing out of a received message never modify it or the buffer it came from.",
 ["histories","inputs"],"every sequence of derivations up to the bound from shared ancestors",
 "No test keeps an earlier message and checks it after deriving another.",
 ["message.go","sdata/list.go","message-immutable.go"],[("Message setters","message.go"),("List.Add","sdata/list.go"),("accessors","message-immutable.go")],observe=["Message.Marshal5424","MessageImmutable.String"])
p("C23","Timestamps are carried exactly to the microsecond",
 "The timestamp field of an encoded message is the RFC 3339 form of the instant with the zone offset given, with up to six fraction digits (truncated, trailing zeros dropped), and parsing it gives the same instant to the microsecond. Setting the time from epoch seconds and nanoseconds, or from a time elapsed since boot, gives exactly that instant; setting it from a stamp without year keeps month, day and time of day and takes the current year, or the previous one for a December stamp read in January.",
 ["inputs"],"instants and offsets within the bound, every seconds/nanoseconds text up to the bound",
 "Only whole-second fixed instants are formatted in tests; Epoch, Delta and Timestamp are never called.",
 ["message.go","message-immutable.go"],[("RFC5424TimeStamp","message.go"),("epochToTs/deltaBootToTs/stampToTs","message.go"),("MessageImmutable.TimeStamp","message-immutable.go")],observe=["Message.Marshal5424","MessageImmutable.TimeStamp"])
p("C24","Dialing and listening select network and framing exactly as documented",
 "Dialing accepts exactly the networks stdio, local, unix, unixgram, tcp, tcp4 and tcp6 and uses the given transport, or by default NUL-terminated frames for local and unix sockets and LF-terminated frames for stdio and tcp; any other network is refused with an error. Connectors for an invalid network or address always report an error on connecting, and the listener chosen from a network name is the one of that kind, an unknown name being refused.",
 ["inputs","configurations"],"every network and address string up to the bound, with and without a transport",
 "Tests dial four valid combinations.",
 ["dialer.go","connector-fd.go","connector-tcp.go","connector-invalid.go","listener-guess.go","listener-tcp.go"],[("Dialer.Dial","dialer.go"),("StdioConnector","connector-fd.go"),("TCPConnector","connector-tcp.go"),("GuessListener","listener-guess.go")],observe=["Dialer.Dial","Connector.Connect","GuessListener"])
p("C25","Connecting yields a usable connection or an error, to the right peer",
 "Connecting over tcp tries the resolved addresses of the requested family in order, on the given port or 514 if none is given, and returns the first connection that succeeds, or an error if there is none; it never returns success without a connection. A local connection goes to the given address, or to the first well-known local log socket that answers, stream sockets before datagram sockets.",
 ["inputs","configurations","fault_sequences"],"every list of resolved addresses (family mix) and every pattern of failing dials within the bound",
 "The only test dials one numeric address that answers.",
 ["connector-tcp.go","connector-local.go","connector-local_unix.go"],[("tcpConn.Connect","connector-tcp.go"),("localConn.Connect","connector-local.go"),("osGuessConnnector","connector-local_unix.go")],observe=["Connector.Connect"])
p("C26","Reading datagrams loses and reorders no bytes",
 "A reader obtained from a datagram listener returns the bytes of the received datagrams in order, each byte exactly once, whatever sizes the caller reads with, reports at most as many bytes as it was given room for, and never mixes in bytes of other datagrams or old buffer contents.",
 ["inputs","histories"],"every sequence of datagram sizes and read sizes within the bound",
 "The burst test always reads with a 64 KiB buffer, so a datagram never needs a second read.",
 ["listener-unixdgram.go"],[("fakeConn.Read","listener-unixdgram.go"),("unixgramReceiver.Accept","listener-unixdgram.go")],state=[("buff","unread rest of the last datagram","listener-unixdgram.go")],observe=["DataReader.Read"])
p("C27","Registered structured data kinds are decoded by their own decoder",
 "An element that a registered kind recognises is decoded by it and by no generic fallback, and one that no registered kind recognises is decoded generically, whatever the order of registration and look-up. Registering a kind under a name already taken keeps the first, and concurrent registration and decoding are free of races and deadlocks.",
 ["histories","schedules","inputs"],"every order of registrations and decodings, and their interleavings, within the bound",
 "Tests register one kind once at start-up.",
 ["sdata/list.go"],[("Register/RegisterGroup","sdata/list.go"),("registryT.Found","sdata/list.go")],state=[("registry","registered kinds by name, guarded by lock","sdata/list.go")],observe=["sdata.Parse","sdata.Register"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
