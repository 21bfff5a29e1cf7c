From 6842b44aabaf239f657b95a8a2c893da0980fe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 01/20] fix: give every priority that can be decoded a text
 form

---
 priority.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/priority.go b/priority.go
index 7682fab..980d7b9 100644
--- a/priority.go
+++ b/priority.go
@@ -87,7 +87,8 @@ var severity = map[string]Priority{
 var severityString = []string{"emerg", "alert", "crit", "err", "warning", "notice", "info", "debug"}
 var facilityString = []string{"kern", "user", "mail", "daemon", "auth", "syslog", "lpr", "news",
 	"uucp", "cron", "authpriv", "ftp", "-", "-", "-", "-",
-	"local0", "local1", "local2", "local3", "local4", "local5", "local6", "local7"}
+	"local0", "local1", "local2", "local3", "local4", "local5", "local6", "local7",
+	"-", "-", "-", "-", "-", "-", "-", "-"}
 
 // Set implement flag.Value interface
 func (p *Priority) Set(d string) error {
-- 
2.43.0


From 95d96c015b461f95a3dc5bb2d0158b7db7c3447b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:37 +0000
Subject: [PATCH 02/20] fix: sanitise the host name of the system like any
 other hostname

---
 message.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/message.go b/message.go
index 0b06c55..9a3410c 100644
--- a/message.go
+++ b/message.go
@@ -25,7 +25,12 @@ type Message struct {
 // RFC5424TimeStamp is the format of a RFC 5424 TimeStamp
 const RFC5424TimeStamp string = "2006-01-02T15:04:05.999999Z07:00"
 
-var hostname, _ = os.Hostname()
+var hostname = localHostname()
+
+func localHostname() string {
+	host, _ := os.Hostname()
+	return validHost(host)
+}
 
 // CreateMessage create a Message with the timestamp, hostname, appname, the priority and the message preset
 func CreateMessage(appname string, prio Priority, message string) Message {
-- 
2.43.0


From 42dbe931eac8f3ee39646bda40f7fa651db443ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:37 +0000
Subject: [PATCH 03/20] fix: sanitise the application name of a sub-logger

---
 syslog.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/syslog.go b/syslog.go
index 1de5193..d047098 100644
--- a/syslog.go
+++ b/syslog.go
@@ -92,6 +92,7 @@ func (syslog *Syslog) SubSyslog(subAppName string) (sub *Syslog) {
 	default:
 		appname = syslog.appname + "/" + subAppName
 	}
+	appname = validApp(appname)
 
 	sub = &Syslog{
 		facility: syslog.facility,
-- 
2.43.0


From 606a2e906b5ebd2a04353407206e41fe6a308fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 04/20] fix: RFC 5425 framing accepts short frames and only
 plain decimal counts

---
 transport.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/transport.go b/transport.go
index abeb88d..7a3c7be 100644
--- a/transport.go
+++ b/transport.go
@@ -77,32 +77,46 @@ func (t tRFC5425) PrefixStrip(buffer []byte, atEOF bool) (data, rest []byte, err
 		return nil, nil, nil
 	}
 
-	if len(buffer) < 20 {
+	sepPos := bytes.IndexByte(buffer, ' ')
+	if sepPos < 0 && len(buffer) < 20 && isDecimal(buffer) {
+		// the header itself is still incomplete
+		if atEOF {
+			return nil, nil, ErrTransportIncomplete
+		}
 		return nil, nil, nil
 	}
 
-	sepPos := bytes.IndexByte(buffer, ' ')
 	if sepPos <= 0 {
 		return nil, nil, ErrTransportNoHeader
 	}
 
-	lenMsg, err := strconv.Atoi(string(buffer[0:sepPos]))
+	// a length is only made of digits, and must fit in an int
+	lenMsg, err := strconv.ParseUint(string(buffer[0:sepPos]), 10, strconv.IntSize-1)
 	if err != nil {
 		return nil, nil, ErrTransportInvHeader
 	}
 
 	start := sepPos + 1
-	lenBuff := start + lenMsg
-	if len(buffer) < lenBuff {
+	if uint64(len(buffer)-start) < lenMsg {
 		if atEOF {
 			return buffer[start:], nil, ErrTransportIncomplete
 		}
 		return nil, nil, nil
 	}
 
+	lenBuff := start + int(lenMsg)
 	return buffer[start:lenBuff], buffer[lenBuff:], nil
 }
 
+func isDecimal(data []byte) bool {
+	for _, c := range data {
+		if c < '0' || c > '9' {
+			return false
+		}
+	}
+	return true
+}
+
 func (t tZeroEnded) SuffixStrip(buffer []byte, atEOF bool) (data, rest []byte, err error) {
 	if buffer == nil || len(buffer) == 0 {
 		return nil, nil, nil
-- 
2.43.0


From e815dc1781a8ff6f60284f7ef82f42fa4778776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:41 +0000
Subject: [PATCH 05/20] fix: decoding short structured data elements neither
 panics nor drops them

---
 sdata/sd-generic.go     |  8 ++++++--
 sdata/sd-unknown.go     |  2 +-
 sdata/timequality/tq.go |  5 +++--
 sdata/tokens.go         | 26 ++++++++++++--------------
 4 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/sdata/sd-generic.go b/sdata/sd-generic.go
index 579cb9f..019e6f0 100644
--- a/sdata/sd-generic.go
+++ b/sdata/sd-generic.go
@@ -1,5 +1,9 @@
 package sdata // import "github.com/nathanaelle/syslog5424/v2/sdata"
 
+import (
+	"strings"
+)
+
 type (
 	genericSDID struct {
 		SDIDLight
@@ -45,13 +49,13 @@ func (sdid genericSDID) MarshalText() (text []byte, err error) {
 }
 
 func (sdid genericSDID) Found(data []byte) (StructuredData, bool) {
-	if data[0] != '[' || data[len(data)-1] != ']' {
+	if len(data) < 2 || data[0] != '[' || data[len(data)-1] != ']' {
 		return nil, false
 	}
 	data = data[1 : len(data)-1]
 
 	header := sdid.String()
-	if string(data[0:len(header)]) != header {
+	if !strings.HasPrefix(string(data), header) {
 		return nil, false
 	}
 
diff --git a/sdata/sd-unknown.go b/sdata/sd-unknown.go
index 5eee3f0..1592140 100644
--- a/sdata/sd-unknown.go
+++ b/sdata/sd-unknown.go
@@ -43,7 +43,7 @@ func (d unknownDef) MarshalText() (text []byte, err error) {
 }
 
 func (d unknownDef) Found(data []byte) (StructuredData, bool) {
-	if data[0] != '[' || data[len(data)-1] != ']' {
+	if len(data) < 2 || data[0] != '[' || data[len(data)-1] != ']' {
 		return nil, false
 	}
 	data = data[1 : len(data)-1]
diff --git a/sdata/timequality/tq.go b/sdata/timequality/tq.go
index 39343c8..85bb41a 100644
--- a/sdata/timequality/tq.go
+++ b/sdata/timequality/tq.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"math"
 	"strconv"
+	"strings"
 
 	"github.com/nathanaelle/syslog5424/v2/sdata"
 )
@@ -58,12 +59,12 @@ func (d tqdef) MarshalText() (text []byte, err error) {
 }
 
 func (d tqdef) Found(data []byte) (sdata.StructuredData, bool) {
-	if data[0] != '[' || data[len(data)-1] != ']' {
+	if len(data) < 2 || data[0] != '[' || data[len(data)-1] != ']' {
 		return nil, false
 	}
 	data = data[1 : len(data)-1]
 
-	if string(data[0:11]) != "timeQuality" {
+	if !strings.HasPrefix(string(data), "timeQuality") {
 		return nil, false
 	}
 	data = data[11:]
diff --git a/sdata/tokens.go b/sdata/tokens.go
index 78a6836..365d5e3 100644
--- a/sdata/tokens.go
+++ b/sdata/tokens.go
@@ -6,28 +6,23 @@ import (
 
 // NextHeader try to decode a Structured Data header from a []byte
 func NextHeader(data []byte) (header string, ret []byte, err error) {
-	if data == nil || len(data) < 4 {
+	if len(data) < 1 {
 		return "", nil, fmt.Errorf("invalid length for [%q]", string(data))
 	}
 
 	length := 0
-	ret = data
-	for len(ret) > 0 {
-		if ret[0] < ' ' || data[length] == '=' || data[length] == byte(127) || data[length] == ']' || data[length] == '"' {
+	for length < len(data) && data[length] != ' ' {
+		if data[length] < ' ' || data[length] == '=' || data[length] == byte(127) || data[length] == ']' || data[length] == '"' {
 			return "", nil, fmt.Errorf("invalid char %v", data[length])
-
-		}
-		if data[length] == ' ' {
-			if length == 0 {
-				return "", nil, fmt.Errorf("unexpected space")
-			}
-			header = string(data[0:length])
-			return
 		}
-		ret = ret[1:]
 		length++
 	}
-	return "", nil, fmt.Errorf("unexpected EOF")
+
+	if length == 0 {
+		return "", nil, fmt.Errorf("unexpected space")
+	}
+
+	return string(data[0:length]), data[length:], nil
 }
 
 // NextNonSpace try to decode a Structured Data part from a []byte
@@ -66,6 +61,9 @@ func NextSDName(data []byte) (name string, ret []byte, err error) {
 
 		}
 		if data[length] == '=' {
+			if length == 0 {
+				return "", nil, fmt.Errorf("unexpected =")
+			}
 			ret = ret[1:]
 			name = string(data[0:length])
 			return
-- 
2.43.0


From 6d6a644c4803ff57f5db140d7bdb80b1c9dabdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 06/20] fix: Parse delimits structured data elements by their
 syntax

---
 message-immutable.go | 79 +++++++++++---------------------------------
 sdata/tokens.go      | 34 +++++++++++++++++++
 2 files changed, 53 insertions(+), 60 deletions(-)

diff --git a/message-immutable.go b/message-immutable.go
index 3cd99db..cf5cf26 100644
--- a/message-immutable.go
+++ b/message-immutable.go
@@ -140,7 +140,6 @@ func (msg MessageImmutable) WriteTo(w io.Writer) (n int64, err error) {
 // Parse allow to parse a []byte and decode one ImmutableMessage
 func Parse(data []byte, transport Transport, atEOF bool) (returnMsg MessageImmutable, rest []byte, mainErr error) {
 	sepSp := []byte{' '}
-	sepBrk := []byte{']'}
 
 	if transport != nil {
 		data, rest, mainErr = transport.PrefixStrip(data, atEOF)
@@ -175,72 +174,32 @@ func Parse(data []byte, transport Transport, atEOF bool) (returnMsg MessageImmut
 		return
 	}
 
-	if len(data[begin:]) == 1 {
-		if data[begin] != '-' {
-			mainErr = dispatchError(mainErr, ParseError{data, begin, "empty field expected"})
-			return
-		}
-		msg.index = append(msg.index, begin+2)
+	switch data[begin] {
+	case '-':
+		begin++
+		msg.index = append(msg.index, begin)
 
-		returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
-		return
-	}
-
-	end, err := searchNextSep(data[begin:], sepSp)
-	if err != nil {
-		mainErr = dispatchError(mainErr, err)
-		return
-	}
-
-	if end == 1 {
-		if data[begin] != '-' {
-			mainErr = dispatchError(mainErr, ParseError{data, begin, "empty structured data expected"})
-			return
+	default:
+		for begin < len(data) && (data[begin] == '[' || len(msg.index) == 6) {
+			_, tail, err := sdata.NextElement(data[begin:])
+			if err != nil {
+				mainErr = dispatchError(mainErr, ParseError{data, begin, "structured data expected"})
+				return
+			}
+			begin = len(data) - len(tail)
+			msg.index = append(msg.index, begin)
 		}
-
-		msg.index = append(msg.index, begin+1)
-		msg.text = begin + 2
-		returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
-		return
 	}
 
-	t := begin
-	for len(data[t:]) > 0 {
-		end, err = searchNextSep(data[t:], sepBrk)
-
-		switch err {
-		case nil:
-			if data[t+end-1] == '\\' {
-				t = t + end + 1
-				continue
-			}
-
-			if data[t+end-1] == '"' {
-				msg.index = append(msg.index, t+end+1)
-				begin = t + end + 1
-				t = begin
-				if len(data) <= begin {
-					returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
-					return
-				}
-				continue
-			}
-
-			mainErr = dispatchError(mainErr, ParseError{data, t + end - 1, `\\ or " expected`})
-			return
-
-		case ErrPosNotFound:
-			msg.text = begin + 1
-
-			returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
-			return
-
-		default:
-			mainErr = dispatchError(mainErr, err)
+	if begin < len(data) {
+		if data[begin] != ' ' {
+			mainErr = dispatchError(mainErr, ParseError{data, begin, "space expected"})
 			return
 		}
+		msg.text = begin + 1
 	}
-	mainErr = dispatchError(mainErr, ErrImpossible)
+
+	returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
 	return
 }
 
diff --git a/sdata/tokens.go b/sdata/tokens.go
index 365d5e3..53cebeb 100644
--- a/sdata/tokens.go
+++ b/sdata/tokens.go
@@ -4,6 +4,40 @@ import (
 	"fmt"
 )
 
+// NextElement try to split a whole Structured Data element from a []byte
+func NextElement(data []byte) (element, ret []byte, err error) {
+	if len(data) < 2 || data[0] != '[' {
+		return nil, nil, fmt.Errorf("no element at begin of [%q]", string(data))
+	}
+
+	end := 1
+	for end < len(data) && data[end] != ' ' && data[end] != ']' {
+		end++
+	}
+	if _, _, err = NextHeader(data[1:end]); err != nil {
+		return nil, nil, err
+	}
+
+	ret = data[end:]
+	for len(ret) > 0 && ret[0] != ']' {
+		if ret, err = NextNonSpace(ret); err != nil {
+			return nil, nil, err
+		}
+		if _, ret, err = NextSDName(ret); err != nil {
+			return nil, nil, err
+		}
+		if _, ret, err = NextSDValue(ret); err != nil {
+			return nil, nil, err
+		}
+	}
+	if len(ret) == 0 {
+		return nil, nil, fmt.Errorf("unexpected EOF")
+	}
+
+	ret = ret[1:]
+	return data[:len(data)-len(ret)], ret, nil
+}
+
 // NextHeader try to decode a Structured Data header from a []byte
 func NextHeader(data []byte) (header string, ret []byte, err error) {
 	if len(data) < 1 {
-- 
2.43.0


From 020aad3b8c5fbc5635f827b2a4c95a0f368c2124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:45 +0000
Subject: [PATCH 07/20] fix: Parse only looks at the first frame of its input

With a terminator transport, the fields were searched across the end of the
frame, and a message without text or a truncated frame panicked.
---
 message-immutable.go | 79 +++++++++++++++++---------------------------
 1 file changed, 30 insertions(+), 49 deletions(-)

diff --git a/message-immutable.go b/message-immutable.go
index cf5cf26..694ff67 100644
--- a/message-immutable.go
+++ b/message-immutable.go
@@ -138,40 +138,54 @@ func (msg MessageImmutable) WriteTo(w io.Writer) (n int64, err error) {
 }
 
 // Parse allow to parse a []byte and decode one ImmutableMessage
+//
+// With a transport, the message is searched in the first frame of data, and rest is what follows this frame.
+// rest is nil when data doesn't contain a whole frame.
 func Parse(data []byte, transport Transport, atEOF bool) (returnMsg MessageImmutable, rest []byte, mainErr error) {
-	sepSp := []byte{' '}
-
 	if transport != nil {
 		data, rest, mainErr = transport.PrefixStrip(data, atEOF)
-		//log.Printf("P {%q} {%q} %v\n", data, rest, mainErr)
-		if data == nil && rest == nil && mainErr == nil {
+		if data == nil {
 			return
 		}
+
+		if rest == nil && mainErr == nil {
+			data, rest, mainErr = transport.SuffixStrip(data, atEOF)
+			if rest == nil && !atEOF {
+				return
+			}
+		}
+	}
+
+	msg, err := parseMessage(data)
+	mainErr = dispatchError(mainErr, err)
+	if err == nil {
+		returnMsg = msg
 	}
+	return
+}
 
-	msg := MessageImmutable{
+// parseMessage decode a []byte that contains exactly one message
+func parseMessage(data []byte) (msg MessageImmutable, err error) {
+	sepSp := []byte{' '}
+
+	msg = MessageImmutable{
 		buffer: data,
 		index:  make([]int, 0, 8),
 		text:   -1,
 	}
 
-	parts := 0
 	begin := 0
-	for len(data) > 0 && parts < 6 {
+	for parts := 0; parts < 6; parts++ {
 		end, err := searchNextSep(data[begin:], sepSp)
 		if err != nil {
-			//log.Printf("%s index %#d parts %d rest %s ", string(msg.buffer), msg.index, parts, data[begin:])
-			mainErr = dispatchError(mainErr, err)
-			return
+			return msg, err
 		}
 		msg.index = append(msg.index, begin+end)
 		begin = begin + end + 1
-		parts++
 	}
 
 	if len(data[begin:]) == 0 {
-		mainErr = dispatchError(mainErr, ParseError{data, begin, "empty field expected"})
-		return
+		return msg, ParseError{data, begin, "empty field expected"}
 	}
 
 	switch data[begin] {
@@ -183,8 +197,7 @@ func Parse(data []byte, transport Transport, atEOF bool) (returnMsg MessageImmut
 		for begin < len(data) && (data[begin] == '[' || len(msg.index) == 6) {
 			_, tail, err := sdata.NextElement(data[begin:])
 			if err != nil {
-				mainErr = dispatchError(mainErr, ParseError{data, begin, "structured data expected"})
-				return
+				return msg, ParseError{data, begin, "structured data expected"}
 			}
 			begin = len(data) - len(tail)
 			msg.index = append(msg.index, begin)
@@ -193,14 +206,12 @@ func Parse(data []byte, transport Transport, atEOF bool) (returnMsg MessageImmut
 
 	if begin < len(data) {
 		if data[begin] != ' ' {
-			mainErr = dispatchError(mainErr, ParseError{data, begin, "space expected"})
-			return
+			return msg, ParseError{data, begin, "space expected"}
 		}
 		msg.text = begin + 1
 	}
 
-	returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
-	return
+	return msg, nil
 }
 
 func dispatchError(mainErr, err error) (returnErr error) {
@@ -212,33 +223,3 @@ func dispatchError(mainErr, err error) (returnErr error) {
 	}
 	return
 }
-
-func parseReturn(msg MessageImmutable, transport Transport, atEOF bool, oData, oRest []byte) (returnMsg MessageImmutable, data, rest []byte, mainErr error) {
-	data = oData
-	rest = oRest
-
-	if transport == nil {
-		returnMsg = msg
-		return
-	}
-
-	if rest != nil {
-		returnMsg = msg
-		return
-	}
-
-	data, rest, mainErr = transport.SuffixStrip(data[msg.text:], atEOF)
-	//log.Printf("RET\t{%q} {%q} %v\n", data, rest, mainErr)
-	if data == nil && rest == nil && mainErr == nil {
-		return
-	}
-
-	end := msg.text + len(data)
-	if len(msg.buffer) > end {
-		msg.buffer = msg.buffer[:end]
-
-	}
-
-	returnMsg = msg
-	return
-}
-- 
2.43.0


From 3eac67f33de19ae68983400c4a5a7275e40b9bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:56 +0000
Subject: [PATCH 08/20] fix: encoding a timeQuality with an accuracy of 0 or
 below does not panic

The size of the buffer was computed from the logarithm of the accuracy.
---
 sdata/timequality/tq.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sdata/timequality/tq.go b/sdata/timequality/tq.go
index 85bb41a..e324742 100644
--- a/sdata/timequality/tq.go
+++ b/sdata/timequality/tq.go
@@ -2,7 +2,6 @@ package timequality // import "github.com/nathanaelle/syslog5424/v2/sdata/timequ
 
 import (
 	"errors"
-	"math"
 	"strconv"
 	"strings"
 
@@ -153,7 +152,7 @@ func (tq TimeQuality) Marshal5424() ([]byte, error) {
 	}
 
 	if tq.SyncAccuracy != nil {
-		length += 15 + int(math.Floor(math.Log(float64(*tq.SyncAccuracy))+1))
+		length += 36 // at most 20 characters for the number
 	}
 
 	ret := append(make([]byte, 0, length), []byte("[timeQuality")...)
-- 
2.43.0


From c1f3564dde47df0c91de8cc027c41e465b225fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:56 +0000
Subject: [PATCH 09/20] fix: a decoded generic element without parameters can
 be encoded again

---
 sdata/sd-generic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdata/sd-generic.go b/sdata/sd-generic.go
index 019e6f0..ebd2f6e 100644
--- a/sdata/sd-generic.go
+++ b/sdata/sd-generic.go
@@ -72,6 +72,10 @@ func (sd genericSD) SDID() SDID {
 }
 
 func (sd genericSD) Marshal5424() ([]byte, error) {
+	if sd.Interface == nil && sd.sdid.SDIDLight != nil {
+		return []byte("[" + sd.sdid.String() + "]"), nil
+	}
+
 	e := &encodeState{}
 	err := e.marshal(sd.Interface)
 	if err != nil {
-- 
2.43.0


From 698f0555794173d2809f192687d95e7a523a76c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:24 +0000
Subject: [PATCH 10/20] fix: members of an interface type are encoded as the
 value they hold

Encoding them panicked, because an interface type has no element type; a nil
sdata.StructuredData in a list panicked too.
---
 sdata/structured-data-encoder.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/sdata/structured-data-encoder.go b/sdata/structured-data-encoder.go
index 6bab7b5..71db64e 100644
--- a/sdata/structured-data-encoder.go
+++ b/sdata/structured-data-encoder.go
@@ -104,7 +104,7 @@ func valueEncoder(v reflect.Value) encoderFunc {
 }
 
 func newTypeEncoder(t reflect.Type, root bool) encoderFunc {
-	if t.Implements(marshalerType) {
+	if t.Kind() != reflect.Interface && t.Implements(marshalerType) {
 		return marshalerEncoder
 	}
 
@@ -125,7 +125,7 @@ func newTypeEncoder(t reflect.Type, root bool) encoderFunc {
 
 	case false:
 		switch t.Kind() {
-		case reflect.Ptr:
+		case reflect.Ptr, reflect.Interface:
 			return newMaybeEncoder(t)
 
 		case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
@@ -133,9 +133,6 @@ func newTypeEncoder(t reflect.Type, root bool) encoderFunc {
 			reflect.Uintptr, reflect.Float32, reflect.Float64, reflect.String:
 			return encodeurFlemmard
 
-		case reflect.Interface:
-			return newTypeEncoder(t.Elem(), false)
-
 		case reflect.Slice, reflect.Array:
 			return newListEncoder(t)
 
@@ -164,14 +161,14 @@ func encodeurFlemmard(e *encodeState, v reflect.Value, prefix []byte) {
 	e.PrefixedWrite(prefix, []byte(fmt.Sprintf("%v", v.Interface())))
 }
 
-// encoder for pointer on type
+// encoder for pointer on type and for interface
 // this encoder act like a "?" pattern in a regexp
 func newMaybeEncoder(t reflect.Type) encoderFunc {
 	return func(e *encodeState, v reflect.Value, prefix []byte) {
 		if v.IsNil() {
 			return
 		}
-		newTypeEncoder(t.Elem(), false)(e, v.Elem(), prefix)
+		newTypeEncoder(v.Elem().Type(), false)(e, v.Elem(), prefix)
 	}
 }
 
-- 
2.43.0


From 0b4a47f2acaad4625a207a4097553ef346906f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:25 +0000
Subject: [PATCH 11/20] fix: a missing mandatory or an unexported field is an
 error, not a panic

---
 sdata/structured-data-encoder.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sdata/structured-data-encoder.go b/sdata/structured-data-encoder.go
index 71db64e..30cd1a2 100644
--- a/sdata/structured-data-encoder.go
+++ b/sdata/structured-data-encoder.go
@@ -2,6 +2,7 @@ package sdata // import "github.com/nathanaelle/syslog5424/v2/sdata"
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"reflect"
 	"runtime"
@@ -40,11 +41,15 @@ func MarshalSD(sd interface{}) []byte {
 func (e *encodeState) marshal(v interface{}) (err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			switch r.(type) {
-			case runtime.Error, string:
+			switch r := r.(type) {
+			case runtime.Error:
 				panic(r)
+			case string:
+				// reflect panics with a string, for example on an unexported field
+				err = errors.New(r)
+			default:
+				err = r.(error)
 			}
-			err = r.(error)
 		}
 	}()
 
@@ -225,8 +230,7 @@ func newStructEncoder(t reflect.Type) encoderFunc {
 			name, mandatory := getName(sf)
 			if !f.IsValid() || isEmptyValue(f) || len(name) == 0 {
 				if mandatory {
-					// TODO this must be an error
-					panic("missing mandatory field")
+					e.error(errors.New("missing mandatory field"))
 				}
 				continue
 			}
-- 
2.43.0


From 3bd81dde9f346bc44a4a1e9a58bc1cd883950b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:28 +0000
Subject: [PATCH 12/20] fix: encoding a nil map gives an element, and a nil
 pointer an error

Nothing was written and no error returned, so that a message had an empty
structured data field.
---
 sdata/structured-data-encoder.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sdata/structured-data-encoder.go b/sdata/structured-data-encoder.go
index 30cd1a2..b2ce12e 100644
--- a/sdata/structured-data-encoder.go
+++ b/sdata/structured-data-encoder.go
@@ -149,6 +149,10 @@ func newTypeEncoder(t reflect.Type, root bool) encoderFunc {
 // encoder that delegate to the SDMarshaler the encoding
 func marshalerEncoder(e *encodeState, v reflect.Value, prefix []byte) {
 	if v.Kind() == reflect.Ptr && v.IsNil() {
+		if len(prefix) == 0 {
+			// there is no element at all
+			e.error(&InvalidValueError{v})
+		}
 		return
 	}
 
@@ -200,10 +204,6 @@ func newMapEncoder(t reflect.Type) encoderFunc {
 	enc := newTypeEncoder(t.Elem(), false)
 
 	return func(e *encodeState, v reflect.Value, _ []byte) {
-		if v.IsNil() {
-			return
-		}
-
 		e.HeaderWrite(t.Name(), v)
 
 		var sv stringValues = v.MapKeys()
-- 
2.43.0


From 27014e990ca3a216280bffeb72de12cea08ef48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:14 +0000
Subject: [PATCH 13/20] fix: adding structured data never overwrites what
 another message added

List.Add appended in place when there was room, so two lists (or messages)
derived from the same one shared their last elements.
---
 sdata/list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdata/list.go b/sdata/list.go
index 547dd7a..1733678 100644
--- a/sdata/list.go
+++ b/sdata/list.go
@@ -77,8 +77,8 @@ func RegisterGroup(sdids ...SDID) {
 
 // Add append data to a list of structured data
 func (listSD List) Add(data ...StructuredData) List {
-
-	return List(append([]StructuredData(listSD), data...))
+	// never append in place: other lists may share the room behind this one
+	return List(append([]StructuredData(listSD[:len(listSD):len(listSD)]), data...))
 }
 
 // Marshal5424 encode a Structured Data to syslog 5424 format
-- 
2.43.0


From 8c66345076a70cc3457ef1ad0dcbf1772f72c970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:56 +0000
Subject: [PATCH 14/20] fix: ending a sender completes without a connection, a
 flush or a reader of its errors

---
 connector.go | 49 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/connector.go b/connector.go
index 478c0ce..c3f688e 100644
--- a/connector.go
+++ b/connector.go
@@ -68,12 +68,38 @@ func NewSender(output Connector, transport Transport, ticker <-chan time.Time) (
 	return s, s.errChan
 }
 
+// report an error ; it gets lost only if nobody reads it once the end is asked
+func (c *Sender) report(err error) {
+	select {
+	case c.errChan <- err:
+	case <-c.endAsked:
+		select {
+		case c.errChan <- err:
+		default:
+		}
+	}
+}
+
+// queued returns the number of messages which are not sent
+func (c *Sender) queued() int {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	return len(*c.queue)
+}
+
 func (c *Sender) flushQueue() {
+	if err := c.tryFlush(); err != nil {
+		c.report(err)
+	}
+}
+
+func (c *Sender) tryFlush() error {
 	if c.output == nil {
 		var err error
 		if c.output, err = c.connector.Connect(); err != nil {
-			c.errChan <- err
-			return
+			c.output = nil
+			return err
 		}
 	}
 
@@ -88,16 +114,14 @@ func (c *Sender) flushQueue() {
 		case nil:
 		case *net.OpError:
 			if sysErr, ok := typeErr.Err.(*os.SyscallError); ok && sysErr.Err == syscall.ENOBUFS {
-				return
+				return nil
 			}
-			c.errChan <- err
 			c.output = nil
-			return
+			return err
 
 		default:
-			c.errChan <- err
 			c.output = nil
-			return
+			return err
 		}
 	}
 
@@ -105,14 +129,21 @@ func (c *Sender) flushQueue() {
 		*c.queue = make([][]byte, 0, 100)
 	}
 	//log.Printf("<--\tget unlock")
+	return nil
 }
 
 func (c *Sender) runQueue() {
 	defer func() {
-		for len(*c.queue) > 0 {
+		// give up after two attempts in a row which send no message
+		for left, failed := c.queued(), 0; left > 0 && failed < 2; failed++ {
 			c.flushQueue()
+			if now := c.queued(); now < left {
+				left, failed = now, -1
+			}
+		}
+		if c.output != nil {
+			c.output.Close()
 		}
-		c.output.Close()
 		close(c.endCompleted)
 		close(c.errChan)
 	}()
-- 
2.43.0


From 008a3a5dc3bb4e3fc4248626b268d2b7f2b6253e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:13 +0000
Subject: [PATCH 15/20] fix: a failed connection is closed and never tears the
 message being written

---
 connector.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/connector.go b/connector.go
index c3f688e..287394c 100644
--- a/connector.go
+++ b/connector.go
@@ -88,6 +88,18 @@ func (c *Sender) queued() int {
 	return len(*c.queue)
 }
 
+// dequeue drops the messages which the first written bytes of the queue contain completely,
+// it tells if these bytes contain a part of the next one, which must then be sent again, whole, on a new connection
+func (c *Sender) dequeue(written int64) (partial bool) {
+	for len(*c.queue) > 0 && written >= int64(len((*c.queue)[0])) {
+		written -= int64(len((*c.queue)[0]))
+		(*c.queue)[0] = nil
+		*c.queue = (*c.queue)[1:]
+	}
+
+	return written > 0
+}
+
 func (c *Sender) flushQueue() {
 	if err := c.tryFlush(); err != nil {
 		c.report(err)
@@ -108,18 +120,22 @@ func (c *Sender) tryFlush() error {
 	defer c.lock.Unlock()
 
 	for len(*c.queue) > 0 {
-		_, err := c.queue.WriteTo(c.output)
+		batch := append(make(net.Buffers, 0, len(*c.queue)), *c.queue...)
+		written, err := batch.WriteTo(c.output)
+		partial := c.dequeue(written)
 
 		switch typeErr := err.(type) {
 		case nil:
 		case *net.OpError:
-			if sysErr, ok := typeErr.Err.(*os.SyscallError); ok && sysErr.Err == syscall.ENOBUFS {
+			if sysErr, ok := typeErr.Err.(*os.SyscallError); ok && sysErr.Err == syscall.ENOBUFS && !partial {
 				return nil
 			}
+			c.output.Close()
 			c.output = nil
 			return err
 
 		default:
+			c.output.Close()
 			c.output = nil
 			return err
 		}
-- 
2.43.0


From 87ec7512feb51743ee9a7a410354e562f3f56b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:23 +0000
Subject: [PATCH 16/20] fix: channels with a message id can be derived further

---
 channel.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channel.go b/channel.go
index 0762c4a..10d7115 100644
--- a/channel.go
+++ b/channel.go
@@ -47,7 +47,7 @@ type (
 	}
 )
 
-func (d *trueChannel) AppName(sup string) Channel {
+func (d *msgChannel) AppName(sup string) Channel {
 	var appname string
 
 	switch string(d.appname) {
@@ -67,7 +67,7 @@ func (d *trueChannel) AppName(sup string) Channel {
 	}}
 }
 
-func (d *trueChannel) Msgid(msgid string) Channel {
+func (d *msgChannel) Msgid(msgid string) Channel {
 	return &msgChannel{
 		priority: d.priority,
 		hostname: d.hostname,
-- 
2.43.0


From 4482c34a496bb7cccf7cdb25e1b99a03a28fc8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:22 +0000
Subject: [PATCH 17/20] fix: a receiver survives failed reads and accepts, and
 handles long, badly framed and last messages

---
 listener.go | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/listener.go b/listener.go
index 86d4b65..0215b5e 100644
--- a/listener.go
+++ b/listener.go
@@ -90,6 +90,7 @@ func (r *Receiver) runQueue(chanErr chan<- error) {
 			conn, err := r.listener.Accept()
 			if err != nil {
 				chanErr <- err
+				continue
 			}
 
 			go r.tokenize(conn, chanErr)
@@ -116,47 +117,42 @@ func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
 		}
 		//log.Printf("EOF\t%v %v %v %v", count, total, lenRead, err)
 
-		if err != nil {
-			chanErr <- err
-		}
-		if lenRead == 0 && eof {
-			return
-		}
-		if lenRead == 0 {
-			continue
-		}
-
 		lenRead += done
 		data := buffer[0:lenRead]
-		for {
+		for len(data) > 0 {
 			msg, rest, parseErr := Parse(data, r.transport, eof)
 
-			if rest == nil {
+			if rest == nil && parseErr == nil && !eof {
 				//log.Printf("NIL\t{%q} {%q} %v %v %v", msg, data[0:10], len(rest), rest == nil, parseErr)
 				//log.Printf("NIL\t%v %v %v %v", count, total, lenRead, parseErr)
 				break
 			}
-			data = rest
 
 			count++
 			r.pipeline <- messageErrorPair{msg, parseErr}
-			if len(rest) == 0 {
-				break
+			if rest == nil {
+				// the end of the stream, or no frame can be found any more
+				return
 			}
+			data = rest
+		}
+
+		if err != nil {
+			chanErr <- err
+			return
+		}
+		if eof == true {
+			return
 		}
 
 		done = len(data)
 		buffer = buffer[lenRead-done:]
 
-		if len(buffer) < 500 {
-			old := buffer
-			buffer = make([]byte, readBuffer)
+		if len(buffer) < done+500 {
+			old := buffer[0:done]
+			buffer = make([]byte, readBuffer+2*done)
 			copy(buffer[0:len(old)], old)
 		}
-
-		if eof == true {
-			return
-		}
 	}
 }
 
-- 
2.43.0


From 3d3fbd88c511ee453394ee48d2590a7a7bd5ff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:02 +0000
Subject: [PATCH 18/20] fix: ending a receiver closes its listener, unblocks
 every call and never panics

---
 listener-unixdgram.go | 22 +++++++++++++---
 listener.go           | 61 +++++++++++++++++++++++++++++++++++++------
 2 files changed, 71 insertions(+), 12 deletions(-)

diff --git a/listener-unixdgram.go b/listener-unixdgram.go
index 5a23987..a0f9c9f 100644
--- a/listener-unixdgram.go
+++ b/listener-unixdgram.go
@@ -4,11 +4,13 @@ import (
 	"errors"
 	"net"
 	"os"
+	"sync"
 )
 
 type (
 	unixgramReceiver struct {
 		listener *net.UnixConn
+		lock     sync.Mutex
 		accepted bool
 		end      chan struct{}
 	}
@@ -62,18 +64,30 @@ func UnixgramListener(address string) (Listener, error) {
 
 func (r *unixgramReceiver) Close() error {
 	close(r.end)
+
+	r.lock.Lock()
+	defer r.lock.Unlock()
+	if r.accepted {
+		// like the connections of any other listener, the accepted one is closed by its reader
+		return nil
+	}
+	r.accepted = true
+
 	return r.listener.Close()
 }
 
 // mimic an Accept
 func (r *unixgramReceiver) Accept() (DataReader, error) {
-	if r.accepted {
+	r.lock.Lock()
+	accepted := r.accepted
+	r.accepted = true
+	r.lock.Unlock()
+
+	if accepted {
 		<-r.end
 		return nil, errors.New("end")
 	}
 
-	r.accepted = true
-
 	fc := &fakeConn{
 		end:  r.end,
 		conn: r.listener,
@@ -87,7 +101,7 @@ func (r *fakeConn) RemoteAddr() net.Addr {
 }
 
 func (r *fakeConn) Close() error {
-	return nil
+	return r.conn.Close()
 }
 
 func (r *fakeConn) Read(data []byte) (int, error) {
diff --git a/listener.go b/listener.go
index 0215b5e..195b8b2 100644
--- a/listener.go
+++ b/listener.go
@@ -3,6 +3,7 @@ package syslog5424 // import "github.com/nathanaelle/syslog5424/v2"
 import (
 	"io"
 	"net"
+	"time"
 	//	"log"
 )
 
@@ -44,6 +45,9 @@ type (
 
 const readBuffer = 1 << 16
 
+// acceptDelay is the pause after a failed accept
+const acceptDelay = 5 * time.Millisecond
+
 // NewReceiver create a new Listener
 //
 // if Transport is nil then the function returns nil, nil
@@ -78,9 +82,6 @@ func NewReceiver(listener Listener, lenQueue int, t Transport) (*Receiver, <-cha
 }
 
 func (r *Receiver) runQueue(chanErr chan<- error) {
-	defer r.listener.Close()
-	defer close(r.pipeline)
-
 	for {
 		select {
 		case <-r.end:
@@ -89,7 +90,8 @@ func (r *Receiver) runQueue(chanErr chan<- error) {
 		default:
 			conn, err := r.listener.Accept()
 			if err != nil {
-				chanErr <- err
+				r.report(chanErr, err)
+				time.Sleep(acceptDelay)
 				continue
 			}
 
@@ -99,6 +101,36 @@ func (r *Receiver) runQueue(chanErr chan<- error) {
 
 }
 
+// report an error if the receiver is not ended ; it gets lost if too many are unread
+func (r *Receiver) report(chanErr chan<- error, err error) {
+	select {
+	case <-r.end:
+		return
+	default:
+	}
+
+	select {
+	case chanErr <- err:
+	default:
+	}
+}
+
+// deliver tells if there was room for the message before the end
+func (r *Receiver) deliver(pair messageErrorPair) bool {
+	select {
+	case r.pipeline <- pair:
+		return true
+	default:
+	}
+
+	select {
+	case r.pipeline <- pair:
+		return true
+	case <-r.end:
+		return false
+	}
+}
+
 func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
 	defer conn.Close()
 
@@ -129,7 +161,9 @@ func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
 			}
 
 			count++
-			r.pipeline <- messageErrorPair{msg, parseErr}
+			if !r.deliver(messageErrorPair{msg, parseErr}) {
+				return
+			}
 			if rest == nil {
 				// the end of the stream, or no frame can be found any more
 				return
@@ -138,7 +172,7 @@ func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
 		}
 
 		if err != nil {
-			chanErr <- err
+			r.report(chanErr, err)
 			return
 		}
 		if eof == true {
@@ -158,12 +192,23 @@ func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
 
 // Receive an incoming syslog message and a possible error that occured during the decoding of this syslog message
 func (r *Receiver) Receive() (MessageImmutable, error, bool) {
-	pair, end := <-r.pipeline
+	select {
+	case pair := <-r.pipeline:
+		return pair.m, pair.e, true
+	case <-r.end:
+	}
 
-	return pair.m, pair.e, end
+	// what was delivered before the end is still there
+	select {
+	case pair := <-r.pipeline:
+		return pair.m, pair.e, true
+	default:
+		return MessageImmutable{}, nil, false
+	}
 }
 
 // End terminate the log_collector goroutine
 func (r *Receiver) End() {
 	close(r.end)
+	r.listener.Close()
 }
-- 
2.43.0


From c325850357eb4006fd75984bf6a9cd858203a205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:21 +0000
Subject: [PATCH 19/20] fix: a logger gives its channels to concurrent callers
 without a race

---
 syslog.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/syslog.go b/syslog.go
index d047098..dfa0fe0 100644
--- a/syslog.go
+++ b/syslog.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"os"
 	"strconv"
+	"sync"
 )
 
 var (
@@ -17,6 +18,7 @@ type Syslog struct {
 	pid      string
 	appname  string
 	channels []Channel
+	lock     sync.Mutex
 	output   *Sender
 	minSev   int
 }
@@ -60,6 +62,9 @@ func (syslog *Syslog) TestMode() {
 
 // Channel expose a custom channel for a priority
 func (syslog *Syslog) Channel(sev Priority) Channel {
+	syslog.lock.Lock()
+	defer syslog.lock.Unlock()
+
 	if syslog.channels == nil {
 		syslog.channels = []Channel{
 			devNull, devNull, devNull, devNull,
-- 
2.43.0


From 1990e91cc3f35190926d9841240c9d19ab5d1346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:01 +0000
Subject: [PATCH 20/20] fix: connecting over tcp without an address of the
 requested family reports an error

---
 connector-tcp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/connector-tcp.go b/connector-tcp.go
index fd55ec9..0e5e6e0 100644
--- a/connector-tcp.go
+++ b/connector-tcp.go
@@ -70,6 +70,10 @@ func (c *tcpConn) Connect() (conn WriteCloser, err error) {
 		ips = rawips
 	}
 
+	if len(ips) == 0 {
+		return nil, &net.AddrError{Err: "no suitable address found", Addr: addr}
+	}
+
 	var contcp *net.TCPConn
 	for _, ip := range ips {
 		addr := &net.TCPAddr{IP: ip.IP, Port: port, Zone: ip.Zone}
-- 
2.43.0

