From f6748c3fe537532564ee64f6ef42e5821726d9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 01/22] fix: format months with month names

MonthTyp.format looked months up in the weekday names: Jan came out as Sun,
and Aug to Dec panicked with an index out of range.
---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index 546d0d4..eda8dca 100644
--- a/format.go
+++ b/format.go
@@ -504,7 +504,7 @@ func (e *MonthTyp) format(w io.StringWriter, _ string, inline bool) {
 	if !inline {
 		checkError(w.WriteString("month["))
 	}
-	checkError(w.WriteString(shortDayNames[e.Val-1]))
+	checkError(w.WriteString(shortMonthNames[e.Val-1]))
 	if !inline {
 		checkError(w.WriteString("]"))
 	}
-- 
2.43.0


From 1ae477b443c279c89fb80e2ab842c30a882da110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 02/22] fix: report write errors while formatting booleans

Format went on writing, and could return nil, after the destination had
refused a boolean.
---
 ast.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast.go b/ast.go
index ede9e36..2304a54 100644
--- a/ast.go
+++ b/ast.go
@@ -294,9 +294,9 @@ type BooleanTyp struct {
 func (e *BooleanTyp) format(b io.StringWriter, padding string, inline bool) {
 	switch e.Val {
 	case true:
-		b.WriteString("true")
+		checkError(b.WriteString("true"))
 	case false:
-		b.WriteString("false")
+		checkError(b.WriteString("false"))
 	}
 	return
 }
-- 
2.43.0


From 919aee431a2af0ec7308d84995c6f94647ae39b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 03/22] fix: format selector arguments in a fixed order

The device ids were printed, and the layout chosen, in map iteration order:
the same rule gave a different text every time.
---
 ast.go    | 21 +++++++++++----------
 format.go |  2 +-
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/ast.go b/ast.go
index 2304a54..3ca5c98 100644
--- a/ast.go
+++ b/ast.go
@@ -3,6 +3,7 @@ package geoqlparser
 import (
 	"fmt"
 	"io"
+	"sort"
 	"time"
 )
 
@@ -270,19 +271,19 @@ func (e *Selector) calculateEnd(p Pos) {
 
 func (e *Selector) needExpand() (ok bool) {
 	var n int
-	var i int
 	for k := range e.Args {
 		n += len(k)
-		if n > 64 {
-			ok = true
-			break
-		}
-		if i > 3 {
-			break
-		}
-		i++
 	}
-	return
+	return n > 64
+}
+
+func (e *Selector) sortedArgs() []string {
+	args := make([]string, 0, len(e.Args))
+	for k := range e.Args {
+		args = append(args, k)
+	}
+	sort.Strings(args)
+	return args
 }
 
 type BooleanTyp struct {
diff --git a/format.go b/format.go
index eda8dca..5a5f5df 100644
--- a/format.go
+++ b/format.go
@@ -293,7 +293,7 @@ func (e *Selector) format(b io.StringWriter, padding string, inline bool) {
 				checkError(b.WriteString(", "))
 			}
 		}
-		for k := range e.Args {
+		for _, k := range e.sortedArgs() {
 			if !inline && expand {
 				checkError(b.WriteString("\n" + pad2))
 			}
-- 
2.43.0


From ebc402aa5a4650854b1e4416ec39cdc5cf264345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 04/22] fix: put spaces around rem when formatting

"5 rem 3" came out as "5rem3" and "@a rem @b" as "@arem@b", neither of which
parses back.
---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index 5a5f5df..da444cf 100644
--- a/format.go
+++ b/format.go
@@ -366,7 +366,7 @@ func (e *BinaryExpr) format(w io.StringWriter, padding string, inline bool) {
 	switch e.Op {
 	case AND, OR:
 		nl = true
-	case ADD, SUB, MUL, QUO, REM:
+	case ADD, SUB, MUL, QUO:
 		nospace = true
 	}
 	if !nospace {
-- 
2.43.0


From 51fb37559c14d6c73333d0a13dc3cd885808d1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 05/22] fix: format calendar values so that they parse back

In the WHEN clause a single date, time, weekday or month lost its brackets
("now eq 2022-11-11" instead of "now eq date[2022-11-11]"), and a range whose
ends are not of one calendar kind was put into one pair of brackets.
---
 format.go | 97 +++++++++++++++++++++++++++----------------------------
 1 file changed, 47 insertions(+), 50 deletions(-)

diff --git a/format.go b/format.go
index da444cf..d532b76 100644
--- a/format.go
+++ b/format.go
@@ -206,27 +206,39 @@ func (e *GeometryCollectionTyp) format(w io.StringWriter, padding string, inline
 }
 
 func (e *Range) format(w io.StringWriter, padding string, inline bool) {
-	switch e.Low.(type) {
-	case *TimeTyp:
-		checkError(w.WriteString("time["))
-		inline = true
-	case *MonthTyp:
-		checkError(w.WriteString("month["))
-		inline = true
-	case *DateTyp:
-		checkError(w.WriteString("date["))
-		inline = true
-	case *WeekdayTyp:
-		checkError(w.WriteString("weekday["))
-		inline = true
+	low, lok := e.Low.(calendarTyp)
+	high, hok := e.High.(calendarTyp)
+	if lok && hok && low.calendar() == high.calendar() {
+		checkError(w.WriteString(low.calendar()))
+		checkError(w.WriteString("["))
+		low.formatValue(w)
+		checkError(w.WriteString(" .. "))
+		high.formatValue(w)
+		checkError(w.WriteString("]"))
+		return
 	}
 	e.Low.format(w, padding, inline)
 	checkError(w.WriteString(" .. "))
 	e.High.format(w, padding, inline)
-	switch e.Low.(type) {
-	case *TimeTyp, *MonthTyp, *DateTyp, *WeekdayTyp:
-		checkError(w.WriteString("]"))
-	}
+}
+
+// calendarTyp is a value that is written in brackets after its calendar name;
+// one pair of brackets can hold a range or several values.
+type calendarTyp interface {
+	calendar() string
+	formatValue(w io.StringWriter)
+}
+
+func (e *DateTyp) calendar() string    { return "date" }
+func (e *TimeTyp) calendar() string    { return "time" }
+func (e *WeekdayTyp) calendar() string { return "weekday" }
+func (e *MonthTyp) calendar() string   { return "month" }
+
+func formatCalendar(w io.StringWriter, e calendarTyp) {
+	checkError(w.WriteString(e.calendar()))
+	checkError(w.WriteString("["))
+	e.formatValue(w)
+	checkError(w.WriteString("]"))
 }
 
 func (e *PercentTyp) format(w io.StringWriter, _ string, _ bool) {
@@ -335,22 +347,23 @@ func (e *ArrayTyp) format(b io.StringWriter, padding string, inline bool) {
 	switch e.Kind {
 	case TIME:
 		checkError(b.WriteString("time"))
-		inline = true
 	case MONTH:
 		checkError(b.WriteString("month"))
-		inline = true
 	case DATE:
 		checkError(b.WriteString("date"))
-		inline = true
 	case WEEKDAY:
 		checkError(b.WriteString("weekday"))
-		inline = true
 	}
 
 	checkError(b.WriteString("["))
 
 	for i, expr := range e.List {
-		expr.format(b, padding, inline)
+		switch e.Kind {
+		case TIME, MONTH, DATE, WEEKDAY:
+			expr.(calendarTyp).formatValue(b)
+		default:
+			expr.format(b, padding, inline)
+		}
 		if i+1 < len(e.List) {
 			checkError(b.WriteString(", "))
 		}
@@ -453,24 +466,19 @@ func (e *IntTyp) format(w io.StringWriter, _ string, _ bool) {
 	checkError(w.WriteString(strconv.Itoa(e.Val)))
 }
 
-func (e *DateTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("date["))
-	}
+func (e *DateTyp) format(w io.StringWriter, _ string, _ bool) { formatCalendar(w, e) }
+
+func (e *DateTyp) formatValue(w io.StringWriter) {
 	checkError(w.WriteString(d2s(e.Year)))
 	checkError(w.WriteString("-"))
 	checkError(w.WriteString(d2s(e.Month)))
 	checkError(w.WriteString("-"))
 	checkError(w.WriteString(d2s(e.Day)))
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
 }
 
-func (e *TimeTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("time["))
-	}
+func (e *TimeTyp) format(w io.StringWriter, _ string, _ bool) { formatCalendar(w, e) }
+
+func (e *TimeTyp) formatValue(w io.StringWriter) {
 	if e.U == AM || e.U == PM {
 		checkError(w.WriteString(strconv.Itoa(e.Hours)))
 	} else {
@@ -485,29 +493,18 @@ func (e *TimeTyp) format(w io.StringWriter, _ string, inline bool) {
 	if e.U == AM || e.U == PM {
 		checkError(w.WriteString(e.U.String()))
 	}
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
 }
 
-func (e *WeekdayTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("weekday["))
-	}
+func (e *WeekdayTyp) format(w io.StringWriter, _ string, _ bool) { formatCalendar(w, e) }
+
+func (e *WeekdayTyp) formatValue(w io.StringWriter) {
 	checkError(w.WriteString(shortDayNames[e.Val]))
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
 }
 
-func (e *MonthTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("month["))
-	}
+func (e *MonthTyp) format(w io.StringWriter, _ string, _ bool) { formatCalendar(w, e) }
+
+func (e *MonthTyp) formatValue(w io.StringWriter) {
 	checkError(w.WriteString(shortMonthNames[e.Val-1]))
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
 }
 
 func d2s(n int) string {
-- 
2.43.0


From ef9857ed6144c6970ed4a3580ccc207faef89d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 06/22] fix: keep whole-numbered floats floats when formatting

5.0 came out as 5, an integer: the rule changed its type, and arrays such as
[1.0, 2.5] no longer parsed.
---
 format.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/format.go b/format.go
index d532b76..06f2c48 100644
--- a/format.go
+++ b/format.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"strings"
 )
 
 const (
@@ -253,7 +254,11 @@ func (e *StringTyp) format(w io.StringWriter, _ string, _ bool) {
 }
 
 func (e *FloatTyp) format(w io.StringWriter, _ string, _ bool) {
-	formatFloat(w, e.Val)
+	str := strconv.FormatFloat(e.Val, 'f', -1, 64)
+	if !strings.Contains(str, ".") {
+		str += ".0" // without it the value would read as an integer
+	}
+	checkError(w.WriteString(str))
 }
 
 func (e *DurationTyp) format(b io.StringWriter, _ string, _ bool) {
-- 
2.43.0


From 2a09a08e353e38207efd7db322ce8c1c4f924e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 07/22] fix: format durations so that they parse back
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

1.51m came out as 1m30.6s and 0.5ms as 500µs, which the parser rejects.
---
 format.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/format.go b/format.go
index 06f2c48..7a2ae9f 100644
--- a/format.go
+++ b/format.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"strconv"
 	"strings"
+	"time"
 )
 
 const (
@@ -262,7 +263,38 @@ func (e *FloatTyp) format(w io.StringWriter, _ string, _ bool) {
 }
 
 func (e *DurationTyp) format(b io.StringWriter, _ string, _ bool) {
-	checkError(b.WriteString(e.Val.String()))
+	checkError(b.WriteString(formatDuration(e.Val)))
+}
+
+// formatDuration is d.String(), except where the tokenizer could not read that
+// back: a fraction can only follow the first number, and the first unit has to
+// be h, m, s or ms.
+func formatDuration(d time.Duration) string {
+	str := d.String()
+	if d >= time.Millisecond && (d < time.Minute || d%time.Second == 0) || d == 0 {
+		return str
+	}
+	str = ""
+	if d < time.Millisecond {
+		str = "0s"
+	}
+	for _, unit := range []struct {
+		d    time.Duration
+		name string
+	}{
+		{time.Hour, "h"},
+		{time.Minute, "m"},
+		{time.Second, "s"},
+		{time.Millisecond, "ms"},
+		{time.Microsecond, "us"},
+		{time.Nanosecond, "ns"},
+	} {
+		if n := d / unit.d; n > 0 {
+			str += strconv.FormatInt(int64(n), 10) + unit.name
+			d %= unit.d
+		}
+	}
+	return str
 }
 
 func (e *TemperatureTyp) format(w io.StringWriter, _ string, _ bool) {
-- 
2.43.0


From fbbb3e42b09402c426e940a2b5eed4bfa202cb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:41 +0000
Subject: [PATCH 08/22] fix: strip only the delimiting quotes of a string

A string ending in an escaped quote ("a\\"") lost that quote but kept the
backslash: its value was wrong and its formatted text was not a string.
---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 892b76a..3da18fd 100644
--- a/parser.go
+++ b/parser.go
@@ -372,7 +372,7 @@ func isGeometryToken(tok Token) (ok bool) {
 }
 
 func trim(lit string) string {
-	lit = strings.TrimLeft(lit, `"`)
-	lit = strings.TrimRight(lit, `"`)
+	lit = strings.TrimPrefix(lit, `"`)
+	lit = strings.TrimSuffix(lit, `"`)
 	return lit
 }
-- 
2.43.0


From 544b1eec3427630982ab2e83f4b35ce3dc446117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:41 +0000
Subject: [PATCH 09/22] fix: never take the end of the source for part of an
 identifier

With an IsIdentRune that accepts EOF, Scan did not return at the end of the
source.
---
 scanner/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 1fe49bc..a43ca09 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -332,7 +332,7 @@ func (s *Scanner) errorf(format string, args ...any) {
 
 func (s *Scanner) isIdentRune(ch rune, i int) bool {
 	if s.IsIdentRune != nil {
-		return s.IsIdentRune(ch, i)
+		return ch != EOF && s.IsIdentRune(ch, i)
 	}
 	return ch == '_' || unicode.IsLetter(ch) || unicode.IsDigit(ch) && i > 0
 }
-- 
2.43.0


From 973f29074e63f856cb8f1a4029abe99f73faddea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 10/22] fix: format large whole values so that they parse back

---
 format.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/format.go b/format.go
index 7a2ae9f..fa05fff 100644
--- a/format.go
+++ b/format.go
@@ -77,7 +77,14 @@ func formatTriggerStmt(t *Trigger, w io.StringWriter) (err error) {
 func (t *Trigger) format(_ io.StringWriter, _ string, _ bool) {}
 
 func formatFloat(w io.StringWriter, v float64) {
-	checkError(w.WriteString(strconv.FormatFloat(v, 'f', -1, 64)))
+	str := strconv.FormatFloat(v, 'f', -1, 64)
+	if !strings.Contains(str, ".") {
+		// a whole number that does not fit an int can only be parsed as a float
+		if _, err := strconv.Atoi(str); err != nil {
+			str += ".0"
+		}
+	}
+	checkError(w.WriteString(str))
 }
 
 func (e *GeometryMultiObjectTyp) format(w io.StringWriter, padding string, inline bool) {
-- 
2.43.0


From 5dbf69a23c6724133bcd29c4599bac026e88e7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:49 +0000
Subject: [PATCH 11/22] fix: do not read on after the source has ended or
 failed

---
 scanner/scanner.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index a43ca09..f99d2d8 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -102,7 +102,8 @@ const bufLen = 1024 // at least utf8.UTFMax
 // A Scanner implements reading of Unicode characters and tokens from an io.Reader.
 type Scanner struct {
 	// Input
-	src io.Reader
+	src     io.Reader
+	srcDone bool // src has ended or failed: do not read on
 
 	// Source buffer
 	srcBuf [bufLen + 1]byte // +1 for sentinel for common case of s.next()
@@ -173,6 +174,7 @@ func (s *Scanner) Init(src io.Reader) *Scanner {
 	s.srcBuf[0] = utf8.RuneSelf // sentinel
 	s.srcPos = 0
 	s.srcEnd = 0
+	s.srcDone = false
 
 	// initialize source position
 	s.srcBufOffset = 0
@@ -224,7 +226,10 @@ func (s *Scanner) next() rune {
 			// n == 0 will make this loop retry forever; but the
 			// error is in the reader implementation in that case)
 			i := s.srcEnd - s.srcPos
-			n, err := s.src.Read(s.srcBuf[i:bufLen])
+			n, err := 0, io.EOF
+			if !s.srcDone {
+				n, err = s.src.Read(s.srcBuf[i:bufLen])
+			}
 			s.srcPos = 0
 			s.srcEnd = i + n
 			s.srcBuf[s.srcEnd] = utf8.RuneSelf // sentinel
@@ -233,6 +238,7 @@ func (s *Scanner) next() rune {
 					s.error(err.Error())
 				}
 				if s.srcEnd == 0 {
+					s.srcDone = true // EOF is final, even if the source carries on
 					if s.lastCharLen > 0 {
 						// previous character was not EOF
 						s.column++
-- 
2.43.0


From 952456736aabfbe68fe773363de9dcad72bc32fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:04 +0000
Subject: [PATCH 12/22] fix: format durations without fractions, which repeat
 intervals do not accept

---
 format.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/format.go b/format.go
index fa05fff..c45b96a 100644
--- a/format.go
+++ b/format.go
@@ -273,12 +273,12 @@ func (e *DurationTyp) format(b io.StringWriter, _ string, _ bool) {
 	checkError(b.WriteString(formatDuration(e.Val)))
 }
 
-// formatDuration is d.String(), except where the tokenizer could not read that
-// back: a fraction can only follow the first number, and the first unit has to
-// be h, m, s or ms.
+// formatDuration is d.String(), except where that has a fraction, which could
+// not be read back everywhere: a repeat interval starts with an integer. The
+// first unit has to be h, m, s or ms.
 func formatDuration(d time.Duration) string {
 	str := d.String()
-	if d >= time.Millisecond && (d < time.Minute || d%time.Second == 0) || d == 0 {
+	if d%time.Second == 0 {
 		return str
 	}
 	str = ""
-- 
2.43.0


From 96364b6ae367e9ce72a7129c38eecd38b0cade9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:24 +0000
Subject: [PATCH 13/22] fix: do not apply the sign of a range's start to its
 end

---
 composite.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/composite.go b/composite.go
index c1520c1..5676632 100644
--- a/composite.go
+++ b/composite.go
@@ -89,6 +89,7 @@ func (s *parser) parseRangeExpr(low Expr) (expr Expr, err error) {
 		return nil, s.error()
 	}
 	startPos := s.t.Offset()
+	s.resetSign() // that of low
 	high, err := s.parseUnaryExpr()
 	if err != nil {
 		return
-- 
2.43.0


From eb42c967c3eae10d563efc1a69b707c735f941e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:08 +0000
Subject: [PATCH 14/22] fix: indent nested parentheses by one tab each, not by
 doubling

The padding doubled at every level, so a condition in 30 nested
parentheses was formatted as a gigabyte of tabs.
---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index c45b96a..6a6aed8 100644
--- a/format.go
+++ b/format.go
@@ -449,7 +449,7 @@ func (e *ParenExpr) format(w io.StringWriter, padding string, inline bool) {
 			expand = false
 		}
 	}
-	pad2 := padding + padding
+	pad2 := padding + "\t"
 	checkError(w.WriteString("("))
 	if expand {
 		checkError(w.WriteString("\n" + pad2))
-- 
2.43.0


From e8128f2340c7cb6e62b336c8145fd102c313c14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:20 +0000
Subject: [PATCH 15/22] fix: Parse accepts a rule whose last token is damaged
 or unfinished

The error of the tokenizer was only looked at before an operand, so that
an unterminated string or a byte that is not UTF-8 in the last token of a
rule went unnoticed (trigger when a == "abc).
---
 parser.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 3da18fd..1bcad32 100644
--- a/parser.go
+++ b/parser.go
@@ -193,7 +193,15 @@ func (s *parser) parse0() (stmt Statement, err error) {
 		if s.except(TRIGGER) {
 			s.next()
 		}
-		return s.parseTriggerStmt()
+		trigger, err := s.parseTriggerStmt()
+		if err != nil {
+			return nil, err
+		}
+		if s.t.Err() != nil {
+			s.err = s.t.Err()
+			return nil, s.error()
+		}
+		return trigger, nil
 	default:
 		err = s.error()
 	}
-- 
2.43.0


From 2864e4426aad697fffd1c07d513128c999432444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:35 +0000
Subject: [PATCH 16/22] fix: refuse rules nested so deeply that they exhaust
 the stack

Three megabytes of opening parentheses (or of operators, when formatting)
exceeded the limit of a goroutine's stack, which ends the process and
cannot be recovered from. Limit the nesting, like encoding/json does, and
the number of operators.
---
 parser.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 1bcad32..564299c 100644
--- a/parser.go
+++ b/parser.go
@@ -7,7 +7,19 @@ import (
 	"strings"
 )
 
-var errNegativeValue = errors.New("value cannot be negative")
+var (
+	errNegativeValue = errors.New("value cannot be negative")
+	errTooDeep       = errors.New("expression is nested too deeply")
+	errTooLong       = errors.New("expression has too many operators")
+)
+
+// Rules are parsed, formatted, checked and walked recursively. These limits
+// keep every rule well within the stack of a goroutine, as exceeding that
+// cannot be recovered from.
+const (
+	maxDepth     = 10_000
+	maxOperators = 1_000_000
+)
 
 func Parse(gql string) (Statement, error) {
 	r := strings.NewReader(gql)
@@ -25,6 +37,9 @@ type parser struct {
 	sign Token
 	lpos Pos
 	rpos Pos
+
+	depth     int
+	operators int
 }
 
 func (s *parser) parseTriggerStmt() (stmt *Trigger, err error) {
@@ -234,6 +249,11 @@ func (s *parser) parseBinaryExpr(oprec0 int) (Expr, error) {
 			return left, nil
 		}
 
+		if s.operators++; s.operators > maxOperators {
+			s.err = errTooLong
+			return nil, s.error()
+		}
+
 		right, err := s.parseBinaryExpr(oprec + 1)
 		if err != nil {
 			return nil, err
@@ -248,6 +268,12 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 		return nil, s.error()
 	}
 
+	if s.depth++; s.depth > maxDepth {
+		s.err = errTooDeep
+		return nil, s.error()
+	}
+	defer func() { s.depth-- }()
+
 	s.next()
 
 	if s.except(SUB, ADD) {
-- 
2.43.0


From d0f5bab9b36b1abe2ba1cb62d2e721ab87b8c419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:39 +0000
Subject: [PATCH 17/22] fix: Parse takes any token for an operator inside
 parentheses

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 564299c..46e1e8a 100644
--- a/parser.go
+++ b/parser.go
@@ -351,10 +351,13 @@ func (s *parser) isSignPlus() bool {
 
 func (s *parser) parseParenExpr() (expr Expr, err error) {
 	lp := s.t.Offset()
-	expr, err = s.parseBinaryExpr(s.tok.Precedence())
+	expr, err = s.parseBinaryExpr(1)
 	if err != nil {
 		return nil, err
 	}
+	if !s.except(RPAREN) {
+		return nil, s.error()
+	}
 	rp := s.t.Offset()
 	s.next()
 	return &ParenExpr{Expr: expr, lpos: lp, rpos: rp}, nil
-- 
2.43.0


From 79bd487dc5f816149e1bacb69908d6b58832a750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:40 +0000
Subject: [PATCH 18/22] fix: a wildcard operand is also taken for the operator
 after it

---
 parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 46e1e8a..c922a33 100644
--- a/parser.go
+++ b/parser.go
@@ -334,7 +334,9 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 }
 
 func (s *parser) parseWildcardLit() (expr Expr, err error) {
-	return &WildcardTyp{lpos: s.t.Offset()}, nil
+	expr = &WildcardTyp{lpos: s.t.Offset()}
+	s.next()
+	return
 }
 
 func (s *parser) resetSign() {
-- 
2.43.0


From 56cecf4a19553051ddda296168fffa0ccf3c9bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:41 +0000
Subject: [PATCH 19/22] fix: Parse takes any token for the name of a variable

---
 primitive.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/primitive.go b/primitive.go
index ba9d923..f43c29a 100644
--- a/primitive.go
+++ b/primitive.go
@@ -7,6 +7,9 @@ import (
 
 func (s *parser) parseVarExpr() (expr Expr, err error) {
 	s.next()
+	if !s.except(SELECTOR) {
+		return nil, s.error()
+	}
 	expr = &Ref{ID: s.t.TokenText(), lpos: s.t.Offset()}
 	s.next()
 	return
-- 
2.43.0


From a163133ebc12ae112d47f54f13f732661450fa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:43 +0000
Subject: [PATCH 20/22] fix: a division by a wildcard is formatted as the start
 of a comment

---
 format.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/format.go b/format.go
index 6a6aed8..d4bc758 100644
--- a/format.go
+++ b/format.go
@@ -424,7 +424,7 @@ func (e *BinaryExpr) format(w io.StringWriter, padding string, inline bool) {
 	case AND, OR:
 		nl = true
 	case ADD, SUB, MUL, QUO:
-		nospace = true
+		nospace = e.Op != QUO || !startsWithWildcard(e.Right)
 	}
 	if !nospace {
 		checkError(w.WriteString(" "))
@@ -439,6 +439,17 @@ func (e *BinaryExpr) format(w io.StringWriter, padding string, inline bool) {
 	e.Right.format(w, padding, inline)
 }
 
+// startsWithWildcard tells whether expr would make a comment of a slash before it.
+func startsWithWildcard(expr Expr) bool {
+	switch typ := expr.(type) {
+	case *WildcardTyp:
+		return true
+	case *Range:
+		return startsWithWildcard(typ.Low)
+	}
+	return false
+}
+
 func (e *ParenExpr) format(w io.StringWriter, padding string, inline bool) {
 	expand := true
 	switch node := e.Expr.(type) {
-- 
2.43.0


From 9c9792fc7c4a1b537e9f7363be78734be7159f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:44 +0000
Subject: [PATCH 21/22] fix: the operand after an operator is taken for the
 unit of a number

---
 primitive.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/primitive.go b/primitive.go
index f43c29a..ff512f2 100644
--- a/primitive.go
+++ b/primitive.go
@@ -75,6 +75,9 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 	s.rpos = s.t.Offset() - 1
 	s.next()
 	unit := s.t.TokenText()
+	if s.t.hop != 0 {
+		unit = s.lit // the text is that of the token after an operator
+	}
 	litlen := Pos(len(plit))
 	switch {
 	case isPercentUnit(unit):
-- 
2.43.0


From 4425cd10478e0bff5f31e5480e303d7e480f2049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:45 +0000
Subject: [PATCH 22/22] fix: a list continues after the properties of a
 selector, which cannot be written

---
 composite.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/composite.go b/composite.go
index 5676632..ecbd266 100644
--- a/composite.go
+++ b/composite.go
@@ -77,12 +77,27 @@ func (s *parser) parseArrayExpr() (expr Expr, err error) {
 		if s.except(RBRACK) {
 			break
 		}
+		if endsInProps(expr) {
+			return nil, s.error()
+		}
 	}
 	arrayExpr.rpos = s.t.Offset()
 	s.next()
 	return arrayExpr, nil
 }
 
+// endsInProps tells whether a comma after expr would be followed by one more
+// property of a selector and not by another expression.
+func endsInProps(expr Expr) bool {
+	switch typ := expr.(type) {
+	case *Selector:
+		return len(typ.Props) > 0
+	case *Range:
+		return endsInProps(typ.High)
+	}
+	return false
+}
+
 func (s *parser) parseRangeExpr(low Expr) (expr Expr, err error) {
 	_, isRangeExpr := low.(*Range)
 	if isRangeExpr {
-- 
2.43.0

