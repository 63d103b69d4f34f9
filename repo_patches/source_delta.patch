From 2b03093f3ba603cf8ee225d90dd3b040e449faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 01/40] fix: keep tag values intact when sorting a line's tags
 in the filter

SortTags overwrote the line in place while Measurement, Tags and Remainder
still referred to it, so tag rules tested afterwards saw other tags than the
line has; it also moved the newline of a line without fields into its middle
and rewrote escape sequences.
---
 filter/rules.go | 58 +++++++++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/filter/rules.go b/filter/rules.go
index ddbc8ae..f379998 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -215,30 +215,46 @@ func (pl *parsedLine) SortTags() {
 		return
 	}
 
-	sort.Sort(pl.Tags)
-
-	// Replace Escaped with sorted tags version.
-
-	var newHdr []byte
-	newHdr = append(newHdr, influx.EscapeMeasurement(pl.Measurement)...)
-	newHdr = append(newHdr, ',')
-	newHdr = append(newHdr, pl.Tags.Bytes()...)
+	// Replace Escaped with sorted tags version. The still escaped tags
+	// are what gets moved around so that the tags in the output are
+	// exactly those of the input. A new buffer is always used because
+	// Measurement, Tags and Remainder refer to the memory of the
+	// existing one.
+	line := pl.Escaped
+	var newline []byte
+	if line[len(line)-1] == '\n' {
+		newline = line[len(line)-1:]
+		line = line[:len(line)-1]
+	}
 
-	if len(pl.Remainder) == 0 {
-		// Nothing left so "newHdr" is exactly what needs to be returned.
-		pl.Escaped = newHdr
-		return
+	measurement, rest := influx.TokenEscaped(line, []byte(", "))
+	rawTags := make([][]byte, 0, len(pl.Tags))
+	for len(rawTags) < len(pl.Tags) {
+		tag := rest[1:]
+		_, rest = influx.TokenEscaped(tag, []byte("= ,"))
+		_, rest = influx.TokenEscaped(rest[1:], []byte(", "))
+		rawTags = append(rawTags, tag[:len(tag)-len(rest)])
 	}
+	sort.Sort(&tagSorter{pl.Tags, rawTags})
 
-	if len(newHdr)+len(pl.Remainder)+1 == len(pl.Escaped) {
-		// Length hasn't changed so reuse memory used by original,
-		// overwriting the measurement name and tags part.
-		copy(pl.Escaped, newHdr)
-		return
+	out := make([]byte, 0, len(pl.Escaped))
+	out = append(out, measurement...)
+	for _, tag := range rawTags {
+		out = append(out, ',')
+		out = append(out, tag...)
 	}
+	out = append(out, rest...)
+	pl.Escaped = append(out, newline...)
+}
+
+// tagSorter sorts parsed tags by key, keeping their escaped
+// counterparts in the same order. It implements sort.Interface.
+type tagSorter struct {
+	influx.TagSet
+	raw [][]byte
+}
 
-	// Length as changed (original escaped differently?)
-	newHdr = append(newHdr, ' ')
-	newHdr = append(newHdr, pl.Remainder...)
-	pl.Escaped = newHdr
+func (s *tagSorter) Swap(i, j int) {
+	s.TagSet.Swap(i, j)
+	s.raw[i], s.raw[j] = s.raw[j], s.raw[i]
 }
-- 
2.43.0


From 2d1aa04f06af80f3255418e0668166c03ccb6bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 02/40] fix: never return more than chunkSize bytes from the
 batch splitter

The backwards search for a newline started one byte too far, so a chunk
could have one byte more than NATS or the configuration allow.
---
 batchsplitter/batch_splitter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batchsplitter/batch_splitter.go b/batchsplitter/batch_splitter.go
index 33e49e9..3134654 100644
--- a/batchsplitter/batch_splitter.go
+++ b/batchsplitter/batch_splitter.go
@@ -55,7 +55,7 @@ func (s *BatchSplitter) Next() bool {
 	}
 
 	// Look backwards from the maximum size for a newline.
-	for i := s.chunkSize; i >= 0; i-- {
+	for i := s.chunkSize - 1; i >= 0; i-- {
 		if s.buf[i] == '\n' {
 			i++
 			s.out = s.buf[:i]
-- 
2.43.0


From 0574dd445a76df501a98027aaa36843bf5111e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 03/40] fix: compare measurement names and not just their
 hashes in basic rules

Measurements whose 32 bit FNV hash is that of a rule's measurement were sent
to that rule's subject.
---
 filter/rules.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/filter/rules.go b/filter/rules.go
index f379998..7e58bf6 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -15,6 +15,7 @@
 package filter
 
 import (
+	"bytes"
 	"fmt"
 	"hash/fnv"
 	"regexp"
@@ -37,11 +38,13 @@ type Rule struct {
 // CreateBasicRule creates a simple rule that publishes measurements
 // with the name @measurement to the NATS @subject.
 func CreateBasicRule(measurement string, subject string) Rule {
-	hh := hashMeasurement([]byte(measurement))
+	name := []byte(measurement)
+	hh := hashMeasurement(name)
 
 	return Rule{
 		match: func(line *parsedLine) bool {
-			return hh == line.HashedMeasurement()
+			// Different measurements can have the same hash.
+			return hh == line.HashedMeasurement() && bytes.Equal(name, line.Measurement)
 		},
 		subject: subject,
 	}
-- 
2.43.0


From 96bcc8207139e6690ccbd36ad836df1e8368911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 04/40] fix: don't hold up HTTP listener clients while reading
 a request body

The body was read straight into the shared batch with the listener's mutex
held, so one stalled upload blocked all other requests and the sending of old
batches. What an interrupted upload had sent so far was forwarded too, with
its last line cut.
---
 listener/listener.go | 54 ++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 29 deletions(-)

diff --git a/listener/listener.go b/listener/listener.go
index 215eb3e..a848e16 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -20,6 +20,7 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+	"io/ioutil"
 	"log"
 	"net"
 	"net/http"
@@ -247,46 +248,47 @@ func (l *Listener) oldBatchSender() {
 }
 
 func (l *Listener) handleHTTPWrite(w http.ResponseWriter, r *http.Request) {
-	bytesRead, err := l.readHTTPBody(r)
-	if bytesRead > 0 {
+	// Read the whole body before touching the batch. This ensures that
+	// a slow client doesn't hold up others, and that the lines of a
+	// request which isn't completed can't end up being cut off or mixed
+	// with those of other requests.
+	body, err := ioutil.ReadAll(r.Body)
+	if err != nil {
+		l.stats.Inc(statReadErrors)
+		http.Error(w, "failed to read request body", http.StatusBadRequest)
+		return
+	}
+	if len(body) > 0 {
 		if l.c.Debug {
-			log.Printf("HTTP listener read %d bytes", bytesRead)
+			log.Printf("HTTP listener read %d bytes", len(body))
 		}
 		l.stats.Inc(statReceived)
-
 		l.mu.Lock()
+		err = l.addHTTPBody(body, r.URL.Query().Get("precision"))
 		l.maybeSendBatch()
 		l.mu.Unlock()
-	}
-	if err != nil {
-		l.stats.Inc(statReadErrors)
+		if err != nil {
+			l.stats.Inc(statReadErrors)
+		}
 	}
 	w.WriteHeader(http.StatusNoContent)
 }
 
-func (l *Listener) readHTTPBody(r *http.Request) (int64, error) {
-	precision := r.URL.Query().Get("precision")
-
+func (l *Listener) addHTTPBody(body []byte, precision string) error {
 	if precision == "" || precision == "ns" {
 		// Fast-path when timestamps are already in nanoseconds - no
 		// need for conversion.
-		return l.readHTTPBodyNanos(r)
+		l.batch.Append(body)
+		return nil
 	}
 
 	// Non-nanosecond precison specified. Read lines individually and
 	// convert timestamps to nanoseconds.
-	count, err := l.readHTTPBodyWithPrecision(r, precision)
-	return int64(count), err
-}
-
-func (l *Listener) readHTTPBodyNanos(r *http.Request) (int64, error) {
-	l.mu.Lock()
-	defer l.mu.Unlock()
-	return l.batch.ReadFrom(r.Body)
+	return l.addHTTPBodyWithPrecision(body, precision)
 }
 
-func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string) (int, error) {
-	scanner := bufio.NewScanner(r.Body)
+func (l *Listener) addHTTPBodyWithPrecision(body []byte, precision string) error {
+	scanner := bufio.NewScanner(bytes.NewReader(body))
 
 	// scanLines is like bufio.ScanLines but the returned lines
 	// includes the trailing newlines. Leaving the newline on the line
@@ -294,20 +296,14 @@ func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string)
 	// therefore should pass through unchanged.
 	scanner.Split(scanLines)
 
-	bytesRead := 0
 	for scanner.Scan() {
 		line := scanner.Bytes()
-		bytesRead += len(line)
 		if len(line) <= 1 {
 			continue
 		}
-
-		newLine := applyTimestampPrecision(line, precision)
-		l.mu.Lock()
-		l.batch.Append(newLine)
-		l.mu.Unlock()
+		l.batch.Append(applyTimestampPrecision(line, precision))
 	}
-	return bytesRead, scanner.Err()
+	return scanner.Err()
 }
 
 func scanLines(data []byte, atEOF bool) (advance int, token []byte, err error) {
-- 
2.43.0


From ff330ef49d08525cf72eb0a11c7bf297147131fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 05/40] fix: keep the lines of consecutive HTTP requests apart

When a request's body doesn't end with a newline its last line was joined to
the first line of the next request in the batch.
---
 listener/listener.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/listener/listener.go b/listener/listener.go
index a848e16..99b9333 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -264,6 +264,9 @@ func (l *Listener) handleHTTPWrite(w http.ResponseWriter, r *http.Request) {
 		}
 		l.stats.Inc(statReceived)
 		l.mu.Lock()
+		// The last line of the previous request might not have been
+		// terminated.
+		l.batch.EnsureNewline()
 		err = l.addHTTPBody(body, r.URL.Query().Get("precision"))
 		l.maybeSendBatch()
 		l.mu.Unlock()
-- 
2.43.0


From 6a024976767cdc5acafeed2fea8956926a992104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 06/40] fix: convert timestamps of HTTP writes as a whole

With a precision other than nanoseconds a body with a line of 64 KB or more
was silently cut off there but still acknowledged, the lines of concurrent
requests were mixed, and every line counted as one write towards
batch_max_count.
---
 listener/listener.go | 74 +++++++++++++-------------------------------
 1 file changed, 21 insertions(+), 53 deletions(-)

diff --git a/listener/listener.go b/listener/listener.go
index 99b9333..a1258ef 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -17,7 +17,6 @@
 package listener
 
 import (
-	"bufio"
 	"bytes"
 	"fmt"
 	"io/ioutil"
@@ -263,68 +262,37 @@ func (l *Listener) handleHTTPWrite(w http.ResponseWriter, r *http.Request) {
 			log.Printf("HTTP listener read %d bytes", len(body))
 		}
 		l.stats.Inc(statReceived)
+
+		precision := r.URL.Query().Get("precision")
+		if precision != "" && precision != "ns" {
+			// Non-nanosecond precison specified.
+			body = convertTimestamps(body, precision)
+		}
+
 		l.mu.Lock()
-		// The last line of the previous request might not have been
-		// terminated.
-		l.batch.EnsureNewline()
-		err = l.addHTTPBody(body, r.URL.Query().Get("precision"))
+		if len(body) > 0 {
+			// The last line of the previous request might not have
+			// been terminated.
+			l.batch.EnsureNewline()
+			l.batch.Append(body)
+		}
 		l.maybeSendBatch()
 		l.mu.Unlock()
-		if err != nil {
-			l.stats.Inc(statReadErrors)
-		}
 	}
 	w.WriteHeader(http.StatusNoContent)
 }
 
-func (l *Listener) addHTTPBody(body []byte, precision string) error {
-	if precision == "" || precision == "ns" {
-		// Fast-path when timestamps are already in nanoseconds - no
-		// need for conversion.
-		l.batch.Append(body)
-		return nil
-	}
-
-	// Non-nanosecond precison specified. Read lines individually and
-	// convert timestamps to nanoseconds.
-	return l.addHTTPBodyWithPrecision(body, precision)
-}
-
-func (l *Listener) addHTTPBodyWithPrecision(body []byte, precision string) error {
-	scanner := bufio.NewScanner(bytes.NewReader(body))
-
-	// scanLines is like bufio.ScanLines but the returned lines
-	// includes the trailing newlines. Leaving the newline on the line
-	// is useful for incoming lines that don't contain a timestamp and
-	// therefore should pass through unchanged.
-	scanner.Split(scanLines)
-
-	for scanner.Scan() {
-		line := scanner.Bytes()
-		if len(line) <= 1 {
+// convertTimestamps returns the lines given with their timestamps
+// converted to nanoseconds. Empty lines are dropped.
+func convertTimestamps(lines []byte, precision string) []byte {
+	var out []byte
+	for _, line := range bytes.SplitAfter(lines, []byte{'\n'}) {
+		if len(line) == 0 || line[0] == '\n' {
 			continue
 		}
-		l.batch.Append(applyTimestampPrecision(line, precision))
-	}
-	return scanner.Err()
-}
-
-func scanLines(data []byte, atEOF bool) (advance int, token []byte, err error) {
-	if atEOF && len(data) == 0 {
-		return 0, nil, nil
-	}
-	if i := bytes.IndexByte(data, '\n'); i >= 0 {
-		// We have a full newline-terminated line.
-		return i + 1, data[0 : i+1], nil
-
-	}
-	// If we're at EOF, we have a final, non-terminated line. Return it.
-	if atEOF {
-		return len(data), data, nil
-
+		out = append(out, applyTimestampPrecision(line, precision)...)
 	}
-	// Request more data.
-	return 0, nil, nil
+	return out
 }
 
 func applyTimestampPrecision(line []byte, precision string) []byte {
-- 
2.43.0


From cbc656dc23b27bfcb054bda37599a0f3bd8a16f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 07/40] fix: check timestamps of any length against the
 filter's time window

---
 filter/worker.go     | 15 ++++-----------
 influx/timestamps.go |  9 +++++++++
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/filter/worker.go b/filter/worker.go
index 3c028da..6a8453b 100644
--- a/filter/worker.go
+++ b/filter/worker.go
@@ -160,18 +160,11 @@ func (w *worker) publish(subject string, data []byte) {
 	}
 }
 
-// Any realistic nanosecond timestamp will be at least 18 characters
-// long.
-const minTsLen = 18
-
 func extractTimestamp(line []byte, defaultTs int64) int64 {
-	// Reject lines that are too short to have a timestamp.
-	if len(line) <= minTsLen+6 {
-		return defaultTs
-	}
-
-	out, _ := influx.ExtractNanos(line)
-	if out == -1 {
+	// Timestamps which are nowhere near the current time have to be
+	// noticed too, so they can have any length.
+	out, offset := influx.ExtractTimestamp(line)
+	if offset == -1 {
 		return defaultTs
 	}
 	return out
diff --git a/influx/timestamps.go b/influx/timestamps.go
index 25a8c86..0c21993 100644
--- a/influx/timestamps.go
+++ b/influx/timestamps.go
@@ -86,6 +86,15 @@ func ExtractTimestamp(line []byte) (int64, int) {
 		}
 	}
 
+	// A sign may precede the maximum number of digits.
+	if to > 0 && line[to] == '-' && line[to-1] == ' ' {
+		out, err := convert.ToInt(line[to:])
+		if err != nil {
+			return -1, -1
+		}
+		return out, to
+	}
+
 	return -1, -1
 }
 
-- 
2.43.0


From b139b3e0f11b5b2ea2eae5f4f166ab165636c885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 08/40] fix: let max_time_delta go beyond the representable
 times

---
 filter/worker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/filter/worker.go b/filter/worker.go
index 6a8453b..b84cec5 100644
--- a/filter/worker.go
+++ b/filter/worker.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"fmt"
 	"log"
+	"math"
 	"sync"
 	"time"
 
@@ -89,6 +90,10 @@ func (w *worker) processBatch(batch []byte) {
 	now := time.Now().UnixNano()
 	minTs := now - int64(w.maxTimeDelta)
 	maxTs := now + int64(w.maxTimeDelta)
+	if maxTs < now {
+		// The window goes beyond the times that can be represented.
+		maxTs = math.MaxInt64
+	}
 
 	for _, line := range bytes.SplitAfter(batch, []byte("\n")) {
 		if len(line) == 0 {
@@ -97,7 +102,7 @@ func (w *worker) processBatch(batch []byte) {
 		w.st.Inc(statProcessed)
 
 		ts := extractTimestamp(line, now)
-		if minTs < ts && ts < maxTs {
+		if minTs <= ts && ts <= maxTs {
 			w.processLine(line)
 		} else {
 			w.st.Inc(statInvalidTime)
-- 
2.43.0


From c61112a1a7b553f7ec821358d94f0e7c01a33cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 09/40] fix: escape the database name in the writer's URL

---
 writer/influxclient.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/writer/influxclient.go b/writer/influxclient.go
index 800a44b..ebf8f8c 100644
--- a/writer/influxclient.go
+++ b/writer/influxclient.go
@@ -19,6 +19,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"net/http"
+	"net/url"
 	"time"
 
 	"github.com/jumptrading/influx-spout/v2/config"
@@ -26,7 +27,7 @@ import (
 
 func newInfluxClient(c *config.Config) *influxClient {
 	return &influxClient{
-		url:      fmt.Sprintf("%s://%s:%d/write?db=%s", c.InfluxDBProtocol, c.InfluxDBAddress, c.InfluxDBPort, c.DBName),
+		url:      fmt.Sprintf("%s://%s:%d/write?db=%s", c.InfluxDBProtocol, c.InfluxDBAddress, c.InfluxDBPort, url.QueryEscape(c.DBName)),
 		username: c.InfluxDBUser,
 		password: c.InfluxDBPass,
 		debug:    c.Debug,
-- 
2.43.0


From ca5443f0c0efdf7bd274dac4002b9bf8949fbc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 10/40] fix: count messages and not lines in the batches of a
 writer with rules

---
 writer/writer.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/writer/writer.go b/writer/writer.go
index 5bfc905..64b542d 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -220,12 +220,17 @@ func (w *Writer) getBatchWriteFunc(batch *batch.Batch) func([]byte) {
 
 	return func(data []byte) {
 		// Rules exist - split the received data into lines and apply
-		// filters.
+		// filters. The lines which pass are added at once because
+		// batches are limited by messages, not by lines.
+		var passed []byte
 		for _, line := range bytes.SplitAfter(data, []byte("\n")) {
 			if w.filterLine(line) {
-				batch.Append(line)
+				passed = append(passed, line...)
 			}
 		}
+		if len(passed) > 0 {
+			batch.Append(passed)
+		}
 	}
 }
 
-- 
2.43.0


From 4a7d54c397a49c5d6867b77743b48b41147549a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 11/40] fix: emit sampling periods which are due before
 handling more lines in the downsampler

---
 downsampler/downsampler.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/downsampler/downsampler.go b/downsampler/downsampler.go
index 0eea6d7..55e8199 100644
--- a/downsampler/downsampler.go
+++ b/downsampler/downsampler.go
@@ -145,6 +145,9 @@ func (ds *Downsampler) worker(subject string, inputCh <-chan []byte) {
 		select {
 		case lines := <-inputCh:
 			ds.stats.Inc(statReceived)
+			// The buckets have to be up to date for lines to be
+			// assigned correctly.
+			ds.emit(assigner, outSubject)
 			errs := assigner.Update(lines)
 			for _, err := range errs {
 				if ds.c.Debug {
@@ -161,6 +164,14 @@ func (ds *Downsampler) worker(subject string, inputCh <-chan []byte) {
 			return
 		}
 
+		ds.emit(assigner, outSubject)
+	}
+}
+
+// emit publishes the data of every sampling period which is due. There
+// is more than one if the downsampler was held up.
+func (ds *Downsampler) emit(assigner *assigner, outSubject string) {
+	for assigner.UntilNext() <= 0 {
 		buf := assigner.Bytes()
 		if len(buf) > 0 {
 			if ds.c.Debug {
-- 
2.43.0


From 5a43d62558f7b3545f0dc1625143522dd4c11b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:10 +0000
Subject: [PATCH 12/40] fix: calculate exact averages of integer fields in the
 downsampler

---
 downsampler/avgbucket.go | 41 ++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index 7aead5b..0202cac 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -17,6 +17,7 @@ package downsampler
 import (
 	"errors"
 	"fmt"
+	"math/bits"
 	"sort"
 	"strconv"
 	"time"
@@ -176,10 +177,9 @@ type fieldValue interface {
 func newFieldValue(v []byte) fieldValue {
 	if len(v) >= 2 && v[len(v)-1] == 'i' {
 		if iv, err := convert.ToInt(v[:len(v)-1]); err == nil {
-			return &intFieldValue{
-				average: iv,
-				count:   1,
-			}
+			v := new(intFieldValue)
+			v.add(iv)
+			return v
 		}
 	}
 	if fv, err := strconv.ParseFloat(string(v), 64); err == nil {
@@ -196,10 +196,14 @@ func newStringValue(v []byte) fieldValue {
 }
 
 type intFieldValue struct {
-	average int64
-	count   int64
+	// The sum of the values. It is kept as a 128 bit two's complement
+	// integer so that the average is exact.
+	sumHi int64
+	sumLo uint64
+	count uint64
 }
 
+// update implements the fieldValue interface.
 func (v *intFieldValue) update(b []byte) error {
 	if len(b) < 2 || b[len(b)-1] != 'i' {
 		return fmt.Errorf("wrong type for int: %s", b)
@@ -208,15 +212,32 @@ func (v *intFieldValue) update(b []byte) error {
 	if err != nil {
 		return fmt.Errorf("wrong type for int: %s", b)
 	}
+	v.add(bi)
+	return nil
+}
 
-	// Update incremental average.
+func (v *intFieldValue) add(i int64) {
+	var carry uint64
+	v.sumLo, carry = bits.Add64(v.sumLo, uint64(i), 0)
+	v.sumHi += (i >> 63) + int64(carry)
 	v.count++
-	v.average = v.average + ((bi - v.average) / v.count)
-	return nil
 }
 
+func (v *intFieldValue) average() int64 {
+	hi, lo := uint64(v.sumHi), v.sumLo
+	if v.sumHi >= 0 {
+		avg, _ := bits.Div64(hi, lo, v.count)
+		return int64(avg)
+	}
+	lo, borrow := bits.Sub64(0, lo, 0)
+	hi, _ = bits.Sub64(0, hi, borrow)
+	avg, _ := bits.Div64(hi, lo, v.count)
+	return -int64(avg)
+}
+
+// bytes implements the fieldValue interface.
 func (v *intFieldValue) bytes() []byte {
-	return append(strconv.AppendInt(nil, v.average, 10), 'i')
+	return append(strconv.AppendInt(nil, v.average(), 10), 'i')
 }
 
 type floatFieldValue struct {
-- 
2.43.0


From dcb1bd80bc083f49bdb9335deed5a2998fbdf037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:15 +0000
Subject: [PATCH 13/40] fix: ignore all of an invalid line in the downsampler

---
 downsampler/avgbucket.go | 60 ++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index 0202cac..b45ae8f 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -93,55 +93,55 @@ func (fp *fieldPairs) count() int {
 }
 
 func (fp *fieldPairs) update(raw []byte) (errs []error) {
-	for {
-		if len(raw) == 0 {
-			return
-		}
+	// Parse everything first so that invalid lines have no effect.
+	type pair struct {
+		name   string
+		value  []byte
+		quoted bool
+	}
+	pairs := make([]pair, 0, 8)
+	for len(raw) > 0 {
 		raw = raw[1:] // remove leading comma or space
 		var nameBytes []byte
 		nameBytes, raw = influx.TokenEscaped(raw, []byte("="))
 		if len(raw) == 0 || raw[0] != '=' {
-			errs = append(errs, errors.New("invalid field"))
-			return
+			return []error{errors.New("invalid field")}
 		}
-		name := string(nameBytes)
+		p := pair{name: string(nameBytes)}
 
 		raw = raw[1:]
 		if len(raw) == 0 {
-			errs = append(errs, errors.New("missing field value"))
-			return
+			return []error{errors.New("missing field value")}
 		}
 
-		var rawValue []byte
-		var err error
 		if raw[0] == '"' {
 			// String field
-			rawValue, raw, err = influx.QuotedString(raw)
+			var err error
+			p.quoted = true
+			p.value, raw, err = influx.QuotedString(raw)
 			if err != nil {
-				errs = append(errs, err)
-				return
-			}
-			value, exists := fp.fields[name]
-			if !exists {
-				fp.fields[name] = newStringValue(rawValue)
-			} else {
-				if err := value.update(rawValue); err != nil {
-					errs = append(errs, err) // Non-fatal, so keep going.
-				}
+				return []error{err}
 			}
 		} else {
 			// Other field
-			rawValue, raw = influx.Token(raw, []byte{','})
-			value, exists := fp.fields[name]
-			if !exists {
-				fp.fields[name] = newFieldValue(rawValue)
-			} else {
-				if err := value.update(rawValue); err != nil {
-					errs = append(errs, err) // Non-fatal, so keep going.
-				}
+			p.value, raw = influx.Token(raw, []byte{','})
+		}
+		pairs = append(pairs, p)
+	}
+
+	for _, p := range pairs {
+		value, exists := fp.fields[p.name]
+		if exists {
+			if err := value.update(p.value); err != nil {
+				errs = append(errs, err) // Non-fatal, so keep going.
 			}
+		} else if p.quoted {
+			fp.fields[p.name] = newStringValue(p.value)
+		} else {
+			fp.fields[p.name] = newFieldValue(p.value)
 		}
 	}
+	return errs
 }
 
 func (fp *fieldPairs) bytes() []byte {
-- 
2.43.0


From 56da6809f1abf4862d27f59e4c24bdb84d37711a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 14/40] fix: leave escape sequences in string fields as they
 are in the downsampler

---
 influx/token.go | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/influx/token.go b/influx/token.go
index 4b3fa56..bb693e3 100644
--- a/influx/token.go
+++ b/influx/token.go
@@ -81,22 +81,35 @@ func QuotedString(s []byte) ([]byte, []byte, error) {
 	}
 
 	escaped := false
-	i := 0
-	for {
-		i++
-		if i >= length {
-			return nil, nil, errors.New("missing trailing double quote")
-		}
-		if s[i] == '"' {
-			if s[i-1] == '\\' {
-				escaped = true
-				continue
-			}
+	for i := 1; i < length; i++ {
+		switch s[i] {
+		case '\\':
+			// Skip the next character (it's escaped).
+			i++
+			escaped = true
+		case '"':
 			out := s[1:i]
 			if escaped {
-				out = Unescape(out)
+				out = unescapeQuotes(out)
 			}
 			return out, s[i+1:], nil
 		}
 	}
+	return nil, nil, errors.New("missing trailing double quote")
+}
+
+// unescapeQuotes removes the escaping which EscapeQuotedString adds.
+// Everything else, including other escape sequences, is left as it is.
+func unescapeQuotes(in []byte) []byte {
+	out := make([]byte, 0, len(in))
+	for i := 0; i < len(in); i++ {
+		if in[i] == '\\' && i+1 < len(in) {
+			i++
+			if in[i] != '"' {
+				out = append(out, '\\')
+			}
+		}
+		out = append(out, in[i])
+	}
+	return out
 }
-- 
2.43.0


From 2465447ec4c886ba65d087a55b45dc8dcce70a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 15/40] fix: notice all integer overflows

---
 convert/convert.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/convert/convert.go b/convert/convert.go
index b12830c..a6813c8 100644
--- a/convert/convert.go
+++ b/convert/convert.go
@@ -45,6 +45,9 @@ func ToInt(s []byte) (int64, error) {
 		} else {
 			return 0, errors.New("invalid char")
 		}
+		if n > (math.MaxUint64-uint64(c))/10 {
+			return 0, errors.New("overflow")
+		}
 		n = n*10 + uint64(c)
 	}
 
-- 
2.43.0


From f5f6dbdbecd54abadbf6ca4dcddf28e293f47f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:32 +0000
Subject: [PATCH 16/40] fix: don't write over the bytes following a metric's
 name

Metric.ToBytes wrote into the spare capacity of the name, which is where
the labels of a parsed metric are. With labels which aren't sorted by
name the metric was garbled from the second time on.
---
 prometheus/metric.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prometheus/metric.go b/prometheus/metric.go
index ccc9ecc..52132c7 100644
--- a/prometheus/metric.go
+++ b/prometheus/metric.go
@@ -34,7 +34,8 @@ func (m *Metric) String() string {
 
 // ToBytes renders the metric to wire format.
 func (m *Metric) ToBytes() []byte {
-	out := bytes.NewBuffer(m.Name)
+	out := new(bytes.Buffer)
+	out.Write(m.Name)
 	if len(m.Labels) > 0 {
 		out.Write(m.Labels.ToBytes())
 	}
-- 
2.43.0


From 1c7c6258555798222cf90fb7b260e3da19ed1fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 17/40] fix: report incomplete metrics instead of panicking

A metric which ends within or right after its labels, such as
'foo{a="b"', crashed the monitor.
---
 prometheus/parse.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/prometheus/parse.go b/prometheus/parse.go
index f37555e..26d3e41 100644
--- a/prometheus/parse.go
+++ b/prometheus/parse.go
@@ -70,6 +70,10 @@ func ParseMetric(s []byte) (*Metric, error) {
 		i += n
 	}
 
+	if i >= len(s) || s[i] != ' ' {
+		return nil, errors.New("no value")
+	}
+
 	i++
 	j := bytes.IndexByte(s[i:], ' ')
 	if j == -1 {
@@ -92,7 +96,7 @@ func ParseMetric(s []byte) (*Metric, error) {
 }
 
 func parseLabels(s []byte) (Labels, int, error) {
-	if s[0] == '}' {
+	if bytes.HasPrefix(s, []byte("}")) {
 		return nil, 1, nil
 	}
 
@@ -117,6 +121,9 @@ func parseLabels(s []byte) (Labels, int, error) {
 
 		out = append(out, label)
 
+		if i >= len(s) {
+			return nil, i, errors.New("missing label closing brace")
+		}
 		switch s[i] {
 		case '}':
 			return out, i + 1, nil
-- 
2.43.0


From 8051590d1894c10a1106e35666a12402f7364a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 18/40] fix: don't let slow clients hold up the monitor

The metrics were locked while a response was being sent so a client
which didn't read kept the monitor from handling metrics and from
responding to others.
---
 monitor/monitor.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 3a3bdc8..5542b47 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -115,9 +115,12 @@ func (m *Monitor) serveHTTP() {
 		r.Body.Close()
 		w.Header().Set("Content-Type", "text/plain")
 
-		defer m.mu.Unlock()
 		m.mu.Lock()
-		w.Write(m.metrics.ToBytes())
+		metrics := m.metrics.ToBytes()
+		m.mu.Unlock()
+
+		// Not with the lock held because a client may be slow.
+		w.Write(metrics)
 	})
 
 	server := &http.Server{
-- 
2.43.0


From eb9639fac26e44666161c019d6d8b9434580eddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 19/40] fix: escape and unescape the values of metric labels

A component whose name contains a double quote sent metrics which the
monitor couldn't parse, and label values with escape sequences made it
ignore metrics.
---
 prometheus/labels.go | 16 ++++++++++++++--
 prometheus/parse.go  | 39 ++++++++++++++++++++++++++++++++++-----
 2 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/prometheus/labels.go b/prometheus/labels.go
index 94ee161..f98dce7 100644
--- a/prometheus/labels.go
+++ b/prometheus/labels.go
@@ -16,7 +16,6 @@ package prometheus
 
 import (
 	"bytes"
-	"fmt"
 	"sort"
 )
 
@@ -45,7 +44,20 @@ func (labels Labels) ToBytes() []byte {
 	out := new(bytes.Buffer)
 	out.WriteByte('{')
 	for i, label := range labels {
-		fmt.Fprintf(out, `%s="%s"`, label.Name, label.Value)
+		out.Write(label.Name)
+		out.WriteString(`="`)
+		for _, c := range label.Value {
+			switch c {
+			case '\n':
+				out.WriteString(`\n`)
+			case '\\', '"':
+				out.WriteByte('\\')
+				out.WriteByte(c)
+			default:
+				out.WriteByte(c)
+			}
+		}
+		out.WriteByte('"')
 		if i < len(labels)-1 {
 			out.WriteByte(',')
 		}
diff --git a/prometheus/parse.go b/prometheus/parse.go
index 26d3e41..8cb5a45 100644
--- a/prometheus/parse.go
+++ b/prometheus/parse.go
@@ -112,12 +112,12 @@ func parseLabels(s []byte) (Labels, int, error) {
 		label.Name = s[i : i+j]
 		i = i + j + 2
 
-		j = bytes.IndexByte(s[i:], '"')
-		if j == -1 {
-			return nil, i, errors.New("missing label closing quote")
+		value, n, err := parseLabelValue(s[i:])
+		if err != nil {
+			return nil, i, err
 		}
-		label.Value = s[i : i+j]
-		i = i + j + 1
+		label.Value = value
+		i += n
 
 		out = append(out, label)
 
@@ -134,3 +134,32 @@ func parseLabels(s []byte) (Labels, int, error) {
 		}
 	}
 }
+
+// parseLabelValue returns the label value at the start of s, with escape
+// sequences replaced, and the number of bytes up to and including its
+// closing quote.
+func parseLabelValue(s []byte) ([]byte, int, error) {
+	out := []byte{}
+	for i := 0; i < len(s); i++ {
+		switch s[i] {
+		case '"':
+			return out, i + 1, nil
+		case '\\':
+			i++
+			if i >= len(s) {
+				return nil, i, errors.New("missing label closing quote")
+			}
+			switch s[i] {
+			case 'n':
+				out = append(out, '\n')
+			case '\\', '"':
+				out = append(out, s[i])
+			default:
+				return nil, i, errors.New("invalid label escape sequence")
+			}
+		default:
+			out = append(out, s[i])
+		}
+	}
+	return nil, len(s), errors.New("missing label closing quote")
+}
-- 
2.43.0


From 3a8525f0fae39fde622267cffd1a9a6c4a5ed6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 20/40] fix: reject metrics with invalid names and duplicate
 labels

The monitor passed them on, which made the whole of its output invalid.
---
 prometheus/parse.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/prometheus/parse.go b/prometheus/parse.go
index 8cb5a45..eb935de 100644
--- a/prometheus/parse.go
+++ b/prometheus/parse.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"strings"
 
 	"github.com/jumptrading/influx-spout/v2/convert"
 )
@@ -59,6 +60,9 @@ func ParseMetric(s []byte) (*Metric, error) {
 		return nil, errors.New("no value")
 	}
 	out.Name = s[:i]
+	if !validName(out.Name, ":") {
+		return nil, errors.New("invalid metric name")
+	}
 
 	if s[i] == '{' {
 		i++
@@ -110,6 +114,14 @@ func parseLabels(s []byte) (Labels, int, error) {
 			return nil, i, errors.New("invalid label")
 		}
 		label.Name = s[i : i+j]
+		if !validName(label.Name, "") {
+			return nil, i, errors.New("invalid label")
+		}
+		for _, other := range out {
+			if bytes.Equal(other.Name, label.Name) {
+				return nil, i, errors.New("duplicate label")
+			}
+		}
 		i = i + j + 2
 
 		value, n, err := parseLabelValue(s[i:])
@@ -163,3 +175,19 @@ func parseLabelValue(s []byte) ([]byte, int, error) {
 	}
 	return nil, len(s), errors.New("missing label closing quote")
 }
+
+// validName returns true if s is a name as permitted by Prometheus: ASCII
+// letters, digits (but not at the start), underscores and the extra
+// characters given.
+func validName(s []byte, extra string) bool {
+	for i, c := range s {
+		switch {
+		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c == '_':
+		case c >= '0' && c <= '9' && i > 0:
+		case strings.IndexByte(extra, c) >= 0:
+		default:
+			return false
+		}
+	}
+	return len(s) > 0
+}
-- 
2.43.0


From 766f71731124576dc672b1668130014b09c70e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:49 +0000
Subject: [PATCH 21/40] fix: don't wait for the end of a protocol switch
 response

With debug enabled a writer's worker was stuck forever when it got a
"101 Switching Protocols" response.
---
 writer/influxclient.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/writer/influxclient.go b/writer/influxclient.go
index ebf8f8c..4e0b63e 100644
--- a/writer/influxclient.go
+++ b/writer/influxclient.go
@@ -71,7 +71,9 @@ func (ic *influxClient) Write(buf []byte) error {
 
 	if !isHTTPPOSTSuccess(resp.StatusCode) {
 		errText := fmt.Sprintf("received HTTP %v from %v", resp.Status, ic.url)
-		if ic.debug {
+		// There's no limit to what may follow "101 Switching Protocols", and
+		// the client's timeout doesn't apply to it.
+		if ic.debug && resp.StatusCode != http.StatusSwitchingProtocols {
 			body, err := ioutil.ReadAll(resp.Body)
 			if err == nil {
 				errText += fmt.Sprintf("\nresponse body: %s\n", body)
-- 
2.43.0


From 16f8798125567946758451f7ad2e6b9680b0fbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:45 +0000
Subject: [PATCH 22/40] fix: report rules which share a subject together

Rules with the same subject published "triggered" metrics with the same
labels, so that only the count of the last one could be seen.
---
 filter/filter.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/filter/filter.go b/filter/filter.go
index 7ab2f00..936c8a7 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -176,11 +176,22 @@ func (f *Filter) startStatistician(st *stats.Stats, ruleSt *stats.AnonStats, rul
 		lines := stats.SnapshotToPrometheus(snap, now, labels)
 		f.nc.Publish(f.c.NATSSubjectMonitor, lines)
 
-		// publish the per rule stats
-		for i, subject := range rules.Subjects() {
+		// publish the per rule stats; rules which share a subject also
+		// share their labels so they have to be reported together
+		subjects := rules.Subjects()
+		triggered := make(map[string]int)
+		for i, subject := range subjects {
+			triggered[subject] += int(ruleCounts[i])
+		}
+		for _, subject := range subjects {
+			count, ok := triggered[subject]
+			if !ok {
+				continue // already published
+			}
+			delete(triggered, subject)
 			f.nc.Publish(f.c.NATSSubjectMonitor, stats.CounterToPrometheus(
 				"triggered",
-				int(ruleCounts[i]),
+				count,
 				now,
 				labels.With("rule", subject),
 			))
-- 
2.43.0


From 06222914d0999f21009708ad9cda52272268fd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:59 +0000
Subject: [PATCH 23/40] fix: count every write attempt of the writer

A batch that had to be split counted as one write request although each
part is written (and may fail) separately, and the attempts of the retry
worker were only counted once the main loop got round to it, if at all.
---
 writer/writer.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/writer/writer.go b/writer/writer.go
index 64b542d..060a411 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -147,18 +147,16 @@ func (w *Writer) Stop() {
 func (w *Writer) worker(jobs <-chan *nats.Msg) {
 	defer w.wg.Done()
 
-	dbClient := newInfluxClient(w.c)
+	dbClient := &countedWriter{newInfluxClient(w.c), w.stats}
 
 	var (
-		retryCh      chan []byte
-		retryWriteCh <-chan struct{}
-		retryErrCh   <-chan error
+		retryCh    chan []byte
+		retryErrCh <-chan error
 	)
 	if w.c.WriterRetryBatches > 0 {
 		retryCh = make(chan []byte, 1)
 		rw := newRetryWorker(retryCh, dbClient, w.c)
 		defer rw.Stop()
-		retryWriteCh = rw.Writes()
 		retryErrCh = rw.WriteErrors()
 	}
 
@@ -169,10 +167,7 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 		case j := <-jobs:
 			w.stats.Inc(statReceived)
 			batchAppend(j.Data)
-		case <-retryWriteCh:
-			w.stats.Inc(statWriteRequests)
 		case err := <-retryErrCh:
-			w.stats.Inc(statFailedWrites)
 			log.Printf("Retry error: %v", err)
 		case <-time.After(time.Second):
 			// Wake up regularly to check batch age
@@ -181,8 +176,6 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 		}
 
 		if w.shouldSend(batch) {
-			w.stats.Inc(statWriteRequests)
-
 			// It is possible for the batch to end up being slightly
 			// larger than the configured maximum batch size because
 			// inbound messages will almost never align exactly with
@@ -191,7 +184,6 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 			for splitter.Next() {
 				chunk := splitter.Chunk()
 				if err := dbClient.Write(chunk); err != nil {
-					w.stats.Inc(statFailedWrites)
 					log.Printf("Error: %v", err)
 					if retryCh != nil {
 						// Copy the bytes because the underlying batch
@@ -211,6 +203,21 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 	}
 }
 
+// countedWriter counts every write attempt made using a dbWriter.
+type countedWriter struct {
+	dbWriter
+	stats *stats.Stats
+}
+
+func (cw *countedWriter) Write(buf []byte) error {
+	cw.stats.Inc(statWriteRequests)
+	err := cw.dbWriter.Write(buf)
+	if err != nil {
+		cw.stats.Inc(statFailedWrites)
+	}
+	return err
+}
+
 func (w *Writer) getBatchWriteFunc(batch *batch.Batch) func([]byte) {
 	if w.rules.Count() == 0 {
 		// No rules - just append the received data straight onto the
-- 
2.43.0


From 4df23dcd7e715ea9fdcc92d6b650cbd3c059bc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 24/40] fix: report an invalid regular expression in a rule as
 an error

RuleSetFromConfig panicked, so that the component crashed instead of
failing to start.
---
 filter/rules.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/filter/rules.go b/filter/rules.go
index 7e58bf6..65f779d 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -108,8 +108,14 @@ func RuleSetFromConfig(conf *config.Config) (*RuleSet, error) {
 			}
 			rs.Append(CreateTagRule(tags, r.Subject))
 		case "regex":
+			if _, err := regexp.Compile(r.Match); err != nil {
+				return nil, fmt.Errorf("Invalid rule: %v", err)
+			}
 			rs.Append(CreateRegexRule(r.Match, r.Subject))
 		case "negregex":
+			if _, err := regexp.Compile(r.Match); err != nil {
+				return nil, fmt.Errorf("Invalid rule: %v", err)
+			}
 			rs.Append(CreateNegativeRegexRule(r.Match, r.Subject))
 		default:
 			return nil, fmt.Errorf("Unsupported rule type: [%v]", r)
-- 
2.43.0


From 501bf83063d40c77c334e42525b4141813e833b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 25/40] fix: the filter was ready before NATS had its
 subscription

Messages published after the readiness probe succeeded could be lost.
---
 filter/filter.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/filter/filter.go b/filter/filter.go
index 936c8a7..92cb9bb 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -102,6 +102,12 @@ func StartFilter(conf *config.Config) (_ *Filter, err error) {
 		return nil, fmt.Errorf("NATS: failed to set pending limits: %v", err)
 	}
 
+	// Without this NATS might not know about the subscription yet when
+	// the filter reports that it is ready.
+	if err := f.nc.Flush(); err != nil {
+		return nil, fmt.Errorf("NATS: failed to flush: %v", err)
+	}
+
 	f.wg.Add(1)
 	go f.startStatistician(st, ruleSt, rules)
 
@@ -124,6 +130,7 @@ func (f *Filter) natsConnect() (natsConn, error) {
 type natsConn interface {
 	Publish(string, []byte) error
 	QueueSubscribe(string, string, nats.MsgHandler) (*nats.Subscription, error)
+	Flush() error
 	Close()
 }
 
-- 
2.43.0


From 70c7dcd3a5d92ca147b63c98c3f18e8586b82178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 26/40] fix: the HTTP listener was ready before its port was
 bound

Requests made after the readiness probe succeeded could be refused, the
probe could succeed even though the port could not be bound (which ended
the process instead of making StartHTTPListener fail), and it could
succeed again after Stop had been called.
---
 listener/listener.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/listener/listener.go b/listener/listener.go
index a1258ef..499ee7f 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -88,9 +88,16 @@ func StartHTTPListener(c *config.Config) (*Listener, error) {
 	}
 	server := listener.setupHTTP()
 
+	sc, err := net.Listen("tcp", server.Addr)
+	if err != nil {
+		listener.Stop()
+		return nil, err
+	}
+
 	listener.wg.Add(2)
 	go listener.startStatistician()
-	go listener.listenHTTP(server)
+	go listener.listenHTTP(server, sc)
+	listener.probes.SetReady(true)
 
 	log.Printf("HTTP listener publishing to [%s] at %s", c.NATSSubject[0], c.NATSAddress)
 
@@ -312,12 +319,11 @@ func applyTimestampPrecision(line []byte, precision string) []byte {
 	return append(newLine, '\n')
 }
 
-func (l *Listener) listenHTTP(server *http.Server) {
+func (l *Listener) listenHTTP(server *http.Server, sc net.Listener) {
 	defer l.wg.Done()
 
 	go func() {
-		l.probes.SetReady(true)
-		err := server.ListenAndServe()
+		err := server.Serve(sc)
 		if err == nil || err == http.ErrServerClosed {
 			return
 		}
-- 
2.43.0


From 7d8af032a74a6548c80e06108b8ac3db06f923bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 27/40] fix: the monitor was ready before its port was bound

Scrapes made after the readiness probe succeeded could be refused, the
probe could succeed even though the port could not be bound (which ended
the process instead of making Start fail), and it could succeed again
after Stop had been called.
---
 monitor/monitor.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 5542b47..22c52a4 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -18,6 +18,7 @@ package monitor
 import (
 	"fmt"
 	"log"
+	"net"
 	"net/http"
 	"sync"
 
@@ -56,8 +57,14 @@ func Start(conf *config.Config) (_ *Monitor, err error) {
 		return nil, fmt.Errorf("NATS: failed to flush: %v", err)
 	}
 
+	sc, err := net.Listen("tcp", fmt.Sprintf(":%d", m.c.Port))
+	if err != nil {
+		return nil, err
+	}
+
 	m.wg.Add(1)
-	go m.serveHTTP()
+	go m.serveHTTP(sc)
+	m.probes.SetReady(true)
 
 	log.Printf("monitor subscribed to [%s] at %s - serving HTTP on port %d",
 		m.c.NATSSubjectMonitor, m.c.NATSAddress, m.c.Port)
@@ -107,7 +114,7 @@ func (m *Monitor) natsConnect() (*nats.Conn, error) {
 	return nc, nil
 }
 
-func (m *Monitor) serveHTTP() {
+func (m *Monitor) serveHTTP(sc net.Listener) {
 	defer m.wg.Done()
 
 	mux := http.NewServeMux()
@@ -124,13 +131,11 @@ func (m *Monitor) serveHTTP() {
 	})
 
 	server := &http.Server{
-		Addr:    fmt.Sprintf(":%d", m.c.Port),
 		Handler: mux,
 	}
 
 	go func() {
-		m.probes.SetReady(true)
-		err := server.ListenAndServe()
+		err := server.Serve(sc)
 		if err == nil || err == http.ErrServerClosed {
 			return
 		}
-- 
2.43.0


From e5f305b2d87339d5ae128ea8ee0654d22a5b3919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 28/40] fix: the UDP listener could become ready after it was
 stopped

Its goroutine may only get to run once Stop has already been called.
---
 listener/listener.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/listener/listener.go b/listener/listener.go
index 499ee7f..9ae8f96 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -72,6 +72,7 @@ func StartListener(c *config.Config) (_ *Listener, err error) {
 	listener.wg.Add(2)
 	go listener.startStatistician()
 	go listener.listenUDP(sc)
+	listener.probes.SetReady(true)
 
 	log.Printf("UDP listener publishing to [%s] at %s", c.NATSSubject[0], c.NATSAddress)
 
@@ -191,7 +192,6 @@ func (l *Listener) listenUDP(sc *net.UDPConn) {
 		l.wg.Done()
 	}()
 
-	l.probes.SetReady(true)
 	for {
 		// Read deadline is used so that the stop channel can be
 		// periodically checked.
-- 
2.43.0


From 05747d9c4b7da64021227bf6859923750b9c1d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 29/40] fix: a listener which failed to start left its sockets
 open

---
 listener/listener.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/listener/listener.go b/listener/listener.go
index 9ae8f96..399a80b 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -149,6 +149,7 @@ func newListener(c *config.Config) (*Listener, error) {
 
 	nc, err := nats.Connect(l.c.NATSAddress, nats.MaxReconnects(-1), nats.Name(l.c.Name))
 	if err != nil {
+		l.probes.Close()
 		return nil, err
 	}
 	l.nc = nc
@@ -171,6 +172,7 @@ func (l *Listener) setupUDP(configBufSize int) (*net.UDPConn, error) {
 		log.Printf("rounding up receive buffer to nearest page size (now %d bytes)", bufSize)
 	}
 	if err := sc.SetReadBuffer(bufSize); err != nil {
+		sc.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From 4e0dbf56ae9969fd883c69d87fad4a97fc9289f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 30/40] fix: a stopped writer left its connections to InfluxDB
 open

---
 writer/influxclient.go | 5 +++++
 writer/writer.go       | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/writer/influxclient.go b/writer/influxclient.go
index 4e0b63e..5c72746 100644
--- a/writer/influxclient.go
+++ b/writer/influxclient.go
@@ -85,6 +85,11 @@ func (ic *influxClient) Write(buf []byte) error {
 	return nil
 }
 
+// Close closes the connections which are not being used.
+func (ic *influxClient) Close() {
+	ic.client.CloseIdleConnections()
+}
+
 func isHTTPPOSTSuccess(code int) bool {
 	return code >= 200 && code < 300
 }
diff --git a/writer/writer.go b/writer/writer.go
index 060a411..49f6251 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -147,7 +147,9 @@ func (w *Writer) Stop() {
 func (w *Writer) worker(jobs <-chan *nats.Msg) {
 	defer w.wg.Done()
 
-	dbClient := &countedWriter{newInfluxClient(w.c), w.stats}
+	influx := newInfluxClient(w.c)
+	defer influx.Close()
+	dbClient := &countedWriter{influx, w.stats}
 
 	var (
 		retryCh    chan []byte
-- 
2.43.0


From adc2f6a1b420b462f578f994bd7f999124f8b0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 31/40] fix: stopping a writer could take many write timeouts

A busy worker carried on with further messages and with the remaining
parts of its batch.
---
 writer/writer.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/writer/writer.go b/writer/writer.go
index 49f6251..cead3fe 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -165,6 +165,13 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 	batch := batch.New(32 * os.Getpagesize())
 	batchAppend := w.getBatchWriteFunc(batch)
 	for {
+		// There might always be something else to do as well.
+		select {
+		case <-w.stop:
+			return
+		default:
+		}
+
 		select {
 		case j := <-jobs:
 			w.stats.Inc(statReceived)
@@ -184,6 +191,11 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 			// the maximum batch size. Split up the batch if required.
 			splitter := batchsplitter.New(batch.Bytes(), w.c.BatchMaxSize)
 			for splitter.Next() {
+				select {
+				case <-w.stop:
+					return
+				default:
+				}
 				chunk := splitter.Chunk()
 				if err := dbClient.Write(chunk); err != nil {
 					log.Printf("Error: %v", err)
@@ -194,7 +206,11 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 						// rare case of a retry.
 						retryChunk := make([]byte, len(chunk))
 						copy(retryChunk, chunk)
-						retryCh <- retryChunk
+						select {
+						case retryCh <- retryChunk:
+						case <-w.stop:
+							return
+						}
 					}
 				}
 			}
-- 
2.43.0


From 554a6bd24955afb5d4148747091d694bbd419b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 32/40] fix: stopping under load left a goroutine blocked for
 ever

The goroutine which hands over messages received from NATS waited for
room in a channel nobody reads from any more.
---
 downsampler/downsampler.go |  5 ++++-
 filter/filter.go           |  5 ++++-
 writer/writer.go           | 14 ++++++++------
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/downsampler/downsampler.go b/downsampler/downsampler.go
index 55e8199..01081de 100644
--- a/downsampler/downsampler.go
+++ b/downsampler/downsampler.go
@@ -82,7 +82,10 @@ func StartDownsampler(c *config.Config) (_ *Downsampler, err error) {
 		ds.wg.Add(1)
 		go ds.worker(subject, inputCh)
 		subscription, err := ds.nc.Subscribe(subject, func(msg *nats.Msg) {
-			inputCh <- msg.Data
+			select {
+			case inputCh <- msg.Data:
+			case <-ds.stop:
+			}
 		})
 		if err != nil {
 			return nil, fmt.Errorf("NATS: subscription for %q failed: %v", subject, err)
diff --git a/filter/filter.go b/filter/filter.go
index 92cb9bb..bda24d8 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -93,7 +93,10 @@ func StartFilter(conf *config.Config) (_ *Filter, err error) {
 		if conf.Debug {
 			log.Printf("filter received %d bytes", len(msg.Data))
 		}
-		jobs <- msg.Data
+		select {
+		case jobs <- msg.Data:
+		case <-f.stop:
+		}
 	})
 	if err != nil {
 		return nil, fmt.Errorf("NATS: failed to subscribe: %v", err)
diff --git a/writer/writer.go b/writer/writer.go
index cead3fe..848d690 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -81,6 +81,12 @@ func StartWriter(c *config.Config) (_ *Writer, err error) {
 	}
 
 	jobs := make(chan *nats.Msg, 1024)
+	receive := func(msg *nats.Msg) {
+		select {
+		case jobs <- msg:
+		case <-w.stop:
+		}
+	}
 	w.wg.Add(w.c.Workers)
 	for wk := 0; wk < w.c.Workers; wk++ {
 		go w.worker(jobs)
@@ -91,13 +97,9 @@ func StartWriter(c *config.Config) (_ *Writer, err error) {
 	for _, subject := range c.NATSSubject {
 		var sub *nats.Subscription
 		if c.QueueGroup == "" {
-			sub, err = w.nc.Subscribe(subject, func(msg *nats.Msg) {
-				jobs <- msg
-			})
+			sub, err = w.nc.Subscribe(subject, receive)
 		} else {
-			sub, err = w.nc.QueueSubscribe(subject, c.QueueGroup, func(msg *nats.Msg) {
-				jobs <- msg
-			})
+			sub, err = w.nc.QueueSubscribe(subject, c.QueueGroup, receive)
 		}
 
 		if err != nil {
-- 
2.43.0


From 73e41ee63ce760b17c7c0f44684c49316e9e4b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:22 +0000
Subject: [PATCH 33/40] fix: a stopped HTTP listener or monitor might still
 hold its port

A server which is closed before its Serve was called does not know its
socket, and leaves it open.
---
 listener/listener.go | 1 +
 monitor/monitor.go   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/listener/listener.go b/listener/listener.go
index 399a80b..0d10243 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -335,6 +335,7 @@ func (l *Listener) listenHTTP(server *http.Server, sc net.Listener) {
 	// Close the server if the stop channel is closed.
 	<-l.stop
 	server.Close()
+	sc.Close() // in case the server hasn't taken it over yet
 }
 
 func (l *Listener) maybeSendBatch() {
diff --git a/monitor/monitor.go b/monitor/monitor.go
index 22c52a4..3797b35 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -145,6 +145,7 @@ func (m *Monitor) serveHTTP(sc net.Listener) {
 	// Close the server if the stop channel is closed.
 	<-m.stop
 	server.Close()
+	sc.Close() // in case the server hasn't taken it over yet
 }
 
 func (m *Monitor) receiveMetrics(msg *nats.Msg) {
-- 
2.43.0


From b621f9212b04da16fa6131797076cdd04821cff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:15 +0000
Subject: [PATCH 34/40] fix: the rules of a config file were mixed with those
 of the common one

---
 config/config.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/config/config.go b/config/config.go
index 31cffe4..38eeacd 100644
--- a/config/config.go
+++ b/config/config.go
@@ -288,10 +288,19 @@ func readConfig(fileName string, conf *Config) error {
 	}
 	defer f.Close()
 
+	// The rules of a file replace the ones specified before. Without
+	// this they would be decoded on top of them, so that options which a
+	// rule does not have are taken from another rule.
+	rules := conf.Rule
+	conf.Rule = nil
+
 	_, err = toml.DecodeReader(f, conf)
 	if err != nil {
 		return fmt.Errorf("%s: %v", fileName, err)
 	}
+	if conf.Rule == nil {
+		conf.Rule = rules
+	}
 	return nil
 }
 
-- 
2.43.0


From 8b8ad417d67af3d1f08584167623c1afb15185b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:06 +0000
Subject: [PATCH 35/40] fix: the tap garbled lines which contain a %

They were used as format strings.
---
 cmd/influx-spout-tap/influx-spout-tap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/influx-spout-tap/influx-spout-tap.go b/cmd/influx-spout-tap/influx-spout-tap.go
index 9dbe8b9..7b624ed 100644
--- a/cmd/influx-spout-tap/influx-spout-tap.go
+++ b/cmd/influx-spout-tap/influx-spout-tap.go
@@ -57,10 +57,10 @@ func process(msg *nats.Msg, r *regexp.Regexp) {
 	for _, line := range bytes.SplitAfter(msg.Data, []byte("\n")) {
 		if r != nil {
 			if r.Match(line) {
-				fmt.Printf(string(line))
+				fmt.Print(string(line))
 			}
 		} else {
-			fmt.Printf(string(line))
+			fmt.Print(string(line))
 		}
 	}
 }
-- 
2.43.0


From ff1e5bea517abaae852b9b33babab4991a7f9738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:06 +0000
Subject: [PATCH 36/40] fix: the tap panicked or hung when it could not start

It ignored the errors of connecting and subscribing to NATS.
---
 cmd/influx-spout-tap/influx-spout-tap.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/cmd/influx-spout-tap/influx-spout-tap.go b/cmd/influx-spout-tap/influx-spout-tap.go
index 7b624ed..c99e9fa 100644
--- a/cmd/influx-spout-tap/influx-spout-tap.go
+++ b/cmd/influx-spout-tap/influx-spout-tap.go
@@ -38,16 +38,25 @@ func main() {
 	if err != nil {
 		log.Printf("Hostname lookup failed")
 	}
-	natsConnection, _ := nats.Connect(*url, nats.Name("influx-spout-tap "+hostname))
+	natsConnection, err := nats.Connect(*url, nats.Name("influx-spout-tap "+hostname))
+	if err != nil {
+		log.Fatalf("Failed to connect to %s: %v", *url, err)
+	}
 	log.Println("Connected to " + *url)
 	log.Printf("Subscribing to subject %s\n", *subject)
 
 	if *regexpString != "" {
-		r = regexp.MustCompile(*regexpString)
+		r, err = regexp.Compile(*regexpString)
+		if err != nil {
+			log.Fatalf("Invalid regexp: %v", err)
+		}
 	}
-	natsConnection.Subscribe(*subject, func(msg *nats.Msg) {
+	_, err = natsConnection.Subscribe(*subject, func(msg *nats.Msg) {
 		process(msg, r)
 	})
+	if err != nil {
+		log.Fatalf("Failed to subscribe to %s: %v", *subject, err)
+	}
 
 	// Keep the connection alive
 	runtime.Goexit()
-- 
2.43.0


From 7797f6ea1561845770aef681a85b0bee9c4aa2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:07 +0000
Subject: [PATCH 37/40] fix: the tap gave up for ever when NATS was away for 2
 minutes

The components keep trying to reconnect and so should the tap.
---
 cmd/influx-spout-tap/influx-spout-tap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/influx-spout-tap/influx-spout-tap.go b/cmd/influx-spout-tap/influx-spout-tap.go
index c99e9fa..a465a5e 100644
--- a/cmd/influx-spout-tap/influx-spout-tap.go
+++ b/cmd/influx-spout-tap/influx-spout-tap.go
@@ -38,7 +38,7 @@ func main() {
 	if err != nil {
 		log.Printf("Hostname lookup failed")
 	}
-	natsConnection, err := nats.Connect(*url, nats.Name("influx-spout-tap "+hostname))
+	natsConnection, err := nats.Connect(*url, nats.MaxReconnects(-1), nats.Name("influx-spout-tap "+hostname))
 	if err != nil {
 		log.Fatalf("Failed to connect to %s: %v", *url, err)
 	}
-- 
2.43.0


From ac24c750108195443c97442be51c05dfb5b779d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:07 +0000
Subject: [PATCH 38/40] fix: expressions of the tap could not match the end of
 a line

A $ doesn't match in front of the newline, which was part of the line.
---
 cmd/influx-spout-tap/influx-spout-tap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/influx-spout-tap/influx-spout-tap.go b/cmd/influx-spout-tap/influx-spout-tap.go
index a465a5e..274c270 100644
--- a/cmd/influx-spout-tap/influx-spout-tap.go
+++ b/cmd/influx-spout-tap/influx-spout-tap.go
@@ -65,7 +65,7 @@ func main() {
 func process(msg *nats.Msg, r *regexp.Regexp) {
 	for _, line := range bytes.SplitAfter(msg.Data, []byte("\n")) {
 		if r != nil {
-			if r.Match(line) {
+			if r.Match(bytes.TrimSuffix(line, []byte("\n"))) {
 				fmt.Print(string(line))
 			}
 		} else {
-- 
2.43.0


From 80a533f6941948e0b55941d15422e0b8a78719ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:35 +0000
Subject: [PATCH 39/40] fix: lines without a timestamp were rejected when the
 downsampler was held up

---
 downsampler/assigner.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/downsampler/assigner.go b/downsampler/assigner.go
index a196bd2..679ece8 100644
--- a/downsampler/assigner.go
+++ b/downsampler/assigner.go
@@ -163,11 +163,17 @@ func (a *assigner) findBucket(ts time.Time) (bucket, error) {
 
 // extractTimestamp returns the timestamp from the end of the line and
 // returns the line with the timestamp removed. The current time is
-// used if no timestamp was present.
+// used if no timestamp was present. If the clock is no longer within
+// the buckets being tracked (the process was held up), the line goes
+// to the current bucket.
 func (a *assigner) extractTimestamp(line []byte) (time.Time, []byte) {
 	nanos, offset := influx.ExtractTimestamp(line)
 	if offset < 0 {
-		return a.clock.Now(), line
+		now := a.clock.Now()
+		if _, err := a.findBucket(now); err != nil {
+			now = a.buckets[curr].EndTime().Add(-1)
+		}
+		return now, line
 	}
 	return time.Unix(0, nanos), line[:offset-1]
 }
-- 
2.43.0


From 9d398a0e4d383b99745caae2b089fb825ff97766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:06 +0000
Subject: [PATCH 40/40] fix: the mean of very large floats could become
 infinite

---
 downsampler/avgbucket.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index b45ae8f..8f4fa2a 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -17,6 +17,7 @@ package downsampler
 import (
 	"errors"
 	"fmt"
+	"math"
 	"math/bits"
 	"sort"
 	"strconv"
@@ -253,7 +254,14 @@ func (v *floatFieldValue) update(b []byte) error {
 
 	// Update incremental average.
 	v.count++
-	v.average = v.average + ((bf - v.average) / float64(v.count))
+	n := float64(v.count)
+	if delta := bf - v.average; math.IsInf(delta, 0) {
+		// The difference can be too large for a float when the
+		// average isn't.
+		v.average += bf/n - v.average/n
+	} else {
+		v.average += delta / n
+	}
 	return nil
 }
 
-- 
2.43.0

