# Writes /verif/properties.jsonl (kept as a program only so that it stays readable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","UDP listener publishes every received line once, intact and in order",
 "Every line of every datagram that reaches a running UDP listener's socket is published to the listener's configured subject exactly once, byte for byte, and lines are published in the order in which their datagrams were read. Lines of different datagrams are never joined, interleaved or cut, and a datagram whose last line lacks a newline is given exactly one; nothing that was not received is ever published.",
 ["schedules","inputs","histories","fault_sequences"],
 "all sequences of datagrams (any sizes up to the UDP maximum, with and without trailing newlines), all arrival timings relative to batch count/age/size triggers, network loss/duplication/reordering before the socket, stalls of the listener, socket read errors",
 "The tests send a handful of small datagrams one at a time and compare one published message; they never cross a batch trigger with a concurrent arrival, stall the listener, inject a read error or fill a batch close to the size limit.",
 ["listener/listener.go","batch/batch.go","batchsplitter/batch_splitter.go"],
 [("UDP read loop and batching","listener/listener.go: listenUDP, maybeSendBatch, sendBatch"),("buffer that datagrams are read into","batch/batch.go: ReadOnceFrom, EnsureNewline, Reset"),("splitting on line boundaries","batchsplitter/batch_splitter.go")],
 [("batch","lines received but not yet published")],["messages the broker receives on the listener's subject"])
p("C02","HTTP listener publishes every acknowledged write completely and uncorrupted",
 "Every line in the body of a write request that the HTTP listener acknowledges is published exactly once, byte for byte and in order within its request, however the body is split on the wire and however requests overlap. Lines of one request are never joined to, interleaved into or lost because of another request, including one whose body is cut off, reset or stalled part way, of which nothing but whole lines is ever published. Blank lines may be dropped but no other content is.",
 ["schedules","inputs","histories","fault_sequences"],
 "all interleavings of concurrent requests and of body chunks, with content-length and chunked encodings, bodies with and without a final newline, bodies from one byte to several hundred kilobytes, connections reset or stalled at any byte",
 "The tests post one small body at a time over a loopback connection that delivers it in one piece; overlapping, fragmented and aborted uploads never happen.",
 ["listener/listener.go","batch/batch.go"],
 [("request body into the shared batch","listener/listener.go: handleHTTPWrite, readHTTPBody*"),("mutual exclusion of handlers and the age flusher","listener/listener.go: mu, oldBatchSender"),("buffer","batch/batch.go: ReadFrom, Append")],
 [("batch","bodies accepted but not yet published")],["HTTP status per request","messages the broker receives"])
p("C03","Listener batches obey the count, size and age limits",
 "A listener (UDP or HTTP) publishes held lines as soon as the number of writes it holds reaches the configured count or the held bytes come within one maximum datagram of the configured size, and otherwise no later than the configured maximum age after the oldest held write (plus at most one second of polling). It does not publish earlier than the first of these limits, and every message it publishes is non-empty and no larger than the bus accepts (1 MB), with boundaries between messages always at line ends unless a single line is itself larger.",
 ["schedules","inputs","histories","configurations"],
 "all arrival patterns around the three limits (bursts, trickles, silence after one line, buffers crossing 1 MB), all limit settings, concurrent flush by age and by count, stalls and clock changes",
 "Tests cover one count trigger, one age trigger and one big post with wall-clock waits; the races between triggers, the exact 1 MB boundary and the interaction of age with resets need controlled time.",
 ["listener/listener.go","batch/batch.go","batchsplitter/batch_splitter.go"],
 [("send decision","listener/listener.go: shouldSend"),("age flush goroutine","listener/listener.go: oldBatchSender"),("age bookkeeping","batch/batch.go: Age, countWrite, Reset"),("message size cap","batchsplitter/batch_splitter.go: Next")],
 [("batch age/writes/size","what the limits are measured on")],["publish times and sizes at the broker"])
p("C04","HTTP precision parameter rescales timestamps only, whatever the chunking",
 "When a write request names a timestamp precision, every line of it is published with its timestamp converted to the equal instant in nanoseconds and every other byte unchanged; lines without a timestamp pass unchanged. The result is the same however the body is fragmented on the wire and whatever other requests run at the same time, and an acknowledged body is never silently truncated.",
 ["schedules","inputs"],
 "all precisions (default, ns, us/u, ms, s, m, h), lines with, without and with unusual timestamps, any fragmentation of the body, concurrent requests of different precisions, long lines",
 "Tests convert one short body in one read per precision; fragmentation inside a line or number and concurrent conversions are not exercised.",
 ["listener/listener.go","influx/timestamps.go"],
 [("line scanning of the body","listener/listener.go: readHTTPBodyWithPrecision, scanLines"),("conversion","listener/listener.go: applyTimestampPrecision; influx/timestamps.go")],None,["messages the broker receives"])
p("C05","One slow or dead HTTP client cannot hold up the others",
 "While any number of clients stall, trickle or abandon their uploads to an HTTP listener, requests whose bodies have fully arrived are acknowledged within a bounded time and their lines, and all lines held before, are published within the normal batching limits.",
 ["schedules","histories","fault_sequences"],
 "all ways clients can stall (before the body, mid-body, mid-line, for ever), in any number up to tens, with any arrival pattern of well-behaved requests",
 "No test has more than one client; a stalled upload is never simulated.",
 ["listener/listener.go"],
 [("lock scope around body reads","listener/listener.go: readHTTPBodyNanos, readHTTPBodyWithPrecision, oldBatchSender")],None,["response times per client","publish times at the broker"])
p("C06","Filter sends each valid line once, to the first matching rule or the junkyard",
 "Each well-formed line with an acceptable timestamp that a filter receives is published exactly once: to the subject of the first configured rule that matches it, or to the junkyard subject if none does. The published line differs from the received one only in having its tags sorted by key (values, escaping, fields and timestamp are byte-identical), and lines of one received message that matched the same rule (or none) keep their order, for any number of workers and any interleaving.",
 ["schedules","inputs","configurations"],
 "all rule lists (basic, tags, regex, negregex, several rules per subject), all line shapes including escapes and unsorted tags, all message groupings, worker counts 1..8 and their interleavings",
 "Tests push a few lines through one worker and compare; parallel workers sharing rules, counters and buffers, and combinations of rules with escaped or unsorted input, are not explored.",
 ["filter/filter.go","filter/worker.go","filter/rules.go","influx/tags.go","influx/escape.go","influx/unescape.go"],
 [("worker pool","filter/worker.go: run, processBatch, sendOff"),("rule lookup","filter/rules.go: LookupParsed and the rule constructors"),("tag sorting","filter/rules.go: SortTags; influx/tags.go")],
 [("per-worker batches","lines sorted by destination, not yet published")],["messages the broker receives per subject"])
p("C07","Filter rejects exactly the lines outside the time window",
 "A line whose timestamp differs from the filter host's clock by more than the configured maximum is never forwarded anywhere and is counted as invalid; a line whose timestamp is within the window, or that has no timestamp, is never rejected for its time. The clock used is the host's wall clock at the time the line is processed, also after clock steps, delays and stalls.",
 ["schedules","inputs","histories","fault_sequences"],
 "timestamps at, near and far from both edges of the window (including short, long, zero and negative numbers and end-of-line forms), window settings, wall clock offsets and jumps in both directions, processing delays",
 "Tests use the real clock with timestamps far from the edges and cannot move the clock.",
 ["filter/worker.go","influx/timestamps.go"],
 [("window computation","filter/worker.go: processBatch"),("timestamp extraction","filter/worker.go: extractTimestamp; influx/timestamps.go")],None,["forwarded lines and the invalid_time counter"])
p("C08","A malformed line affects no line but itself at the filter",
 "Whatever bytes a line contains, a filter either forwards that line or drops it; the lines before and after it in the same message, in other messages and at other workers are routed exactly as if the malformed line had not been there. The filter neither stops, restarts nor falls behind because of it, and the bytes of a malformed line never appear attached to another line.",
 ["schedules","inputs"],
 "arbitrary bytes as lines (truncated tags, missing fields, stray escapes, unsorted tags without fields, very long lines, NULs, missing final newline at a message end) mixed anywhere among valid lines, any worker interleaving",
 "Unit tests parse single malformed lines; nothing sends them through a running filter between valid neighbours.",
 ["filter/worker.go","filter/rules.go","influx/tags.go"],
 [("line parsing","influx/tags.go: ParseTags"),("re-assembly","filter/rules.go: SortTags"),("per-destination buffers","filter/worker.go: processLine")],None,["messages the broker receives"])
p("C09","Writer delivers exactly its subjects' matching lines to the configured database",
 "In the absence of database failures, every line published to a subject a writer subscribes to, and matching one of its rules if it has any, is written exactly once and byte for byte to the configured database on the configured server, with the configured credentials when there are any. No other data is written, lines are never joined, cut or reordered within a received message, and every write is a non-empty POST to the write endpoint.",
 ["schedules","inputs","configurations"],
 "any message sizes and timings over one or more subjects, with and without rules, 1..8 workers, with and without a shared queue group, with and without credentials, slow servers within the time limit",
 "Tests use one worker and a few messages; concurrent workers flushing different batches to a server that answers slowly are not covered.",
 ["writer/writer.go","writer/influxclient.go","batch/batch.go","filter/rules.go"],
 [("worker loop","writer/writer.go: worker"),("rule filtering","writer/writer.go: getBatchWriteFunc"),("HTTP client","writer/influxclient.go: Write")],
 [("batch per worker","lines received but not written")],["requests the database receives"])
p("C10","Writer retries failed writes within its policy and never beyond it",
 "A batch whose write failed temporarily (no connection, timeout, 5xx) is attempted again with identical content, one queued batch at a time per worker and not more often than the retry interval, until it succeeds, is permanently refused (4xx) on a retry, its retry timeout has passed, or a newer batch has displaced it as the oldest when the retry limit is reached; it is attempted again if none of those happens first, however many other batches fail meanwhile: queued batches take turns, one at every retry interval. A batch that was acknowledged or permanently refused on a retry is never sent again, with retries disabled nothing is ever re-sent, and no single attempt outlives the write timeout.",
 ["schedules","histories","fault_sequences","configurations"],
 "all sequences of database behaviours per request (success, 4xx, 5xx, refused, reset before or after the write was applied, slow, silent), all retry settings, all interleavings of fresh and retried batches",
 "Tests script a few errors against a fake writer in wall-clock time; combinations of failures, limits and slow requests, and the real HTTP client's behaviour under resets and timeouts, are unexplored.",
 ["writer/retryworker.go","writer/writer.go","writer/influxclient.go"],
 [("retry loop and queue","writer/retryworker.go"),("hand-over of failed chunks","writer/writer.go: worker"),("error classification","writer/influxclient.go")],
 [("retry queue","failed batches awaiting another attempt")],["requests the database receives, with times"])
p("C11","Writer batches obey the count, size and age limits",
 "A writer sends a worker's held data as soon as the held writes reach the configured count or the held bytes reach the configured size, and otherwise no later than the configured age after the oldest held data (plus polling of at most one second, plus the time an ongoing write takes). No request body ever exceeds the configured maximum size unless a single line does, bodies are split only at line ends, and data is not sent before one of the limits is reached.",
 ["schedules","inputs","histories","configurations"],
 "all arrival patterns around the limits, all settings, messages larger than the limit, steady traffic and silence, slow servers",
 "Tests check single triggers with newline-less data; steady traffic that keeps a worker busy (so that polling never fires), and bodies at exactly the limit, are not covered.",
 ["writer/writer.go","batch/batch.go","batchsplitter/batch_splitter.go"],
 [("send decision","writer/writer.go: shouldSend, worker"),("splitting","batchsplitter/batch_splitter.go")],None,["request times and body sizes at the database"])
p("C12","Downsampler emits the right aggregate, once per series and period",
 "For each subject, each series and each sampling period, the downsampler emits exactly one line carrying every field seen in that period: the mean for integer (rounded towards zero) and float fields, the latest received value for strings and booleans, stamped with the period's end, on that subject's output subject. The result depends only on the accepted lines and not on how they were grouped into messages, on scheduling, on other series or on other subjects.",
 ["schedules","inputs","histories"],
 "all groupings of lines into messages, any mix of series, fields and types including large integers, escaped keys and quoted strings, any number of subjects handled concurrently, out-of-order timestamps within the accepted range",
 "Tests average two or three values in one message; order, grouping, long runs of integers and concurrent subjects are not explored.",
 ["downsampler/avgbucket.go","downsampler/assigner.go","downsampler/downsampler.go","convert/convert.go"],
 [("aggregation","downsampler/avgbucket.go: fieldPairs, intFieldValue, floatFieldValue"),("assignment to periods","downsampler/assigner.go: Update"),("publishing","downsampler/downsampler.go: worker")],
 [("buckets","running aggregates of the previous, current and next period")],["messages the broker receives on output subjects"])
p("C13","Downsampler accepts adjacent periods and emits each period on time",
 "A line whose timestamp lies in the previous, current or next sampling period (by the host's clock when it is handled) is counted in the period its timestamp belongs to, a line without a timestamp in the current one, and any other line is dropped and counted as having an invalid timestamp. Each period that received data is emitted exactly once, when the following period ends, with or without further traffic, also after the process was stalled for several periods.",
 ["schedules","histories","fault_sequences"],
 "timestamps at all offsets including exact period boundaries, arrival times just before and after a boundary, idle and busy streams, stalls of up to several periods, clock steps of less than a period",
 "Tests use a fake clock on one struct or two real periods; stalls, boundary races between the timer and incoming messages, and idle periods are not covered.",
 ["downsampler/assigner.go","downsampler/downsampler.go"],
 [("period rotation","downsampler/assigner.go: Bytes, UntilNext, findBucket"),("worker loop","downsampler/downsampler.go: worker")],
 [("buckets and the oldest accepted time","which periods are open")],["emission times and contents","invalid_timestamps counter"])
p("C14","Monitor serves the latest value of every metric it has received",
 "A scrape of the monitor returns, for every metric name and label set ever received, exactly one line with the value and timestamp of the most recently received sample, in valid exposition format, regardless of label order and of scrapes, updates and malformed messages happening at the same time. No received sample alters any other series.",
 ["schedules","inputs","histories"],
 "all interleavings of metric messages from many components with concurrent scrapes, label sets with different orders, lengths and escaped characters, malformed messages in between",
 "Tests send a few messages in a fixed order and scrape once afterwards.",
 ["monitor/monitor.go","prometheus/metricset.go","prometheus/metric.go","prometheus/parse.go","prometheus/labels.go"],
 [("metric store","prometheus/metricset.go: Update, UpdateFromSet, ToBytes"),("lock","monitor/monitor.go: receiveMetrics, serveHTTP"),("parsing","prometheus/parse.go")],
 [("metrics","latest sample per series")],["HTTP responses of /metrics"])
p("C15","No input can stop a component",
 "No sequence of bytes sent to any input of any component (UDP datagrams, HTTP requests, bus messages on data or monitoring subjects, database responses, probe and scrape requests) makes it crash, exit, hang, or stop processing later valid input correctly.",
 ["inputs","schedules","histories"],
 "arbitrary and mutated line-protocol, metrics and HTTP bytes on every input of every component, interleaved with valid traffic",
 "Unit tests try a fixed list of malformed strings per parser; nothing feeds hostile bytes to running components and then checks that they still work.",
 ["listener/listener.go","filter/worker.go","influx/tags.go","downsampler/avgbucket.go","writer/writer.go","prometheus/parse.go","monitor/monitor.go"],
 [("line parsing","influx/*.go, filter/rules.go"),("metrics parsing","prometheus/parse.go"),("field parsing","downsampler/avgbucket.go, convert/convert.go")],None,["component exits and panics","behaviour on later valid input"])
p("C16","Components recover from bus outages by themselves",
 "After any outage of the bus connection (broker restart, reset or partition), every component reconnects and resubscribes without being restarted and, within a bounded time after the bus is back, handles new data exactly as before. Nothing is published twice because of an outage, and data accepted by a component during it is either forwarded intact afterwards or lost as whole messages, never corrupted; no component exits or stops accepting input during an outage of any length.",
 ["schedules","histories","fault_sequences"],
 "broker crashes and restarts, connection resets and partitions of any duration (up to many minutes) at any point relative to traffic, several in a row",
 "No test ever restarts the broker.",
 ["listener/listener.go","filter/filter.go","filter/worker.go","downsampler/downsampler.go","writer/writer.go","monitor/monitor.go"],
 [("connection options","nats.Connect(..., nats.MaxReconnects(-1)) in every component")],None,["messages at the broker and downstream before, during and after the outage"])
p("C17","Reported counters tell the truth",
 "Every component publishes its counters on the monitoring subject at start and then at every statistics interval, labelled with its component type and name, each value equal to the number of the corresponding events up to the time of publication and never decreasing. In particular what a filter processed equals what it passed plus rejected plus dropped as invalid time or malformed, its per-rule counts add up to what it passed, and writers count every write attempt and every failed attempt.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of workers updating counters with the reporter reading them, all traffic patterns, failures of the database, rejected lines",
 "Tests compare counters once after a fixed number of sequential events; concurrent updates and long histories with failures are not covered.",
 ["stats/stats.go","stats/anonstats.go","stats/prometheus.go","filter/filter.go","writer/writer.go","listener/listener.go","downsampler/downsampler.go"],
 [("counter store","stats/stats.go, stats/anonstats.go"),("reporters","startStatistician in each component"),("counting sites","filter/worker.go, writer/writer.go, writer/retryworker.go, listener/listener.go")],
 [("counters","events so far")],["messages on the monitoring subject compared with the simulator's own record"])
p("C18","Overload drops whole messages, counted, within the configured memory bound",
 "When messages arrive faster than a filter, writer or downsampler can handle them, it drops whole messages only after its configured pending limit is exceeded, reports the number dropped, keeps its unprocessed backlog within the limit plus its fixed internal queue, and processes everything that was not dropped correctly and once. After the overload ends it catches up and drops nothing more.",
 ["schedules","histories","fault_sequences","configurations"],
 "bursts of any size and shape against stalled or slow consumers (stalled process, unresponsive database), all pending limits",
 "One test forces a drop in the writer and one in the filter with a huge burst; accounting of drops against what was processed is not checked.",
 ["filter/filter.go","writer/writer.go","downsampler/downsampler.go"],
 [("pending limits","SetPendingLimits in StartFilter, StartWriter, StartDownsampler"),("drop reporting","updateNATSDropped, startStatistician"),("internal queue","jobs channels of 1024 messages")],None,["messages in versus out versus nats_dropped"])
p("C19","The whole pipeline delivers every accepted line to its backend",
 "With listener, filters and writers running against a healthy bus, every accepted line is eventually written exactly once to every backend whose writer subscribes to the subject its first matching rule names, and to no other; unmatched lines reach only the junkyard. During and after process crashes and restarts, backend failures and bus outages no backend ever receives a corrupted, merged or misrouted line, no line is duplicated except by retrying a write whose outcome was unknown, and once faults stop new lines again arrive at every backend within a bounded time.",
 ["schedules","crash_points","histories","fault_sequences","configurations"],
 "all topologies of one or more listeners, filters and writers; crash and restart of any component at any point; backend and bus faults in any order",
 "The single end-to-end test sends a few lines through one fault-free pipeline.",
 ["cmd/influx-spout/main.go","listener/listener.go","filter/filter.go","writer/writer.go"],
 [("component start-up from configuration","cmd/influx-spout/main.go: runComponent"),("data path","listener, filter, writer packages")],None,["what each backend stored versus what was sent"])
p("C20","Probes tell the truth about liveness and readiness",
 "While a component runs its liveness probe succeeds, and its readiness probe succeeds only when the component is really able to receive: data sent to it after a positive readiness answer (to its port, or published on its subjects) is not lost for lack of a socket or subscription. Readiness is reported within a bounded time of a successful start, never before initialisation has succeeded (a component that fails to start was never ready), and both probes stop succeeding once the component is being stopped. (Outages of the bus after start-up are not reported by the probes and not covered.)",
 ["schedules","histories","fault_sequences"],
 "all interleavings of start-up and shutdown with probe requests and first data, slow and refused bus connections during start-up",
 "The probe tests toggle flags on the probe server alone; the order of readiness relative to subscription and socket set-up is never tested.",
 ["probes/probes.go","listener/listener.go","filter/filter.go","downsampler/downsampler.go","writer/writer.go","monitor/monitor.go"],
 [("probe server","probes/probes.go"),("readiness set-up order","StartListener/listenUDP, setupHTTP/listenHTTP, StartFilter, StartWriter, StartDownsampler, monitor.Start")],None,["probe answers versus delivery of the next message"])
p("C21","Stopping terminates cleanly, and a failed start leaves nothing behind",
 "Stopping any component returns within a bounded time at any moment, under any load and whatever the state of bus and database, after which it publishes and writes nothing more, holds no port or connection, and could be started again in the same process. A start that fails reports an error and leaves no listening port, connection or background activity behind. (Bounded: within 3 s, plus one write timeout of a writer in the middle of a write, plus the time limits of the NATS client - 2 s to connect, 10 s to flush, 2 s between attempts - while the bus is in trouble.)",
 ["schedules","crash_points","histories","fault_sequences"],
 "stop requests at any point of start-up, traffic, retries and outages; start failures from an unreachable bus, an occupied port or an invalid rule",
 "Tests stop idle components; stopping under load, during retries or an outage, and resources after failed starts are not examined.",
 ["listener/listener.go","filter/filter.go","downsampler/downsampler.go","writer/writer.go","writer/retryworker.go","monitor/monitor.go","probes/probes.go"],
 [("Stop of each component","Stop methods and the stop channels"),("clean-up on failed start","deferred Stop in the Start functions")],None,["open sockets and goroutine activity after Stop"])
p("C22","Filters share the load: one filter handles each message, survivors take over",
 "When several filters (or writers with a common queue group) read the same subject, each message is handled by exactly one of them. When one of them crashes or stops, at most the messages already handed to it are affected, everything published later is handled by the survivors, and a restarted or added one starts to share the load without loss or duplication.",
 ["schedules","crash_points","histories","fault_sequences"],
 "two to four group members crashing, stalling, leaving and joining at any point of any traffic",
 "No test runs two members of a group.",
 ["filter/filter.go","writer/writer.go"],
 [("queue group subscription","filter/filter.go: StartFilter; writer/writer.go: StartWriter")],None,["messages on output subjects / at the database per input message"])
p("C23","Configuration is applied completely or not at all",
 "A component only starts with the exact combination of defaults, the common file and its own file, the latter overriding; if either file exists but cannot be fully read or parsed, or the combination is invalid, it starts nothing and exits with an error. Only a common file that does not exist is silently skipped.",
 ["inputs","fault_sequences","configurations"],
 "read errors, permission errors, truncation and short reads at any point of either file, absent files, any split of settings over the two files",
 "Tests read whole files from a memory file system that never fails.",
 ["config/config.go","cmd/influx-spout/main.go"],
 [("two-file loading","config/config.go: NewConfigFromFile, readConfig"),("start-up","cmd/influx-spout/main.go")],None,["exit status and observable behaviour of the started component"])
p("C24","The tap prints exactly what passes on the bus",
 "The tap writes every line delivered to it on the subject it watches (or every such line that, without its line end, matches its expression) to standard output byte for byte, once, in order and promptly, whatever characters it contains and however slowly output is taken; it prints nothing else there. It stays subscribed through bus outages of any length without a restart, losing at most what was published during an outage. When the bus cannot be reached at start, or the expression or subject is invalid, it prints nothing and exits with an error status.",
 ["inputs","schedules","histories","fault_sequences"],
 "arbitrary line bytes, message groupings, subjects and expressions; outages, stalls, kills and slow output at any point",
 "The tap has no tests.",
 ["cmd/influx-spout-tap/influx-spout-tap.go"],
 [("connecting and subscribing","cmd/influx-spout-tap/influx-spout-tap.go: main"),("printing","cmd/influx-spout-tap/influx-spout-tap.go: process")],None,["standard output of the tap"])
p("C25","A failing backend or endpoint affects no other",
 "While one InfluxDB backend is down, slow, erroring or being added or removed, the data of every other backend keeps arriving completely and within its normal time, and listeners and filters keep accepting at full function. When a failed backend comes back its writer resumes writing by itself within a bounded time, without a restart.",
 ["schedules","histories","fault_sequences"],
 "every kind and duration of backend fault, writers starting and stopping, any traffic mix over two or more backends",
 "Tests have one backend.",
 ["writer/writer.go","writer/retryworker.go","writer/influxclient.go"],
 [("write timeout","writer/influxclient.go: newInfluxClient"),("bounded retries","writer/retryworker.go"),("independent subscriptions","writer/writer.go: StartWriter")],None,["arrival times at the healthy backends"])
p("C26","Escaping and unescaping of line protocol tokens are inverse",
 "Unescaping the escaped form of any measurement name, tag key, tag value or string field gives back the original bytes, and parsing then re-assembling any valid line's measurement and tags is the identity up to tag order.",
 ["inputs"],
 "all byte strings",
 "Unit tests list about twenty strings.",
 ["influx/escape.go","influx/unescape.go","influx/tags.go","influx/token.go"],
 [("escape tables","influx/escape.go, influx/unescape.go")])
p("C27","Sustained throughput of hundreds of thousands of points per second",
 "On production hardware a deployment handles more than 500,000 points per second without loss.",
 ["histories","configurations"],
 "all sustained workloads up to the stated rate on real hardware",
 "Benchmarks measure single functions.",
 ["perfcheck","batch/batch.go","filter/worker.go"],
 [("allocation-avoiding batching","batch/batch.go")])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
