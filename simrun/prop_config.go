package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"syscall"

	"github.com/jumptrading/influx-spout/v2/config"
)

// C23: a component runs with the exact combination of the defaults, the common
// file and its own, or not at all.  The generator knows what every file says
// and what the combination means; files are damaged, absent or fail to be
// read at any point.

func init() {
	register(&Prop{ID: "C23", Gen: genConfig, Setup: setupConfig})
}

// cset is one setting: its text in a file and its meaning.
type cset struct {
	key  string
	text string
	val  string
	bad  bool // cannot be parsed
}

// cround is one start.
type cround struct {
	Expect map[string]string `json:"expect"`
	Rules  []crule           `json:"rules,omitempty"`
	// what becomes of the start: ok, config (an error, and nothing has
	// been touched), start (an error later on), either
	Want string    `json:"want"`
	Why  string    `json:"why,omitempty"`
	F    [2]cfault `json:"f"`
}

type crule struct {
	Type    string      `json:"type,omitempty"`
	Match   string      `json:"match,omitempty"`
	Tags    [][2]string `json:"tags,omitempty"`
	Subject string      `json:"subject,omitempty"`
}

type cfault struct {
	Missing bool   `json:"missing,omitempty"`
	Open    string `json:"open,omitempty"`
	Read    string `json:"read,omitempty"`
	At      int    `json:"at,omitempty"`
	Short   int    `json:"short,omitempty"`
}

var errnos = map[string]error{
	"EACCES": syscall.EACCES, "EPERM": syscall.EPERM, "EIO": syscall.EIO, "EMFILE": syscall.EMFILE, "ENFILE": syscall.ENFILE, "ELOOP": syscall.ELOOP,
	"ENOTDIR": syscall.ENOTDIR, "ENAMETOOLONG": syscall.ENAMETOOLONG, "ENOMEM": syscall.ENOMEM,
	"EISDIR": syscall.EISDIR, "ESTALE": syscall.ESTALE, "ENOENT": syscall.ENOENT, "ETIMEDOUT": syscall.ETIMEDOUT,
}

// confDefaults are the documented defaults.
func confDefaults() map[string]string {
	return map[string]string{
		"name": "", "mode": "", "nats_address": "nats://localhost:4222", "nats_subject": `["influx-spout"]`, "nats_subject_monitor": "influx-spout-monitor",
		"nats_subject_junkyard": "influx-spout-junk", "influxdb_address": "localhost", "influxdb_protocol": "http", "influxdb_port": "8086",
		"influxdb_dbname": "influx-spout-junk", "batch_max_count": "10", "batch_max_size": "0", "batch_max_age": fmt.Sprint(300 * sec), "port": "0", "workers": "8",
		"write_timeout": fmt.Sprint(30 * sec), "writer_retry_batches": "1", "writer_retry_interval": fmt.Sprint(10 * sec), "writer_retry_timeout": fmt.Sprint(60 * sec),
		"read_buffer_size": fmt.Sprint(4 << 20), "nats_max_pending_size": fmt.Sprint(200 << 20), "max_time_delta": fmt.Sprint(600 * sec), "stats_interval": fmt.Sprint(3 * sec),
		"probe_port": "0", "pprof_port": "0", "debug": "false", "downsample_period": "0", "downsample_suffix": "-archive", "queue_group": "",
	}
}

var confKinds = map[string]string{
	"name": "str", "mode": "mode", "nats_address": "nats", "nats_subject": "subjects", "nats_subject_monitor": "subject",
	"nats_subject_junkyard": "subject", "influxdb_address": "str", "influxdb_protocol": "proto", "influxdb_port": "port",
	"influxdb_dbname": "str", "batch_max_count": "int", "batch_max_size": "size", "batch_max_age": "dur", "port": "port", "workers": "workers",
	"write_timeout": "dur", "writer_retry_batches": "int", "writer_retry_interval": "dur", "writer_retry_timeout": "dur",
	"read_buffer_size": "size", "nats_max_pending_size": "size", "max_time_delta": "dur", "stats_interval": "stats",
	"probe_port": "pport", "pprof_port": "pport", "debug": "bool", "downsample_period": "dur", "downsample_suffix": "suffix", "queue_group": "subject",
}

var longNumber = regexp.MustCompile(`[0-9]{10}`)

var confModes = []string{"listener", "listener_http", "filter", "downsampler", "writer", "monitor"}

// genSet makes a value for a setting.
func genSet(r *Rng, key, mode string, wrong bool) cset {
	s := cset{key: key}
	str := func(v string) cset { s.text, s.val = tomlStr(v), v; return s }
	num := func(v int64) cset { s.text, s.val = fmt.Sprint(v), fmt.Sprint(v); return s }
	bad := func(t ...string) cset { s.text, s.bad = r.Pick(t...), true; return s }
	word := func() string {
		return r.Pick("a", "b7", "x-y", "some.thing", "é", "with space", "q\"uote", "back\\slash", "#nocomment", "=", "[x]", "")
	}
	switch kind := confKinds[key]; kind {
	case "mode":
		if wrong {
			if r.P(1, 2) {
				return bad("3", "[\"filter\"]", "listener", "true")
			}
			return str(r.Pick("", "listner", "FILTER", "relay"))
		}
		return str(mode)
	case "str", "suffix":
		if wrong {
			if kind == "suffix" && r.P(1, 2) {
				return str("")
			}
			return bad("3", "[\"a\"]", "true", "1.5", "bare")
		}
		v := word()
		if kind == "suffix" {
			v = "-" + r.Pick("arch", "x", "1")
		}
		return str(v)
	case "nats":
		if wrong {
			if r.P(1, 2) {
				return bad("4222", "true", "[]")
			}
			return str(r.Pick("nats://nats:4223", "nats://nobody:4222", "nats://10.0.0.9:4222"))
		}
		return str(r.Pick("nats://nats:4222", "nats://10.0.0.1:4222", "nats:4222", "nats://localhost:4222"))
	case "subjects":
		if wrong && r.P(1, 2) {
			return bad("\"x\"", "[1, 2]", "[\"a\", 2]", "3", "[[\"a\"]]")
		}
		n := 1
		switch {
		case mode == "writer" || mode == "downsampler":
			n = r.R(1, 4)
		case wrong:
			n = r.PickI(0, 2, 3)
		}
		if wrong && mode == "writer" {
			n = 0
		}
		v := []string{}
		for i := 0; i < n; i++ {
			v = append(v, fmt.Sprintf("%s%d", r.Pick("in", "sub.ject", "a-"), i))
		}
		var q []string
		for _, x := range v {
			q = append(q, tomlStr(x))
		}
		sep := r.Pick(", ", ",", ",\n\t")
		s.text, s.val = "["+strings.Join(q, sep)+"]", fmt.Sprintf("%q", v)
		return s
	case "subject":
		if wrong {
			return bad("3", "[\"a\"]", "false")
		}
		return str(r.Pick("mon", "m.x", "junk", "other-mon", "j"))
	case "proto":
		if wrong {
			if r.P(1, 2) {
				return bad("3", "[]")
			}
			return str(r.Pick("", "ftp", "HTTP", "udp"))
		}
		return str(r.Pick("http", "https"))
	case "port", "pport":
		if wrong {
			if r.P(1, 3) {
				return bad("\"80\"", "80.5", "[80]", "99999999999999999999", "true")
			}
			if key == "influxdb_port" && r.P(1, 3) {
				return num(0)
			}
			return num(int64(r.PickI(-1, 65536, 70000, -8086)))
		}
		base := map[string]int{"port": 2000, "influxdb_port": 3000, "probe_port": 9700, "pprof_port": 6000}[key]
		if kind == "pport" && r.P(1, 8) {
			return num(0)
		}
		return num(int64(base + r.N(50)))
	case "int", "workers":
		if wrong {
			return bad("\"5\"", "1.5", "[]", "9223372036854775808")
		}
		if kind == "workers" {
			return num(int64(r.R(1, 9)))
		}
		if key == "writer_retry_batches" && r.P(1, 5) {
			return num(0)
		}
		return num(int64(r.PickI(1, 2, 7, 100, 100000)))
	case "bool":
		if wrong {
			return bad("\"true\"", "1", "yes", "True")
		}
		b := r.P(1, 2)
		s.text, s.val = fmt.Sprint(b), fmt.Sprint(b)
		return s
	case "size":
		if wrong {
			if key == "batch_max_size" && (mode == "listener" || mode == "listener_http") && r.P(1, 2) {
				s.text, s.val = r.Pick("\"1048577\"", "\"1048577B\""), "1048577"
				return s
			}
			return bad("\"3XB\"", "\"-1\"", "\"\\u00e9\"", "\"1.5MB\"", "\"99999999999999999999\"", "[]", "true", "\"20000PB\"", "\"3Mb\"")
		}
		k := int64(r.R(1, 900))
		if key == "batch_max_size" && r.P(1, 8) {
			k = 0
		}
		switch r.N(6) {
		case 0:
			s.text, s.val = fmt.Sprintf("\"%d\"", k), fmt.Sprint(k)
		case 1:
			s.text, s.val = fmt.Sprintf("%d", k), fmt.Sprint(k)
		case 2:
			s.text, s.val = fmt.Sprintf("\"%dB\"", k), fmt.Sprint(k)
		case 3:
			s.text, s.val = fmt.Sprintf("\"%d%s\"", k, r.Pick("KB", "K", "kb", " KB")), fmt.Sprint(k<<10)
		case 4:
			if key == "batch_max_size" {
				k = int64(r.R(0, 1))
			}
			s.text, s.val = fmt.Sprintf("\"%d%s\"", k, r.Pick("MB", "M", "mb", " MB")), fmt.Sprint(k<<20)
		default:
			s.text, s.val = fmt.Sprintf("\"%dkilobytes\"", k), fmt.Sprint(k<<10)
		}
		return s
	case "dur", "stats":
		if wrong {
			return bad("\"10\"", "10", "1.5", "\"\"", "\"5 minutes\"", "\"3d\"", "\"s\"", "[\"1s\"]", "true", "\"9999999999h\"")
		}
		k := int64(r.R(1, 5000))
		if kind == "stats" {
			k += 19
			s.text, s.val = fmt.Sprintf("\"%dms\"", k), fmt.Sprint(k*ms)
			return s
		}
		if key == "max_time_delta" && r.P(1, 5) {
			s.text, s.val = r.Pick("\"0s\"", "\"0\"", "\"0ms\""), "0"
			return s
		}
		switch r.N(5) {
		case 0:
			s.text, s.val = fmt.Sprintf("\"%dms\"", k), fmt.Sprint(k*ms)
		case 1:
			s.text, s.val = fmt.Sprintf("\"%ds\"", k), fmt.Sprint(k*sec)
		case 2:
			s.text, s.val = fmt.Sprintf("\"%dm30s\"", k), fmt.Sprint(k*60*sec+30*sec)
		case 3:
			s.text, s.val = fmt.Sprintf("\"%d.5s\"", k), fmt.Sprint(k*sec+sec/2)
		default:
			s.text, s.val = fmt.Sprintf("\"%dh\"", k), fmt.Sprint(k*3600*sec)
		}
		return s
	}
	panic(key)
}

// genRules makes rules; wrong is what is the matter with the last of them.
func genCRules(r *Rng, mode string, wrong bool) (rules []crule, want, why string) {
	want = "ok"
	n := r.R(1, 4)
	for i := 0; i < n; i++ {
		ru := crule{Type: r.Pick("basic", "regex", "negregex", "tags"), Subject: fmt.Sprintf("out%d", r.N(5))}
		if mode == "writer" {
			ru.Subject = ""
			if ru.Type == "tags" {
				ru.Type = "basic"
			}
		}
		if ru.Type == "tags" {
			for k := r.R(1, 3); k > 0; k-- {
				ru.Tags = append(ru.Tags, [2]string{fmt.Sprintf("k%d", r.N(9)), r.Pick("v", "w w", "é")})
			}
		} else {
			ru.Match = r.Pick("cpu", "mem", "disk.*", "x y", "\\d+")
		}
		rules = append(rules, ru)
	}
	if !wrong {
		return
	}
	ru := &rules[n-1]
	switch k := r.N(6); {
	case k == 0:
		ru.Type = ""
		want, why = "config", "a rule without type"
	case k == 1 && mode == "filter":
		ru.Subject = ""
		want, why = "config", "a rule without subject"
	case k == 1:
		ru.Subject = "s"
		want, why = "config", "a writer rule with subject"
	case k == 2 && ru.Type != "tags":
		ru.Match = ""
		want, why = "config", "a rule without match"
	case k == 2:
		ru.Tags = nil
		want, why = "config", "a tags rule without tags"
	case k == 3 && mode == "filter" && ru.Type == "tags":
		ru.Match = "x"
		want, why = "config", "a tags rule with match"
	case k == 3 && mode == "filter":
		ru.Tags = [][2]string{{"a", "b"}}
		want, why = "config", "a rule with tags"
	case k == 4:
		ru.Type, ru.Match, ru.Tags = "what", "x", nil
		want, why = "start", "an unknown type of rule"
	default:
		ru.Type, ru.Match, ru.Tags = "regex", r.Pick("(", "a[", "*"), nil
		want, why = "start", "an invalid expression"
	}
	return
}

func ruleText(ru crule) string {
	var b strings.Builder
	b.WriteString("\n[[rule]]\n")
	if ru.Type != "" {
		fmt.Fprintf(&b, "type = %s\n", tomlStr(ru.Type))
	}
	if ru.Match != "" {
		fmt.Fprintf(&b, "match = %s\n", tomlStr(ru.Match))
	}
	if len(ru.Tags) > 0 {
		var q []string
		for _, t := range ru.Tags {
			q = append(q, fmt.Sprintf("[%s, %s]", tomlStr(t[0]), tomlStr(t[1])))
		}
		fmt.Fprintf(&b, "tags = [%s]\n", strings.Join(q, ", "))
	}
	if ru.Subject != "" {
		fmt.Fprintf(&b, "subject = %s\n", tomlStr(ru.Subject))
	}
	return b.String()
}

// genRound makes the files of one start and says what they mean.
func genRound(r *Rng, name string) (x cround, files [2][]byte) {
	mode := r.Pick(confModes...)
	x.Want = "ok"
	// What is wrong, if anything.
	wrong := ""
	switch r.N(10) {
	case 0, 1:
		wrong = "value"
	case 2:
		wrong = "rule"
		mode = r.Pick("filter", "writer")
	case 3:
		wrong = "syntax"
	case 4:
		wrong = r.Pick("nomode", "period")
	}
	eff := confDefaults()
	keys := make([]string, 0, len(eff))
	for k := range eff {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var sets [2][]cset
	density := r.R(1, 10)
	wrongKey := keys[r.N(len(keys))]
	for _, k := range keys {
		p := density
		switch {
		case k == "mode":
			p = 10
			if wrong == "nomode" {
				continue
			}
		case k == "nats_address":
			p = 5
		case k == "downsample_period" && mode != "downsampler":
			if wrong != "period" {
				continue
			}
			p = 10
		case k == wrongKey && wrong == "value":
			p = 10
		}
		if !r.P(p, 10) {
			continue
		}
		where := r.N(3) // common, own, both
		for f := 0; f < 2; f++ {
			if where != f && where != 2 {
				continue
			}
			bad := wrong == "value" && k == wrongKey && (where == f || r.P(1, 2))
			m := mode
			if k == "mode" && f == 0 && where == 2 {
				m = r.Pick(confModes...)
			}
			sets[f] = append(sets[f], genSet(r, k, m, bad))
		}
	}
	var rules [2][]crule
	var rw, rwhy [2]string
	if mode == "filter" || mode == "writer" {
		for f := 0; f < 2; f++ {
			rw[f] = "ok"
			if wrong == "rule" && f == 1 || r.P(1, 3) {
				rules[f], rw[f], rwhy[f] = genCRules(r, mode, wrong == "rule" && (f == 1 || r.P(1, 3)))
			}
		}
	}
	// Text.
	for f := 0; f < 2; f++ {
		r.Shuffle(len(sets[f]), func(i, j int) { sets[f][i], sets[f][j] = sets[f][j], sets[f][i] })
		var b strings.Builder
		if r.P(1, 4) {
			b.WriteString("# a comment\n\n")
		}
		for _, s := range sets[f] {
			fmt.Fprintf(&b, "%s%s%s= %s%s\n", r.Pick("", "", "  ", "\t"), s.key, r.Pick(" ", "", "  "), s.text, r.Pick("", "", "  # "+s.key, "\n"))
		}
		head := b.Len()
		for _, ru := range rules[f] {
			b.WriteString(ruleText(ru))
		}
		files[f] = []byte(b.String())
		if wrong == "syntax" && (f == 1 || r.P(1, 3)) {
			g := r.Pick("= 3\n", "key\n", "[[rule\n", "x = \"open\n", "x = [1, 2\n", "x = 'a\n", "[a\n", "x = \n", "a b = 1\n", "x = 1 2\n", "x = {a\n", "x = \"\\q\"\n", "\x00\x00\x00\x00\n", "mode = \"listener\"\nmode = \"filter\"\n", "x = tru\n")
			at := head
			if r.P(1, 2) {
				at = 0
			}
			t := b.String()
			files[f] = []byte(t[:at] + g + t[at:])
			x.Want, x.Why = "config", fmt.Sprintf("invalid syntax %q", g)
		}
	}
	// Faults.
	absent := false
	if r.P(1, 3) {
		x.F[0].Missing = true
	}
	for f := 0; f < 2; f++ {
		if f == 0 && x.F[0].Missing {
			continue
		}
		if r.P(1, 3) {
			x.F[f].Short = r.PickI(1, 2, 7, 100, 511)
		}
		if !r.P(1, 6) {
			continue
		}
		fa := &x.F[f]
		switch r.N(3) {
		case 0:
			fa.Open = r.Pick("EACCES", "EPERM", "EIO", "EMFILE", "ENFILE", "ELOOP", "ENOTDIR", "ENAMETOOLONG", "ENOMEM")
			x.Want, x.Why = "config", "a file which cannot be opened: "+fa.Open
		case 1:
			fa.Read = r.Pick("EIO", "EISDIR", "ESTALE", "ENOENT", "EACCES", "ETIMEDOUT")
			fa.At = r.N(len(files[f]) + 1)
			if r.P(1, 3) {
				fa.At = r.PickI(0, len(files[f]))
			}
			x.Want, x.Why = "config", fmt.Sprintf("a file which cannot be read beyond %d of %d bytes: %s", fa.At, len(files[f]), fa.Read)
		case 2:
			if f == 1 {
				fa.Missing = true
				x.Want, x.Why = "config", "an absent file"
				absent = true
			}
		}
	}
	_ = absent
	// Damage with unknown consequences.
	if r.P(1, 15) {
		f := r.N(2)
		if n := len(files[f]); n > 0 && !x.F[f].Missing && x.F[f].Read == "" {
			if r.P(1, 2) {
				files[f] = files[f][:r.N(n)]
			} else {
				at, b := r.N(n), byte(r.N(256))
				line := files[f][bytes.LastIndexByte(files[f][:at], '\n')+1:]
				if i := bytes.IndexByte(line, '\n'); i >= 0 {
					line = line[:i]
				}
				if bytes.Contains(line, []byte("interval")) || bytes.Contains(line, []byte("period")) {
					// Not a valid, but absurdly short, time.
					files[f] = files[f][:at]
				} else {
					files[f][at] = b
				}
			}
			if longNumber.Match(files[f]) {
				// Not a count beyond what any machine can hold.
				files[f] = nil
			}
			if x.Want == "ok" || x.F == [2]cfault{} || wrong == "syntax" {
				x.Want, x.Why = "either", "damage"
			}
			return
		}
	}
	// What they mean.
	var er []crule
	er0, ew, ewhy := er, "ok", ""
	_ = er0
	for f := 0; f < 2; f++ {
		if x.F[f].Missing {
			continue
		}
		for _, s := range sets[f] {
			if s.bad && x.Want == "ok" {
				x.Want, x.Why = "config", fmt.Sprintf("%s = %s", s.key, s.text)
			}
			eff[s.key] = s.val
		}
		if rules[f] != nil {
			er, ew, ewhy = rules[f], rw[f], rwhy[f]
		}
	}
	if x.Want != "ok" {
		return
	}
	m := eff["mode"]
	if eff["name"] == "" {
		eff["name"] = name
	}
	if eff["batch_max_size"] == "0" {
		eff["batch_max_size"] = fmt.Sprint(10 << 20)
		if m == "listener" || m == "listener_http" {
			eff["batch_max_size"] = fmt.Sprint(1 << 20)
		}
	}
	if p := map[string]string{"listener": "10001", "listener_http": "13337", "monitor": "9331"}[m]; p != "" && eff["port"] == "0" {
		eff["port"] = p
	}
	if m == "downsampler" && eff["downsample_period"] == "0" {
		eff["downsample_period"] = fmt.Sprint(60 * sec)
	}
	if why := confInvalid(eff); why != "" {
		x.Want, x.Why = "config", why
		return
	}
	if m != mode {
		// the mode of the common file: the rest was made for another one
		x.Want, x.Why = "either", "another mode"
		if len(er) > 0 {
			return
		}
	}
	if ew == "config" || ew == "start" {
		x.Want, x.Why = ew, ewhy
		return
	}
	if x.Want == "ok" && strings.Contains("nats://nats:4223 nats://nobody:4222 nats://10.0.0.9:4222", eff["nats_address"]) {
		x.Want, x.Why = "start", "no bus"
	}
	if x.Want == "ok" && m == "monitor" && (len(eff["port"]) > 5 || eff["port"][0] == '-' || eff["port"] == "65536" || eff["port"] == "70000") {
		x.Want, x.Why = "start", "no such port"
	}
	x.Expect, x.Rules = eff, er
	if x.Want == "either" {
		x.Expect = nil
	}
	return
}

// confInvalid says what is wrong with the combination.
func confInvalid(c map[string]string) string {
	port := func(k string, min int) bool {
		var n int
		fmt.Sscan(c[k], &n)
		return n >= min && n <= 65535
	}
	n := 0
	if c["nats_subject"] != "[]" {
		n = strings.Count(c["nats_subject"], "\" \"") + 1
	}
	switch {
	case c["mode"] == "":
		return "no mode"
	case !port("probe_port", 0):
		return "probe_port"
	case !port("pprof_port", 0):
		return "pprof_port"
	case c["mode"] != "downsampler" && c["downsample_period"] != "0":
		return "downsample_period"
	}
	switch c["mode"] {
	case "listener", "listener_http":
		var size int64
		fmt.Sscan(c["batch_max_size"], &size)
		switch {
		case !port("port", 1):
			return "port"
		case n != 1:
			return "subjects"
		case size > 1<<20:
			return "batch_max_size"
		}
	case "filter":
		if n != 1 {
			return "subjects"
		}
	case "downsampler":
		if c["downsample_suffix"] == "" {
			return "suffix"
		}
	case "writer":
		switch {
		case n < 1:
			return "subjects"
		case !port("influxdb_port", 1):
			return "influxdb_port"
		case c["influxdb_protocol"] != "http" && c["influxdb_protocol"] != "https":
			return "influxdb_protocol"
		}
	case "monitor":
	default:
		return "mode"
	}
	return ""
}

func genConfig(r *Rng, tier string) *Plan {
	p := &Plan{Sched: genSched(r, schedOpt{maxPause: ms}), Net: genNet(r), S: map[string]string{}, P: map[string]int64{}, DBs: 1, Family: "config"}
	p.Epoch = 1600000000*sec + r.D(0, 100000000*sec)
	n := r.R(1, 3)
	for i := 0; i < n; i++ {
		name := r.Pick("conf", "my.listener", "x-y", "é", "in", "a b") + fmt.Sprint(i)
		kind := r.Pick("api", "main")
		p.Nodes = append(p.Nodes, NodeCfg{Name: name, Kind: kind, NoStart: true})
		base := name
		if k := strings.LastIndexByte(name+".toml", '.'); k > 0 {
			base = (name + ".toml")[:k]
		}
		t := r.LogD(ms, sec)
		for k := r.R(2, 6); k > 0; k-- {
			x, files := genRound(r, base)
			p.Events = append(p.Events, &Ev{T: t, K: "round", N: i, Parts: [][]byte{files[0], files[1]}, S: string(toJSON(x))})
			t += 12 * sec
		}
		if t > p.End {
			p.End = t
		}
	}
	p.End += 10 * sec
	return p
}

func setupConfig(w *World) {
	w.net.servers["127.0.0.1:4222"] = w.net.servers["10.0.0.1:4222"]
	os.Unsetenv("INFLUXDB_USER")
	os.Unsetenv("INFLUXDB_PASS")
	for _, s := range w.specs {
		s := s
		s.onDeath = func(in *Inst) { in.expect = true }
	}
	w.on["round"] = func(e *Ev) {
		s := w.specs[e.N]
		var x cround
		if json.Unmarshal([]byte(e.S), &x) != nil {
			panic("round")
		}
		w.Kill(s)
		for f, path := range []string{"/etc/influx-spout.toml", s.confPath()} {
			s.files[path] = &simFile{data: e.Parts[f], missing: x.F[f].Missing, openErr: errnos[x.F[f].Open], readErr: errnos[x.F[f].Read], errAt: x.F[f].At, short: x.F[f].Short}
			if x.F[f].Missing {
				w.Fault("fs_missing")
			}
		}
		if strings.HasPrefix(x.Why, "invalid syntax") || x.Why == "damage" {
			w.Fault("fs_damaged")
		}
		var got *config.Config
		var gotErr error
		read := false
		s.onConf = func(in *Inst, c *config.Config, err error) {
			read, got, gotErr = true, c, err
			if c != nil {
				cp := *c
				got = &cp
			}
		}
		in := w.Start(s)
		if in == nil {
			return
		}
		w.SettleAfter(8*sec, func() {
			if s.inst != in {
				return
			}
			w.checks++
			w.Count("rounds_"+x.Want, 1)
			bad := func(kind, f string, a ...interface{}) {
				w.Violate("C23", kind, "%s: %s", in.name(), fmt.Sprintf(f, a...))
			}
			main := s.cfg.Kind == "main"
			failed := in.dead || in.apiErr != nil
			if in.dead && in.death == "killed" {
				return
			}
			if !main && !read {
				bad("mute", "its configuration has not been read after 8 s")
				return
			}
			if main && in.dead && in.code == 0 {
				bad("exit", "failed with exit status 0")
			}
			if !main && (gotErr != nil) != (got == nil) {
				bad("both", "reading the configuration returns a configuration and an error, or neither")
			}
			switch x.Want {
			case "config":
				if !failed || !main && gotErr == nil {
					bad("started", "started in spite of %s", x.Why)
					break
				}
				if len(in.dials) > 0 || in.bound > 0 {
					bad("touched", "failed because of %s, but first made %d connections and opened %d ports", x.Why, len(in.dials), in.bound)
				}
			case "start":
				if !failed {
					bad("started", "started in spite of %s", x.Why)
				}
				if !main && gotErr == nil {
					compareConf(w, in, &x, got)
				}
			case "ok":
				if main && in.dead {
					bad("failed", "failed to start although its configuration is right")
					break
				}
				if !main && in.apiErr != nil {
					bad("failed", "failed to start although its configuration is right: %v", in.apiErr)
					break
				}
				if !main {
					compareConf(w, in, &x, got)
				}
				compareRun(w, in, &x)
				compareStats(w, in, &x)
			}
			// nothing of a failed one remains
			if failed && (len(in.listeners) > 0 || len(in.udp) > 0) {
				bad("leaves-port", "failed to start but has a port open")
			}
		})
	}
}

// compareConf compares a configuration with what it should be.
func compareConf(w *World, in *Inst, x *cround, c *config.Config) {
	if x.Expect == nil || c == nil {
		return
	}
	v := reflect.ValueOf(*c)
	for i := 0; i < v.NumField(); i++ {
		key := v.Type().Field(i).Tag.Get("toml")
		f := v.Field(i)
		var got string
		want, ok := x.Expect[key]
		switch {
		case key == "-":
			want, got = "", f.String()
		case key == "rule":
			want, got = fmt.Sprint(x.Rules), ""
			var rules []crule
			for k := 0; k < f.Len(); k++ {
				ru := f.Index(k).Interface().(config.Rule)
				y := crule{Type: ru.Rtype, Match: ru.Match, Subject: ru.Subject}
				for _, t := range ru.Tags {
					if len(t) == 2 {
						y.Tags = append(y.Tags, [2]string{t[0], t[1]})
					}
				}
				rules = append(rules, y)
			}
			got = fmt.Sprint(rules)
		case !ok:
			continue
		case f.Kind() == reflect.Slice:
			got = fmt.Sprintf("%q", f.Interface())
		case f.Kind() == reflect.Struct:
			got = fmt.Sprint(f.Field(0).Int())
		case f.Kind() == reflect.String:
			got = f.String()
		case f.Kind() == reflect.Bool:
			got = fmt.Sprint(f.Bool())
		case f.Kind() == reflect.Uint64:
			got = fmt.Sprint(f.Uint())
		default:
			got = fmt.Sprint(f.Int())
		}
		w.checks++
		if got != want {
			w.Violate("C23", "value", "%s runs with %s = %s instead of %s", in.name(), key, got, want)
		}
	}
}

// compareRun looks at what a component does.
func compareRun(w *World, in *Inst, x *cround) {
	c := x.Expect
	var ports, want []string
	for p, l := range in.listeners {
		x := fmt.Sprint(p)
		if l.local && x != c["pprof_port"] {
			x += " for itself only"
		}
		ports = append(ports, x)
	}
	for p, u := range in.udp {
		x := fmt.Sprint("udp ", p)
		if u.local {
			x += " for itself only"
		}
		ports = append(ports, x)
		// the system doubles what is asked for
		if n := int(atoi64(c["read_buffer_size"])); u.cap < 2*n || u.cap > 2*(n+65536) {
			w.Violate("C23", "buffer", "the receive buffer of %s is %d bytes instead of %d", in.name(), u.cap/2, n)
		}
	}
	add := func(p, k string) {
		if c[k] != "0" {
			want = append(want, p+c[k])
		}
	}
	add("", "probe_port")
	if in.spec.cfg.Kind == "main" {
		add("", "pprof_port")
	}
	switch c["mode"] {
	case "listener":
		add("udp ", "port")
	case "listener_http", "monitor":
		add("", "port")
	}
	sort.Strings(ports)
	sort.Strings(want)
	w.checks++
	if fmt.Sprint(ports) != fmt.Sprint(want) {
		w.Violate("C23", "ports", "%s has ports %v instead of %v", in.name(), ports, want)
	}
	var subs []string
	for _, b := range w.broker.conns {
		if b.in != in {
			continue
		}
		for _, s := range b.subs {
			subs = append(subs, fmt.Sprintf("%q", s.subject))
			if c["mode"] == "writer" && s.queue != c["queue_group"] {
				w.Violate("C23", "group", "%s subscribes to %q in the group %q instead of %q", in.name(), s.subject, s.queue, c["queue_group"])
			}
		}
	}
	sort.Strings(subs)
	exp := ""
	switch c["mode"] {
	case "filter", "writer", "downsampler":
		q := strings.Split(strings.Trim(c["nats_subject"], "[]"), "\" \"")
		for i := range q {
			q[i] = "\"" + strings.Trim(q[i], "\"") + "\""
		}
		sort.Strings(q)
		exp = fmt.Sprint(q)
	case "monitor":
		exp = fmt.Sprint([]string{fmt.Sprintf("%q", c["nats_subject_monitor"])})
	default:
		exp = "[]"
	}
	if fmt.Sprint(subs) != exp {
		w.Violate("C23", "subjects", "%s is subscribed to %v instead of %v", in.name(), subs, exp)
	}
}

// compareStats looks at the metrics a component publishes.
func compareStats(w *World, in *Inst, x *cround) {
	c := x.Expect
	if c["mode"] == "monitor" {
		return
	}
	n, snaps := 0, 0
	label := fmt.Sprintf(`name="%s"`, strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "\n", "\\n").Replace(c["name"]))
	for _, p := range w.broker.pubs {
		if p.Inst != in {
			continue
		}
		n++
		if bytes.Contains(p.Data, []byte("failed_nats_publish{")) || bytes.Contains(p.Data, []byte("failed_writes{")) {
			snaps++
		}
		w.checks++
		if p.Subject != c["nats_subject_monitor"] {
			w.Violate("C23", "subject", "%s publishes metrics on %q instead of %q", in.name(), p.Subject, c["nats_subject_monitor"])
			return
		}
		if !strings.Contains(string(p.Data), label) {
			w.Violate("C23", "label", "the metrics of %s have not got the label %s", in.name(), label)
			return
		}
	}
	if n == 0 {
		w.Violate("C23", "no-metrics", "%s has published no metrics in 8 s", in.name())
		return
	}
	// how often
	iv := atoi64(c["stats_interval"])
	if snaps > int((w.Now()-in.T0)/iv)+2 || snaps < int((8*sec-(w.Lag()-in.lag0)-w.slack())/(iv+10*ms+w.slack()))-1 {
		w.Violate("C23", "interval", "%s has published its metrics %d times in 8 s although the interval is %d ms", in.name(), snaps, iv/ms)
	}
}

func atoi64(s string) (n int64) {
	fmt.Sscan(s, &n)
	return
}
