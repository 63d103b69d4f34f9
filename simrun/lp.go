package main

import (
	"bytes"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// A reference model of line protocol, independent of the repository's code.

type KV struct{ K, V string }

// Line is a well-formed line, with unescaped names.
type Line struct {
	Meas   string
	Tags   []KV
	Fields string
	Ts     string // as written, "" for none
	Raw    []byte `json:",omitempty"` // a malformed line, as it is
}

func esc(s, chars string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(chars, s[i]) >= 0 {
			b.WriteByte('\\')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func (l *Line) render(tags []KV) []byte {
	if l.Raw != nil {
		return append(append([]byte(nil), l.Raw...), '\n')
	}
	var b strings.Builder
	b.WriteString(esc(l.Meas, ", "))
	for _, t := range tags {
		b.WriteString("," + esc(t.K, ",= ") + "=" + esc(t.V, ",= "))
	}
	if l.Fields != "" {
		b.WriteString(" " + l.Fields)
	}
	if l.Ts != "" {
		b.WriteString(" " + l.Ts)
	}
	b.WriteByte('\n')
	return []byte(b.String())
}

// Bytes is the line as sent; Sorted as it looks with its tags sorted.
func (l *Line) Bytes() []byte { return l.render(l.Tags) }
func (l *Line) Sorted() []byte {
	t := append([]KV(nil), l.Tags...)
	sort.SliceStable(t, func(i, j int) bool { return t[i].K < t[j].K })
	return l.render(t)
}

// Rule is a routing rule.
type Rule struct {
	Type    string
	Match   string
	Tags    []KV
	Subject string
	re      *regexp.Regexp
}

// unescLine removes the backslash of the four escapes, as regular
// expressions are matched against the unescaped line.
func unescLine(b []byte) []byte {
	var o []byte
	for i := 0; i < len(b); i++ {
		if b[i] == '\\' && i+1 < len(b) && strings.IndexByte(`," =`, b[i+1]) >= 0 {
			i++
		}
		o = append(o, b[i])
	}
	return o
}

func (ru *Rule) Matches(l *Line) bool {
	switch ru.Type {
	case "basic":
		return l.Meas == ru.Match
	case "tags":
		for _, t := range ru.Tags {
			ok := false
			for _, u := range l.Tags {
				if t == u {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	if ru.re == nil {
		ru.re = regexp.MustCompile(ru.Match)
	}
	m := ru.re.Match(unescLine(l.Bytes()))
	if ru.Type == "negregex" {
		return !m
	}
	return m
}

// Route returns the index of the first matching rule, or -1.
func Route(rules []Rule, l *Line) int {
	for i := range rules {
		if rules[i].Matches(l) {
			return i
		}
	}
	return -1
}

// Generators.

var measNames = []string{"cpu", "mem", "disk", "net io", "a,b", "http=req", "m", "cpu2", "quists", "creamwove", "été", "x.y-z", `we"ird`, `back\slash`, `c\,d`, `un\\c`, `s\ p`}
var tagKeys = []string{"host", "dc", "az", "b", "a", "rack no", "k=v", "c,d", "zz", "role", "ключ", "Host", `e\=f`, `g\\h`}
var tagVals = []string{"h1", "h2", "eu", "us", "1", "a b", "x=y", "p,q", "web", "db", `q"uote`, `b\n`, "v", `i\,j`, `k\\l`, `m\ n`}

func genTags(r *Rng, max int) []KV {
	n := r.N(max + 1)
	var t []KV
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		k := tagKeys[r.N(len(tagKeys))]
		if used[k] {
			continue
		}
		used[k] = true
		t = append(t, KV{k, tagVals[r.N(len(tagVals))]})
	}
	return t
}

func genString(r *Rng) string {
	n := r.N(12)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString([]string{"a", "Z", "0", " ", ",", "=", `\"`, "x y", "é", "%", "%d", "#", "{"}[r.N(13)])
	}
	return `"` + b.String() + `"`
}

func genFieldValue(r *Rng) string {
	switch r.N(6) {
	case 0:
		return fmt.Sprintf("%di", r.N(1000)-500)
	case 1:
		return fmt.Sprintf("%d", r.N(100000))
	case 2:
		return strconv.FormatFloat(float64(r.N(1000000))/997, 'g', -1, 64)
	case 3:
		return r.Pick("t", "T", "true", "False", "f", "TRUE")
	case 4:
		return genString(r)
	}
	return fmt.Sprintf("-%d.%de%d", r.N(10), r.N(100), r.N(5))
}

// genLine makes a line that is unique through its id field.
func genLine(r *Rng, id int, ts string) *Line {
	l := &Line{Meas: measNames[r.N(len(measNames))], Tags: genTags(r, 5), Ts: ts}
	f := []string{fmt.Sprintf("id=%di", id)}
	for i, n := 0, r.N(3); i < n; i++ {
		f = append(f, fmt.Sprintf("%s=%s", r.Pick("value", "x", "usage_idle", `fi\ eld`, "y2"), genFieldValue(r)))
	}
	if r.P(1, 3) {
		f[0], f[len(f)-1] = f[len(f)-1], f[0]
	}
	l.Fields = strings.Join(f, ",")
	return l
}

func splitLines(b []byte) [][]byte {
	var o [][]byte
	for len(b) > 0 {
		i := bytes.IndexByte(b, '\n')
		if i < 0 {
			o = append(o, b)
			break
		}
		o = append(o, b[:i+1])
		b = b[i+1:]
	}
	return o
}
