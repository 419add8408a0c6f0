package main

import (
	"errors"
	"net/http"
	"net/url"
	"strconv"
	"time"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/representation"
	"github.com/uber-go/tally"
)

// rep is a representation with a given body.
type rep struct {
	representation.Base
	body []byte
	err  error
}

func (r *rep) Bytes() ([]byte, error) { return r.body, r.err }

func (r *rep) FromBytes(b []byte) error {
	r.body = b
	return nil
}

// spec describes a representation.
type spec struct {
	mt, lang, cs string
	enc          []string
	feats        []string
	loc          url.URL
	q            float32
	body         string
}

func newRep(s spec) *rep {
	r := &rep{}
	r.SetContentType(s.mt)
	r.SetContentLanguage(s.lang)
	r.SetContentCharset(s.cs)
	r.SetContentEncoding(s.enc)
	r.SetContentFeatures(s.feats)
	r.SetContentLocation(s.loc)
	r.SetSourceQuality(s.q)
	r.body = []byte(s.body)
	return r
}

// html is a representation of the given media type, with nothing else.
func typed(mt, body string) *rep { return newRep(spec{mt: mt, q: 1, body: body}) }

var errWrite = errors.New("write failed")
var errBytes = errors.New("serialization failed")
var errChoose = errors.New("choice failed")

// writer records the response.
type writer struct {
	h          http.Header
	statuses   []int
	writes     int
	early      bool // the body was written before the status
	lateHeader bool
	body       []byte
	fail       error
	partial    int  // the bytes that are written before writing fails
	refused    bool // writing the body failed
	sent       http.Header
}

func newWriter() *writer { return &writer{h: http.Header{}} }

func (w *writer) Header() http.Header { return w.h }

func (w *writer) WriteHeader(status int) {
	w.statuses = append(w.statuses, status)
	if w.sent == nil {
		w.sent = w.h.Clone()
	}
}

func (w *writer) Write(b []byte) (int, error) {
	w.writes++
	if len(w.statuses) == 0 {
		w.early = true
	}
	if w.fail != nil {
		w.refused = true
		n := w.partial
		if n > len(b) {
			n = len(b)
		}
		w.body = append(w.body, b[:n]...)
		return n, w.fail
	}
	w.body = append(w.body, b...)
	return len(b), nil
}

// status is the only status that was written, 0 for none and -1 for several.
func (w *writer) status() int {
	switch len(w.statuses) {
	case 0:
		return 0
	case 1:
		return w.statuses[0]
	}
	return -1
}

// get is the value of a header of the response that appears once.
func (w *writer) get(name string) string {
	v := w.h[name]
	if len(v) != 1 {
		return "<" + strconv.Itoa(len(v)) + " values>"
	}
	return v[0]
}

func (w *writer) untouched() bool {
	return len(w.h) == 0 && len(w.statuses) == 0 && w.writes == 0
}

func newRequest(kv ...string) *http.Request {
	h := http.Header{}
	for i := 0; i+1 < len(kv); i += 2 {
		h[kv[i]] = append(h[kv[i]], kv[i+1])
	}
	return &http.Request{Method: "GET", Header: h, URL: &url.URL{Scheme: "http", Host: "example.org", Path: "/thing"}}
}

// at is a location that neighbors the resource of newRequest.
func at(name string) url.URL {
	return url.URL{Scheme: "http", Host: "example.org", Path: "/" + name}
}

type outcome struct {
	w   *writer
	err error
}

func negotiate(n negotiator.Negotiator, r *http.Request, reps ...representation.Representation) outcome {
	w := newWriter()
	err := n.Negotiate(negotiator.NegotiationContext{Request: r, ResponseWriter: w}, reps...)
	return outcome{w, err}
}

// served is the index of the representation that is the body of a successful
// response, -1 when it is none of them. The bodies of the representations have
// to differ.
func (o outcome) served(reps ...*rep) int {
	if o.err != nil {
		return -2
	}
	if s := o.w.status(); s != 200 && s != 201 {
		return -1
	}
	for i, r := range reps {
		if string(r.body) == string(o.w.body) {
			return i
		}
	}
	return -3
}

func as(reps ...*rep) []representation.Representation {
	out := make([]representation.Representation, len(reps))
	for i, r := range reps {
		out[i] = r
	}
	return out
}

// scope counts metrics.
type scope struct {
	prefix string
	tags   map[string]string
	counts map[string]int64
	bad    bool
}

func newScope() *scope { return &scope{counts: map[string]int64{}} }

type counter struct {
	s    *scope
	name string
}

func (c counter) Inc(n int64) { c.s.counts[c.s.tags["negotiator"]+":"+c.name] += n }

type timer struct{}

func (timer) Record(time.Duration)      {}
func (timer) RecordStopwatch(time.Time) {}
func (t timer) Start() tally.Stopwatch  { return tally.NewStopwatch(time.Time{}, t) }

func (s *scope) Counter(name string) tally.Counter                      { return counter{s, s.prefix + name} }
func (s *scope) Gauge(name string) tally.Gauge                          { return nil }
func (s *scope) Timer(name string) tally.Timer                          { return timer{} }
func (s *scope) Histogram(name string, b tally.Buckets) tally.Histogram { return nil }
func (s *scope) SubScope(name string) tally.Scope {
	return &scope{prefix: s.prefix + name + ".", tags: s.tags, counts: s.counts}
}
func (s *scope) Capabilities() tally.Capabilities { return nil }
func (s *scope) Tagged(tags map[string]string) tally.Scope {
	t := map[string]string{}
	for k, v := range s.tags {
		t[k] = v
	}
	for k, v := range tags {
		t[k] = v
	}
	return &scope{prefix: s.prefix, tags: t, counts: s.counts}
}

// chooser is an algorithm that makes a fixed choice.
type chooser struct {
	choice  representation.Representation
	err     error
	got     []representation.Representation
	request *http.Request
	calls   int
}

func (c *chooser) Choose(r *http.Request, reps ...representation.Representation) (representation.Representation, error) {
	c.calls++
	c.got = reps
	c.request = r
	return c.choice, c.err
}

// errString is the message of an error, for observation.
func errString(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func (o outcome) observe() {
	ndObserve("error", errString(o.err))
	ndObserveInt("status", o.w.status())
	ndObserve("body", string(o.w.body))
	ndObserve("type", o.w.get("Content-Type"))
}

// same determines if two outcomes are the same for the client.
func same(a, b outcome) bool {
	if errString(a.err) != errString(b.err) || a.w.status() != b.w.status() || a.w.writes != b.w.writes {
		return false
	}
	if string(a.w.body) != string(b.w.body) || len(a.w.h) != len(b.w.h) {
		return false
	}
	for _, name := range responseHeaders {
		x, y := a.w.h[name], b.w.h[name]
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
	}
	return true
}

var responseHeaders = []string{"Content-Location", "Content-Length", "Content-Type", "Content-Encoding", "Content-Language", "Content-Charset", "Alternates", "Tcn", "TCN"}
