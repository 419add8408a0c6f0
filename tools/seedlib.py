#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo and keeps them in /verif/seeded.

Each is a call of bug(id, property, edits, needs, breaks, body), where the body
is that of the test that demonstrates it (see HEAD). Run: python3 FILE [id...]
with a FILE that imports this one."""
import json, os, subprocess, sys, shutil, tempfile

HEAD = '''package negotiator_test

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"testing"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
	"github.com/uber-go/tally"
)

var _ = errors.New
var _ = fmt.Sprint
var _ io.Reader
var _ = strings.ToLower
var _ sync.Mutex
var _ = proactive.New
var _ = reactive.New
var _ = transparent.New
var _ tally.Scope

// rep is a representation with a given body.
type rep struct {
	representation.Base
	body  string
	err   error
	calls int
}

func (r *rep) Bytes() ([]byte, error)   { r.calls++; return []byte(r.body), r.err }
func (r *rep) FromBytes(b []byte) error { r.body = string(b); return nil }

// variant is a neighbor of the requested resource.
func variant(body, ct, lang, charset string, enc ...string) *rep {
	r := &rep{body: body}
	r.SetContentType(ct)
	r.SetContentLanguage(lang)
	r.SetContentCharset(charset)
	r.SetContentEncoding(enc)
	r.SetSourceQuality(1)
	u, _ := url.Parse("http://example.org/dir/" + fmt.Sprintf("%x", body))
	r.SetContentLocation(*u)
	return r
}

// ask negotiates with the headers, which are given as name, value, ...
func ask(n negotiator.Negotiator, headers []string, reps ...representation.Representation) (*httptest.ResponseRecorder, error) {
	req := httptest.NewRequest("GET", "http://example.org/dir/thing", nil)
	for i := 0; i < len(headers); i += 2 {
		req.Header[headers[i]] = append(req.Header[headers[i]], headers[i+1])
	}
	w := httptest.NewRecorder()
	err := n.Negotiate(negotiator.NegotiationContext{Request: req, ResponseWriter: w}, reps...)
	return w, err
}

var _ http.ResponseWriter

func TestDemo(t *testing.T) {
'''
DEMO = '''#!/bin/bash
# Run in the root of the repository: fails when the change is in place.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
dir=$(cd "$(dirname "$0")" && pwd)
exec go test -overlay <(printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$dir") -vet=off -count=1 -run TestDemo .
'''
W = "/tmp/seedw/repo"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def tests():
    r = sh(". /opt/vp/env.sh; go build ./... && go test -json -vet=off -count=1 ./...", cwd=W, executable="/bin/bash")
    passed = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"): passed.add((e["Package"], e["Test"]))
    return passed, r

def bug(id, prop, edits, needs, breaks, body, head=HEAD):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    if not os.path.isdir(W):
        os.makedirs(os.path.dirname(W), exist_ok=True)
        sh(f"cp -a /repo {W}")
    sh("git reset -q --hard && git clean -qfd", cwd=W)
    sh(f"git pull -q /repo HEAD || git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=W)
    base, r0 = tests()
    d = tempfile.mkdtemp(dir="/tmp/seedw")
    open(d+"/demo_test.go", "w").write(head + body.strip("\n") + "\n}\n" if head else body)
    open(d+"/demo.sh", "w").write(DEMO)
    sh("gofmt -w "+d+"/demo_test.go")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d+"/meta.json", "w"), indent=1)
    r = sh(f"bash {d}/demo.sh", cwd=W)
    if r.returncode: print(id, "DEMO FAILS ON CLEAN", r.stdout[-1500:], r.stderr[-1500:]); return
    for f, old, new in edits:
        p = f"{W}/{f}"; s = open(p).read()
        if s.count(old) != 1: print(id, "EDIT", f, s.count(old), old); return
        open(p, "w").write(s.replace(old, new))
    g = sh("gofmt -l .", cwd=W).stdout
    if g: print(id, "gofmt", g)
    after, r1 = tests()
    if base - after: print(id, "TESTS FAIL", sorted(t for _, t in base-after)[:6], r1.stderr[-600:]); return
    r = sh(f"bash {d}/demo.sh", cwd=W)
    if r.returncode == 0: print(id, "DEMO PASSES WITH PATCH"); return
    if "--- FAIL: TestDemo" not in r.stdout and "panic" not in r.stdout: print(id, "DEMO", r.stdout[-800:], r.stderr[-800:]); return
    open(d+"/patch.diff", "w").write(sh("git diff", cwd=W).stdout)
    dst = f"/verif/seeded/{id}"
    os.makedirs(dst, exist_ok=True)
    for f in ("patch.diff", "demo.sh", "demo_test.go", "meta.json"): shutil.copy(d+"/"+f, dst+"/"+f)
    os.chmod(dst+"/demo.sh", 0o755)
    print(id, "kept", [l for l in r.stdout.splitlines() if "demo_test.go" in l][:1])
