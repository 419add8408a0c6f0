package main

import (
	"net/url"
	"strconv"

	"github.com/freerware/negotiator/transparent"
)

// location is a URL, along with what it is to be compared by.
type location struct {
	u                  url.URL
	scheme, host, port string
	dir                string
}

// origin is any scheme, host and port.
func origin(name string) location {
	var l location
	switch ndPick(name+".scheme", 3) {
	case 0:
		l.scheme, l.u.Scheme = "http", anyCases(name+".http", "http", 2)
	case 1:
		l.scheme, l.u.Scheme = "https", anyCases(name+".https", "https", 1)
	}
	host := ""
	switch ndPick(name+".host", 4) {
	case 0:
		h := ndStr(name+".letters", 2, "abAB")
		host, l.host = h+".org", string([]byte{lower(h[0]), lower(h[1])})+".org"
	case 1:
		host, l.host = "[::a]", "::a"
	case 2:
		host, l.host = "ab.org", "ab.org"
	}
	switch ndPick(name+".port", 4) {
	case 0:
		l.port = "80"
		if l.scheme == "https" {
			l.port = "443"
		}
	case 1:
		l.port = "80"
		host += ":80"
	case 2:
		l.port = "443"
		host += ":443"
	case 3:
		l.port = ndStr(name+".port", 2, "08")
		host += ":" + l.port
	}
	l.u.Host = host
	return l
}

// path is any path of k bytes beginning with a slash, or none, with or without
// a query and fragment.
func (l *location) path(name string, k int) {
	l.dir = "/"
	if k > 0 {
		alphabet := "aA/.~"
		if k == 2 {
			alphabet = ""
		}
		p := "/" + ndStr(name+".path"+strconv.Itoa(k), k-1, alphabet)
		l.u.Path = p
		for i := range p {
			if p[i] == '/' {
				l.dir = p[:i+1]
			}
		}
	}
	switch ndPick(name+".suffix", 3) {
	case 1:
		l.u.RawQuery = "x=/" + ndStr(name+".query", 1, "ab/")
	case 2:
		l.u.Fragment = ndStr(name+".fragment", 1, "ab/")
	}
}

// neighbors states that the first location is served as a choice for the
// second one if it is a neighbor.
func neighbors(v, r location) {
	rep := newRep(spec{mt: "a/b", q: 1, body: "1", loc: v.u})
	l := &recorder{list: newRep(spec{mt: "l/l", q: 1, body: "list"})}
	req := newRequest("Negotiate", "*")
	u := r.u
	req.URL = &u
	o := negotiate(transparent.New(transparent.RVSA(&chooser{choice: rep}), transparent.ListRepresentation(l.construct)), req, rep)
	o.observe()
	ndAssert(o.err == nil, "no error")
	if v.scheme == r.scheme && v.host == r.host && v.port == r.port && v.dir == r.dir {
		ndReach("neighbor")
		ndAssert(o.w.status() == 200 && o.w.get("Tcn") == "choice", "a neighbor is served as the choice")
	} else {
		ndReach("stranger")
		ndAssert(o.w.status() == 300 && o.w.get("Tcn") == "list", "only neighbors are served as choices")
	}
	ndAssert(*req.URL == r.u && rep.ContentLocation() == v.u, "the URLs are left as they are")
}

// C13_Origin: the URLs of the variant and the resource have any of no scheme,
// http and https with any letter case of two letters, none or any of three hosts with
// any letter case of two letters, and no port, that of the scheme, that of the
// other scheme, or two of the digits 0 and 8; the paths differ in at most two
// characters.
func C13_Origin() {
	v, r := origin("variant"), origin("resource")
	v.u.Path, v.dir = "/d/v", "/d/"
	r.u.Path, r.dir = "/d/r", "/d/"
	neighbors(v, r)
}

// C13_Path: the URLs of the variant and the resource have any paths of a slash
// and any byte, or of up to three (thorough: five) bytes of a slash, a letter
// of either case, a dot and a tilde, with or without a query or fragment, which
// may have a slash.
func C13_Path() {
	var v, r location
	v.scheme, v.host, v.port = "http", "example.org", "80"
	v.u = url.URL{Scheme: "http", Host: "example.org"}
	r = v
	v.path("variant", ndCase("variant", ndBound(5, 7)))
	r.path("resource", ndCase("resource", ndBound(5, 7)))
	neighbors(v, r)
}

// C13_Encoded: the paths are a slash and up to two (thorough: three) pieces,
// each of which is a letter of either case, a slash, or a percent-encoded
// letter, slash or percent sign; percent-encoded slashes don't separate
// segments, whereas letters are the same as their encoding.
func C13_Encoded() {
	pieces := [][2]string{{"a", "a"}, {"A", "A"}, {"/", "/"}, {"%2F", "\x00"}, {"%61", "a"}, {"%252F", "%2F"}, {"%2f", "\x00"}}
	any := func(name string, first int) location {
		text, dir, last := "", "/", "/"
		n := ndBound(2, 3)
		for i := range n {
			j := first
			if i > 0 {
				j = ndPick(name+".piece"+strconv.Itoa(i), len(pieces)+1)
			}
			if j == len(pieces) {
				break
			}
			text += pieces[j][0]
			last += pieces[j][1]
			if pieces[j][1] == "/" {
				dir = last
			}
		}
		u, err := url.Parse("http://example.org/" + text)
		ndAssert(err == nil, "a valid URL")
		return location{u: *u, scheme: "http", host: "example.org", port: "80", dir: dir}
	}
	neighbors(any("variant", ndCase("variant", len(pieces))), any("resource", ndPick("resource", len(pieces))))
}

// C13_Hosts: each pair of hosts that are alike, with or without the port of the
// scheme, which has its first letter in either case, and with or without a user;
// any letter of the paths' last segments.
func C13_Hosts() {
	hosts := []string{"ab.org", "www.ab.org", "ab.org.", "x.ab.org", "WWW.ab.org", "ab.com", "ab.or", "a-b.org", "aborg", "xab.org", "127.0.0.1", "127.0.0.2", "localhost", "[::1]", "[0::1]"}
	any := func(name string, k int) location {
		b := []byte(hosts[k])
		l := location{scheme: "http", port: "80"}
		l.u.Scheme = string([]byte{ndByte(name+".scheme", "hH")}) + "ttp"
		l.u.Host = hosts[k]
		for i := range b {
			b[i] = lower(b[i])
		}
		l.host = string(b)
		if ndPick(name+".port", 2) == 1 {
			l.u.Host += ":80"
		}
		if ndPick(name+".user", 2) == 1 {
			l.u.User = url.User("u")
			l.host = "u@" + l.host
		}
		l.u.Path, l.dir = "/d/"+ndStr(name+".path", 1, "ab."), "/d/"
		return l
	}
	v := any("variant", ndCase("variant", len(hosts)))
	neighbors(v, any("resource", ndPick("resource", len(hosts))))
}
