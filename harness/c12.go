package main

import (
	"strconv"
	"strings"

	"github.com/freerware/negotiator/transparent"
)

const directiveKinds = 9

// directive is any directive of the Negotiate header, along with whether it
// allows for choices.
func directive(name string, kind int) (string, bool) {
	switch kind {
	case 0:
		return "*", true
	case 1:
		return "1.0", true
	case 2:
		return anyCases(name+".case", "guess-small", ndBound(3, 10)), true
	case 3:
		return "trans", false
	case 4:
		return "vlist", false
	case 5:
		k := 3 + ndPick(name+".length", 2)
		d := ndStr(name+".version"+strconv.Itoa(k), k, "012.")
		return d, d == "1.0"
	case 6:
		d := ndStr(name+".extension", 1, "")
		if ndPick(name+".prefix", 2) == 1 {
			ndAssume(d != "," && d != "\"" && d != "\\")
			return "*" + d, d == " " || d == "\t"
		}
		ndAssume(d != "," && d != " " && d != "\t" && d != "\"" && d != "\\")
		return d, d == "*"
	case 7:
		d := "guess-small" + ndStr(name+".suffix", 1, "1 sl-*")
		return d, strings.TrimSpace(d) == "guess-small"
	}
	d := ndStr(name+".digit", 1, "0123456789") + ".0"
	return d, d == "1.0"
}

// C12_Allowed: up to two (thorough: three) directives in one or several
// Negotiate headers, of which each is any of the known ones, '1.0' with other
// characters, any single byte, 'guess-small' with any case of three letters
// (thorough: all) or with a suffix; the algorithm selects a variant that is a
// neighbor, one that isn't, or none; without guess-small the variant is of any
// size.
func C12_Allowed() {
	var kv []string
	allowed := false
	n := ndCase("directives", ndBound(3, 4))
	text := ""
	for i := 0; i < n; i++ {
		k := "directive" + strconv.Itoa(i)
		var kind int
		if n == 3 && i == 0 {
			kind = ndCase("first", directiveKinds)
		} else {
			kind = ndPick(k, directiveKinds)
		}
		d, ok := directive(k, kind)
		allowed = allowed || ok
		if i > 0 && ndPick("apart"+strconv.Itoa(i), 2) == 0 {
			text += ", " + d
		} else {
			if i > 0 {
				kv = append(kv, "Negotiate", text)
			}
			text = d
		}
	}
	if n > 0 {
		kv = append(kv, "Negotiate", text)
	}
	transparentChoice(kv, allowed)
}

// C12_Position: a directive of any kind at any position of up to five (thorough:
// eight) others that do not allow for choices, in one or several headers.
func C12_Position() {
	n := 1 + ndPick("others", ndBound(5, 8))
	at := ndPick("position"+strconv.Itoa(n), n+1)
	several := ndPick("several", 2) == 1
	d, ok := directive("directive", ndCase("directive", directiveKinds))
	var kv []string
	text := ""
	for i := 0; i <= n; i++ {
		s := []string{"trans", "vlist", "2.0", "x-ext"}[i%4]
		if i == at {
			s = d
		}
		if several {
			kv = append(kv, "Negotiate", s)
		} else if text += s; i < n {
			text += ","
		}
	}
	if !several {
		kv = append(kv, "Negotiate", text)
	}
	transparentChoice(kv, ok)
}

// transparentChoice negotiates two variants, of which one is a neighbor, and
// states that there is a choice when it is selected and allowed.
func transparentChoice(kv []string, allowed bool) {
	reps := []*rep{
		newRep(spec{mt: "a/b", q: 1, body: "1", loc: at("1")}),
		newRep(spec{mt: "a/c", q: 1, body: "2", loc: at("2")}),
	}
	u := at("2")
	u.Host = "example.com"
	reps[1].SetContentLocation(u)
	c := &chooser{}
	choice := ndPick("choice", 3)
	if choice > 0 {
		c.choice = reps[choice-1]
	}
	l := &recorder{list: newRep(spec{mt: "l/l", q: 1, body: "list"})}
	o := negotiate(transparent.New(transparent.RVSA(c), transparent.ListRepresentation(l.construct)), newRequest(kv...), as(reps...)...)
	o.observe()
	ndAssert(o.err == nil, "no error")
	ndAssert(allowed || c.calls == 0, "the algorithm selects only when the user agent allows it")
	if allowed && choice == 1 {
		ndReach("choice")
		ndAssert(o.w.status() == 200 && o.w.get("Tcn") == "choice" && string(o.w.body) == "1", "a selected neighbor is served when the user agent allows it")
	} else {
		ndReach("list")
		ndAssert(o.w.status() == 300 && o.w.get("Tcn") == "list" && string(o.w.body) == "list", "the list is served in all other cases")
	}
}
