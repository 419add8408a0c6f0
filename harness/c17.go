package main

import (
	"strconv"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/transparent"
)

// threeDecimals is the source quality of any three decimals, with its text.
func threeDecimals(name string) (float32, string) {
	d := ndStr(name, 3, digits)
	q := float32(int(d[0]-'0')*100+int(d[1]-'0')*10+int(d[2]-'0')) / 1000
	return q, "0." + d
}

// alternate is a variant with any of its attributes, along with its
// description.
func alternate(name string, q float32, quality string) (*rep, string) {
	s := spec{q: q}
	shape := ndPick(name+".shape", 4)
	uri := ""
	if shape&1 == 0 {
		s.loc = at(ndStr(name+".path", 2, "ab-"))
		uri = "http://example.org" + s.loc.Path
		if ndPick(name+".query", 2) == 1 {
			s.loc.RawQuery = "x=" + ndStr(name+".query", 1, "ab")
			uri += "?" + s.loc.RawQuery
		}
	}
	if shape&2 == 0 {
		s.mt = "a/" + ndStr(name+".type", 2, "bcD") + ";p=1"
		s.cs = "x-" + ndStr(name+".set", 1, "abC")
	}
	if shape == 0 || shape == 3 {
		s.lang = "d" + ndStr(name+".language", 1, "aE")
	}
	feats := ""
	for i := ndPick(name+".features", 3); i > 0; i-- {
		f := "t" + ndStr(name+".feature"+strconv.Itoa(i), 1, "ab")
		if i == 2 {
			f = "[" + f + " !c]"
		}
		f += ";+1.5-0.25"
		s.feats = append(s.feats, f)
		if feats != "" {
			feats += " "
		}
		feats += f
	}
	n := []int{0, 1, 10, 123, 9, 1234}[ndPick(name+".size", ndBound(4, 6))]
	s.body = filled(n)
	return newRep(s), "{ \"" + uri + "\" " + quality + " { charset " + s.cs + " } { features " + feats + " } { language " + s.lang + " } { length " + strconv.Itoa(n) + " } { type " + s.mt + " } }"
}

// C17_Alternates: one (thorough: two) variants with any of the attributes, of
// any letters, up to two features, a source quality of any three decimals and
// of 0 to 123 (thorough: 1234) bytes, at any position among up to three others,
// which may be equal to each other, or to it, in list and choice responses of each cause.
func C17_Alternates() {
	q, quality := threeDecimals("source")
	r, text := alternate("rep", q, quality)
	reps := []*rep{r}
	all := text
	first := urlText(r.ContentLocation())
	n := ndCase("others", 4)
	place := 0
	if n > 0 {
		place = ndPick("position", n+1)
	}
	equal := false
	if n > 0 {
		equal = ndPick("equal", 2) == 1
		reps, all = nil, ""
		for i := 0; i <= n; i++ {
			o, t := r, text
			if i != place {
				mt := "o/" + strconv.Itoa(i)
				if equal {
					mt = "o/o"
				}
				o, t = typed(mt, "other"), "{ \"\" 1.000 { charset  } { features  } { language  } { length 5 } { type "+mt+" } }"
				if equal && i == place+1 {
					o, t = r, text
				}
				if i == 1 && ndBound(0, 1) == 1 {
					o, t = alternate("other", 0.0625, "0.062")
				}
			}
			if i == 0 {
				first = urlText(o.ContentLocation())
			} else {
				all += ","
			}
			all += t
			reps = append(reps, o)
		}
	}
	l := &recorder{list: newRep(spec{mt: "l/l", q: 1, body: "list"})}
	c := &chooser{}
	opts := []transparent.Option{transparent.ListRepresentation(l.construct), transparent.RVSA(c)}
	kind := ndCase("response", 4)
	kv := []string{"Negotiate", []string{"trans", "*", "1.0", "guess-small"}[kind]}
	choice := false
	switch kind {
	case 2:
		// a choice of this variant, when it is a neighbor.
		c.choice = r
		u := r.ContentLocation()
		choice = u.Host != ""
	case 3:
		opts = append(opts, transparent.GuessSmallThreshold(5000))
		c.choice = r
		u := r.ContentLocation()
		choice = u.Host != ""
	}
	w := newWriter()
	err := transparent.New(opts...).Negotiate(negotiator.NegotiationContext{Request: newRequest(kv...), ResponseWriter: w}, as(reps...)...)
	o := outcome{w, err}
	o.observe()
	ndAssert(o.err == nil, "no error")
	if choice {
		ndReach("choice")
		ndAssert(w.status() == 200 && w.get("Tcn") == "choice", "the TCN of a choice response is 'choice'")
		ndAssert(w.get("Alternates") == all, "a choice response describes every variant without a fallback")
	} else {
		ndReach("list")
		ndAssert(w.status() == 300 && w.get("Tcn") == "list", "the TCN of a list response is 'list'")
		ndAssert(w.get("Alternates") == all+",{ \""+first+"\" }", "a list response describes every variant and ends with the fallback")
	}
}
