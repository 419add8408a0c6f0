package main

import (
	"strconv"

	"github.com/freerware/negotiator/transparent"
)

// above determines if a variant with the features and source quality is chosen
// over one without features of the other source quality, the qualities being in
// thousandths.
func above(q int, feats []string, other int, features string) bool {
	vs := []*rep{
		newRep(spec{q: float32(q) / 1000, body: "1", loc: at("1"), feats: feats}),
		newRep(spec{q: float32(other) / 1000, body: "2", loc: at("2")}),
	}
	o := negotiate(transparent.New(), newRequest("Negotiate", "*", "Accept-Features", features), as(vs...)...)
	o.observe()
	ndAssert(o.err == nil, "no error")
	got := o.served(vs...)
	ndAssert(got == 0 || got == 1, "one of the variants is chosen")
	return got == 0
}

// factored is an element with factors in tenths of any digits, along with what
// it contributes when it is true, and when it is false.
func factored(name, predicate string) (text string, yes, no int) {
	digit := func(k string) (string, int) {
		d := ndByte(name+k, digits)
		return "0." + string([]byte{d}), int(d - '0')
	}
	switch ndPick(name+".factors", 4) {
	case 0:
		return predicate, 10, 0
	case 1:
		t, v := digit(".true")
		return predicate + ";+" + t, v, 10
	case 2:
		f, v := digit(".false")
		return predicate + ";-" + f, 10, v
	}
	t, v := digit(".true")
	f, w := digit(".false")
	return predicate + ";+" + t + "-" + f, v, w
}

// C22_Product: three elements, which are predicates or bags,
// true or not, with or without a true and a false factor of any digit,
// against another variant of any source quality of two decimals.
func C22_Product() {
	ndMerge(false)
	n := 3
	c := ndCase("truths", 4)
	var feats []string
	product := 1
	for i := 0; i < n; i++ {
		k := "e" + strconv.Itoa(i)
		truth := c&1 != 0
		switch i {
		case 1:
			truth = c&2 != 0
		case 2:
			truth = ndPick(k+".truth", 2) == 1
		}
		predicate := ""
		if truth {
			predicate = []string{"yes", "[ no\tyes ]", "color=[4-]"}[i]
		} else {
			predicate = []string{"no", "[ no !yes color=4 ]", "color!=5"}[i]
		}
		text, yes, no := factored(k, predicate)
		if truth {
			product *= yes
		} else {
			product *= no
		}
		feats = append(feats, text)
	}
	q := ndInt("other", 1, 99)
	if product >= q*10 {
		ndReach("more")
		ndAssert(above(1000, feats, q*10, "yes, color=5"), "the feature quality is the product of the factors of the elements")
	} else {
		ndReach("less")
		ndAssert(!above(1000, feats, q*10, "yes, color=5"), "the feature quality is the product of the factors of the elements")
	}
}

// C22_Factors: a true or false factor of up to three digits and three decimals,
// one of which is any, against source qualities of a thousandth more and less.
func C22_Factors() {
	places := []int{100000, 10000, 1000, 100, 10, 1}
	whole := 1 + ndCase("digits", 3)
	decimals := ndCase("decimals", 5) - 1 // -1 for no point.
	at := ndPick("position", whole+max(decimals, 0))
	d := ndByte("digit", digits)
	text := ""
	value, middle := 0, 0
	pos := 0
	for i := 0; i < 6; i++ {
		if i < 3-whole || i-3 >= decimals && i >= 3 {
			continue
		}
		if i == 3 {
			text += "."
		}
		b, v, m := byte('0'+i%3), i%3, i%3
		if pos == at {
			b, v, m = d, int(d-'0'), 5
		}
		text += string([]byte{b})
		value += v * places[i]
		middle += m * places[i]
		pos++
	}
	if decimals == 0 {
		text += "."
	}
	truth := ndPick("truth", 2) == 1
	feature := "no;-" + text
	if truth {
		feature = "yes;+" + text
	}
	switch ndPick("both", 2) {
	case 1:
		feature = "no;+7-" + text
		if truth {
			feature = "yes;+" + text + "-7"
		}
	}
	other := middle + ndPick("difference", 3) - 1
	ndAssume(other > 0)
	if value >= other {
		ndReach("more")
		ndAssert(above(1000, []string{feature}, other, "yes"), "the factor has all of its digits")
	} else {
		ndReach("less")
		ndAssert(!above(1000, []string{feature}, other, "yes"), "the factor has all of its digits")
	}
}

// C22_Bags: bags of one to three (thorough: four) predicates of each kind about
// any of three tags and values, with and without factors.
func C22_Bags() {
	n := 1 + ndCase("predicates", ndBound(3, 4))
	bag := "["
	truth := false
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		t := ndByte("tag"+k, "abc")
		tag := "t" + string([]byte{t})
		// ta is present with the value 5, tb is absent and tc is unknown.
		p := tag
		is := t == 'a'
		switch ndPick("kind"+k, 4) {
		case 1:
			p = "!" + tag
			is = t == 'b'
		case 2:
			v := ndByte("value"+k, "56")
			p += "=" + string([]byte{v})
			is = t == 'a' && v == '5'
		case 3:
			v := ndByte("value"+k, "56")
			p += "!=" + string([]byte{v})
			is = t == 'a' && v != '5'
		}
		if is {
			truth = true
		}
		if i > 0 {
			bag += " "
		}
		bag += p
	}
	bag += "]"
	switch ndPick("factors", 2) {
	case 1:
		bag += ";+0.8-0.2"
	}
	if truth {
		ndReach("true")
		ndAssert(above(1000, []string{bag}, 600, "ta=5, !tb"), "the bag is true when one of its predicates is")
	} else {
		ndReach("false")
		ndAssert(!above(1000, []string{bag}, 600, "ta=5, !tb"), "the bag is false when none of its predicates is true")
	}
}

// C22_Repeated: two to four elements, of which any may be equal or have the same
// predicate: each is any of two predicates, or a bag, that are true, or of two
// that are false, with any of three factors, of which one is any digit.
func C22_Repeated() {
	n := 2 + ndCase("elements", 3)
	d := ndByte("digit", "123456789")
	var feats []string
	product := 1
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		c := ndPick("predicate"+k, ndBound(3, 5))
		f := ndPick("factor"+k, 2)
		predicate := []string{"yes", "no", "[yes no]", "color=5", "color=4"}[c]
		truth := c != 1 && c != 4
		switch {
		case f == 0:
			predicate += ";+0." + string([]byte{d}) + "-0.8"
			if truth {
				product *= int(d - '0')
			} else {
				product *= 8
			}
		case truth:
			product *= 10
		default:
			predicate += ";-0.9"
			product *= 9
		}
		feats = append(feats, predicate)
	}
	for i := n; i < 4; i++ {
		product *= 10
	}
	// the product is in ten-thousandths.
	if product >= 5125 {
		ndReach("more")
		ndAssert(above(1000, feats, 512, "yes, color=5"), "every element counts")
	} else if product < 5115 {
		ndReach("less")
		ndAssert(!above(1000, feats, 512, "yes, color=5"), "every element counts")
	}
}

// C22_Improved: two to four elements with factors above 1, of up to three
// digits, and below it, in any order, of which the first two have any digit, and
// of which the product is compared with several source qualities.
func C22_Improved() {
	n := 2 + ndCase("elements", ndBound(2, 3))
	product := 1
	scale := 1
	var feats []string
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		truth := ndPick("truth"+k, 2) == 1
		text, v := "", 0
		d := byte('3')
		if i < 2 {
			d = ndByte("digit"+k, "123456789")
		}
		switch ndPick("factor"+k, 4) {
		case 0:
			text, v = string([]byte{d})+"0", int(d-'0')*1000
		case 1:
			text, v = string([]byte{d})+".5", int(d-'0')*100+50
		case 2:
			text, v = "0.0"+string([]byte{d}), int(d-'0')
		case 3:
			text, v = "0."+string([]byte{d}), int(d-'0')*10
		}
		product *= v
		scale *= 100
		if truth {
			feats = append(feats, []string{"yes", "color=5", "[no yes]", "!no"}[i]+";+"+text+"-0.7")
		} else {
			feats = append(feats, []string{"no", "color=4", "[no color!=5]", "!yes"}[i]+";+0.7-"+text)
		}
	}
	source := []int{10, 1, 7}[ndPick("source", ndBound(2, 3))]
	other := []int{99, 1, 100, 10, 55}[ndPick("other", ndBound(2, 5))]
	// source*product/(10*scale) against other/100, to five decimals.
	p, o := source*product*10, other*scale
	r := newRep(spec{q: float32(source) / 10, body: "1", loc: at("1"), feats: feats})
	s := newRep(spec{q: float32(other) / 100, body: "2", loc: at("2")})
	out := negotiate(transparent.New(), newRequest("Negotiate", "*", "Accept-Features", "yes, color=5"), as(r, s)...)
	out.observe()
	ndAssert(out.err == nil, "no error")
	if p >= o {
		ndReach("more")
		ndAssert(out.served(r, s) == 0, "the feature quality is the product of the factors of the elements")
	} else if o-p > scale/500 {
		ndReach("less")
		ndAssert(out.served(r, s) == 1, "the feature quality is the product of the factors of the elements")
	}
}
