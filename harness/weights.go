package main

const digits = "0123456789"

// weight is any weight with three decimals, along with its value in
// thousandths: 0.ddd for any digits, or 1.000.
func weight(name string) (string, int) {
	if ndPick(name+".one", 2) == 1 {
		return "1.000", 1000
	}
	return fraction(name)
}

// fraction is any weight below one with three decimals.
func fraction(name string) (string, int) {
	a, b, c := ndByte(name+".a", digits), ndByte(name+".b", digits), ndByte(name+".c", digits)
	return "0." + string([]byte{a, b, c}), int(a-'0')*100 + int(b-'0')*10 + int(c-'0')
}

// anyWeight is any weight of the grammar, in every form that it can be written
// in, along with its value in thousandths.
func anyWeight(name string) (string, int) {
	form := ndPick(name+".form", 9)
	switch form {
	case 0:
		return "0", 0
	case 1:
		return "0.", 0
	case 5:
		return "1", 1000
	case 6:
		return "1.", 1000
	case 7:
		return "1.0", 1000
	case 8:
		return "1.000", 1000
	}
	s, v := "0.", 0
	k := 100
	for i := 0; i < form-1; i++ {
		d := ndByte(name+"."+string(rune('a'+i)), digits)
		s += string(d)
		v += int(d-'0') * k
		k /= 10
	}
	return s, v
}
