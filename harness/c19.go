package main

import (
	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/transparent"
)

// tchars are the characters of tokens.
const tchars = "!#$%&'*+-.^_`|~" + digits + "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

// anyQuality is any weight of the grammar, with or without whitespace around
// the semicolon, or none.
func anyQuality(name string) string {
	if ndPick(name+".none", 2) == 1 {
		return ""
	}
	w, _ := anyWeight(name)
	q := string([]byte{ndByte(name+".name", "qQ")}) + "=" + w
	switch ndPick(name+".blanks", 4) {
	case 1:
		return string([]byte{ndByte(name+".before", " \t")}) + ";" + q
	case 2:
		return ";" + string([]byte{ndByte(name+".after", " \t")}) + q
	case 3:
		return " \t; \t" + q
	}
	return ";" + q
}

// anyParameter is any parameter of a media range, or extension.
func anyParameter(name string) string {
	p := ";"
	if ndPick(name+".blank", 2) == 1 {
		p = string([]byte{ndByte(name+".before", " \t")}) + ";" + string([]byte{ndByte(name+".after", " \t")})
	}
	p += ndStr(name+".name", 1, "!#$%&'+-.^_`|~0129abcxyzABCXYZ") + "="
	switch ndPick(name+".value", 3) {
	case 0:
		return p + ndStr(name+".token", 2, tchars)
	case 1:
		return p + "\"" + ndStr(name+".quoted", 2, " !#$,;=/[]\taB1") + "\""
	}
	return p + "\"\\" + ndStr(name+".escaped", 1, "\"\\ax ") + "\""
}

// C19_Valid: each of the four headers with any two-character (thorough:
// three-character) tokens as types and charsets, parameters before and after
// the weight with any two characters of tokens or quoted strings, any of the
// registered codings in any case of two letters (thorough: four), any of several languages,
// and any weight in any notation, with and without whitespace, before or after
// another element; with the proactive and the transparent negotiator.
func C19_Valid() {
	h := ndCase("header", headers)
	var e string
	n := ndBound(2, 3)
	switch h {
	case media:
		switch ndCase("range", 3) {
		case 0:
			e = "*/*"
		case 1:
			e = ndStr("type", n, tchars) + "/*"
			ndAssume(e[0] != '*' || e[1] != '/')
		case 2:
			e = ndStr("type", 1, tchars) + "/" + ndStr("subtype", n, tchars)
			ndAssume(e[0] != '*')
		}
		switch ndCase("parameters", 4) {
		case 0:
			e += anyQuality("q")
		case 1:
			e += anyParameter("parameter")
		case 2:
			e += anyParameter("parameter") + ";q=0.5"
		case 3:
			e += ";q=0.5" + anyParameter("extension")
		}
	case lang:
		e = languages[ndPick("language", len(languages))]
		e += anyQuality("q")
	case charset:
		e = ndStr("charset", n-1, tchars) + ndStr("last", 1, "*q0A~") + anyQuality("q")
	case coding:
		e = codings[ndPick("coding", len(codings))]
		e = anyCases(e, e, ndBound(2, 4)) + anyQuality("q")
	}
	switch ndPick("others", 3) {
	case 1:
		e += "," + []string{"a/b", "nl", "x-y", "gzip"}[h]
	case 2:
		e = []string{"a/b", "nl", "x-y", "gzip"}[h] + "," + e
	}
	kv := []string{headerNames[h], e, "Negotiate", "*"}
	var ng negotiator.Negotiator = proactive.New(proactive.DisableNotAcceptableRepresentation())
	if h != coding && ndCase("transparent", 2) == 1 {
		ng = transparent.New()
	}
	r := newRep(spec{mt: "a/b;p=1", lang: "en", cs: "utf-8", enc: []string{"gzip"}, q: 1, body: "1", loc: at("1")})
	o := negotiate(ng, newRequest(kv...), r)
	o.observe()
	ndAssert(o.err == nil, "a valid header is no error")
}

var languages = []string{
	"*", "en", "de-DE", "zh-Hant-TW", "sl-rozaj", "de-1996", "i-klingon", "es-419", "x-private", "en-x-a",
	"zh-min-nan", "sr-Latn-RS", "ca-valencia", "de-CH-1901", "hy-Latn-IT-arevela", "en-GB-oed", "tlh", "und", "mul", "haw", "yue-Hant-HK", "az-Arab-x-aze-derbend", "de-u-co-phonebk", "EN-us", "sl-rozaj-biske-1994", "nan", "fil-PH", "sgn-BE-FR", "mn-Cyrl-MN",
}

var codings = []string{"gzip", "deflate", "compress", "identity", "x-gzip", "x-compress", "*", "br", "zstd", "aes128gcm", "exi", "pack200-gzip", "dcb", "dcz"}
