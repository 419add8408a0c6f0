#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

PRO, APA = "proactive/proactive.go", "proactive/apache_httpd.go"
TRA, RVS = "transparent/transparent.go", "transparent/rvsa.go"
REA = "reactive/reactive.go"
H = "internal/header/"
BASE, LIST = "representation/base.go", "representation/list.go"
HDRS = [H+x for x in ("accept.go","media_range.go","accept_language.go","language_range.go","accept_charset.go","charset_range.go","accept_encoding.go","content_coding_range.go","accept_features.go","feature_expression.go","negotiate.go","negotiate_directive.go","list.go","quality_value.go")]

p("C01", "No request header can make a negotiator panic",
  "Whatever bytes a client puts in the Accept, Accept-Language, Accept-Charset, Accept-Encoding, Accept-Features or Negotiate headers, with any number of occurrences of each, the proactive, reactive and transparent negotiators return normally: they produce a response or an error, and never panic.",
  ["inputs"], "every header value (byte string) and every combination of the negotiation headers",
  "the tests feed a handful of well-formed or obviously invalid values; the claim is about every byte string a client can send",
  [PRO, APA, TRA, RVS, REA] + HDRS,
  [("header constructors report malformed values as errors", H+"*.go New*"), ("choosers propagate the errors", "httpd.Choose, rvsa1.Choose")],
  ["Negotiate's return or panic"])

p("C02", "A response describes exactly the body that it carries",
  "Every response that carries a body has its status written exactly once and before the body, a Content-Length equal to the number of bytes written, a body equal to the serialized form of the representation being served, and Content-Type, Content-Encoding (codings joined by commas), Content-Language, Content-Charset and, when a representation was chosen, Content-Location equal to that representation's own metadata. A proactively chosen representation is served with 201 when the context says a resource was created and 200 otherwise, a transparently chosen one with 200, a proactive refusal with 406, and a list of choices with 300.",
  ["inputs", "configurations"], "every representation metadata and body, every outcome of each negotiator, creation or not",
  "tests check a few of the headers of one response each; the claim covers every metadata value, body length and outcome",
  [PRO, TRA, REA],
  [("acceptable / notAcceptable", PRO), ("listResponse / choiceResponse", TRA), ("Negotiate", REA)],
  ["status, headers and body at the http.ResponseWriter"])

p("C03", "A failed negotiation leaves the response untouched",
  "When negotiation fails before the body is being written - a malformed header, a chooser that fails, a representation or list that cannot be serialized, too many variants - the error is returned and neither a header, a status nor a body has been written. When writing the body fails, that error is returned. When no error is returned, exactly one status has been written.",
  ["inputs", "fault_sequences"], "every failing step: header parsing, choosing, each serialization, each write",
  "tests inject a few single faults and only look at the returned error, not at what had already been written",
  [PRO, TRA, REA],
  [("serialize before responding", PRO+" acceptable, notAcceptable"), ("serialize before responding", TRA+" listResponse, choiceResponse"), ("serialize before responding", REA+" Negotiate")],
  ["returned error, calls on the http.ResponseWriter"])

p("C04", "Proactive negotiation never serves an excluded representation",
  "With strict mode on (the default), the representation served with 200 or 201 by proactive negotiation with the default algorithm is acceptable for every one of the Accept, Accept-Language, Accept-Charset and Accept-Encoding headers that the request has: the most specific range matching its media type, language, charset and each of its content codings exists and has a weight above 0. A representation that has no value for an attribute is acceptable for the corresponding header, one without content codings is treated as 'identity', and 'identity' is acceptable when no range mentions it unless '*' has weight 0.",
  ["inputs"], "every combination of ranges, weights and representations within the header grammars",
  "tests use one header at a time with one or two ranges; exclusion by weight 0, by a more specific range or by one of several codings needs combinations they do not sample",
  [PRO, APA] + HDRS,
  [("elimination of variants having a quality of 0", APA+" Choose"), ("most specific range", H+"accept*.go Match"), ("strict mode", PRO+" Negotiate")],
  ["status and body served"])

p("C05", "Proactive negotiation never refuses when something is acceptable",
  "When at least one representation is acceptable for all of the negotiation headers of the request, proactive negotiation with the default algorithm answers 200 (201 on creation) with one of them; it never answers 406 or an error, whatever the other representations and the order of the ranges.",
  ["inputs"], "every combination of well-formed ranges, weights and representations having at least one acceptable representation",
  "a false 406 shows only for particular combinations of ranges and representations",
  [PRO, APA] + HDRS,
  [("strict mode counts", PRO+" Negotiate"), ("elimination and filters", APA+" Choose")],
  ["status served"])

p("C06", "Proactive negotiation serves the best representation",
  "Among the acceptable representations the default proactive algorithm serves one that is not beaten by another on the first criterion on which they differ, in this order: source quality times media type weight, language weight, position of the matching language range (earlier listed is better), highest text/html 'level' parameter, charset weight, a charset other than ISO-8859-1, content coding weight (the lowest among its codings), and smallest serialized size. Weights and products are compared to three decimals.",
  ["inputs"], "every set of representations and every assignment of weights, languages, levels, charsets, codings and sizes",
  "each criterion has a test of its own with one ordering of the input; precedence between criteria, ties, and every order of the input are not sampled",
  [APA, "representation/set.go"] + HDRS,
  [("filters in order", APA+" ApacheHTTPD"), ("quality comparisons", H+"quality_value.go")],
  ["body served"])

p("C07", "Negotiation is repeatable and ties go to the first representation",
  "Negotiating the same request over the same representations always gives the same response, no matter what was negotiated before with the same negotiator. Representations that are equally good on every criterion are tied in favour of the one provided first, for the proactive and the transparent default algorithms.",
  ["inputs", "histories"], "every request and representation list (up to twelve), every preceding negotiation",
  "tests negotiate once per negotiator with distinguishable representations",
  [APA, RVS, PRO, TRA, "representation/set.go"],
  [("stateless negotiators", "proactive.Negotiator, transparent.Negotiator, reactive.Negotiator"), ("stable filtering", "representation/set.go Sort, Where")],
  ["response of repeated negotiations"])

p("C08", "Disabling strict mode for a header disregards it when unmet",
  "With strict mode disabled for Accept, Accept-Language or Accept-Charset, and no representation satisfying that header, the representation served is the one that would be served had the request not carried that header. With strict mode enabled for the header the response is 406, and other headers keep their effect either way.",
  ["inputs", "configurations"], "every strict mode configuration, every combination of satisfied and unsatisfied headers",
  "tests disable one header at a time with a mocked algorithm, and never look at the outcome with the default algorithm",
  [PRO, "proactive/proactive_options.go"],
  [("strict mode", PRO+" Negotiate"), ("options", "proactive/proactive_options.go DisableStrict*")],
  ["status and body served"])

p("C09", "Refusals and lists of choices describe every representation",
  "A 406 response of the proactive negotiator (with its body enabled), a 300 response of the reactive negotiator and a list response of the transparent negotiator carry a body that lists every representation provided, once each and in the order provided, with its content type, language, encodings, charset, features, location and source quality. With the 406 body disabled the 406 response has no body; a 406 body uses the list representation preferred by the request among those configured, and the configured default when none is acceptable.",
  ["inputs", "configurations"], "every list of representations and metadata, every list constructor configuration",
  "tests compare the length of the body with that of a list built by the same code",
  [PRO, REA, TRA, LIST],
  [("SetRepresentations", LIST), ("notAcceptable", PRO), ("listResponse", TRA)],
  ["body served"])

p("C10", "An absent preference header is the same as accepting anything",
  "For proactive negotiation with the default algorithm, a request without an Accept, Accept-Language, Accept-Charset or Accept-Encoding header gets the same response as the same request with that header being '*/*', '*', '*' and '*' respectively, whatever its other headers and the representations (having valid media types, and languages in the case of Accept-Language).",
  ["inputs"], "every set of representations, and every value of the other headers",
  "tests cover the absence of a header with single representations only",
  [PRO, APA] + HDRS,
  [("empty headers", APA+" accept*Quality"), ("defaults", PRO+" Negotiate")],
  ["response"])

p("C11", "Reactive negotiation offers every choice, or nothing at all",
  "Reactive negotiation answers 300 with a list produced by the configured list representation over exactly the representations provided, whatever the request headers. All three negotiators answer 204 without a body when there are no representations.",
  ["inputs", "configurations"], "every request and every list of representations including the empty one",
  "tests use one representation and one request",
  [REA, PRO, TRA], [("Negotiate", REA)], ["status and body"])

p("C12", "Transparent choices are made only when the user agent allows it",
  "A transparent negotiator serves a choice response (200, TCN: choice) only when the Negotiate header contains '*', '1.0' or 'guess-small' as a directive (in any letter case, position and occurrence of the header), the algorithm selected a variant, and the variant is a neighbor of the requested resource. In all other cases it serves a list response (300, TCN: list).",
  ["inputs"], "every Negotiate header, algorithm result and variant location",
  "tests use one directive at a time",
  [TRA, H+"negotiate.go", H+"negotiate_directive.go"],
  [("shouldChoose", TRA+" Negotiate"), ("Contains, ContainsRVSA", H+"negotiate.go")],
  ["status and TCN header"])

p("C13", "Only neighboring variants are served as choices",
  "A variant is served as a transparent choice only if its URL without the last path segment (along with query and fragment) equals the URL of the requested resource without its last path segment, where scheme and host compare without regard to letter case, a missing port is the default port of the scheme, and paths compare exactly. A selected variant meeting this is served.",
  ["inputs"], "every pair of resource and variant URLs",
  "tests use two URLs; the rule matters for all pairs, since serving a non-neighbor allows spoofing",
  [TRA], [("isNeighbor, sameURL", TRA+" Negotiate")], ["status and TCN header"])

p("C14", "guess-small choices stay within the threshold of the list",
  "When the Negotiate header contains 'guess-small', a choice response is served only if the serialized variant is smaller than the serialized list or at most the configured threshold of bytes (50 by default) larger than it; a selected neighboring variant meeting this is served as the choice.",
  ["inputs", "configurations"], "every size of variant and list, every threshold",
  "tests use two sizes far from the boundary",
  [TRA, "transparent/transparent_options.go"], [("guess-small", TRA+" Negotiate")], ["status and TCN header"])

p("C15", "The variant list limit is enforced exactly",
  "A transparent negotiator with a maximum of n variants (10 by default; values below 1 count as 1) fails with ErrVariantListSizeExceeded and writes nothing when given more than n variants, and never fails that way with n variants or fewer.",
  ["inputs", "configurations"], "every limit and every number of variants",
  "tests exceed one limit by one",
  [TRA, "transparent/transparent_options.go"], [("maximumVariantListSize", TRA+" Negotiate"), ("MaximumVariantListSize", "transparent/transparent_options.go")], ["error"])

p("C16", "RVSA/1.0 selects the best variant, and only a definite one",
  "The default transparent algorithm selects a variant whose overall quality - source quality times the weights of the most specific matching media type, charset and language range times its feature quality, to five decimals - is the highest, provided that it is above 0 and was determined without wildcards or absent headers for attributes the variant has; otherwise no variant is selected. An attribute that a variant does not have counts as 1, an unmatched one as 0.",
  ["inputs"], "every set of variants and every combination of weights, ranges and features",
  "tests have single variants for each factor; combinations of factors, ties and order of the variants are not sampled",
  [RVS] + HDRS, [("overallQuality, isDefinite", RVS+" Choose")], ["variant served, or list response"])

p("C17", "Transparent responses describe all variants in Alternates",
  "Every transparent list or choice response has an Alternates header with one description for each variant, in order, giving its URL, its source quality with three decimals, and its charset, features, language, length in bytes and type; a list response ends with a fallback that is the URL of the first variant, and a choice response has no fallback. TCN is 'list' for list responses and 'choice' for choice responses.",
  ["inputs"], "every list of variants and metadata",
  "tests compare the headers for one or two fixed variants",
  [TRA, H+"alternates.go", H+"tcn.go"], [("NewAlternates", H+"alternates.go")], ["Alternates and TCN headers"])

p("C18", "Weights are honoured to three decimals and validated",
  "For each of Accept, Accept-Language, Accept-Charset and Accept-Encoding, of two representations that differ only in the weight of the matching range, proactive negotiation serves the one whose weight is higher by even one thousandth, for all pairs of weights from 0 to 1. A weight that is negative, above 1 or not a number is reported as an error.",
  ["inputs"], "all pairs of weights 0.000 to 1.000 in every notation, and every malformed weight",
  "tests sample a few weights one decimal apart",
  [H+"quality_value.go", H+"media_range.go", H+"charset_range.go", H+"content_coding_range.go", H+"accept_language.go", APA],
  [("Round, Equals, GreaterThan", H+"quality_value.go"), ("NewQualityValue", H+"quality_value.go")], ["body served, error"])

p("C19", "Every valid preference header is accepted",
  "A request whose Accept, Accept-Language, Accept-Charset and Accept-Encoding headers are valid under the grammar of RFC 7231 (any token as charset; any valid weight, from '0', '0.' and '0.5' to '1.000', with optional whitespace around ';' and 'q' in either letter case; registered languages and content codings; no extension parameters without a value) is negotiated: none of the negotiators returns an error on account of its headers.",
  ["inputs"], "every header value generated by the grammar",
  "tests use the most common notation",
  HDRS, [("range grammars", H+"charset_range.go, content_coding_range.go, media_range.go, accept_language.go")], ["error"])

p("C20", "Ranges match what they describe, and the most specific one applies",
  "A media range matches a media type when type and subtype are equal regardless of letter case or are wildcards in the range, and every parameter of the range other than 'q' is present with the same value in the media type; charset and content coding ranges match when equal regardless of letter case, a language range matches the same language and those with the same primary subtag, but none that only begins with the same letters; and all of these match anything when they are '*'. When several ranges match, the one that applies is the most specific: type/subtype with parameters, then type/subtype, then type/*, then */*; a listed charset, coding or language before '*'; never one that is less specific merely because of its weight or position.",
  ["inputs"], "all ranges and values, all orders of the ranges and all weights",
  "tests match single ranges; the precedence between several ranges in every order is not sampled",
  [H+"media_range.go", H+"accept.go", H+"charset_range.go", H+"accept_charset.go", H+"content_coding_range.go", H+"accept_encoding.go", H+"accept_language.go"],
  [("Compatible, Precedence", H+"media_range.go"), ("Match", H+"accept*.go")], ["Compatible results, response of proactive negotiation"])

p("C21", "Feature predicates evaluate as RFC 2295 defines",
  "Against the features announced in Accept-Features, the predicate 'tag' is true iff the tag is supported, '!tag' iff the tag is announced as absent, 'tag=v' iff the tag is supported with value v, 'tag!=v' iff it is supported without value v, and 'tag=[n-m]' iff the highest numeric value of the supported tag lies between n (0 when missing) and m (unbounded when missing) inclusive. Tags compare without regard to letter case and quotes, values exactly. (Announcements that contradict each other, such as '!a' along with 'a=5', aren't determined.)",
  ["inputs"], "all feature sets, predicates, tag spellings and numbers",
  "tests evaluate a fixed table of predicates",
  [H+"feature_predicate.go", H+"feature_set.go", H+"feature_tag.go", H+"feature_expression.go", H+"accept_features.go"],
  [("Evaluate", H+"feature_predicate.go"), ("AsFeatureSets", H+"accept_features.go")], ["Evaluate results, variant selected"])

p("C22", "Feature lists degrade quality by the product of their elements",
  "The feature quality of a variant is the product over its feature list of each element's true-improvement factor when the element is true and false-degradation factor when it is false; a bag '[...]' is true iff one of its predicates is. Missing factors default as in RFC 2295: with neither, 1 and 0; with only a true factor, a false factor of 1; with only a false factor, a true factor of 1.",
  ["inputs"], "all feature lists, factors and feature sets",
  "tests evaluate single elements",
  [H+"feature_list.go", H+"feature_list_element.go", H+"feature_predicate.go"],
  [("QualityDegradation", H+"feature_list.go")], ["QualityDegradation"])

p("C23", "Malformed feature lists are errors, well-formed ones are not",
  "A feature list element that is not a predicate or a bag of predicates of the RFC 2295 grammar, optionally followed by ';' and its factors, is reported as an error and never silently accepted, dropped or a panic; every element of the grammar whose tags and values consist of letters, digits, '_', '-' and '.' is accepted and is printed in a form that parses to an element that evaluates the same.",
  ["inputs"], "all element texts up to the bound",
  "tests list a few invalid elements",
  [H+"feature_list.go", H+"feature_list_element.go", H+"feature_predicate.go"],
  [("NewFeatureList", H+"feature_list.go"), ("predicate grammars", H+"feature_predicate.go")], ["errors"])

p("C24", "Serialization and deserialization are inverse",
  "For every content type with a marshaller and unmarshaller and every list of supported content codings, decoding what was encoded gives back the original, however many others are encoded or decoded in between: codings are applied in the order listed and removed in the reverse order, 'identity' changes nothing anywhere in the list, and names of content types and codings are taken without regard to letter case and media type parameters.",
  ["inputs", "configurations"], "all bodies, all sequences of content codings, all configured marshallers and codings",
  "tests use single codings or one fixed order, and only compare the result for a fixed body",
  [BASE, "representation/reader_constructor.go", "representation/writer_constructor.go"],
  [("encode / decode", BASE)], ["Bytes, FromBytes"])

p("C25", "Serialization failures are always reported",
  "Serializing or deserializing with an unsupported content type or content coding fails with ErrUnsupportedContentType or ErrUnsupportedContentEncoding, and a failure of a marshaller, an encoder or decoder (on construction, on reading or writing, or on closing) is returned; in none of these cases is data returned as if it were complete.",
  ["inputs", "fault_sequences"], "every step that can fail, in every position of the list of codings",
  "tests have unsupported names only; failing encoders and decoders at each position are not sampled",
  [BASE], [("encode / decode", BASE)], ["Bytes, FromBytes"])

p("C26", "Negotiation does not write what concurrent negotiations share",
  "A negotiator and the representations given to it can be used by concurrent requests: negotiating writes to nothing but the response and memory of its own, so that no two negotiations in any interleaving conflict, each of them responds as it would on its own, and neither the request, its headers nor the representations are modified.",
  ["schedules", "inputs"], "every interleaving of concurrent negotiations with the same negotiator, request values and representations",
  "tests negotiate sequentially; an unsynchronised write shows only under particular schedules",
  [PRO, APA, TRA, RVS, REA] + HDRS, [("negotiators hold no mutable state", "proactive.Negotiator, transparent.Negotiator, reactive.Negotiator")], ["memory written by Negotiate"])

p("C27", "Metrics count each outcome exactly once",
  "Each proactive negotiation increments exactly one of its counters acceptable, not_acceptable, no_content and error, each reactive one exactly one of multiple_choices, no_content and error, and each transparent one its error counter iff an error is returned; the counter is that of the outcome the client saw, all tagged with the kind of negotiator.",
  ["inputs", "fault_sequences"], "every outcome, including failures in serializing and writing",
  "tests do not look at metrics",
  [PRO, REA, TRA], [("deferred counters", PRO+", "+REA+", "+TRA)], ["tally scope"])

p("C28", "One comma-separated header equals several headers",
  "For each of the negotiation headers, a header whose value is a comma-separated list is negotiated exactly as the same elements sent in several headers, and whitespace around the commas and letter case of names have no effect; commas within quoted strings do not separate.",
  ["inputs"], "all lists of elements and every way of splitting them into headers",
  "tests pass pre-split lists",
  [H+"list.go"] + HDRS[:12], [("splitList", H+"list.go")], ["response"])

p("C29", "The order of equally specific preferences has no effect",
  "Reordering the elements of Accept, Accept-Charset, Accept-Encoding or Accept-Features, when no two elements denote the same range or are equally specific and match the same representation, does not change the response; nor does reordering elements of Accept-Language that have different weights. Reordering the representations does not change which one is served, except among those that are equally good.",
  ["inputs"], "all permutations of header elements and representations",
  "tests use a single order",
  [APA, RVS] + HDRS, [("most specific match", H+"accept*.go Match")], ["response"])

p("C30", "Configured choosers and list constructors are honoured",
  "With a configured algorithm, a proactive or transparent negotiator serves exactly the representation the algorithm returns, reports the error it returns, and refuses (406) or lists (300) when it returns none; it hands the algorithm all of the representations in the order provided. List bodies are produced by the configured list constructors.",
  ["configurations", "inputs", "fault_sequences"], "every result of the algorithm and every configuration",
  "tests cover one result with one configuration each",
  [PRO, TRA, REA, "proactive/proactive_options.go", "transparent/transparent_options.go", "reactive/reactive_options.go"],
  [("options", "proactive/proactive_options.go"), ("Negotiate", PRO)], ["response"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
