From 22fc374a236c26d6caf09fb42d70aaa3611b0221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:42 +0000
Subject: [PATCH 01/37] fix: encode and decode every content coding in the
 listed order

---
 representation/base.go | 106 ++++++++++++++++++++---------------------
 1 file changed, 53 insertions(+), 53 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index abbc543..f03273a 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -38,6 +38,9 @@ var (
 	ErrUnsupportedContentType = errors.New("representation content type is not supported")
 )
 
+// identity is the content coding that indicates no encoding at all.
+const identity = "identity"
+
 var (
 	defaultUnmarshallers = map[string]Unmarshaller{
 		"application/json": json.Unmarshal,
@@ -167,44 +170,42 @@ func (r Base) Bytes(out interface{}) ([]byte, error) {
 		return b, err
 	}
 
-	encodings := r.ContentEncoding()
-	if len(encodings) < 1 || strings.ToLower(encodings[0]) == "identity" {
-		return b, nil
-	}
-
 	// encode.
 	return r.encode(b)
 }
 
-func (r *Base) encode(b []byte) (bb []byte, err error) {
-	var (
-		buf                bytes.Buffer
-		writer             io.WriteCloser = &closeableBuffer{&buf}
-		encodings                         = r.ContentEncoding()
-		writerConstructors                = defaultEncodingWriters
-	)
-
+// encode applies the content codings to the bytes provided, in the order that
+// the content codings are listed. The 'identity' content coding leaves the
+// bytes as they are.
+func (r *Base) encode(b []byte) ([]byte, error) {
+	writerConstructors := defaultEncodingWriters
 	if len(r.encodingWriters) > 0 {
 		writerConstructors = r.encodingWriters
 	}
 
-	for _, e := range encodings {
-		if _, ok := writerConstructors[strings.ToLower(e)]; !ok {
-			err = ErrUnsupportedContentEncoding
-			return
+	for _, e := range r.ContentEncoding() {
+		coding := strings.ToLower(e)
+		if coding == identity {
+			continue
 		}
-		if writer, err = writerConstructors[strings.ToLower(e)](writer); err != nil {
-			return
+		constructor, ok := writerConstructors[coding]
+		if !ok {
+			return nil, ErrUnsupportedContentEncoding
 		}
+		var buf bytes.Buffer
+		writer, err := constructor(&closeableBuffer{&buf})
+		if err != nil {
+			return nil, err
+		}
+		if _, err = writer.Write(b); err != nil {
+			return nil, err
+		}
+		if err = writer.Close(); err != nil {
+			return nil, err
+		}
+		b = buf.Bytes()
 	}
-	if _, err = writer.Write(b); err != nil {
-		return
-	}
-	if err = writer.Close(); err != nil {
-		return
-	}
-	bb = buf.Bytes()
-	return
+	return b, nil
 }
 
 // FromBytes constructs the representation from its serialized form.
@@ -221,46 +222,45 @@ func (r Base) FromBytes(b []byte, in interface{}) (err error) {
 	}
 
 	// decode.
-	encodings := r.ContentEncoding()
-	if len(encodings) > 0 && strings.ToLower(encodings[0]) != "identity" {
-		if b, err = r.decode(b); err != nil {
-			return
-		}
+	if b, err = r.decode(b); err != nil {
+		return
 	}
 
 	// deserialize.
 	return unmarshallers[strings.ToLower(ct)](b, in)
 }
 
-func (r *Base) decode(b []byte) (bb []byte, err error) {
-	var (
-		buf                              = bytes.NewBuffer(b)
-		reader             io.ReadCloser = &closeableBuffer{buf}
-		encodings                        = r.ContentEncoding()
-		readerConstructors               = defaultEncodingReaders
-	)
-
+// decode removes the content codings from the bytes provided, in the reverse
+// order that the content codings are listed.
+func (r *Base) decode(b []byte) ([]byte, error) {
+	readerConstructors := defaultEncodingReaders
 	if len(r.encodingReaders) > 0 {
 		readerConstructors = r.encodingReaders
 	}
 
+	encodings := r.ContentEncoding()
 	for idx := len(encodings) - 1; idx >= 0; idx-- {
-		e := encodings[idx]
-		if _, ok := readerConstructors[strings.ToLower(e)]; !ok {
-			err = ErrUnsupportedContentEncoding
-			return
+		coding := strings.ToLower(encodings[idx])
+		if coding == identity {
+			continue
 		}
-		if reader, err = readerConstructors[strings.ToLower(e)](reader); err != nil {
-			return
+		constructor, ok := readerConstructors[coding]
+		if !ok {
+			return nil, ErrUnsupportedContentEncoding
+		}
+		reader, err := constructor(&closeableBuffer{bytes.NewBuffer(b)})
+		if err != nil {
+			return nil, err
+		}
+		b, err = io.ReadAll(reader)
+		if cerr := reader.Close(); err == nil {
+			err = cerr
+		}
+		if err != nil {
+			return nil, err
 		}
-		defer func() {
-			err = reader.Close()
-		}()
-	}
-	if bb, err = io.ReadAll(reader); err != nil {
-		return
 	}
-	return
+	return b, nil
 }
 
 // closeableBuffer represents a closeable buffer.
-- 
2.43.0


From 33de4dbf5a392403108f49190d90c4bf719d0c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 02/37] fix: respond with no content when there are no variants
 to negotiate transparently

---
 transparent/transparent.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 98fc0bc..90d8024 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -131,6 +131,13 @@ func (n Negotiator) Negotiate(
 		return ErrVariantListSizeExceeded
 	}
 
+	if len(reps) == 0 {
+		status := http.StatusNoContent
+		ctx.ResponseWriter.WriteHeader(status)
+		n.logger.Info("no representations to negotiate", zap.Int("status", status))
+		return err
+	}
+
 	var negotiate header.Negotiate
 	if negotiate, err = header.NewNegotiate(ctx.Request.Header["Negotiate"]); err != nil {
 		return err
-- 
2.43.0


From 70c04fb41c45b9d99b3f151bec0c9861533b0ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:44 +0000
Subject: [PATCH 03/37] fix: report an invalid feature list as an error instead
 of panicking

---
 transparent/rvsa.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/transparent/rvsa.go b/transparent/rvsa.go
index 605609e..00056e4 100644
--- a/transparent/rvsa.go
+++ b/transparent/rvsa.go
@@ -79,7 +79,10 @@ func (c rvsa1) Choose(
 		qt, twc := c.acceptQuality(rep, a)
 		qc, cwc := c.acceptCharsetQuality(rep, ac)
 		ql, lwc := c.acceptLanguageQuality(rep, al)
-		qf, fwc := c.acceptFeatureQuality(rep, af)
+		qf, fwc, err := c.acceptFeatureQuality(rep, af)
+		if err != nil {
+			return nil, err
+		}
 
 		isDefinite := !twc && !cwc && !lwc && !fwc
 		variants = append(variants, representation.RankedRepresentation{
@@ -194,22 +197,22 @@ func (c rvsa1) acceptCharsetQuality(
 func (c rvsa1) acceptFeatureQuality(
 	rep representation.Representation,
 	acceptFeature header.AcceptFeatures,
-) (header.QualityValue, bool) {
+) (header.QualityValue, bool, error) {
 	var usedWildcard bool
 	if len(rep.ContentFeatures()) == 0 {
-		return header.QualityValueMaximum, false
+		return header.QualityValueMaximum, false, nil
 	}
 	if acceptFeature.IsEmpty() {
-		return header.QualityValueMaximum, true
+		return header.QualityValueMaximum, true, nil
 	}
 	featureList, err := header.NewFeatureList(rep.ContentFeatures())
 	if err != nil {
-		panic(err) // TODO(FREER)
+		return header.QualityValueMinimum, false, err
 	}
 	degradation := featureList.QualityDegradation(
 		acceptFeature.AsFeatureSets(),
 	)
-	return header.QualityValue(degradation), usedWildcard // TODO(FREER)
+	return header.QualityValue(degradation), usedWildcard, nil // TODO(FREER)
 }
 
 func (c rvsa1) overallQuality(v representation.RankedRepresentation) float32 {
-- 
2.43.0


From 5b4fcfa2f634191e97f16dae9ddebba86ca35371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:17 +0000
Subject: [PATCH 04/37] fix: accept predicate bags with improvement and
 degradation factors in feature lists

---
 internal/header/feature_list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/header/feature_list.go b/internal/header/feature_list.go
index e87982a..05c3f65 100644
--- a/internal/header/feature_list.go
+++ b/internal/header/feature_list.go
@@ -28,7 +28,7 @@ func NewFeatureList(features []string) (FeatureList, error) {
 	for _, feature := range features {
 		var le FeatureListElement
 		var err error
-		if strings.HasPrefix(feature, "[") && strings.HasSuffix(feature, "]") {
+		if strings.HasPrefix(feature, "[") {
 			if le, err = NewPredicateBagListElement(feature); err != nil {
 				return list, err
 			}
-- 
2.43.0


From 9768669e93242594026ac9f0db910f3b8a9593d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:20 +0000
Subject: [PATCH 05/37] fix: provide the tag value of equality feature
 expressions

---
 internal/header/feature_expression.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/header/feature_expression.go b/internal/header/feature_expression.go
index c735fb1..f972d8d 100644
--- a/internal/header/feature_expression.go
+++ b/internal/header/feature_expression.go
@@ -160,6 +160,7 @@ func (e FeatureExpression) parseValue() (val FeatureTagValue, ok bool) {
 			), true
 			return
 		}
+		val, ok = FeatureTagValue(s[1]), true
 	}
 	return
 }
-- 
2.43.0


From 05b5ed1936de6d5ba0c1c500aecb2503b57aace3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:59 +0000
Subject: [PATCH 06/37] fix: evaluate open-ended and non-numeric feature ranges

---
 internal/header/feature_predicate.go | 21 ++++++++++++++-------
 internal/header/feature_tag.go       |  8 ++++++++
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/internal/header/feature_predicate.go b/internal/header/feature_predicate.go
index 4e7f2ca..e7b840c 100644
--- a/internal/header/feature_predicate.go
+++ b/internal/header/feature_predicate.go
@@ -18,8 +18,8 @@ package header
 import (
 	"errors"
 	"fmt"
+	"math"
 	"regexp"
-	"strconv"
 	"strings"
 )
 
@@ -267,21 +267,28 @@ func (w within) Evaluate(supported, unsupported FeatureSet) bool {
 		return false
 	}
 
-	low, _ := strconv.Atoi(w.l.String())
-	high, _ := strconv.Atoi(w.h.String())
+	// a missing lower bound is zero, and a missing upper bound is infinity.
+	low, high := uint64(0), uint64(math.MaxUint64)
+	if len(w.l) > 0 {
+		low, _ = w.l.number()
+	}
+	if len(w.h) > 0 {
+		high, _ = w.h.number()
+	}
 
 	// ensure that the highest numeric value for the feature in the set falls
 	// within the range inclusively.
-	var highest int
+	var highest uint64
+	var hasNumber bool
 	for _, val := range sValues {
-		if val.IsNumeric() && w.l.IsNumeric() && w.h.IsNumeric() {
-			num, _ := strconv.Atoi(val.String())
+		if num, ok := val.number(); ok {
+			hasNumber = true
 			if num > highest {
 				highest = num
 			}
 		}
 	}
-	return highest >= low && highest <= high
+	return hasNumber && highest >= low && highest <= high
 }
 
 // String provides the textual representation of the predicate.
diff --git a/internal/header/feature_tag.go b/internal/header/feature_tag.go
index 98d9d8b..02e1a4a 100644
--- a/internal/header/feature_tag.go
+++ b/internal/header/feature_tag.go
@@ -16,6 +16,7 @@
 package header
 
 import (
+	"errors"
 	"strconv"
 	"strings"
 )
@@ -104,6 +105,13 @@ func (t FeatureTagValue) IsNumeric() bool {
 	return err == nil
 }
 
+// number provides the number that the feature tag value denotes, provided that
+// it consists of digits only. Numbers that are too large are capped.
+func (t FeatureTagValue) number() (uint64, bool) {
+	n, err := strconv.ParseUint(t.String(), 10, 64)
+	return n, err == nil || errors.Is(err, strconv.ErrRange)
+}
+
 // String provides the textual representation of the feature tag value.
 func (t FeatureTagValue) String() string {
 	return string(t)
-- 
2.43.0


From 25930a7c759b7a8a44e3f373d18b9cafab44e4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:01 +0000
Subject: [PATCH 07/37] fix: reject quality values that are not numbers

---
 internal/header/quality_value.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/header/quality_value.go b/internal/header/quality_value.go
index b359bc7..a3cc6fa 100644
--- a/internal/header/quality_value.go
+++ b/internal/header/quality_value.go
@@ -51,9 +51,10 @@ var ErrInvalidQualityValue = errors.New("quality range must be between 0.0 and 1
 // where 0.001 is the least preferred and 1 is the most preferred; a
 // value of 0 means "not acceptable".
 func NewQualityValue(qvalue float32) (QualityValue, error) {
+	isNaN := qvalue != qvalue
 	tooLow, tooHigh := qvalue < QualityValueMinimum.Float(),
 		qvalue > QualityValueMaximum.Float()
-	if tooLow || tooHigh {
+	if isNaN || tooLow || tooHigh {
 		return QualityValue(0), ErrInvalidQualityValue
 	}
 	return QualityValue(qvalue), nil
-- 
2.43.0


From 248ef4acf0a4c46da9cfcea99082a5a32e62bf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:08 +0000
Subject: [PATCH 08/37] fix: match media ranges having both parameters and a
 quality value

---
 internal/header/media_range.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/header/media_range.go b/internal/header/media_range.go
index 0dabc44..719a219 100644
--- a/internal/header/media_range.go
+++ b/internal/header/media_range.go
@@ -151,6 +151,11 @@ func (mr MediaRange) Compatible(mediaType string) (bool, error) {
 	matchedParams := true
 	if mr.HasParams() {
 		for k, v := range mr.params {
+			// the quality value weighs the media range, and isn't something
+			// that the media type has.
+			if k == "q" {
+				continue
+			}
 			if vv, ok := params[k]; !ok || v != vv {
 				matchedParams = false
 				break
-- 
2.43.0


From da61ff598311fcd50e44f2665f0329e114b1df8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:36 +0000
Subject: [PATCH 09/37] fix: give precedence to the most specific range that
 matches

---
 internal/header/accept.go          | 21 +++++++++++++++++----
 internal/header/accept_charset.go  | 17 ++++++++++++-----
 internal/header/accept_encoding.go | 12 ++++++++++++
 internal/header/accept_language.go | 21 +++++++++++++++------
 internal/header/language_range.go  | 12 ++++++++++++
 internal/header/media_range.go     | 26 ++++++++++++++++++++++++++
 proactive/apache_httpd.go          | 24 +++++++-----------------
 transparent/rvsa.go                | 30 ++++++++++--------------------
 8 files changed, 111 insertions(+), 52 deletions(-)

diff --git a/internal/header/accept.go b/internal/header/accept.go
index 43d2004..261a38e 100644
--- a/internal/header/accept.go
+++ b/internal/header/accept.go
@@ -74,17 +74,30 @@ func (a Accept) MediaRanges() []MediaRange {
 	return a
 }
 
-// Compatible determines if the provided media type is compatible with any
-// of the media ranges within the Accept header value.
-func (a Accept) Compatible(mediaType string) (c bool, err error) {
+// Match provides the media range that applies to the provided media type,
+// which is the most specific one that is compatible with it.
+//
+// https://tools.ietf.org/html/rfc7231#section-5.3.2
+func (a Accept) Match(mediaType string) (match MediaRange, ok bool, err error) {
 	for _, r := range a.MediaRanges() {
-		if c, err = r.Compatible(mediaType); err != nil || c {
+		var c bool
+		if c, err = r.Compatible(mediaType); err != nil {
 			return
 		}
+		if c && (!ok || r.moreSpecific(match)) {
+			match, ok = r, true
+		}
 	}
 	return
 }
 
+// Compatible determines if the provided media type is acceptable for the
+// media range that applies to it within the Accept header value.
+func (a Accept) Compatible(mediaType string) (bool, error) {
+	match, ok, err := a.Match(mediaType)
+	return ok && match.QualityValue() > QualityValueMinimum, err
+}
+
 // IsEmpty indicates if the Accept header is empty.
 func (a Accept) IsEmpty() bool {
 	return len(a) == len(EmptyAccept)
diff --git a/internal/header/accept_charset.go b/internal/header/accept_charset.go
index d79f13c..a0743ab 100644
--- a/internal/header/accept_charset.go
+++ b/internal/header/accept_charset.go
@@ -71,17 +71,24 @@ func (c AcceptCharset) CharsetRanges() []CharsetRange {
 	return c
 }
 
-// Compatible determines if the provided charset is compatible with any
-// of the charset ranges within the Accept-Charset header value.
-func (c AcceptCharset) Compatible(charset string) (cc bool, err error) {
+// Match provides the charset range that applies to the provided charset,
+// where a charset that is listed takes precedence over the wildcard.
+func (c AcceptCharset) Match(charset string) (match CharsetRange, ok bool) {
 	for _, r := range c.CharsetRanges() {
-		if cc = r.Compatible(charset); err != nil || cc {
-			return
+		if r.Compatible(charset) && (!ok || match.IsWildcard() && r.IsCharset()) {
+			match, ok = r, true
 		}
 	}
 	return
 }
 
+// Compatible determines if the provided charset is acceptable for the charset
+// range that applies to it within the Accept-Charset header value.
+func (c AcceptCharset) Compatible(charset string) (bool, error) {
+	match, ok := c.Match(charset)
+	return ok && match.QualityValue() > QualityValueMinimum, nil
+}
+
 // IsEmpty indicates if the Accept-Charset header is empty.
 func (c AcceptCharset) IsEmpty() bool {
 	return len(c) == len(EmptyAcceptCharset)
diff --git a/internal/header/accept_encoding.go b/internal/header/accept_encoding.go
index fbef4ff..4be6be3 100644
--- a/internal/header/accept_encoding.go
+++ b/internal/header/accept_encoding.go
@@ -68,6 +68,18 @@ func (e AcceptEncoding) CodingRanges() []ContentCodingRange {
 	return e
 }
 
+// Match provides the content coding range that applies to the provided content
+// coding, where a content coding that is listed takes precedence over the
+// wildcard.
+func (e AcceptEncoding) Match(coding string) (match ContentCodingRange, ok bool) {
+	for _, r := range e.CodingRanges() {
+		if r.Compatible(coding) && (!ok || match.IsWildcard() && !r.IsWildcard()) {
+			match, ok = r, true
+		}
+	}
+	return
+}
+
 // IsEmpty indicates if the Accept-Encoding header is empty.
 func (e AcceptEncoding) IsEmpty() bool {
 	return len(e) == len(EmptyAcceptEncoding)
diff --git a/internal/header/accept_language.go b/internal/header/accept_language.go
index ac04d4c..3d3179a 100644
--- a/internal/header/accept_language.go
+++ b/internal/header/accept_language.go
@@ -83,17 +83,26 @@ func (l AcceptLanguage) LanguageRanges() []LanguageRange {
 	return l
 }
 
-// Compatible determines if the provided language is compatible with any
-// of the language ranges within the Accept-Language header value.
-func (l AcceptLanguage) Compatible(language string) (c bool, err error) {
-	for _, r := range l.LanguageRanges() {
-		if c = r.Compatible(language); err != nil || c {
-			return
+// Match provides the language range that applies to the provided language,
+// along with its position. A language range that is the same language takes
+// precedence, while the wildcard applies when there are no others.
+func (l AcceptLanguage) Match(language string) (match LanguageRange, idx int, ok bool) {
+	var highest int
+	for i, r := range l.LanguageRanges() {
+		if p := r.precedence(language); r.Compatible(language) && (!ok || p > highest) {
+			match, idx, ok, highest = r, i, true, p
 		}
 	}
 	return
 }
 
+// Compatible determines if the provided language is acceptable for the language
+// range that applies to it within the Accept-Language header value.
+func (l AcceptLanguage) Compatible(language string) (bool, error) {
+	match, _, ok := l.Match(language)
+	return ok && match.QualityValue() > QualityValueMinimum, nil
+}
+
 // String provides a textual representation of the Accept-Language header.
 func (l AcceptLanguage) String() string {
 	var languageRanges []string
diff --git a/internal/header/language_range.go b/internal/header/language_range.go
index fed00d4..b8177a2 100644
--- a/internal/header/language_range.go
+++ b/internal/header/language_range.go
@@ -114,6 +114,18 @@ func (lr LanguageRange) Compatible(tag string) bool {
 	return i != 0
 }
 
+// precedence determines how specific the language range is for the provided
+// language.
+func (lr LanguageRange) precedence(tag string) int {
+	if lr.IsWildcard() {
+		return 0
+	}
+	if t, err := language.Parse(tag); err == nil && t == lr.tag {
+		return 2
+	}
+	return 1
+}
+
 // String provides a textual representation of the language range.
 func (lr LanguageRange) String() string {
 	return fmt.Sprintf("%s;q=%s", lr.lrange, lr.QualityValue().String())
diff --git a/internal/header/media_range.go b/internal/header/media_range.go
index 719a219..8a17ec5 100644
--- a/internal/header/media_range.go
+++ b/internal/header/media_range.go
@@ -177,6 +177,32 @@ func (mr MediaRange) Precedence() int {
 	return 2 + len(mr.params)
 }
 
+// moreSpecific determines if the media range is more specific than the one
+// provided. The quality value has no bearing on how specific a media range is.
+func (mr MediaRange) moreSpecific(other MediaRange) bool {
+	wildcards := func(r MediaRange) (count int) {
+		if r.IsTypeWildcard() {
+			count++
+		}
+		if r.IsSubTypeWildcard() {
+			count++
+		}
+		return
+	}
+	params := func(r MediaRange) (count int) {
+		for k := range r.params {
+			if k != "q" {
+				count++
+			}
+		}
+		return
+	}
+	if w, ow := wildcards(mr), wildcards(other); w != ow {
+		return w < ow
+	}
+	return params(mr) > params(other)
+}
+
 // String provides the textual representation of the media range.
 func (mr MediaRange) String() string {
 	var params []string
diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index d2237af..56d9b41 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -294,12 +294,8 @@ func (c httpd) acceptQuality(
 	if rep.ContentType() == "" || accept.IsEmpty() {
 		qt = header.QualityValueMaximum
 	} else {
-		for _, mr := range accept.MediaRanges() {
-			compatible, err := mr.Compatible(rep.ContentType())
-			if compatible && err == nil {
-				qt = mr.QualityValue()
-				break
-			}
+		if mr, ok, err := accept.Match(rep.ContentType()); ok && err == nil {
+			qt = mr.QualityValue()
 		}
 	}
 	return qt
@@ -315,11 +311,8 @@ func (c httpd) acceptCharsetQuality(
 	if rep.ContentCharset() == "" || acceptCharset.IsEmpty() {
 		qc = header.QualityValueMaximum
 	} else {
-		for _, c := range acceptCharset.CharsetRanges() {
-			if c.Compatible(rep.ContentCharset()) {
-				qc = c.QualityValue()
-				break
-			}
+		if c, ok := acceptCharset.Match(rep.ContentCharset()); ok {
+			qc = c.QualityValue()
 		}
 	}
 	return qc
@@ -336,12 +329,9 @@ func (c httpd) acceptLanguageQuality(
 	if rep.ContentLanguage() == "" || acceptLanguage.IsEmpty() {
 		ql = header.QualityValueMaximum
 	} else {
-		for idx, lr := range acceptLanguage {
-			if lr.Compatible(rep.ContentLanguage()) {
-				ql = lr.QualityValue()
-				los = len(acceptLanguage) - idx
-				break
-			}
+		if lr, idx, ok := acceptLanguage.Match(rep.ContentLanguage()); ok {
+			ql = lr.QualityValue()
+			los = len(acceptLanguage) - idx
 		}
 	}
 	return ql, los
diff --git a/transparent/rvsa.go b/transparent/rvsa.go
index 00056e4..abd5a07 100644
--- a/transparent/rvsa.go
+++ b/transparent/rvsa.go
@@ -131,14 +131,10 @@ func (c rvsa1) acceptQuality(
 		return header.QualityValueMaximum, true
 	}
 	qt := header.QualityValueMinimum
-	for _, mr := range accept.MediaRanges() {
-		compatible, err := mr.Compatible(rep.ContentType())
-		if compatible && err == nil {
-			qt = mr.QualityValue()
-			if mr.Type() == "*" || mr.SubType() == "*" {
-				usedWildcard = true
-			}
-			break
+	if mr, ok, err := accept.Match(rep.ContentType()); ok && err == nil {
+		qt = mr.QualityValue()
+		if mr.Type() == "*" || mr.SubType() == "*" {
+			usedWildcard = true
 		}
 	}
 	return qt, usedWildcard
@@ -158,12 +154,9 @@ func (c rvsa1) acceptLanguageQuality(
 		return header.QualityValueMaximum, true
 	}
 	ql := header.QualityValueMinimum
-	for _, lr := range acceptLanguage {
-		if lr.Compatible(rep.ContentLanguage()) {
-			ql = lr.QualityValue()
-			usedWildcard = lr.IsWildcard()
-			break
-		}
+	if lr, _, ok := acceptLanguage.Match(rep.ContentLanguage()); ok {
+		ql = lr.QualityValue()
+		usedWildcard = lr.IsWildcard()
 	}
 	return ql, usedWildcard
 }
@@ -182,12 +175,9 @@ func (c rvsa1) acceptCharsetQuality(
 		return header.QualityValueMaximum, true
 	}
 	qc := header.QualityValueMinimum
-	for _, c := range acceptCharset.CharsetRanges() {
-		if c.Compatible(rep.ContentCharset()) {
-			qc = c.QualityValue()
-			usedWildcard = c.IsWildcard()
-			break
-		}
+	if c, ok := acceptCharset.Match(rep.ContentCharset()); ok {
+		qc = c.QualityValue()
+		usedWildcard = c.IsWildcard()
 	}
 	return qc, usedWildcard
 }
-- 
2.43.0


From 9bc682b5075521324e8b61483ccaf783b90cd481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 10/37] fix: require every content coding of a representation
 to be acceptable

---
 proactive/apache_httpd.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index 56d9b41..9802c98 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -343,17 +343,29 @@ func (c httpd) acceptEncodingQuality(
 	rep representation.Representation,
 	acceptEncoding header.AcceptEncoding,
 ) header.QualityValue {
-	if len(rep.ContentEncoding()) == 0 || acceptEncoding.IsEmpty() {
+	if acceptEncoding.IsEmpty() {
 		return header.QualityValueMaximum
 	}
-	for _, c := range acceptEncoding.CodingRanges() {
-		for _, e := range rep.ContentEncoding() { // TODO(FREER)
-			if c.Compatible(e) {
-				return c.QualityValue()
-			}
+	codings := rep.ContentEncoding()
+	if len(codings) == 0 {
+		codings = []string{"identity"}
+	}
+	// the user agent has to accept each one of the codings, so the lowest
+	// quality is the one that counts.
+	qe := header.QualityValueMaximum
+	for _, coding := range codings {
+		q := header.QualityValueMinimum
+		if c, ok := acceptEncoding.Match(coding); ok {
+			q = c.QualityValue()
+		} else if strings.EqualFold(coding, "identity") {
+			// identity is acceptable unless it is excluded.
+			q = header.QualityValueMaximum
+		}
+		if q < qe {
+			qe = q
 		}
 	}
-	return header.QualityValueMinimum
+	return qe
 }
 
 type hwl struct {
-- 
2.43.0


From 70a367e8776d7245682e60421e8ef60ff225bd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:01 +0000
Subject: [PATCH 11/37] fix: prefer the language that is listed first

---
 proactive/apache_httpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index 9802c98..a3dcced 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -245,7 +245,7 @@ var (
 	// bestLanguageOrder selects the variants with best language order score.
 	bestLanguageOrder filter = func(variants representation.Set) (representation.Set, error) {
 		variants.Sort(func(i, j int) bool {
-			return variants[i].LanguageOrderScore < variants[j].LanguageOrderScore
+			return variants[i].LanguageOrderScore > variants[j].LanguageOrderScore
 		})
 		highest := variants.First()
 		return variants.Where(func(v representation.RankedRepresentation) bool {
-- 
2.43.0


From 395cc95a44ddfb209a3a911c3c43f4f31540f139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 12/37] fix: select only the variants having the highest level

---
 proactive/apache_httpd.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index a3dcced..126bf11 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -276,7 +276,9 @@ var (
 				return htmlWithLevel[i].l > htmlWithLevel[j].l
 			})
 			for _, v := range htmlWithLevel {
-				htmlVariants = append(htmlVariants, v.v)
+				if v.l == htmlWithLevel[0].l {
+					htmlVariants = append(htmlVariants, v.v)
+				}
 			}
 			return htmlVariants, nil
 		}
-- 
2.43.0


From 4c16ac12f5bb039a392431355bd9c3edbbdbcb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 13/37] fix: split header values into their comma-separated
 elements

---
 internal/header/accept.go          |  2 +-
 internal/header/accept_charset.go  |  2 +-
 internal/header/accept_encoding.go |  2 +-
 internal/header/accept_features.go |  2 +-
 internal/header/list.go            | 53 ++++++++++++++++++++++++++++++
 internal/header/negotiate.go       |  2 +-
 6 files changed, 58 insertions(+), 5 deletions(-)
 create mode 100644 internal/header/list.go

diff --git a/internal/header/accept.go b/internal/header/accept.go
index 261a38e..93ffcad 100644
--- a/internal/header/accept.go
+++ b/internal/header/accept.go
@@ -49,7 +49,7 @@ func NewAccept(accept []string) (Accept, error) {
 
 	// parse media ranges
 	var mediaRanges []MediaRange
-	for _, m := range accept {
+	for _, m := range splitList(accept) {
 		mediaRange, err := parseMediaRange(m)
 		if err != nil {
 			return EmptyAccept, err
diff --git a/internal/header/accept_charset.go b/internal/header/accept_charset.go
index a0743ab..2da98a6 100644
--- a/internal/header/accept_charset.go
+++ b/internal/header/accept_charset.go
@@ -50,7 +50,7 @@ func NewAcceptCharset(acceptCharset []string) (AcceptCharset, error) {
 		return EmptyAcceptCharset, nil
 	}
 	var charsets []CharsetRange
-	for _, c := range acceptCharset {
+	for _, c := range splitList(acceptCharset) {
 		charset, err := NewCharsetRange(c)
 		if err != nil {
 			return EmptyAcceptCharset, err
diff --git a/internal/header/accept_encoding.go b/internal/header/accept_encoding.go
index 4be6be3..f37f802 100644
--- a/internal/header/accept_encoding.go
+++ b/internal/header/accept_encoding.go
@@ -47,7 +47,7 @@ func NewAcceptEncoding(acceptEncoding []string) (AcceptEncoding, error) {
 		return EmptyAcceptEncoding, nil
 	}
 	var contentCodings []ContentCodingRange
-	for _, cc := range acceptEncoding {
+	for _, cc := range splitList(acceptEncoding) {
 		coding, err := NewContentCodingRange(cc)
 		if err != nil {
 			return EmptyAcceptEncoding, err
diff --git a/internal/header/accept_features.go b/internal/header/accept_features.go
index 410369b..590ce83 100644
--- a/internal/header/accept_features.go
+++ b/internal/header/accept_features.go
@@ -46,7 +46,7 @@ func NewAcceptFeatures(acceptFeatures []string) (AcceptFeatures, error) {
 		return EmptyAcceptFeatures, nil
 	}
 	var expressions []FeatureExpression
-	for _, e := range acceptFeatures {
+	for _, e := range splitList(acceptFeatures) {
 		expressions = append(expressions, FeatureExpression(e))
 	}
 	return AcceptFeatures(expressions), nil
diff --git a/internal/header/list.go b/internal/header/list.go
new file mode 100644
index 0000000..0bb1891
--- /dev/null
+++ b/internal/header/list.go
@@ -0,0 +1,53 @@
+/* Copyright 2020 Freerware
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+package header
+
+import "strings"
+
+// splitList splits the values of a header into the comma-separated elements
+// they contain, since a header occurring several times is equivalent to one
+// having all of the elements. Commas within quoted strings are not separators,
+// and empty elements are ignored unless the value has no other elements.
+//
+// https://tools.ietf.org/html/rfc7230#section-7
+func splitList(values []string) []string {
+	var elements []string
+	for _, value := range values {
+		var list []string
+		add := func(element string) {
+			if element = strings.Trim(element, " \t"); len(element) > 0 {
+				list = append(list, element)
+			}
+		}
+		start, quoted := 0, false
+		for i := 0; i < len(value); i++ {
+			switch c := value[i]; {
+			case c == '\\' && quoted:
+				i++
+			case c == '"':
+				quoted = !quoted
+			case c == ',' && !quoted:
+				add(value[start:i])
+				start = i + 1
+			}
+		}
+		if add(value[start:]); len(list) == 0 {
+			list = append(list, "")
+		}
+		elements = append(elements, list...)
+	}
+	return elements
+}
diff --git a/internal/header/negotiate.go b/internal/header/negotiate.go
index c3250db..d1de18c 100644
--- a/internal/header/negotiate.go
+++ b/internal/header/negotiate.go
@@ -34,7 +34,7 @@ type Negotiate []NegotiateDirective
 // NewNegotiate constructs a Negotiate header with the provided directives.
 func NewNegotiate(directives []string) (Negotiate, error) {
 	var dirs []NegotiateDirective
-	for _, d := range directives {
+	for _, d := range splitList(directives) {
 		directive, err := NewNegotiateDirective(d)
 		if err != nil {
 			return EmptyNegotiateHeader, err
-- 
2.43.0


From 43c646ea0a227fc2f4c2f9b3d06be21ed82ca9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:23 +0000
Subject: [PATCH 14/37] fix: honour the wildcard and weights of zero within
 Accept-Language

---
 internal/header/accept_language.go | 60 +++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/internal/header/accept_language.go b/internal/header/accept_language.go
index 3d3179a..8087922 100644
--- a/internal/header/accept_language.go
+++ b/internal/header/accept_language.go
@@ -18,6 +18,7 @@ package header
 import (
 	"fmt"
 	"sort"
+	"strconv"
 	"strings"
 
 	"golang.org/x/text/language"
@@ -48,26 +49,59 @@ func NewAcceptLanguage(acceptLanguage []string) (AcceptLanguage, error) {
 	if len(acceptLanguage) == 0 {
 		return EmptyAcceptLanguage, nil
 	}
-	tags, qValues, err := language.ParseAcceptLanguage(strings.Join(acceptLanguage, ","))
-	if err != nil {
-		return EmptyAcceptLanguage, err
-	}
-
 	var ranges []LanguageRange
-	for i := 0; i < len(tags); i++ {
-		qv, err := NewQualityValue(qValues[i])
+	for _, element := range splitList(acceptLanguage) {
+		if len(element) == 0 {
+			continue
+		}
+		lr, err := parseLanguageRange(element)
 		if err != nil {
 			return EmptyAcceptLanguage, err
 		}
-		ranges = append(ranges, LanguageRange{
-			lrange: tags[i].String() + ";q=" + qv.String(),
-			tag:    tags[i],
-			qValue: qv,
-		})
+		ranges = append(ranges, lr)
 	}
+	sort.SliceStable(ranges, func(first, second int) bool {
+		return ranges[first].QualityValue() > ranges[second].QualityValue()
+	})
 	return AcceptLanguage(ranges), nil
 }
 
+// parseLanguageRange parses a single language range along with its weight,
+// including the wildcard and weights of zero.
+func parseLanguageRange(element string) (LanguageRange, error) {
+	r, weight, hasWeight := strings.Cut(element, ";")
+	lr := LanguageRange{
+		lrange: strings.Trim(r, " \t"),
+		tag:    language.Und,
+		qValue: QualityValueMaximum,
+	}
+	if !lr.IsWildcard() {
+		tags, _, err := language.ParseAcceptLanguage(lr.lrange)
+		if err != nil {
+			return LanguageRange{}, err
+		}
+		if len(tags) != 1 {
+			return LanguageRange{}, ErrEmptyLanguageRange
+		}
+		lr.tag = tags[0]
+		lr.lrange = lr.tag.String()
+	}
+	if hasWeight {
+		name, q, _ := strings.Cut(weight, "=")
+		if strings.ToLower(strings.Trim(name, " \t")) != "q" {
+			return LanguageRange{}, ErrInvalidQualityValue
+		}
+		f, err := strconv.ParseFloat(strings.Trim(q, " \t"), 32)
+		if err != nil {
+			return LanguageRange{}, err
+		}
+		if lr.qValue, err = NewQualityValue(float32(f)); err != nil {
+			return LanguageRange{}, err
+		}
+	}
+	return lr, nil
+}
+
 // IsEmpty indicates if the Accept-Language header is empty.
 func (l AcceptLanguage) IsEmpty() bool {
 	return len(l) == len(EmptyAcceptLanguage)
@@ -107,7 +141,7 @@ func (l AcceptLanguage) Compatible(language string) (bool, error) {
 func (l AcceptLanguage) String() string {
 	var languageRanges []string
 	for _, lr := range l {
-		languageRanges = append(languageRanges, fmt.Sprintf("%s;q=%s", lr.tag.String(), lr.QualityValue().String()))
+		languageRanges = append(languageRanges, lr.String())
 	}
 	return fmt.Sprintf("%s: %s", headerAcceptLanguage, strings.Join(languageRanges, ","))
 }
-- 
2.43.0


From 89da608da059fc86eaac274b92c06211cea3dbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 15/37] fix: consider representations that lack an attribute to
 be acceptable

---
 proactive/apache_httpd.go |  3 +++
 proactive/proactive.go    | 36 +++++++++++++++++++++++-------------
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index 126bf11..8384026 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -257,6 +257,9 @@ var (
 	bestLevel filter = func(variants representation.Set) (representation.Set, error) {
 		var htmlWithLevel []hwl
 		for _, v := range variants {
+			if v.ContentType() == "" {
+				continue
+			}
 			mt, p, err := mime.ParseMediaType(v.ContentType())
 			if err != nil {
 				return nil, err
diff --git a/proactive/proactive.go b/proactive/proactive.go
index 543b552..4f7681f 100644
--- a/proactive/proactive.go
+++ b/proactive/proactive.go
@@ -193,23 +193,33 @@ func (n Negotiator) Negotiate(
 		}
 	}
 	for _, r := range reps {
-		var c bool
-		if c, err = accept.Compatible(r.ContentType()); err != nil {
-			return err
-		} else if !c {
-			ac++
+		// a header has no say on what the representation doesn't have, and
+		// neither does a header that is empty.
+		if len(r.ContentType()) > 0 && !accept.IsEmpty() {
+			var c bool
+			if c, err = accept.Compatible(r.ContentType()); err != nil {
+				return err
+			} else if !c {
+				ac++
+			}
 		}
 
-		if c, err = acceptLanguage.Compatible(r.ContentLanguage()); err != nil {
-			return err
-		} else if !c {
-			alc++
+		if len(r.ContentLanguage()) > 0 && !acceptLanguage.IsEmpty() {
+			var c bool
+			if c, err = acceptLanguage.Compatible(r.ContentLanguage()); err != nil {
+				return err
+			} else if !c {
+				alc++
+			}
 		}
 
-		if c, err = acceptCharset.Compatible(r.ContentCharset()); err != nil {
-			return err
-		} else if !c {
-			acc++
+		if len(r.ContentCharset()) > 0 && !acceptCharset.IsEmpty() {
+			var c bool
+			if c, err = acceptCharset.Compatible(r.ContentCharset()); err != nil {
+				return err
+			} else if !c {
+				acc++
+			}
 		}
 	}
 	if len(reps) == ac && n.strictAccept {
-- 
2.43.0


From b33a65d55586a872172806dd3476348229b72e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:12 +0000
Subject: [PATCH 16/37] fix: disregard headers that are unsatisfied when strict
 mode is disabled

---
 proactive/proactive.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/proactive/proactive.go b/proactive/proactive.go
index 4f7681f..b78317b 100644
--- a/proactive/proactive.go
+++ b/proactive/proactive.go
@@ -241,6 +241,30 @@ func (n Negotiator) Negotiate(
 		return err
 	}
 
+	// disregard the headers that none of the representations satisfy. when
+	// there are any at this point, strict mode is disabled for them.
+	var unsatisfied []string
+	if len(reps) == ac {
+		unsatisfied = append(unsatisfied, "Accept")
+	}
+	if len(reps) == alc {
+		unsatisfied = append(unsatisfied, "Accept-Language")
+	}
+	if len(reps) == acc {
+		unsatisfied = append(unsatisfied, "Accept-Charset")
+	}
+	if rep == nil && len(unsatisfied) > 0 {
+		request := *ctx.Request
+		request.Header = ctx.Request.Header.Clone()
+		for _, name := range unsatisfied {
+			request.Header.Del(name)
+		}
+		n.logger.Debug("disregarding unsatisfied headers", zap.Strings("headers", unsatisfied))
+		if rep, err = n.chooser.Choose(&request, reps...); err != nil {
+			return err
+		}
+	}
+
 	if rep == nil {
 		return n.notAcceptable(ctx, reps...)
 	}
-- 
2.43.0


From 375719144a8e25edbd3ce0f200681d288086a842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 17/37] fix: disregard queries and fragments when determining
 neighboring variants

---
 transparent/transparent.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 90d8024..004936e 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -229,6 +229,8 @@ func (n Negotiator) Negotiate(
 			if lastSlash := strings.LastIndex(u.Path, "/"); lastSlash != -1 {
 				u.Path = u.Path[:lastSlash]
 			}
+			// the query and fragment belong to the last path segment.
+			u.RawQuery, u.ForceQuery, u.Fragment, u.RawFragment = "", false, "", ""
 			return u
 		}
 		return sameURL(trim(neighborURL), trim(resourceURL))
-- 
2.43.0


From 62c22b87f258d16d1727dd5e95a853c4a2594241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 18/37] fix: use the default port of the scheme when comparing
 variant URLs

---
 transparent/transparent.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 004936e..9c0acd9 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -189,7 +189,11 @@ func (n Negotiator) Negotiate(
 	sameURL := func(one, two url.URL) bool {
 		normalizePort := func(u url.URL) url.URL {
 			if u.Port() == "" {
-				u.Host = fmt.Sprintf("%s:%d", u.Hostname(), 80)
+				port := 80
+				if strings.EqualFold(u.Scheme, "https") {
+					port = 443
+				}
+				u.Host = fmt.Sprintf("%s:%d", u.Hostname(), port)
 			}
 			return u
 		}
-- 
2.43.0


From a4d4f35d63b18eebe97054a87aeb205009d30bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 19/37] fix: recognize content codings regardless of their case

---
 internal/header/content_coding_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index 470c81d..43ad49d 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -84,7 +84,7 @@ func NewContentCodingRange(contentCoding string) (ContentCodingRange, error) {
 	}
 	groups := contentCodingRangeRegex.FindStringSubmatch(contentCoding)
 
-	if !slice.ContainsString(contentCodings, groups[1]) {
+	if !slice.ContainsString(contentCodings, strings.ToLower(groups[1])) {
 		return ContentCodingRange{}, ErrInvalidContentCodingRange
 	}
 	cc := ContentCodingRange{coding: groups[1], qValue: QualityValue(1.0)}
-- 
2.43.0


From 749836107e6ef5c52507059739a39cde147d518b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 20/37] fix: count multiple choices only for responses that
 list them

---
 reactive/reactive.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reactive/reactive.go b/reactive/reactive.go
index 540b9e7..b42058b 100644
--- a/reactive/reactive.go
+++ b/reactive/reactive.go
@@ -96,7 +96,7 @@ func (n Negotiator) Negotiate(
 	defer func() {
 		if err != nil {
 			n.scope.Counter(scopeNameReactiveErrorCounter).Inc(1)
-		} else {
+		} else if len(reps) > 0 {
 			n.scope.Counter(scopeNameReactiveMultipleChoicesCounter).Inc(1)
 		}
 	}()
-- 
2.43.0


From 862a6a3646099dbc3dc7a241c6f674d884801abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 21/37] fix: use the entire weight of content coding ranges

---
 internal/header/content_coding_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index 43ad49d..da5d69a 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -90,7 +90,7 @@ func NewContentCodingRange(contentCoding string) (ContentCodingRange, error) {
 	cc := ContentCodingRange{coding: groups[1], qValue: QualityValue(1.0)}
 
 	if len(groups[3]) > 0 {
-		q, _ := strconv.ParseFloat(groups[4], 32)
+		q, _ := strconv.ParseFloat(groups[3], 32)
 		qv, err := NewQualityValue(float32(q))
 		if err != nil {
 			return ContentCodingRange{}, err
-- 
2.43.0


From c1cb91949daf0e613e95a2c39da8d13a4f26f1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 22/37] fix: accept every valid charset and weight

---
 internal/header/charset_range.go        | 2 +-
 internal/header/content_coding_range.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/header/charset_range.go b/internal/header/charset_range.go
index 3c21d93..54b4893 100644
--- a/internal/header/charset_range.go
+++ b/internal/header/charset_range.go
@@ -23,7 +23,7 @@ import (
 	"strings"
 )
 
-var charsetRangeRegex = regexp.MustCompile(`^([A-Za-z0-9-]+|\*)(;\s?q=(\d(\.\d{1,3})?))?$`)
+var charsetRangeRegex = regexp.MustCompile(`^([A-Za-z0-9!#$%&'+.^_|~-]+|\*)([ \t]*;[ \t]*[Qq]=(\d(\.\d{0,3})?))?$`)
 
 var (
 	// defaultCharsetRange represents the default charset range.
diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index da5d69a..a900f8e 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -25,7 +25,7 @@ import (
 	"github.com/stretchr/stew/slice"
 )
 
-var contentCodingRangeRegex = regexp.MustCompile(`^([A-Za-z0-9-]+|\*)(;\s?q=(\d(\.\d{1,3})?))?$`)
+var contentCodingRangeRegex = regexp.MustCompile(`^([A-Za-z0-9!#$%&'+.^_|~-]+|\*)([ \t]*;[ \t]*[Qq]=(\d(\.\d{0,3})?))?$`)
 
 var (
 	gzip      = "gzip"
-- 
2.43.0


From a63b732f54ac0913d03662d2837d8e08928454d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 23/37] fix: match every content coding with the wildcard

---
 internal/header/content_coding_range.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index a900f8e..74eed3d 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -123,12 +123,12 @@ func (cc ContentCodingRange) CodingRange() string {
 // Compatible determines if the provided content coding is compatible with the
 // content coding range.
 func (cc ContentCodingRange) Compatible(coding string) bool {
-	if !slice.ContainsString(contentCodings, strings.ToLower(coding)) {
-		return false
-	}
 	if cc.IsWildcard() {
 		return true
 	}
+	if !slice.ContainsString(contentCodings, strings.ToLower(coding)) {
+		return false
+	}
 	return strings.EqualFold(cc.CodingRange(), coding)
 }
 
-- 
2.43.0


From b4879a6bfbe369a842499a583832422ceda849e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:50 +0000
Subject: [PATCH 24/37] fix: neighboring variants have all but the last path
 segment in common

The slash that ends the path up to the last segment was trimmed along with
the segment, such that '/x' and '//x' were taken for neighbors.
---
 transparent/transparent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 9c0acd9..d17ca12 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -231,7 +231,7 @@ func (n Negotiator) Negotiate(
 	isNeighbor := func(neighborURL, resourceURL url.URL) bool {
 		trim := func(u url.URL) url.URL {
 			if lastSlash := strings.LastIndex(u.Path, "/"); lastSlash != -1 {
-				u.Path = u.Path[:lastSlash]
+				u.Path = u.Path[:lastSlash+1]
 			}
 			// the query and fragment belong to the last path segment.
 			u.RawQuery, u.ForceQuery, u.Fragment, u.RawFragment = "", false, "", ""
-- 
2.43.0


From a56ed7a088d4956dc8a36f5ea44b14d019097e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:51 +0000
Subject: [PATCH 25/37] fix: the default port of IPv6 hosts is considered when
 comparing URLs

---
 transparent/transparent.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index d17ca12..7b8661c 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -17,8 +17,8 @@ package transparent
 
 import (
 	"errors"
-	"fmt"
 	"math"
+	"net"
 	"net/http"
 	"net/url"
 	"strconv"
@@ -189,11 +189,11 @@ func (n Negotiator) Negotiate(
 	sameURL := func(one, two url.URL) bool {
 		normalizePort := func(u url.URL) url.URL {
 			if u.Port() == "" {
-				port := 80
+				port := "80"
 				if strings.EqualFold(u.Scheme, "https") {
-					port = 443
+					port = "443"
 				}
-				u.Host = fmt.Sprintf("%s:%d", u.Hostname(), port)
+				u.Host = net.JoinHostPort(u.Hostname(), port)
 			}
 			return u
 		}
-- 
2.43.0


From e24c4c91e02baecf9a52a1f0623951bcf9c5a891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:53 +0000
Subject: [PATCH 26/37] fix: whitespace before the parameters of a content type
 has no effect on serialization

---
 representation/base.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index f03273a..22aab7b 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -159,7 +159,7 @@ func (r Base) Bytes(out interface{}) ([]byte, error) {
 		marshallers = r.marshallers
 	}
 
-	ct := strings.Split(r.ContentType(), ";")[0]
+	ct := strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])
 	if _, ok := marshallers[strings.ToLower(ct)]; !ok {
 		return []byte{}, ErrUnsupportedContentType
 	}
@@ -215,7 +215,7 @@ func (r Base) FromBytes(b []byte, in interface{}) (err error) {
 		unmarshallers = r.unmarshallers
 	}
 
-	ct := strings.Split(r.ContentType(), ";")[0]
+	ct := strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])
 	if _, ok := unmarshallers[strings.ToLower(ct)]; !ok {
 		err = ErrUnsupportedContentType
 		return
-- 
2.43.0


From 67537aba1bdefa9a83d51d30a9382303249bc608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:44 +0000
Subject: [PATCH 27/37] fix: feature list elements are parsed entirely, with
 factors as in RFC 2295

What followed a second semicolon was ignored, factors could have digits that
were not printed, and factors such as '1.' were rejected.
---
 internal/header/feature_list_element.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/header/feature_list_element.go b/internal/header/feature_list_element.go
index bd95e38..af98f0d 100644
--- a/internal/header/feature_list_element.go
+++ b/internal/header/feature_list_element.go
@@ -25,7 +25,7 @@ import (
 
 // Regular expressions to match against the feature list grammar.
 var (
-	improvementDegration = regexp.MustCompile(`^(\+(\d+(\.\d{1,4})?))?(\-(\d+(\.\d{1,4})?))?$`)
+	improvementDegration = regexp.MustCompile(`^(\+(\d{1,3}(\.\d{0,3})?))?(\-(\d{1,3}(\.\d{0,3})?))?$`)
 )
 
 var ErrInvalidPredicateListElement = errors.New("invalid predicate list element")
@@ -74,7 +74,7 @@ type predicateListElement struct {
 
 // NewPredicateListElement constructs a new feature predicate list element.
 func NewPredicateListElement(element string) (FeatureListElement, error) {
-	elementParts := strings.Split(element, ";")
+	elementParts := strings.SplitN(element, ";", 2)
 	predicate, err := NewFeaturePredicate(elementParts[0])
 	if err != nil {
 		return nil, err
@@ -140,7 +140,7 @@ type predicateBagListElement struct {
 
 // NewPredicateBagListElement constructs a new feature predicate bag list element.
 func NewPredicateBagListElement(element string) (FeatureListElement, error) {
-	elementParts := strings.Split(element, ";")
+	elementParts := strings.SplitN(element, ";", 2)
 	predicateBag, err := NewFeaturePredicateBag(elementParts[0])
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b1a8a77de353637d6fc011ba534885345fa26bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:58 +0000
Subject: [PATCH 28/37] fix: predicates of a bag may be separated by any
 whitespace

---
 internal/header/feature_predicate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/header/feature_predicate.go b/internal/header/feature_predicate.go
index e7b840c..a98e94b 100644
--- a/internal/header/feature_predicate.go
+++ b/internal/header/feature_predicate.go
@@ -57,7 +57,10 @@ func NewFeaturePredicateBag(predicateBag string) (FeaturePredicateBag, error) {
 	}
 	predicateBag = strings.TrimSpace(
 		strings.TrimPrefix(strings.TrimSuffix(predicateBag, "]"), "["))
-	predicates := strings.Split(predicateBag, " ")
+	predicates := strings.Fields(predicateBag)
+	if len(predicates) == 0 {
+		return nil, ErrInvalidPredicate
+	}
 
 	var fpb FeaturePredicateBag
 	for _, predicate := range predicates {
-- 
2.43.0


From eefab3c3b2f670b14d0bdbec57ba149194330905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:00 +0000
Subject: [PATCH 29/37] fix: feature tags and values may have hyphens and dots

---
 internal/header/feature_predicate.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/header/feature_predicate.go b/internal/header/feature_predicate.go
index a98e94b..15b1cdd 100644
--- a/internal/header/feature_predicate.go
+++ b/internal/header/feature_predicate.go
@@ -25,11 +25,11 @@ import (
 
 // Regular expressions to match against the feature predicate grammar.
 var (
-	existsPredicate    = regexp.MustCompile(`^(\w+)$`)
-	absentPredicate    = regexp.MustCompile(`^(!(\w+))$`)
-	equalsPredicate    = regexp.MustCompile(`^(\w+)\s?=\s?(\w+)$`)
-	notEqualsPredicate = regexp.MustCompile(`^(\w+)\s?!=\s?(\w+)$`)
-	rangePredicate     = regexp.MustCompile(`^(\w+)\s?=\s?\[\s?(\d+)?\s?-\s?(\d+)?\s?\]$`)
+	existsPredicate    = regexp.MustCompile(`^([\w.-]+)$`)
+	absentPredicate    = regexp.MustCompile(`^(!([\w.-]+))$`)
+	equalsPredicate    = regexp.MustCompile(`^([\w.-]+)\s?=\s?([\w.-]+)$`)
+	notEqualsPredicate = regexp.MustCompile(`^([\w.-]+)\s?!=\s?([\w.-]+)$`)
+	rangePredicate     = regexp.MustCompile(`^([\w.-]+)\s?=\s?\[\s?(\d+)?\s?-\s?(\d+)?\s?\]$`)
 )
 
 // Errors that can be encountered when interacting with feature predicates.
-- 
2.43.0


From 2cad78dd286038d88e50fae123167a4913f440d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:18 +0000
Subject: [PATCH 30/37] fix: charsets may have every character of tokens

---
 internal/header/charset_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/header/charset_range.go b/internal/header/charset_range.go
index 54b4893..74eabfe 100644
--- a/internal/header/charset_range.go
+++ b/internal/header/charset_range.go
@@ -23,7 +23,7 @@ import (
 	"strings"
 )
 
-var charsetRangeRegex = regexp.MustCompile(`^([A-Za-z0-9!#$%&'+.^_|~-]+|\*)([ \t]*;[ \t]*[Qq]=(\d(\.\d{0,3})?))?$`)
+var charsetRangeRegex = regexp.MustCompile(`^([A-Za-z0-9!#$%&'*+.^_\x60|~-]+)([ \t]*;[ \t]*[Qq]=(\d(\.\d{0,3})?))?$`)
 
 var (
 	// defaultCharsetRange represents the default charset range.
-- 
2.43.0


From 23dea1288046ce61b61086d30db5320427552f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:07 +0000
Subject: [PATCH 31/37] fix: ties go to the first representation however many
 there are

---
 proactive/apache_httpd.go | 2 +-
 representation/set.go     | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index 8384026..7a46ef2 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -275,7 +275,7 @@ var (
 		}
 		var htmlVariants representation.Set
 		if len(htmlWithLevel) > 0 {
-			sort.Slice(htmlWithLevel, func(i, j int) bool {
+			sort.SliceStable(htmlWithLevel, func(i, j int) bool {
 				return htmlWithLevel[i].l > htmlWithLevel[j].l
 			})
 			for _, v := range htmlWithLevel {
diff --git a/representation/set.go b/representation/set.go
index 977dc93..1f3acdb 100644
--- a/representation/set.go
+++ b/representation/set.go
@@ -41,9 +41,10 @@ func (s Set) AsSlice() []RankedRepresentation {
 	return s
 }
 
-// Sort sorts the representation set based on the provided less function.
+// Sort sorts the representation set based on the provided less function, while
+// keeping the order of representations that are equal.
 func (s Set) Sort(less func(i, j int) bool) {
-	sort.Slice(s, less)
+	sort.SliceStable(s, less)
 }
 
 // First task the first element of the representation set. Must check if
-- 
2.43.0


From 04da467e6c39249be02bc570eaf01d924bce962b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:21 +0000
Subject: [PATCH 32/37] fix: every value announced for a feature tag is
 supported

FeatureSet.Add appended the values that it already had for the tag rather than
those being added, such that 'color=5, color=6' announced color=5 twice.
---
 internal/header/feature_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/header/feature_set.go b/internal/header/feature_set.go
index 19f86e3..d0358e2 100644
--- a/internal/header/feature_set.go
+++ b/internal/header/feature_set.go
@@ -32,7 +32,7 @@ func (s FeatureSet) Add(tag FeatureTag, values ...FeatureTagValue) {
 		s[tag] = values
 		return
 	}
-	for t, values := range s {
+	for t := range s {
 		if t.Equals(tag) {
 			s[t] = append(s[t], values...)
 		}
-- 
2.43.0


From 0611be4724a8b2ec58aa5045fd9334ecb6286b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:43 +0000
Subject: [PATCH 33/37] fix: whitespace within feature expressions isn't part
 of tags and values

The grammar of Accept-Features permits whitespace between its tokens: with
'color = 5' the tag 'color ' was announced with the value ' 5'.
---
 internal/header/feature_expression.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/internal/header/feature_expression.go b/internal/header/feature_expression.go
index f972d8d..184972f 100644
--- a/internal/header/feature_expression.go
+++ b/internal/header/feature_expression.go
@@ -125,13 +125,13 @@ func (e FeatureExpression) Type() FeatureExpressionType {
 // wildcard expressions do not have tags.
 func (e FeatureExpression) parseTag() FeatureTag {
 	if strings.HasPrefix(e.String(), "!") {
-		return FeatureTag(strings.TrimLeft(e.String(), "!"))
+		return FeatureTag(strings.TrimSpace(strings.TrimLeft(e.String(), "!")))
 	}
 	if s := strings.Split(e.String(), "!="); len(s) > 1 {
-		return FeatureTag(s[0])
+		return FeatureTag(strings.TrimSpace(s[0]))
 	}
 	if s := strings.Split(e.String(), "="); len(s) > 1 {
-		return FeatureTag(s[0])
+		return FeatureTag(strings.TrimSpace(s[0]))
 	}
 	return FeatureTag(e.String())
 }
@@ -145,22 +145,23 @@ func (e FeatureExpression) parseValue() (val FeatureTagValue, ok bool) {
 	}
 	// check for inequality ( != ).
 	if s := strings.Split(e.String(), "!="); len(s) > 1 {
-		val, ok = FeatureTagValue(s[1]), true
+		val, ok = FeatureTagValue(strings.TrimSpace(s[1])), true
 		return
 	}
 	// check for equality ( = ).
 	if s := strings.Split(e.String(), "="); len(s) > 1 {
+		v := strings.TrimSpace(s[1])
 		// check for exclusive equality ( {...} ).
-		if strings.HasPrefix(s[1], "{") &&
-			strings.HasSuffix(s[1], "}") {
+		if strings.HasPrefix(v, "{") &&
+			strings.HasSuffix(v, "}") {
 			val, ok = FeatureTagValue(
-				strings.ReplaceAll(
-					strings.ReplaceAll(s[1], "}", ""), "{", "",
-				),
+				strings.TrimSpace(strings.ReplaceAll(
+					strings.ReplaceAll(v, "}", ""), "{", "",
+				)),
 			), true
 			return
 		}
-		val, ok = FeatureTagValue(s[1]), true
+		val, ok = FeatureTagValue(v), true
 	}
 	return
 }
-- 
2.43.0


From 80f12cfa0bf09288b5aaf147648d6f31999a0682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 34/37] fix: extensions of feature expressions aren't part of
 them

RFC 2295 permits feature expressions to be followed by extensions, none of which
are defined: 'tables;x=1' announced the tag 'tables;x' rather than 'tables'.
---
 internal/header/feature_expression.go | 46 +++++++++++++++++++--------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/internal/header/feature_expression.go b/internal/header/feature_expression.go
index 184972f..207a3b0 100644
--- a/internal/header/feature_expression.go
+++ b/internal/header/feature_expression.go
@@ -67,7 +67,7 @@ type FeatureExpression string
 
 // IsWildcard indicates if the feature expression is '*'.
 func (e FeatureExpression) IsWildcard() bool {
-	return e.String() == "*"
+	return e.expr() == "*"
 }
 
 // Tag retrieves the feature tag for the feature expression, when applicable.
@@ -93,22 +93,22 @@ func (e FeatureExpression) HasValue() bool {
 // IsExclusive indicates if the feature expression uses exclusive equality.
 func (e FeatureExpression) IsExclusive() bool {
 	return e.HasValue() &&
-		strings.Contains(e.String(), "{") &&
-		strings.Contains(e.String(), "}")
+		strings.Contains(e.expr(), "{") &&
+		strings.Contains(e.expr(), "}")
 }
 
 // Type indicates the feature expression type.
 func (e FeatureExpression) Type() FeatureExpressionType {
 	// check for negation ( ! ).
-	if strings.HasPrefix(e.String(), "!") {
+	if strings.HasPrefix(e.expr(), "!") {
 		return FeatureExpressionTypeNotExists
 	}
 	// check for inequality ( != ).
-	if strings.Contains(e.String(), "!=") {
+	if strings.Contains(e.expr(), "!=") {
 		return FeatureExpressionTypeNotEquals
 	}
 	// check for equality ( = ).
-	if strings.Contains(e.String(), "=") {
+	if strings.Contains(e.expr(), "=") {
 		// check for exclusive equality ( {...} ).
 		if e.IsExclusive() {
 			return FeatureExpressionTypeExclusiveEquals
@@ -124,32 +124,32 @@ func (e FeatureExpression) Type() FeatureExpressionType {
 // parseTag takes the raw feature expression and parses the tag.
 // wildcard expressions do not have tags.
 func (e FeatureExpression) parseTag() FeatureTag {
-	if strings.HasPrefix(e.String(), "!") {
-		return FeatureTag(strings.TrimSpace(strings.TrimLeft(e.String(), "!")))
+	if strings.HasPrefix(e.expr(), "!") {
+		return FeatureTag(strings.TrimSpace(strings.TrimLeft(e.expr(), "!")))
 	}
-	if s := strings.Split(e.String(), "!="); len(s) > 1 {
+	if s := strings.Split(e.expr(), "!="); len(s) > 1 {
 		return FeatureTag(strings.TrimSpace(s[0]))
 	}
-	if s := strings.Split(e.String(), "="); len(s) > 1 {
+	if s := strings.Split(e.expr(), "="); len(s) > 1 {
 		return FeatureTag(strings.TrimSpace(s[0]))
 	}
-	return FeatureTag(e.String())
+	return FeatureTag(e.expr())
 }
 
 // parseValue takes the raw feature expression and parses the tag value.
 // the existence, absence, and wildcard expressions do not have tag values.
 func (e FeatureExpression) parseValue() (val FeatureTagValue, ok bool) {
 	// check for negation ( ! ).
-	if strings.HasPrefix(e.String(), "!") {
+	if strings.HasPrefix(e.expr(), "!") {
 		return
 	}
 	// check for inequality ( != ).
-	if s := strings.Split(e.String(), "!="); len(s) > 1 {
+	if s := strings.Split(e.expr(), "!="); len(s) > 1 {
 		val, ok = FeatureTagValue(strings.TrimSpace(s[1])), true
 		return
 	}
 	// check for equality ( = ).
-	if s := strings.Split(e.String(), "="); len(s) > 1 {
+	if s := strings.Split(e.expr(), "="); len(s) > 1 {
 		v := strings.TrimSpace(s[1])
 		// check for exclusive equality ( {...} ).
 		if strings.HasPrefix(v, "{") &&
@@ -166,6 +166,24 @@ func (e FeatureExpression) parseValue() (val FeatureTagValue, ok bool) {
 	return
 }
 
+// expr provides the expression without its extensions, which are ignored since
+// none are defined.
+// https://tools.ietf.org/html/rfc2295#section-8.2
+func (e FeatureExpression) expr() string {
+	s, quoted := e.String(), false
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; {
+		case c == '\\' && quoted:
+			i++
+		case c == '"':
+			quoted = !quoted
+		case c == ';' && !quoted:
+			return strings.TrimSpace(s[:i])
+		}
+	}
+	return s
+}
+
 // String provides a textual representation of the feature expression.
 func (e FeatureExpression) String() string {
 	return string(e)
-- 
2.43.0


From 88417fcebee24596252eb9b6f551a84046ca875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:56 +0000
Subject: [PATCH 35/37] fix: percent-encoded slashes don't separate the path
 segments of variants

---
 transparent/transparent.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 7b8661c..f641c7b 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -230,8 +230,17 @@ func (n Negotiator) Negotiate(
 	// https://tools.ietf.org/html/rfc2296#section-3.5
 	isNeighbor := func(neighborURL, resourceURL url.URL) bool {
 		trim := func(u url.URL) url.URL {
-			if lastSlash := strings.LastIndex(u.Path, "/"); lastSlash != -1 {
-				u.Path = u.Path[:lastSlash+1]
+			// percent-encoded slashes belong to the path segment they are in.
+			segments := strings.Split(u.EscapedPath(), "/")
+			if last := len(segments) - 1; last > 0 {
+				for i, segment := range segments[:last] {
+					if s, err := url.PathUnescape(segment); err == nil {
+						segments[i] = url.PathEscape(s)
+					}
+				}
+				segments[last] = ""
+				u.RawPath = strings.Join(segments, "/")
+				u.Path, _ = url.PathUnescape(u.RawPath)
 			}
 			// the query and fragment belong to the last path segment.
 			u.RawQuery, u.ForceQuery, u.Fragment, u.RawFragment = "", false, "", ""
-- 
2.43.0


From 577924f8fb801c4ada959f42fb3e1f37f19c01eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 36/37] fix: accept every registered content coding

---
 internal/header/content_coding_range.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index 74eed3d..9ba46cb 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -42,6 +42,14 @@ var (
 		compress,
 		xcompress,
 		identity,
+		// https://www.iana.org/assignments/http-parameters/http-parameters.xhtml#content-coding
+		"aes128gcm",
+		"br",
+		"dcb",
+		"dcz",
+		"exi",
+		"pack200-gzip",
+		"zstd",
 		"*",
 	}
 
-- 
2.43.0


From 8c5b2929e411bf1b9a3d026617e4577a2f559e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:37 +0000
Subject: [PATCH 37/37] fix: levels are decimal numbers

A text/html level such as '08' was an error, and '010' was taken as 8.
---
 proactive/apache_httpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index 7a46ef2..7247ffe 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -266,7 +266,7 @@ var (
 			}
 			isHTML := mt == "text/html"
 			if l, ok := p["level"]; ok && isHTML {
-				lNum, err := strconv.ParseInt(l, 0, 32)
+				lNum, err := strconv.ParseInt(l, 10, 32)
 				if err != nil {
 					return representation.EmptySet, err
 				}
-- 
2.43.0

