package main

import (
	"bufio"
	"bytes"
	"cmp"
	"container/heap"
	"container/list"
	"context"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"hash/fnv"
	"html"
	"io"
	"maps"
	"math"
	"math/bits"
	"mime"
	"net/http"
	"net/textproto"
	"net/url"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unicode"
	"unicode/utf8"
)

type byLen []string

func (b byLen) Len() int           { return len(b) }
func (b byLen) Less(i, j int) bool { return len(b[i]) < len(b[j]) }
func (b byLen) Swap(i, j int)      { b[i], b[j] = b[j], b[i] }

// C00_Library: what edits of the implementation may make use of is executed
// as it is natively.
func C00_Library() {
	s := ndStr("s", 3, "aB1,; =\"")
	switch ndCase("part", 40) {
	case 0:
		sc := bufio.NewScanner(strings.NewReader("x " + s))
		sc.Split(bufio.ScanWords)
		n := 0
		for sc.Scan() {
			n++
		}
		ndObserveInt("words", n)
	case 1:
		ndObserve("replaced", strings.NewReplacer("a", "1", "B", "2", "\"", "").Replace(s))
	case 2:
		var parts = byLen(strings.Split("x,yy,"+s, ","))
		sort.Stable(parts)
		ndObserve("sorted", strings.Join(parts, "|"))
		sort.Strings(parts)
		ndObserve("strings", strings.Join(parts, "|"))
	case 3:
		m := map[string]int{}
		for _, p := range strings.Fields(s) {
			m[p]++
		}
		keys := make([]string, 0)
		for k := range m {
			keys = append(keys, k)
		}
		slices.Sort(keys)
		ndObserve("keys", strings.Join(keys, "|"))
		n := maps.Clone(m)
		clear(m)
		ndObserveInt("n", len(n)-len(m))
	case 4:
		ch := make(chan string, 3)
		var wg sync.WaitGroup
		for i := range 3 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				ch <- s[i : i+1]
			}()
		}
		wg.Wait()
		close(ch)
		var got []string
		for x := range ch {
			got = append(got, x)
		}
		slices.Sort(got)
		ndObserve("got", strings.Join(got, ""))
	case 5:
		var m sync.Map
		m.Store(s, 1)
		_, ok := m.Load("aB1")
		ndObserveBool("ok", ok)
		var c atomic.Int64
		c.Add(int64(len(s)))
		ndObserveInt("c", int(c.Load()))
	case 6:
		n, err := strconv.Atoi(s)
		ndObserveInt("n", n)
		ndObserve("err", errString(err))
	case 7:
		l := list.New()
		for i := 0; i < len(s); i++ {
			l.PushFront(s[i])
		}
		var b []byte
		for e := l.Front(); e != nil; e = e.Next() {
			b = append(b, e.Value.(byte))
		}
		ndObserve("reversed", string(b))
	case 8:
		ctx := context.WithValue(context.Background(), "k", s)
		ndObserve("value", ctx.Value("k").(string))
	case 9:
		ndObserve("mapped", strings.Map(func(r rune) rune {
			if unicode.IsSpace(r) {
				return -1
			}
			return unicode.ToUpper(r)
		}, s))
		ndObserve("title", strings.Title(s))
	case 10:
		ndObserve("quoted", strconv.Quote(s))
		ndObserve("q", fmt.Sprintf("%q %v %5s|%-5s|%x", s, s, s, s, s))
	case 11:
		ndObserveBool("deep", reflect.DeepEqual([]string{s}, []string{"aB1"}))
	case 12:
		mt, p, err := mime.ParseMediaType("a/b;" + s)
		ndObserve("type", mime.FormatMediaType(mt, p))
		ndObserve("err", errString(err))
	case 13:
		h := http.Header{}
		h.Add("accept", s)
		ndObserve("get", h.Get("Accept"))
		ndObserveInt("values", len(h.Values("ACCEPT")))
	case 14:
		u, err := url.Parse("http://h/" + s)
		ndObserve("err", errString(err))
		if err == nil {
			ndObserve("url", u.String())
			ndObserve("path", u.JoinPath("x").Path)
		}
	case 15:
		slices.SortStableFunc([]int{3, 1, 2}, func(a, b int) int { return a - b })
		x := []byte(s)
		slices.SortFunc(x, func(a, b byte) int { return int(a) - int(b) })
		slices.Reverse(x)
		ndObserve("x", string(x))
		i, ok := slices.BinarySearch([]string{"aB1", "b"}, s)
		ndObserveInt("i", i)
		ndObserveBool("ok", ok)
		ndObserveInt("max", int(max(s[0], s[1])))
	case 16:
		var b bytes.Buffer
		fmt.Fprintf(&b, "%s;%d;%.2f;%t;%+d", s, len(s), 0.5, s == "aB1", 3)
		ndObserve("b", b.String())
	case 17:
		var a, b string
		n, err := fmt.Sscanf("12 "+s, "%s %s", &a, &b)
		ndObserveInt("n", n)
		ndObserve("err", errString(err))
	case 18:
		var once sync.Once
		var mu sync.RWMutex
		total := 0
		for range 2 {
			once.Do(func() { total++ })
			mu.RLock()
			total += strings.Count(s, "a")
			mu.RUnlock()
		}
		ndObserveInt("total", total)
	case 19:
		out := func() (r string) {
			defer func() {
				if e := recover(); e != nil {
					r = fmt.Sprint(e)
				}
			}()
			return string(s[strings.IndexByte(s, 'a')])
		}()
		ndObserve("out", out)
	case 20:
		before, after, ok := strings.Cut(s, ",")
		ndObserve("cut", before+"/"+after)
		ndObserveBool("ok", ok)
		ndObserve("trim", strings.TrimFunc(s, func(r rune) bool { return !unicode.IsLetter(r) }))
		ndObserve("repeat", strings.Repeat(s, 2))
		ndObserveInt("last", strings.LastIndexAny(s, ",;"))
		ndObserve("after", strings.Join(strings.SplitAfter(s, ";"), "|"))
		ndObserveBool("contains", strings.ContainsAny(s, "\"="))
		ndObserveInt("compare", strings.Compare(s, "B"))
	case 21:
		f, err := strconv.ParseFloat("0."+s, 64)
		ndObserve("f", strconv.FormatFloat(f*2, 'f', 3, 64))
		ndObserve("err", errString(err))
		b, err := strconv.ParseBool(s)
		ndObserveBool("b", b)
		i, err := strconv.ParseInt("0x"+s, 0, 32)
		ndObserveInt("i", int(i))
		ndObserve("err2", errString(err))

	case 22:
		p := sync.Pool{New: func() any { return new(bytes.Buffer) }}
		b := p.Get().(*bytes.Buffer)
		b.WriteString(s)
		p.Put(b)
		c := p.Get().(*bytes.Buffer)
		d := p.Get().(*bytes.Buffer)
		ndObserve("c", c.String())
		ndObserve("d", d.String())
	case 23: // workers
		jobs, out := make(chan byte), make(chan string, 3)
		var wg sync.WaitGroup
		for range 2 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range jobs {
					out <- strings.ToUpper(string(rune(j)))
				}
			}()
		}
		for i := 0; i < len(s); i++ {
			jobs <- s[i]
		}
		close(jobs)
		wg.Wait()
		close(out)
		var got []string
		for x := range out {
			got = append(got, x)
		}
		slices.Sort(got)
		ndObserve("got", strings.Join(got, ""))
	case 24: // results by index, errors by a channel
		rs := make([]int, len(s))
		errs := make(chan error, len(s))
		for i := range rs {
			go func(i int) {
				n, err := strconv.Atoi(s[i : i+1])
				rs[i] = n
				errs <- err
			}(i)
		}
		bad := 0
		for range rs {
			if err := <-errs; err != nil {
				bad++
			}
		}
		ndObserveInt("bad", bad)
		ndObserveInt("first", rs[0])
	case 25: // select
		c, done := make(chan int, 1), make(chan struct{})
		select {
		case x := <-c:
			ndObserveInt("x", x)
		default:
			ndObserve("none", "")
		}
		go func() {
			c <- len(strings.TrimSpace(s))
			close(done)
		}()
		<-done
		select {
		case x, ok := <-c:
			ndObserveInt("x2", x)
			ndObserveBool("ok", ok)
		}
		_, ok := <-done
		ndObserveBool("ok2", ok)
		ndObserveInt("cap", cap(c)-len(c))
	case 26:
		type t struct {
			a string
			b map[string][]int
			c *int
		}
		one, uno := 1, 1
		x := t{s, map[string][]int{s: {1}}, &one}
		y := t{"aB1", map[string][]int{"aB1": {1}}, &uno}
		ndObserveBool("deep", reflect.DeepEqual(x, y))
		ndObserveBool("nil", reflect.DeepEqual([]string(nil), []string{}))
		ndObserveBool("type", reflect.DeepEqual(x, &y))
		ndObserveBool("any", reflect.DeepEqual([]any{s, 1}, []any{"B1,", 1}))
	case 27: // closures, generics, method values, labels
		type pair[K comparable, T any] struct {
			k K
			v T
		}
		var ps []pair[string, int]
	next:
		for i, f := range strings.Split(s, ",") {
			for _, p := range ps {
				if p.k == f {
					continue next
				}
			}
			ps = append(ps, pair[string, int]{f, i})
		}
		less := func(a, b pair[string, int]) int { return strings.Compare(a.k, b.k) }
		m := slices.MinFunc(ps, less)
		ndObserve("min", m.k)
		ndObserveInt("at", m.v)
		var fs []func() int
		for _, p := range ps {
			fs = append(fs, func() int { return p.v })
		}
		t := 0
		for _, f := range fs {
			t = t*10 + f()
		}
		ndObserveInt("t", t)
		idx := slices.IndexFunc(ps, func(p pair[string, int]) bool { return p.k == "" })
		ndObserveInt("idx", idx)
		up := strings.NewReader(s).ReadByte
		b, _ := up()
		ndObserveInt("b", int(b))
	case 28:
		re := regexp.MustCompile(`^\s*([a-zA-Z]+)(?:=([0-9]))?\s*$`)
		m := re.FindStringSubmatch(s)
		ndObserve("m", strings.Join(m, "|"))
		ndObserve("all", re.ReplaceAllString(s, "<$1>"))
	case 29: // floats
		q, err := strconv.ParseFloat("0."+s[:1], 32)
		ndObserve("err", errString(err))
		f := float32(q)
		ndObserve("round", strconv.FormatFloat(math.Round(float64(f)*1000)/1000, 'f', -1, 64))
		ndObserve("f", fmt.Sprintf("%g %.3f %v", f, f, f))
		ndObserve("append", string(strconv.AppendFloat(nil, float64(f*f), 'f', 5, 32)))
		ndObserveInt("floor", int(math.Floor(float64(f)*10)+0.5))
		ndObserveInt("max", int(max(f, 0.05)*1000))
		ndObserveBool("cmp", cmp.Compare(f, 0.1) == 0)
		ndObserveInt("trunc", int(math.Trunc(float64(f)*100)))
		ndObserveBool("nan", math.IsNaN(float64(f)) || math.Signbit(float64(f)))
	case 30: // errors
		base := errors.New("base " + s)
		e := fmt.Errorf("wrapped: %w", base)
		j := errors.Join(nil, e, errors.New("other"))
		ndObserve("e", e.Error())
		ndObserve("j", j.Error())
		ndObserveBool("is", errors.Is(j, base) && errors.Unwrap(e) == base)
		_, err := strconv.Atoi(s)
		var ne *strconv.NumError
		if errors.As(err, &ne) {
			ndObserve("num", ne.Num+ne.Func)
		}
	case 31: // bytes and runes
		b := []byte(" " + s + " ")
		x, y, ok := bytes.Cut(b, []byte(","))
		ndObserve("x", string(x)+"|"+string(y))
		ndObserveBool("ok", ok)
		ndObserve("trim", string(bytes.TrimSpace(b)))
		ndObserveBool("fold", bytes.EqualFold(b, []byte(" Ab1 ")) || strings.EqualFold(s, "ab1"))
		ndObserveInt("fields", len(bytes.Fields(b)))
		n := 0
		for i, r := range s {
			if r == 'a' || unicode.IsDigit(r) || utf8.RuneLen(r) > 1 {
				n += i + 1
			}
		}
		ndObserveInt("n", n)
		r, size := utf8.DecodeLastRuneInString(s)
		ndObserveInt("r", int(r)+size)
		ndObserveInt("runes", len([]rune(s)))
		ndObserve("ff", strings.Join(strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ';' }), "|"))
	case 32: // sync
		v := sync.OnceValue(func() string { return strings.ToLower(s) })
		ndObserve("v", v()+v())
		var p atomic.Pointer[string]
		p.Store(&s)
		ndObserve("p", *p.Load())
		var a atomic.Value
		a.Store([]string{s})
		ndObserve("a", a.Load().([]string)[0])
		var m sync.Map
		m.Store("k", s)
		x, loaded := m.LoadOrStore("k", "z")
		ndObserve("x", x.(string))
		ndObserveBool("loaded", loaded)
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		<-ctx.Done()
		ndObserve("ctx", ctx.Err().Error())
	case 33: // readers and writers
		var buf bytes.Buffer
		w := bufio.NewWriter(&buf)
		w.WriteString("begin ")
		w.WriteString(s)
		w.Flush()
		b, err := io.ReadAll(io.LimitReader(&buf, 8))
		ndObserve("err", errString(err))
		ndObserve("b", string(b))
		var one, two bytes.Buffer
		io.Copy(io.MultiWriter(&one, &two), io.TeeReader(strings.NewReader(s), &one))
		ndObserve("one", one.String())
		ndObserve("two", two.String())
	case 34: // heap
		h := &byteHeap{'m'}
		for i := range s {
			heap.Push(h, s[i])
		}
		ndObserve("top", string(heap.Pop(h).(byte)))
		ndObserve("next", string(heap.Pop(h).(byte)))
		i := sort.Search(len(s), func(i int) bool { return s[i] > 'B' })
		ndObserveInt("i", i)
	case 35: // encodings and hashes
		ndObserve("hex", hex.EncodeToString([]byte(s)))
		ndObserve("b64", base64.StdEncoding.EncodeToString([]byte(s)))
		h := fnv.New32a()
		h.Write([]byte(s))
		ndObserveInt("fnv", int(h.Sum32()%1000))
		ndObserve("canonical", textproto.CanonicalMIMEHeaderKey(s))
		ndObserve("trim", textproto.TrimString(s))
		ndObserve("html", html.EscapeString(s))
		ndObserve("query", url.QueryEscape(s)+url.PathEscape(s))
	case 36: // iterators of the library
		m := map[string]int{s[:1]: 1, s[1:2]: 2, "z": 3}
		keys := slices.Sorted(maps.Keys(m))
		ndObserve("keys", strings.Join(keys, ""))
		ndObserve("chunk", fmt.Sprint(slices.Collect(slices.Chunk([]byte(s), 2))))
		ndObserve("compact", string(slices.Compact([]byte(s))))
		ndObserveInt("n", len(slices.DeleteFunc([]byte(s), func(b byte) bool { return b == ' ' })))
		ndObserveBool("equal", slices.Equal([]byte(s), []byte("aB1")))
		ndObserve("insert", string(slices.Insert([]byte(s), 1, 'x')))
		ndObserveInt("contains", slices.Index(strings.Split(s, ""), ","))
	case 37: // arrays, structures, switches
		type key struct {
			a [2]byte
			b bool
		}
		k := key{[2]byte{s[0], s[1]}, s[2] == 'a'}
		seen := map[key]string{{[2]byte{'a', 'B'}, true}: "aBa", {[2]byte{'1', ','}, false}: "1,"}
		ndObserve("seen", seen[k])
		n := 0
		switch {
		case k.a[0] == 'a':
			n++
			fallthrough
		case k.b:
			n += 10
		case k == key{}:
			n = -1
		default:
			n = 5
		}
		ndObserveInt("n", n)
		i := 0
	again:
		if i < len(s) && s[i] != ',' {
			i++
			goto again
		}
		ndObserveInt("i", i)
		var x any = s
		switch t := x.(type) {
		case fmt.Stringer:
			ndObserve("x", t.String())
		case string:
			ndObserve("x", t)
		}
		var table [256]bool
		for _, c := range "aB1" {
			table[c] = true
		}
		ndObserveBool("table", table[s[0]] && !table[s[1]])
		var set uint64
		for j := range len(s) {
			set |= 1 << (s[j] & 63)
		}
		ndObserveInt("bits", bits.OnesCount64(set))
	case 38: // a cache by what was given
		cache := map[string][]string{}
		var mu sync.Mutex
		parse := func(s string) []string {
			mu.Lock()
			defer mu.Unlock()
			if p, ok := cache[s]; ok {
				return p
			}
			p := strings.Split(s, ",")
			cache[s] = p
			return p
		}
		parse("aB1")
		parse(",,a")
		ndObserve("first", parse(s)[0])
		ndObserveInt("size", len(cache))
	case 39:
		ndObserve("padded", fmt.Sprintf("%-6s|%6s|%.2s|%c|%v|%+v|%T", s, s, s, s[0], []string{s}, struct{ A string }{s}, s))
		ndObserve("print", fmt.Sprint("a", s, 1, 2, s)+fmt.Sprintln(s, true))
		var b strings.Builder
		fmt.Fprintf(&b, "%03d %x %x %08.3f %e", len(s), s, []byte(s), 0.5, 1.5)
		ndObserve("b", b.String())
		ndObserve("quote", strconv.QuoteToASCII(s)+strconv.Itoa(len(s)))
		q, err := strconv.Unquote("\"" + s[:2] + "\"")
		ndObserve("unquote", q+errString(err))
	}
}

type byteHeap []byte

func (h byteHeap) Len() int           { return len(h) }
func (h byteHeap) Less(i, j int) bool { return h[i] < h[j] }
func (h byteHeap) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *byteHeap) Push(x any)        { *h = append(*h, x.(byte)) }
func (h *byteHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}
