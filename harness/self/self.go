//go:build go1.21

// Package self exercises the engine on library code that the code under test could
// come to use; no property depends on it.
package self

import (
	"bytes"
	"container/heap"
	"container/list"
	"context"
	"crypto/rand"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/bits"
	mrand "math/rand"
	"net/http"
	"net/textproto"
	"net/url"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"text/tabwriter"
	"time"
	"unicode"
	"unicode/utf8"

	"go.opencensus.io/internal/verifh/sym"
)

var _ = rand.Read
var _ = mrand.Int
var _ = json.Marshal
var _ = reflect.DeepEqual
var _ = runtime.GC
var _ = tabwriter.NewWriter
var _ = http.StatusOK
var _ = url.Parse
var _ = regexp.MustCompile
var _ context.Context
var _ io.Reader

func eq(a, b interface{}, l string) { sym.Assert(a == b, l) }

type ints []int

func (h ints) Len() int            { return len(h) }
func (h ints) Less(i, j int) bool  { return h[i] < h[j] }
func (h ints) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *ints) Push(x interface{}) { *h = append(*h, x.(int)) }
func (h *ints) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

func HStrings() {
	s := sym.Str("s", 2)
	sym.Assume(sym.And(s[0] < 128, s[1] < 128))
	t := "a" + s + "b"
	switch sym.Range("f", 0, 29) {
	case 0:
		var b strings.Builder
		b.WriteByte('a')
		b.WriteString(s)
		b.WriteRune('b')
		eq(b.String(), t, "builder")
	case 1:
		var b bytes.Buffer
		fmt.Fprintf(&b, "a%sb", s)
		eq(b.String(), t, "fprintf")
	case 2:
		eq(strings.Join([]string{"a", s, "b"}, ""), t, "join")
	case 3:
		eq(fmt.Sprint("a", s, "b"), t, "sprint")
	case 4:
		p, q, ok := strings.Cut(t, s)
		eq(ok, true, "cut")
		eq(p+q != "", true, "cut")
	case 5:
		eq(strings.HasPrefix(t, "a"), true, "prefix")
		eq(strings.HasSuffix(t, "b"), true, "suffix")
		eq(strings.TrimSuffix(strings.TrimPrefix(t, "a"), "b"), s, "trim")
	case 6:
		eq(len(strings.SplitN(t, "", -1)), 4, "split")
		eq(strings.Count(t, "a") >= 1, true, "count")
	case 7:
		eq(strings.IndexByte(t, 'b') >= 0, true, "indexbyte")
		eq(strings.LastIndex(t, "b"), 3, "lastindex")
		eq(strings.IndexFunc(t, unicode.IsLetter), 0, "indexfunc")
		eq(strings.ContainsAny(t, "xyza"), true, "containsany")
		eq(strings.ContainsRune(t, 'b'), true, "containsrune")
	case 8:
		eq(strings.EqualFold(strings.ToUpper(t), strings.ToLower(t)), true, "fold")
	case 9:
		eq(strings.Replace(strings.Replace("x", "x", t, -1), "", "", 1), t, "replace")
		eq(strings.ReplaceAll(t, "zzz", ""), t, "replaceall")
		r := strings.NewReplacer("&", "and", "<", "lt")
		eq(r.Replace("a&b") == "aandb", true, "replacer")
		eq(len(strings.NewReplacer("&", "and", "<", "lt").Replace(t)) >= 4, true, "replacer")
	case 10:
		eq(strings.Map(func(r rune) rune { return r }, t), t, "map")
		eq(strings.TrimFunc(" "+"x"+" ", unicode.IsSpace), "x", "trimfunc")
		eq(len(strings.Fields(t)) >= 1, true, "fields")
		eq(len(strings.FieldsFunc(t, func(r rune) bool { return r == ',' })) >= 1, true, "fields")
	case 11:
		n, err := strconv.Atoi(s)
		if err == nil {
			m, err := strconv.ParseInt(s, 10, 64)
			eq(err, nil, "parse")
			eq(int64(n), m, "parse")
			u, err := strconv.ParseUint(s, 10, 8)
			if err == nil {
				eq(uint64(n), u, "parse")
			}
		}
	case 12:
		eq(string([]rune(t)), t, "runes")
		eq(utf8.RuneCountInString(t), 4, "count")
		eq(utf8.ValidString(t), true, "valid")
		r, n := utf8.DecodeRuneInString(t)
		eq(r == 'a' && n == 1, true, "decode")
	case 13:
		h := hex.EncodeToString([]byte(s))
		d, err := hex.DecodeString(h)
		eq(err, nil, "hex")
		eq(string(d), s, "hex")
		eq(fmt.Sprintf("%x", s), h, "hex")
		eq(fmt.Sprintf("%02x", []byte(s)), h, "hex")
		eq(fmt.Sprintf("%02x%02x", s[0], s[1]), h, "hex")
	case 14:
		b := make([]byte, 8)
		binary.BigEndian.PutUint16(b, uint16(s[0])<<8|uint16(s[1]))
		eq(string(b[:2]), s, "be")
		binary.LittleEndian.PutUint64(b, binary.BigEndian.Uint64(b))
		n := binary.PutUvarint(b, uint64(s[0]))
		v, k := binary.Uvarint(b)
		eq(v == uint64(s[0]) && n == k, true, "varint")
		var w bytes.Buffer
		binary.Write(&w, binary.BigEndian, uint16(7))
		eq(w.Len(), 2, "write")
	case 15:
		e := base64.StdEncoding.EncodeToString([]byte(s))
		d, err := base64.StdEncoding.DecodeString(e)
		eq(err, nil, "b64")
		eq(string(d), s, "b64")
	case 16:
		eq(fmt.Sprintf("%s|%d|%v|%q", "x", 7, true, "q"), `x|7|true|"q"`, "sprintf")
		eq(fmt.Sprintf("%s-%s", s, s), s+"-"+s, "sprintf")
		eq(fmt.Sprintf("%v", s), s, "sprintf")
		eq(fmt.Sprintf("%016x", uint64(255)), "00000000000000ff", "x")
		eq(strconv.FormatInt(int64(s[0]), 10), fmt.Sprintf("%d", s[0]), "d")
		eq(strconv.Itoa(int(s[0])), fmt.Sprint(s[0]), "d")
	case 17:
		eq(bytes.Equal([]byte(t), []byte("a"+s+"b")), true, "equal")
		eq(bytes.Compare([]byte(s), []byte(s)), 0, "cmp")
		eq(strings.Compare(s, s), 0, "cmp")
		eq(bytes.HasPrefix([]byte(t), []byte("a")), true, "prefix")
		eq(bytes.IndexByte([]byte(t), 'b') >= 0, true, "index")
		eq(string(bytes.TrimSpace([]byte(" x "))), "x", "trim")
		eq(len(bytes.Split([]byte("a,b"), []byte(","))), 2, "split")
		eq(string(bytes.Join([][]byte{[]byte("a"), []byte(s)}, nil)), "a"+s, "join")
	case 18:
		e := errors.New(s)
		w := fmt.Errorf("x: %w", e)
		eq(errors.Is(w, e), true, "is")
		eq(errors.Unwrap(w), e, "unwrap")
		var ne *strconv.NumError
		_, err := strconv.Atoi("x")
		eq(errors.As(err, &ne), true, "as")
		eq(w.Error(), "x: "+s, "msg")
	case 19:
		h := http.Header{}
		h.Set("X-A", s)
		h.Add("x-a", "b")
		eq(h.Get("X-a"), s, "header")
		eq(len(h["X-A"]), 2, "header")
		eq(len(h.Values("x-a")), 2, "header")
		h2 := h.Clone()
		h.Del("X-A")
		eq(h2.Get("x-a"), s, "clone")
		eq(textproto.CanonicalMIMEHeaderKey("x-b3-traceid"), "X-B3-Traceid", "canon")
	case 20:
		re := regexp.MustCompile(`^a(.*)b$`)
		m := re.FindStringSubmatch(t)
		if m != nil {
			eq(m[1], s, "re")
		}
		eq(regexp.MustCompile(`[0-9]+`).MatchString("a7"), true, "re")
	case 21:
		l := list.New()
		l.PushBack(s)
		l.PushFront("x")
		eq(l.Back().Value.(string), s, "list")
		l.Remove(l.Front())
		eq(l.Len(), 1, "list")
	case 22:
		h := &ints{3, 1, 2}
		heap.Init(h)
		heap.Push(h, int(s[0]))
		a := heap.Pop(h).(int)
		b := heap.Pop(h).(int)
		eq(a <= b, true, "heap")
	case 23:
		x := []int{int(s[0]), int(s[1]), 50}
		y := append([]int(nil), x...)
		sort.Ints(x)
		sort.Slice(y, func(i, j int) bool { return y[i] < y[j] })
		eq(x[0] == y[0] && x[1] == y[1] && x[2] == y[2], true, "sort")
		sort.Sort(sort.Reverse(sort.IntSlice(y)))
		eq(x[0] == y[2], true, "sort")
		sort.Stable(sort.IntSlice(y))
		sort.SliceStable(y, func(i, j int) bool { return y[i] < y[j] })
		i := sort.SearchInts(x, 50)
		eq(x[i], 50, "search")
		eq(sort.Search(3, func(i int) bool { return x[i] >= 50 }), i, "search")
		z := []string{s, "b"}
		sort.Strings(z)
		eq(sort.StringsAreSorted(z), true, "sorted")
		f := []float64{2, 1}
		sort.Float64s(f)
		eq(sort.SearchFloat64s(f, 2), 1, "floats")
	case 24:
		eq(strings.Title("ab"), "Ab", "title")
		eq(strings.Repeat("ab", 2), "abab", "repeat")
		eq(strings.TrimLeft("//ab", "/"), "ab", "trimleft")
		eq(strings.TrimRight(t, "b") != t, true, "trimright")
		eq(strings.ToTitle("a"), "A", "title")
		eq(strings.IndexRune(t, 'a'), 0, "indexrune")
		eq(strings.SplitAfter("a,b", ",")[0], "a,", "split")
		rd := strings.NewReader(s)
		c, _ := rd.ReadByte()
		eq(c, s[0], "reader")
		rest, _ := io.ReadAll(rd)
		eq(string(rest), s[1:], "readall")
	case 25:
		eq(strconv.Quote("a\n"), `"a\n"`, "quote")
		u, err := strconv.Unquote(strconv.Quote(s))
		eq(err, nil, "unquote")
		eq(u, s, "unquote")
		eq(strconv.FormatBool(true), "true", "bool")
		eq(strconv.FormatFloat(1.5, 'f', -1, 64), "1.5", "float")
		b := strconv.AppendInt(nil, int64(s[0]), 10)
		eq(string(b), strconv.Itoa(int(s[0])), "append")
		b = strconv.AppendUint(nil, uint64(s[0]), 16)
		eq(string(b), strconv.FormatUint(uint64(s[0]), 16), "append")
	case 26:
		u, err := url.Parse("http://h/x?y=1")
		eq(err, nil, "url")
		eq(u.Path+u.Host+u.RawQuery, "/xhy=1", "url")
		eq(u.Query().Get("y"), "1", "query")
		eq(u.String(), "http://h/x?y=1", "url")
	case 27:
		var sb strings.Builder
		w := io.MultiWriter(&sb, io.Discard)
		io.WriteString(w, s)
		fmt.Fprint(w, "x")
		fmt.Fprintln(w, "y")
		eq(sb.String(), s+"xy\n", "multi")
		n, _ := io.Copy(&sb, bytes.NewReader([]byte("z")))
		eq(n, int64(1), "copy")
	case 28:
		eq(reflect.DeepEqual([]int{1}, []int{1}), true, "deep")
		eq(reflect.DeepEqual(map[string]string{"a": "b"}, map[string]string{"a": "c"}), false, "deep")
		eq(reflect.TypeOf(1) == reflect.TypeOf(2), true, "type")
		eq(reflect.TypeOf(s).Kind() == reflect.String, true, "kind")
	case 29:
		eq(strconv.AppendQuote(nil, "x")[0], byte('"'), "q")
		var a [4]byte
		copy(a[:], s)
		eq(a[0], s[0], "copy")
		b := append(a[:0:0], a[:2]...)
		eq(string(b), s, "append")
		m := map[[4]byte]int{a: 1}
		eq(m[a], 1, "map")
		type k struct {
			a string
			b int
		}
		mk := map[k]string{{s, 1}: "v"}
		eq(mk[k{s, 1}], "v", "map")
		mi := map[interface{}]int{s: 2, k{s, 2}: 3}
		eq(mi[s], 2, "map")
		delete(mi, s)
		eq(len(mi), 1, "map")
	}
	sym.Cover("done")
}

func HNumbers() {
	x := sym.Uint64("x")
	f := sym.Param("f", -1)
	if f < 0 {
		f = sym.Range("f", 0, 9)
	}
	switch f {
	case 0:
		n := bits.OnesCount64(x)
		eq(n <= 64, true, "ones")
		eq(bits.Len64(x)+bits.LeadingZeros64(x), 64, "len")
		eq(bits.RotateLeft64(bits.RotateLeft64(x, 7), -7), x, "rot")
		eq(bits.Reverse64(bits.Reverse64(x)), x, "rev")
		eq(bits.ReverseBytes64(bits.ReverseBytes64(x)), x, "revb")
		eq(bits.TrailingZeros64(x) <= 64, true, "tz")
	case 1:
		f := math.Float64frombits(x)
		sym.Assume(!math.IsNaN(f))
		eq(math.Float64bits(f), x, "bits")
		eq(math.Max(f, f) == f, true, "max")
		eq(math.Min(f, f) == f, true, "min")
		eq(math.IsInf(f, 0) || f-f == 0, true, "inf")
		eq(math.Abs(f) >= 0, true, "abs")
	case 2:
		f := float64(x >> 12)
		eq(math.Floor(f) == f && math.Ceil(f) == f && math.Trunc(f) == f, true, "floor")
		eq(math.Sqrt(4.0), 2.0, "sqrt")
		eq(math.Pow(2, 3), 8.0, "pow")
		eq(math.Log10(100), 2.0, "log")
		eq(math.Mod(5, 3), 2.0, "mod")
	case 3:
		hi, lo := bits.Mul64(x, 2)
		eq(hi == x>>63 && lo == x<<1, true, "mul")
		s, c := bits.Add64(x, 1, 0)
		eq(s == x+1 && (c == 1) == (x == math.MaxUint64), true, "add")
	case 4:
		d := time.Duration(x >> 20)
		eq(d.Nanoseconds(), int64(x>>20), "ns")
		eq(d.Seconds() >= 0, true, "s")
		eq(d/time.Millisecond == time.Duration(d.Milliseconds()), true, "ms")
		eq(d.Truncate(time.Microsecond) <= d, true, "trunc")
		eq(d.Round(1) == d, true, "round")
	case 5:
		t := time.Unix(0, int64(x>>2))
		eq(t.Add(5).Sub(t), time.Duration(5), "sub")
		eq(t.Add(5).After(t) && t.Before(t.Add(1)) && t.Equal(t), true, "cmp")
		eq(t.UnixNano(), int64(x>>2), "unix")
		eq(t.IsZero(), false, "zero")
		eq(t.UTC().Equal(t), true, "utc")
	case 6:
		var a int64
		atomic.AddInt64(&a, int64(x))
		eq(atomic.LoadInt64(&a), int64(x), "atomic")
		eq(atomic.CompareAndSwapInt64(&a, int64(x), 1), true, "cas")
		eq(atomic.SwapInt64(&a, 2), int64(1), "swap")
		var b atomic.Int64
		b.Store(int64(x))
		eq(b.Add(0), int64(x), "typed")
		var c atomic.Value
		eq(c.Load(), nil, "value")
		c.Store(x)
		eq(c.Load().(uint64), x, "value")
		var p atomic.Pointer[uint64]
		p.Store(&x)
		eq(*p.Load(), x, "pointer")
		var q atomic.Bool
		eq(q.CompareAndSwap(false, true), true, "bool")
		var u uint32
		atomic.StoreUint32(&u, 3)
		eq(atomic.AddUint32(&u, ^uint32(0)), uint32(2), "u32")
		var u64 atomic.Uint64
		u64.Store(x)
		eq(u64.Load(), x, "u64")
	case 7:
		var o sync.Once
		n := 0
		o.Do(func() { n++ })
		o.Do(func() { n++ })
		eq(n, 1, "once")
		var m sync.Map
		m.Store("a", x)
		v, ok := m.Load("a")
		eq(ok && v.(uint64) == x, true, "syncmap")
		v, ok = m.LoadOrStore("a", 2)
		eq(ok && v.(uint64) == x, true, "syncmap")
		k := 0
		m.Range(func(a, b interface{}) bool { k++; return true })
		eq(k, 1, "range")
		m.Delete("a")
		_, ok = m.Load("a")
		eq(ok, false, "deleted")
		var p sync.Pool
		p.New = func() interface{} { return new(int) }
		i := p.Get().(*int)
		p.Put(i)
		var rw sync.RWMutex
		rw.RLock()
		rw.RLock()
		rw.RUnlock()
		rw.RUnlock()
		rw.Lock()
		rw.Unlock()
		eq(rw.TryLock(), true, "try")
		rw.Unlock()
		rl := rw.RLocker()
		rl.Lock()
		rl.Unlock()
		var mu sync.Mutex
		eq(mu.TryLock(), true, "try")
		c := sync.NewCond(&mu)
		c.Signal()
		c.Broadcast()
		mu.Unlock()
		f := sync.OnceFunc(func() { n++ })
		f()
		f()
		eq(n, 2, "oncefunc")
		eq(sync.OnceValue(func() int { return 7 })(), 7, "oncevalue")
	case 8:
		ch := make(chan uint64, 1)
		var wg sync.WaitGroup
		wg.Add(1)
		go func() { defer wg.Done(); ch <- x }()
		wg.Wait()
		select {
		case v := <-ch:
			eq(v, x, "chan")
		default:
			eq(1, 2, "empty")
		}
		close(ch)
		_, ok := <-ch
		eq(ok, false, "closed")
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), "k", x))
		eq(ctx.Err(), nil, "ctx")
		cancel()
		<-ctx.Done()
		eq(ctx.Err(), context.Canceled, "ctx")
		eq(ctx.Value("k").(uint64), x, "ctx")
	case 9:
		func() {
			defer func() { eq(recover() != nil, true, "recovered") }()
			var a []int
			_ = a[int(x&7)]
		}()
		i := 0
	again:
		if i < 3 {
			i++
			goto again
		}
	outer:
		for j := 0; ; j++ {
			switch {
			case j == 1:
				continue outer
			case j > 2:
				break outer
			default:
				fallthrough
			case j == 7:
				i++
			}
		}
		eq(i, 5, "loops")
		f := x
		fn := func(d uint64) func() uint64 { return func() uint64 { f += d; return f } }(1)
		eq(fn(), x+1, "closure")
		var e fmt.Stringer = time.Duration(5)
		g := e.String
		eq(g(), "5ns", "method value")
		h := time.Duration.String
		eq(h(6), "6ns", "method expr")
		arr := [3]int{1, 2, 3}
		sum := 0
		for _, v := range &arr {
			sum += v
		}
		for k := range "ab" {
			sum += k
		}
		eq(sum, 7, "range")
		var st struct{ a, b int }
		st2 := st
		st2.a = 1
		eq(st == st2, false, "struct")
	}
	sym.Cover("done")
}
