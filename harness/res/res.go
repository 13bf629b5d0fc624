//go:build go1.21

// Package res checks resource labels, resource merging and name sanitising.
package res

import (
	"context"
	"errors"
	"os"
	"unicode"
	"unicode/utf8"

	"go.opencensus.io/internal"
	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/resource"
)

func ck(prop int, c bool, label string) {
	if p := sym.Param("prop", 0); p != 0 && p != prop {
		return
	}
	sym.Assert(c, label)
}

var bg = context.Background()

type kv struct{ k, v string }

// key is a label key of 1..n printable characters without quotes, not starting with a space.
func key(name string, n int) string {
	k := sym.Str(name, sym.Range(name+"len", 1, n))
	for i := 0; i < len(k); i++ {
		sym.Assume(sym.And(k[i] >= 32, sym.And(k[i] <= 126, k[i] != '"')))
	}
	sym.Assume(k[0] != ' ')
	return k
}

func sameLabels(m map[string]string, want []kv) bool {
	if len(m) != len(want) {
		return false
	}
	for _, e := range want {
		if v, ok := m[e.k]; !ok || v != e.v {
			return false
		}
	}
	return true
}

// HLabels: decoding the encoding of a label set gives it back, also through the
// environment.
func HLabels() {
	n := sym.Range("entries", 1, sym.Param("entries", 2))
	var want []kv
	m := map[string]string{}
	for i := 0; i < n; i++ {
		max, kmax := sym.Param("vlen", 3), sym.Param("klen", 2)
		if n > 1 {
			max, kmax = sym.Param("vlen2", 1), 1
		}
		k := key("k", kmax)
		v := sym.Str("v", sym.Range("vlen", 0, max))
		for j := 0; j < len(v); j++ {
			sym.Assume(v[j] < 128)
		}
		for _, e := range want {
			sym.Assume(e.k != k)
		}
		want = append(want, kv{k, v})
		m[k] = v
	}
	s := resource.EncodeLabels(m)
	got, err := resource.DecodeLabels(s)
	ck(36, err == nil, "an encoded label set decodes")
	ck(36, sameLabels(got, want), "decoding the encoding yields the same labels")
	ck(36, sameLabels(m, want), "encoding leaves the map alone")
	sym.Cover("roundtrip")
}

// HLabelsLong: keys and values up to the documented 256 characters.
func HLabelsLong() {
	fill := []string{"a", "\"", "\\", ",", "=", "\x01", " "}[sym.Range("fill", 0, 6)]
	n := []int{200, 255, 256}[sym.Range("n", 0, 2)]
	b := make([]byte, n)
	for i := range b {
		b[i] = fill[0]
	}
	b[sym.Range("pos", 0, 1)*(n-1)] = sym.Byte("b")
	v := string(b)
	for _, x := range []byte{b[0], b[n-1]} {
		sym.Assume(x < 128)
	}
	kb := make([]byte, n)
	for i := range kb {
		kb[i] = 'k'
	}
	k := string(kb)
	m := map[string]string{k: v, "z": ""}
	got, err := resource.DecodeLabels(resource.EncodeLabels(m))
	ck(36, err == nil, "a long label set decodes")
	ck(36, sameLabels(got, []kv{{k, v}, {"z", ""}}), "decoding the encoding of long labels yields them")
	sym.Cover("long")
}

// HLabelsAny: decoding arbitrary text never panics, and text of the documented form
// decodes to what it says.
func HLabelsAny() {
	s := sym.Str("s", sym.Range("n", 0, sym.Param("n", 6)))
	var m map[string]string
	var err error
	p := sym.Panics(func() { m, err = resource.DecodeLabels(s) })
	ck(36, !p, "decoding never panics")
	if p {
		return
	}
	if err != nil {
		ck(36, m == nil, "no labels with an error")
		sym.Cover("rejected")
	} else {
		ck(36, len(m) > 0, "accepted text has labels")
		sym.Cover("accepted")
	}
}

// HLabelsForm: blanks around entries and a trailing comma do not matter, later
// duplicates win, the rest must have the documented form.
func HLabelsForm() {
	sp := func(n string) string {
		return []string{"", " ", "\t "}[sym.Range(n, 0, 2)]
	}
	k1, k2 := key("ka", 1), key("kb", 2)
	v := sym.Str("v", sym.Range("vlen", 0, 2))
	for j := 0; j < len(v); j++ {
		sym.Assume(sym.And(v[j] >= 32, sym.And(v[j] <= 126, sym.And(v[j] != '"', v[j] != '\\'))))
	}
	sym.Assume(sym.And(k1[0] != ',', k2[0] != ','))
	tail := []string{"", ",", ",,"}[sym.Range("tail", 0, 2)]
	s := sp("s0") + k1 + "=\"" + v + "\"" + sp("s1") + "," + sp("s2") + k2 + "=\"w\"" + sp("s3") + tail
	m, err := resource.DecodeLabels(s)
	ck(36, err == nil, "well-formed labels decode")
	if k1 == k2 {
		ck(36, sameLabels(m, []kv{{k2, "w"}}), "the later of two entries wins")
		sym.Cover("duplicate")
	} else {
		ck(36, sameLabels(m, []kv{{k1, v}, {k2, "w"}}), "blanks do not matter")
		sym.Cover("form")
	}
}

func res(name string) (*resource.Resource, []kv) {
	if sym.Bool(name + "nil") {
		return nil, nil
	}
	r := &resource.Resource{Type: sym.Str(name+"type", sym.Range(name+"tlen", 0, 1))}
	n := sym.Range(name+"n", -1, 2)
	var ls []kv
	if n >= 0 {
		r.Labels = map[string]string{}
	}
	for i := 0; i < n; i++ {
		e := kv{sym.Str(name+"k", 1), sym.Str(name+"v", 1)}
		for _, o := range ls {
			sym.Assume(o.k != e.k)
		}
		ls = append(ls, e)
		r.Labels[e.k] = e.v
	}
	return r, ls
}

func get(ls []kv, k string) (string, bool) {
	for _, e := range ls {
		if e.k == k {
			return e.v, true
		}
	}
	return "", false
}

// HMerge: combining detectors keeps every label, earlier results first.
func HMerge() {
	n := sym.Range("detectors", 0, 3)
	var rs []*resource.Resource
	var lss [][]kv
	var types []string
	var errAt = -1
	errX := errors.New("x")
	var calls []int
	var ds []resource.Detector
	for i := 0; i < n; i++ {
		var r *resource.Resource
		var ls []kv
		if i < 2 {
			r, ls = res([]string{"a", "b"}[i])
		} else {
			r = &resource.Resource{Type: "z", Labels: map[string]string{"q": "1"}}
			ls = []kv{{"q", "1"}}
		}
		fail := sym.Bool("fail")
		if fail && errAt < 0 {
			errAt = i
		}
		rs, lss = append(rs, r), append(lss, ls)
		ty := ""
		if r != nil {
			ty = r.Type
		}
		types = append(types, ty)
		i := i
		ds = append(ds, func(context.Context) (*resource.Resource, error) {
			calls = append(calls, i)
			if fail {
				return r, errX
			}
			return r, nil
		})
	}
	got, err := resource.MultiDetector(ds...)(bg)
	if errAt >= 0 {
		ck(36, err == errX, "the first error is returned")
		ck(36, got == nil, "no resource with an error")
		ck(36, len(calls) == errAt+1, "no detector runs after an error")
		sym.Cover("error")
		return
	}
	ck(36, err == nil, "no error")
	ck(36, len(calls) == n, "every detector is asked once")
	for i, c := range calls {
		ck(36, c == i, "detectors are asked in order")
	}
	var want []kv
	ty := ""
	any := false
	for i, r := range rs {
		if r == nil {
			continue
		}
		any = true
		if ty == "" {
			ty = types[i]
		}
		for _, e := range lss[i] {
			if _, ok := get(want, e.k); !ok {
				want = append(want, e)
			}
		}
		ck(36, r.Type == types[i], "merging leaves the inputs' types alone")
		ck(36, sameLabels(r.Labels, lss[i]), "merging leaves the inputs' labels alone")
	}
	if !any {
		ck(36, got == nil, "nothing detected, no resource")
		sym.Cover("nothing")
		return
	}
	ck(36, got != nil && got.Type == ty, "the first non-empty type wins")
	ck(36, got != nil && sameLabels(got.Labels, want), "every label is kept, the first value winning")
	sym.Cover("merged")
}

// HFromEnv: the environment gives the resource.
func HFromEnv() {
	ty := sym.Str("type", sym.Range("tlen", 0, 2))
	for i := 0; i < len(ty); i++ {
		sym.Assume(sym.And(ty[i] >= 33, ty[i] <= 126))
	}
	os.Setenv(resource.EnvVarType, " "+ty+" ")
	defer os.Unsetenv(resource.EnvVarType)
	defer os.Unsetenv(resource.EnvVarLabels)
	switch sym.Range("mode", 0, 2) {
	case 0:
		os.Setenv(resource.EnvVarLabels, []string{"", " "}[sym.Range("blank", 0, 1)])
		r, err := resource.FromEnv(bg)
		ck(36, err == nil && r != nil && r.Type == ty && len(r.Labels) == 0, "no labels in the environment")
		sym.Cover("no labels")
	case 1:
		k := key("k", 1)
		v := sym.Str("v", 1)
		sym.Assume(sym.And(v[0] < 128, v[0] != 0))
		os.Setenv(resource.EnvVarLabels, resource.EncodeLabels(map[string]string{k: v}))
		r, err := resource.FromEnv(bg)
		ck(36, err == nil && r != nil && r.Type == ty && sameLabels(r.Labels, []kv{{k, v}}), "labels from the environment")
		sym.Cover("labels")
	case 2:
		os.Setenv(resource.EnvVarLabels, "a=b")
		r, err := resource.FromEnv(bg)
		ck(36, err != nil && r == nil, "malformed labels are an error")
		sym.Cover("malformed")
	}
}

func sanitised(s string) {
	r := internal.Sanitize(s)
	if len(s) == 0 {
		ck(37, r == "", "the empty name stays empty")
		sym.Cover("empty")
		return
	}
	n := len(s)
	if n > 100 {
		n = 100
	}
	var want []byte
	for _, r := range s[:n] {
		if unicode.IsLetter(r) || unicode.IsDigit(r) {
			want = utf8.AppendRune(want, r)
		} else {
			want = append(want, '_')
		}
	}
	pre := ""
	if want[0] >= '0' && want[0] <= '9' {
		pre = "key_"
		sym.Cover("digit")
	} else if want[0] == '_' {
		pre = "key"
		sym.Cover("underscore")
	} else {
		sym.Cover("plain")
	}
	ck(37, r == pre+string(want), "every other character becomes an underscore, with the prefix its start needs")
	if len(r) <= 100 {
		ck(37, internal.Sanitize(r) == r, "sanitising again changes nothing")
	}
}

// HSanitize: short ASCII names.
func HSanitize() {
	s := sym.Str("s", sym.Range("n", 0, sym.Param("n", 4)))
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 128)
	}
	sanitised(s)
}

// HSanitizeLong: names around the length limit.
func HSanitizeLong() {
	n := sym.Range("n", 96, 102)
	b := make([]byte, n)
	for i := range b {
		b[i] = []byte{'a', '7', '/'}[i%3]
	}
	b[0] = sym.Byte("first")
	sym.Assume(b[0] < 128)
	i := sym.Range("at", 95, 101)
	if i < n {
		b[i] = sym.Byte("late")
		sym.Assume(b[i] < 128)
	}
	sanitised(string(b))
	sym.Cover("long")
}

// HSanitizeWide: names with characters that are not ASCII, or no text at all, also across
// the cut.
func HSanitizeWide() {
	wide := []string{"\u00e9", "\u0663", "\u20ac", "\u65e5", "\ufffd", "\U00010400", "\U0001f600", "\x80", "\xe2\x82", "\u00b2"}[sym.IntIn("wide", 0, 9)]
	if sym.Range("long", 0, 1) == 0 {
		s := sym.Str("s", 2)
		sym.Assume(s[0] < 128)
		sanitised(s[:1] + wide + s[1:])
		sanitised(wide + s)
		return
	}
	n := sym.Range("at", 96, 100)
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a'
	}
	b[0] = sym.Byte("first")
	sym.Assume(b[0] < 128)
	sanitised(string(b) + wide + "zz")
	sym.Cover("cut")
}

// HSanitizeBytes: every string of a few bytes.
func HSanitizeBytes() {
	sanitised(sym.Str("s", sym.Range("n", 0, sym.Param("n", 2))))
}
