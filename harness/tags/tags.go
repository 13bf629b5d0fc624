//go:build go1.21

// Package tags checks tag maps and their wire form.
package tags

import (
	"context"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/tag"
)

type kv struct{ k, v string }

// each collects what a streaming decode delivers (the metadata type is unexported).
func each[M any](dec func([]byte, func(tag.Key, string, M)) error, b []byte) ([]kv, error) {
	var r []kv
	err := dec(b, func(k tag.Key, v string, md M) { r = append(r, kv{k.Name(), v}) })
	return r, err
}

func asciiOK(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = sym.And(ok, sym.And(s[i] >= 32, s[i] <= 126))
	}
	return ok
}

func validName(s string) bool  { return sym.And(len(s) >= 1 && len(s) <= 255, asciiOK(s)) }
func validValue(s string) bool { return sym.And(len(s) <= 255, asciiOK(s)) }

// refUvarint reads an unsigned varint; n <= 0 on failure.
func refUvarint(b []byte) (v uint64, n int) {
	for i := 0; i < len(b) && i < 10; i++ {
		if i == 9 && b[i] > 1 {
			return 0, -1
		}
		v |= uint64(b[i]&0x7f) << uint(7*i)
		if b[i] < 0x80 {
			return v, i + 1
		}
	}
	return 0, 0
}

func refField(b []byte) (f, rest []byte, ok bool) {
	l, n := refUvarint(b)
	if n <= 0 {
		return nil, nil, false
	}
	b = b[n:]
	if l > uint64(len(b)) {
		return nil, nil, false
	}
	return b[:l], b[l:], true
}

// refDecode is the documented wire form: 0, then per tag 0, key, value (length-prefixed).
func refDecode(b []byte) (r []kv, ok bool) {
	if len(b) == 0 {
		return nil, true
	}
	if b[0] != 0 {
		return nil, false
	}
	b = b[1:]
	for len(b) > 0 {
		if b[0] != 0 {
			return nil, false
		}
		k, rest, ok := refField(b[1:])
		if !ok {
			return nil, false
		}
		v, rest, ok := refField(rest)
		if !ok {
			return nil, false
		}
		if !validName(string(k)) || !validValue(string(v)) {
			return nil, false
		}
		r = append(r, kv{string(k), string(v)})
		b = rest
	}
	return r, true
}

func decodeCheck(b []byte) {
	keep := append([]byte(nil), b...)
	m, err := tag.Decode(b)
	sym.ObsBool("err", err != nil)
	kvs, err2 := each(tag.DecodeEach, b)
	sym.Assert((err == nil) == (err2 == nil), "both decoders accept the same inputs")
	sym.Assert(sym.EqBytes(b, keep), "the input is not modified")
	want, ok := refDecode(b)
	if !ok {
		sym.Cover("rejected")
		sym.Assert(err != nil, "a malformed input is refused")
		sym.Assert(m == nil, "a refused input yields no tags")
		return
	}
	sym.Cover("accepted")
	sym.Assert(err == nil, "a well-formed input is accepted")
	sym.Assert(m != nil, "an accepted input yields a map")
	if len(want) > 0 {
		sym.Cover("tags")
	}
	sym.ObsInt("tags", int64(len(kvs)))
	sym.Assert(len(kvs) == len(want), "every tag is delivered once")
	for i, e := range want {
		sym.Assert(sym.And(kvs[i].k == e.k, kvs[i].v == e.v), "tags are delivered in order")
		last := e.v
		for _, f := range want[i+1:] {
			if f.k == e.k {
				last = f.v
				sym.Cover("repeated key")
			}
		}
		v, found := m.Value(tag.MustNewKey(e.k))
		sym.Assert(found, "decoded keys are in the map")
		sym.Assert(v == last, "the last value of a key wins")
	}
}

// HDecodeAny: arbitrary bytes.
func HDecodeAny() { decodeCheck(sym.Bytes("b", sym.Range("n", 0, sym.Param("n", 9)))) }

// HDecodeVarint: arbitrary length prefixes of the key or the value.
func HDecodeVarint() {
	b := []byte{0, 0}
	if sym.Range("field", 0, 1) == 1 {
		b = append(b, 1, 'k')
	}
	l := sym.Bytes("len", sym.Range("nl", 1, 11))
	for i := range l[:len(l)-1] {
		sym.Assume(l[i] >= 0x80)
	}
	b = append(b, l...)
	b = append(b, "abcdefgh"[:sym.Range("rest", 0, sym.Param("rest", 2))]...)
	decodeCheck(b)
}

func tagKey(name string, n int) string {
	s := sym.Str(name, n)
	sym.Assume(validName(s))
	return s
}

func tagVal(name string, n int) string {
	s := sym.Str(name, n)
	sym.Assume(validValue(s))
	return s
}

type refTag struct {
	k, v  string
	local bool
}

func ttlOf(local bool) tag.Metadata {
	if local {
		return tag.WithTTL(tag.TTLNoPropagation)
	}
	return tag.WithTTL(tag.TTLUnlimitedPropagation)
}

func wireCheck(ctx context.Context, ref []refTag) {
	m := tag.FromContext(ctx)
	b := tag.Encode(m)
	got, ok := refDecode(b)
	sym.Assert(ok, "the encoding is well-formed")
	nwire := 0
	for _, t := range ref {
		n := 0
		for _, g := range got {
			if g.k == t.k {
				n++
				sym.Assert(g.v == t.v, "the encoded value is the tag's")
			}
		}
		if t.local {
			sym.Cover("local")
			sym.Assert(n == 0, "a local tag is not encoded")
		} else {
			nwire++
			sym.Cover("propagated")
			sym.Assert(n == 1, "a propagated tag is encoded once")
		}
	}
	sym.Assert(len(got) == nwire, "nothing else is encoded")
	d, err := tag.Decode(b)
	sym.Assert(err == nil, "the encoding decodes")
	for _, t := range ref {
		v, found := d.Value(tag.MustNewKey(t.k))
		sym.Assert(found == !t.local, "exactly the propagated tags arrive")
		if found {
			sym.Assert(v == t.v, "values arrive unchanged")
		}
	}
	d2, err := tag.Decode(tag.Encode(d))
	sym.Assert(err == nil, "the decoded map encodes")
	for _, t := range ref {
		v, found := d2.Value(tag.MustNewKey(t.k))
		sym.Assert(found == !t.local, "received tags propagate further")
		if found {
			sym.Assert(v == t.v, "values propagate further unchanged")
		}
	}
}

// HWireRoundtrip: maps of a few tags in any iteration order.
func HWireRoundtrip() {
	n := sym.Range("n", 0, sym.Param("tags", 2))
	var ref []refTag
	var mods []tag.Mutator
	for i := 0; i < n; i++ {
		t := refTag{k: tagKey("k", sym.Range("kl", 1, sym.Param("kl", 2))), v: tagVal("v", sym.Range("vl", 0, sym.Param("vl", 1))), local: sym.Range("local", 0, 1) == 1}
		for _, o := range ref {
			sym.Assume(o.k != t.k)
		}
		ref = append(ref, t)
		if !t.local && sym.Range("default", 0, 1) == 1 {
			mods = append(mods, tag.Upsert(tag.MustNewKey(t.k), t.v))
		} else {
			mods = append(mods, tag.Insert(tag.MustNewKey(t.k), t.v, ttlOf(t.local)))
		}
	}
	ctx, err := tag.New(context.Background(), mods...)
	sym.Assert(err == nil, "valid tags are accepted")
	sym.MapOrder(true)
	wireCheck(ctx, ref)
	if n == 0 {
		sym.Assert(len(tag.Encode(nil)) == 0, "no map, no bytes")
	}
}

func fill(n int) string {
	s := ""
	for len(s) < n {
		s += "abcdefghijklmnopqrstuvwxyz0123456789"
	}
	return s[:n]
}

// HWireLong: length prefixes of one and two bytes.
func HWireLong() {
	ls := []int{1, 126, 127, 128, 129, 254, 255}
	kl := ls[sym.Range("kl", 0, len(ls)-1)]
	vl := ls[sym.Range("vl", 0, len(ls)-1)]
	k := tagKey("k", 1) + fill(kl-1)
	v := fill(vl-1) + tagVal("v", 1)
	ref := []refTag{{k: k, v: v, local: sym.Range("local", 0, 1) == 1}, {k: "!", v: "x"}}
	sym.Assume(k != "!")
	ctx, err := tag.New(context.Background(), tag.Insert(tag.MustNewKey(k), v, ttlOf(ref[0].local)), tag.Insert(tag.MustNewKey("!"), "x"))
	sym.Assert(err == nil, "valid tags are accepted")
	wireCheck(ctx, ref)
}

// ---- mutators

type op struct {
	kind int
	k, v string
	loc  bool
}

func applyRef(ref []refTag, o op) []refTag {
	at := -1
	for i := range ref {
		if ref[i].k == o.k {
			at = i
		}
	}
	out := append([]refTag(nil), ref...)
	switch o.kind {
	case 0:
		if at < 0 {
			out = append(out, refTag{o.k, o.v, o.loc})
		}
	case 1:
		if at >= 0 {
			out[at] = refTag{o.k, o.v, o.loc}
		}
	case 2:
		if at >= 0 {
			out[at] = refTag{o.k, o.v, o.loc}
		} else {
			out = append(out, refTag{o.k, o.v, o.loc})
		}
	case 3:
		if at >= 0 {
			out = append(out[:at], out[at+1:]...)
		}
	}
	return out
}

func (o op) mutator() tag.Mutator {
	k := tag.MustNewKey(o.k)
	switch o.kind {
	case 0:
		return tag.Insert(k, o.v, ttlOf(o.loc))
	case 1:
		return tag.Update(k, o.v, ttlOf(o.loc))
	case 2:
		return tag.Upsert(k, o.v, ttlOf(o.loc))
	}
	return tag.Delete(k)
}

func sameTags(m *tag.Map, ref []refTag, keys []string, what string) {
	for _, k := range keys {
		v, ok := m.Value(tag.MustNewKey(k))
		has, want := false, ""
		for _, t := range ref {
			if t.k == k {
				has, want = true, t.v
			}
		}
		sym.Assert(ok == has, what+": the same keys")
		if has {
			sym.Assert(v == want, what+": the same values")
		}
	}
	got, ok := refDecode(tag.Encode(m))
	sym.Assert(ok, what+": encodes")
	n := 0
	for _, t := range ref {
		if !t.local {
			n++
		}
	}
	if m != nil {
		sym.Assert(len(got) == n, what+": the same propagated tags")
	}
}

// HMutate: a sequence of mutators over a parent with some tags.
func HMutate() {
	lo := sym.Param("lo", 0)
	np := sym.Range("np", -1, sym.Param("np", 1))
	ctx := context.Background()
	var ref []refTag
	var keys []string
	if np >= 0 {
		var mods []tag.Mutator
		for i := 0; i < np; i++ {
			t := refTag{tagKey("pk", 1), tagVal("pv", sym.Range("pvlen", lo, 1)), sym.Range("ploc", 0, 1) == 1}
			for _, o := range ref {
				sym.Assume(o.k != t.k)
			}
			ref = append(ref, t)
			keys = append(keys, t.k)
			mods = append(mods, tag.Insert(tag.MustNewKey(t.k), t.v, ttlOf(t.local)))
		}
		var err error
		ctx, err = tag.New(ctx, mods...)
		sym.Assert(err == nil, "parent")
	}
	parent := tag.FromContext(ctx)
	n := sym.Range("ops", 0, sym.Param("ops", 2))
	want := ref
	bad := false
	var mods []tag.Mutator
	for i := 0; i < n; i++ {
		o := op{kind: sym.Range("kind", 0, 3), k: tagKey("k", 1)}
		if o.kind != 3 {
			o.v = sym.Str("v", sym.Range("vlen", lo, 1))
			o.loc = sym.Range("loc", 0, 1) == 1
			if !validValue(o.v) {
				bad = true
			}
		}
		keys = append(keys, o.k)
		mods = append(mods, o.mutator())
		want = applyRef(want, o)
	}
	got, err := tag.New(ctx, mods...)
	sym.ObsBool("err", err != nil)
	sameTags(parent, ref, keys, "the parent is unchanged")
	if bad {
		sym.Cover("invalid value")
		sym.Assert(err != nil, "an invalid value is refused")
		sym.Assert(got == ctx, "a refused call returns the original context")
		return
	}
	sym.Cover("applied")
	sym.Assert(err == nil, "valid values are accepted")
	sameTags(tag.FromContext(got), want, keys, "the derived context")
	// one more derivation leaves the first one alone
	k := tagKey("k2", 1)
	keys = append(keys, k)
	got2, err := tag.New(got, tag.Upsert(tag.MustNewKey(k), "2"), tag.Delete(tag.MustNewKey(keys[0])))
	sym.Assert(err == nil, "second derivation")
	sameTags(tag.FromContext(got), want, keys, "the first derived context is unchanged")
	w2 := applyRef(applyRef(want, op{kind: 2, k: k, v: "2"}), op{kind: 3, k: keys[0]})
	sameTags(tag.FromContext(got2), w2, keys, "the second derived context")
	sameTags(parent, ref, keys, "the parent is still unchanged")
}

// ---- validation

func mustPanics(s string) bool { return sym.Panics(func() { tag.MustNewKey(s) }) }

func validCheck(s string) {
	good := validName(s)
	k, err := tag.NewKey(s)
	sym.Assert((err == nil) == good, "a key name is accepted exactly when valid")
	sym.Assert(mustPanics(s) == (err != nil), "the must-variant panics exactly when the other fails")
	if err == nil {
		sym.Cover("valid")
		sym.Assert(k.Name() == s, "the key has the given name")
	} else {
		sym.Cover("invalid")
	}
	vgood := validValue(s)
	key := tag.MustNewKey("k")
	base, _ := tag.New(context.Background(), tag.Insert(key, "0"))
	for i, m := range []tag.Mutator{tag.Insert(key, s), tag.Update(key, s), tag.Upsert(key, s)} {
		ctx, err := tag.New(base, m)
		sym.Assert((err == nil) == vgood, "a value is accepted exactly when valid")
		v, _ := tag.FromContext(ctx).Value(key)
		if i == 0 || err != nil {
			sym.Assert(v == "0", "a refused or ignored value does not show")
		} else {
			sym.Assert(v == s, "an accepted value shows")
		}
	}
	// the same key in maps without it, empty or not
	other := tag.MustNewKey("l")
	filled, _ := tag.New(context.Background(), tag.Insert(other, "1"))
	for _, from := range []context.Context{context.Background(), filled} {
		for i, m := range []tag.Mutator{tag.Insert(key, s), tag.Update(key, s), tag.Upsert(key, s)} {
			ctx, err := tag.New(from, m)
			sym.Assert((err == nil) == vgood, "a value of an absent key is accepted exactly when valid")
			v, ok := tag.FromContext(ctx).Value(key)
			if i == 1 || err != nil {
				sym.Assert(!ok, "a refused value, or the update of an absent key, sets nothing")
			} else {
				sym.Assert(ok && v == s, "an accepted value shows")
			}
		}
		// and among other mutators, before or after them
		late := sym.Range("late", 0, 1) == 1
		ms := []tag.Mutator{tag.Upsert(key, s), tag.Upsert(other, "2")}
		if late {
			ms[0], ms[1] = ms[1], ms[0]
		}
		ctx, err := tag.New(from, ms...)
		sym.Assert((err == nil) == vgood, "one invalid value among others is refused")
		if err != nil {
			v, _ := tag.FromContext(ctx).Value(other)
			sym.Assert(v != "2", "a refused call sets nothing")
		}
	}
}

// HValid: short strings of arbitrary bytes.
func HValid() { validCheck(sym.Str("s", sym.Range("n", 0, sym.Param("n", 4)))) }

// HValidLong: the length limit.
func HValidLong() {
	n := sym.Range("n", 253, 258)
	p := sym.Range("pos", 0, 2)
	s := fill(n)
	c := sym.Str("c", 1)
	switch p {
	case 0:
		s = c + s[1:]
	case 1:
		s = s[:100] + c + s[101:]
	case 2:
		s = s[:n-1] + c
	}
	validCheck(s)
}
