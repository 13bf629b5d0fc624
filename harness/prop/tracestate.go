package prop

import (
	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/trace/tracestate"
)

func symEntry(kl, vl int) tracestate.Entry {
	return tracestate.Entry{Key: sym.Str("k", sym.Range("kl", 0, kl)), Value: sym.Str("v", sym.Range("vl", 0, vl))}
}

// HTSEntryValid: a state is built from one entry exactly when the entry is valid.
func HTSEntryValid() {
	e := symEntry(sym.Param("kl", 4), sym.Param("vl", 3))
	ts, err := tracestate.New(nil, e)
	sym.ObsBool("err", err != nil)
	good := sym.And(validTSKey(e.Key), validTSValue(e.Value))
	sym.Assert((err == nil) == good, "an entry is accepted exactly when it is valid")
	if err != nil {
		sym.Cover("invalid")
		sym.Assert(ts == nil, "no state with an error")
		return
	}
	sym.Cover("valid")
	sym.Assert(sameEntries(ts.Entries(), []tracestate.Entry{e}), "the entry is kept as given")
}

// HTSEntryLong: the size limits of keys and values.
func HTSEntryLong() {
	e := tracestate.Entry{Key: "a", Value: "b"}
	want := false
	switch sym.Range("kind", 0, 3) {
	case 0: // plain key
		n := sym.Range("n", 255, 258)
		e.Key = "a" + sym.Str("k", 1) + rep("x", n-2)
		want = sym.And(n <= 256, keyChar(e.Key[1]))
	case 1: // tenant@system
		t, s := sym.Range("t", 240, 243), sym.Range("s", 13, 16)
		c := sym.Byte("c")
		e.Key = rep("t", t) + "@" + string([]byte{c}) + rep("s", s-1)
		want = sym.And(t <= 241 && s <= 14, lowerChar(c))
	case 2:
		n := sym.Range("n", 254, 258)
		c := sym.Byte("c")
		e.Value = rep(" ", n-2) + "v" + string([]byte{c})
		want = sym.And(sym.And(n <= 256, sym.And(c > ' ', c <= 0x7e)), sym.And(c != ',', c != '='))
	case 3:
		n := sym.Range("n", 255, 257)
		e.Key, e.Value = "", "v"
		for i := 0; i < n; i++ {
			e.Key += string([]byte{"ab"[i%2]})
		}
		want = n <= 256
	}
	_, err := tracestate.New(nil, e)
	sym.Assert((err == nil) == want, "keys and values are bounded")
	sym.Cover("long")
}

func validKey1(name string) string {
	k := sym.Byte(name)
	sym.Assume(sym.And(k >= 'a', k <= 'z'))
	return string([]byte{k})
}

// HTSNew: building from a parent follows the documented rules and changes nothing else.
func HTSNew() {
	np := sym.Range("np", 0, sym.Param("np", 2))
	var pe []tracestate.Entry
	for i := 0; i < np; i++ {
		pe = append(pe, tracestate.Entry{Key: validKey1("pk"), Value: validKey1("pv")})
	}
	dup := false
	for i := range pe {
		for j := 0; j < i; j++ {
			dup = sym.Or(dup, pe[i].Key == pe[j].Key)
		}
	}
	sym.Assume(!dup)
	in := append([]tracestate.Entry(nil), pe...)
	parent, err := tracestate.New(nil, in...)
	sym.Assert(err == nil, "the parent is built")
	sym.Assert((parent == nil) == (np == 0), "no entries, no state")

	// the caller's slice has room behind its end
	nn := sym.Range("nn", 0, sym.Param("nn", 2))
	spare := sym.Range("spare", 0, 2)
	buf := make([]tracestate.Entry, nn+spare)
	for i := range buf {
		buf[i] = tracestate.Entry{Key: validKey1("nk"), Value: validKey1("nv")}
	}
	keep := append([]tracestate.Entry(nil), buf...)
	ne := buf[:nn]
	child, err := tracestate.New(parent, ne...)
	sym.Assert(sameEntries(buf, keep), "the caller's entries are not changed")
	sym.Assert(sameEntries(parent.Entries(), pe), "the parent is not changed")
	ndup := false
	for i := range ne {
		for j := 0; j < i; j++ {
			ndup = sym.Or(ndup, ne[i].Key == ne[j].Key)
		}
	}
	if ndup {
		sym.Cover("duplicate")
		sym.Assert(err != nil && child == nil, "duplicate keys are refused")
		return
	}
	want := append([]tracestate.Entry(nil), keep[:nn]...)
	for _, p := range pe {
		over := false
		for _, e := range keep[:nn] {
			if e.Key == p.Key {
				over = true
			}
		}
		if !over {
			want = append(want, p)
		} else {
			sym.Cover("override")
		}
	}
	sym.Assert(err == nil, "valid entries are accepted")
	sym.Assert(sameEntries(child.Entries(), want), "new entries first, then the parent's other entries in order")
	sym.Cover("built")

	// a second child from the same parent and slice, then a grandchild, leave the others alone
	e2 := tracestate.Entry{Key: validKey1("k2"), Value: validKey1("v2")}
	switch sym.Range("more", 0, 3) {
	case 0:
		tracestate.New(parent, append(buf[:0:len(buf)], e2)...)
		if nn > 0 {
			return // the caller overwrote its own slice
		}
	case 1:
		tracestate.New(parent, e2)
	case 2:
		g, err := tracestate.New(child, e2)
		sym.Assert(err == nil && g.Entries()[0] == e2, "a grandchild starts with its own entry")
	case 3:
		for i := range buf { // the caller reuses its slice
			buf[i] = e2
		}
	}
	sym.Assert(sameEntries(child.Entries(), want), "a state built earlier does not change")
	sym.Assert(sameEntries(parent.Entries(), pe), "the parent does not change")
	sym.Cover("immutable")
}

// HTSLimit: at most 32 entries after replacing.
func HTSLimit() {
	np := sym.Range("np", 29, 32)
	var pe []tracestate.Entry
	for i := 0; i < np; i++ {
		pe = append(pe, tracestate.Entry{Key: "k" + string([]byte{byte('a' + i/8), byte('a' + i%8)}), Value: "v"})
	}
	parent, err := tracestate.New(nil, pe...)
	sym.Assert(err == nil, "up to 32 entries are accepted")
	nn := sym.Range("nn", 0, 4)
	over := sym.Range("over", 0, nn)
	var ne []tracestate.Entry
	for i := 0; i < nn; i++ {
		e := tracestate.Entry{Key: "n" + string([]byte{byte('a' + i)}), Value: validKey1("v")}
		if i < over {
			e.Key = pe[i*7].Key
		}
		ne = append(ne, e)
	}
	child, err := tracestate.New(parent, ne...)
	total := np + nn - over
	sym.ObsInt("total", int64(total))
	if total > 32 {
		sym.Cover("too many")
		sym.Assert(err != nil && child == nil, "more than 32 entries are refused")
	} else {
		sym.Cover("fits")
		sym.Assert(err == nil && len(child.Entries()) == total, "up to 32 entries are accepted")
		sym.Assert(sameEntries(child.Entries()[:nn], ne), "new entries come first")
	}
	sym.Assert(sameEntries(parent.Entries(), pe), "the parent does not change")
}
