package tags

import (
	"context"
	"runtime/pprof"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/tag"
)

type doKey struct{}

// HDo: Do runs its function once, under the tags of the context as profiler labels.
func HDo() {
	ctx := context.WithValue(context.Background(), doKey{}, 7)
	outer := sym.IntIn("outer", 0, 1) == 1
	if outer {
		ctx = pprof.WithLabels(ctx, pprof.Labels("outer", "1"))
	}
	n := sym.Range("n", -1, sym.Param("n", 2))
	var ref []refTag
	if n >= 0 {
		var mods []tag.Mutator
		for i := 0; i < n; i++ {
			t := refTag{tagKey("k", 1), tagVal("v", sym.Range("vlen", 0, 1)), sym.IntIn("local", 0, 1) == 1}
			for _, o := range ref {
				sym.Assume(o.k != t.k)
			}
			ref = append(ref, t)
			mods = append(mods, tag.Insert(tag.MustNewKey(t.k), t.v, ttlOf(t.local)))
		}
		var err error
		ctx, err = tag.New(ctx, mods...)
		sym.Assert(err == nil, "the tags are set")
	} else {
		sym.Cover("no tags")
	}
	calls := 0
	f := func(c context.Context) {
		calls++
		sym.Assert(c.Value(doKey{}) == 7, "the function keeps the values of the context")
		sym.Assert(tag.FromContext(c) == tag.FromContext(ctx), "the function keeps the tags of the context")
		for _, t := range ref {
			v, ok := pprof.Label(c, t.k)
			sym.Assert(ok && v == t.v, "each tag is a profiler label")
		}
		labels := 0
		pprof.ForLabels(c, func(k, v string) bool {
			labels++
			return true
		})
		want := len(ref)
		if outer {
			want++
			v, ok := pprof.Label(c, "outer")
			sym.Assert(ok && v == "1", "labels that were set before stay")
		}
		sym.Assert(labels == want, "there are no other labels")
		sym.Cover("run")
		if sym.IntIn("panics", 0, 1) == 1 {
			sym.Cover("panic")
			panic("f")
		}
	}
	p := sym.Panics(func() { tag.Do(ctx, f) })
	sym.Assert(calls == 1, "the function runs exactly once")
	_ = p
	for _, t := range ref {
		_, ok := pprof.Label(ctx, t.k)
		sym.Assert(!ok, "the labels end with the function")
	}
}
