package vw

import (
	"strings"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
)

// known is what the model knows of a registered view.
type known struct {
	def   *view.View
	xs    []int64
	start bool
}

func invalidView(kind int, m stats.Measure) *view.View {
	switch kind {
	case 0:
		return &view.View{Name: "bad", Aggregation: view.Count()}
	case 1:
		return &view.View{Name: "bad", Measure: m}
	case 2:
		return &view.View{Name: "bad", Measure: m, Aggregation: view.Distribution(3, -1)}
	case 3:
		return &view.View{Name: strings.Repeat("b", 256), Measure: m, Aggregation: view.Count()}
	}
	c := sym.Byte("namebyte")
	sym.Assume(sym.Or(c < 32, c > 126))
	return &view.View{Name: "b" + string([]byte{c}), Measure: m, Aggregation: view.Count()}
}

// HRegister: histories of register, unregister and record against a model.
func HRegister() {
	m := stats.Int64("m", "", "1")
	m2 := stats.Int64("m2", "", "1")
	a := &view.View{Name: "v", Measure: m, Aggregation: view.Count()}
	aSame := &view.View{Name: "v", Measure: m, Aggregation: view.Count()}
	var b *view.View
	switch sym.Range("conflict", 0, 2) {
	case 0:
		b = &view.View{Name: "v", Measure: m, Aggregation: view.LastValue()}
	case 1:
		b = &view.View{Name: "v", Measure: m2, Aggregation: view.Count()}
	case 2:
		b = &view.View{Name: "v", Measure: m, Aggregation: view.Sum()}
	}
	c := &view.View{Name: "w", Measure: m2, Aggregation: view.LastValue()}
	d := &view.View{Measure: m, Aggregation: view.LastValue()}
	model := map[string]*known{}
	same := func(x, y *view.View) bool { return x == y || (x == a && y == aSame) || (x == aSame && y == a) }
	name := func(v *view.View) string {
		if v == d {
			return "m"
		}
		return v.Name
	}
	reg := func(vs ...*view.View) {
		bad, conflict := false, false
		for _, v := range vs {
			if v != a && v != aSame && v != b && v != c && v != d {
				bad = true
			}
		}
		if !bad {
			for _, v := range vs {
				if k := model[name(v)]; k == nil {
					model[name(v)] = &known{def: v}
				} else if !same(k.def, v) {
					conflict = true
				}
			}
		}
		err := view.Register(vs...)
		if bad {
			ck(23, err != nil, "an invalid view fails the call")
			sym.Cover("invalid")
		} else if conflict {
			ck(23, err != nil, "a conflicting view fails the call")
			sym.Cover("conflict")
		} else {
			ck(23, err == nil, "registered")
		}
	}
	unreg := func(vs ...*view.View) {
		for _, v := range vs {
			delete(model, name(v))
		}
		view.Unregister(vs...)
		sym.Cover("unregistered")
	}
	rec := func(x int64, ms ...*stats.Int64Measure) {
		var l []stats.Measurement
		for _, k := range ms {
			l = append(l, k.M(x))
		}
		for _, k := range model {
			for _, mm := range ms {
				if k.def.Measure == mm {
					k.xs = append(k.xs, x)
				}
			}
		}
		stats.Record(bg, l...)
	}
	check := func() {
		for _, n := range []string{"v", "w", "m"} {
			k := model[n]
			f := view.Find(n)
			rows, err := view.RetrieveData(n)
			if k == nil {
				ck(23, f == nil, "an unregistered view is not found")
				ck(23, err != nil, "an unregistered view has no data")
				continue
			}
			ck(23, f == k.def, "a registered view is found")
			ck(23, err == nil, "a registered view has data")
			if len(k.xs) == 0 {
				ck(23, len(rows) == 0, "no data before a recording")
				continue
			}
			if len(rows) != 1 {
				ck(23, false, "one row")
				continue
			}
			last := float64(k.xs[len(k.xs)-1])
			switch r := rows[0].Data.(type) {
			case *view.CountData:
				ck(23, k.def.Aggregation.Type == view.AggTypeCount && r.Value == int64(len(k.xs)), "count since registration")
			case *view.LastValueData:
				ck(23, k.def.Aggregation.Type == view.AggTypeLastValue && r.Value == last, "last value since registration")
			case *view.SumData:
				sum := 0.0
				for _, x := range k.xs {
					sum += float64(x)
				}
				ck(23, k.def.Aggregation.Type == view.AggTypeSum && r.Value == sum, "sum since registration")
			default:
				ck(23, false, "data")
			}
		}
		ck(23, view.Find("bad") == nil, "an invalid view is not found")
	}
	ops := sym.Param("ops", 3)
	check()
	for i := 0; i < ops; i++ {
		switch sym.Range("op", 0, 15) {
		case 0:
			reg(a)
		case 1:
			reg(aSame)
		case 2:
			reg(b)
		case 3:
			reg(c)
		case 4:
			reg(d)
		case 5:
			reg(a, c)
		case 6:
			reg(b, c)
		case 7:
			reg(c, invalidView(sym.Param("invalid", 0), m))
		case 8:
			reg(invalidView(sym.Param("invalid", 0), m), a)
		case 9:
			reg(a, b)
		case 10:
			unreg(aSame)
		case 11:
			unreg(c)
		case 12:
			unreg(a, c)
		case 13:
			unreg(d)
		case 14:
			rec(int64(sym.Int32("x")), m)
		case 15:
			rec(int64(sym.Int32("x")), m2, m)
		}
		check()
	}
}

// HInvalid: no invalid view gets in, alone or in company.
func HInvalid() {
	m := stats.Int64("m", "", "1")
	w := &view.View{Name: "w", Measure: m, Aggregation: view.Count()}
	before := sym.Range("before", 0, 1) == 1
	if before {
		ck(23, view.Register(w) == nil, "registered")
		stats.Record(bg, m.M(1))
	}
	n := "bad"
	kind := sym.Range("kind", 0, 7)
	var bad *view.View
	switch kind {
	case 5: // any length around the limit is judged by the limit
		n = strings.Repeat("b", sym.Range("len", 250, 260))
		bad = &view.View{Name: n, Measure: m, Aggregation: view.Count()}
	case 6: // any byte anywhere in the name
		b := []byte("name")
		b[sym.Range("at", 0, 3)] = sym.Byte("byte")
		n = string(b)
		bad = &view.View{Name: n, Measure: m, Aggregation: view.Count()}
	case 7: // any bound
		x, y := sym.Float64("x"), sym.Float64("y")
		sym.Assume(sym.And(x == x, y == y))
		bad = &view.View{Name: n, Measure: m, Aggregation: view.Distribution(x, y)}
		if x >= 0 && y >= 0 {
			kind = -1
		}
	default:
		bad = invalidView(kind, m)
		n = bad.Name
	}
	ok := kind == -1 || kind == 5 && len(n) <= 255
	if kind == 6 {
		ok = true
		for i := 0; i < len(n); i++ {
			ok = sym.And(ok, sym.And(n[i] >= 32, n[i] <= 126))
		}
	}
	var vs []*view.View
	switch sym.Range("place", 0, 2) {
	case 0:
		vs = []*view.View{bad}
	case 1:
		vs = []*view.View{w, bad}
	case 2:
		vs = []*view.View{bad, w}
	}
	err := view.Register(vs...)
	if ok {
		sym.Cover("valid")
		ck(23, err == nil, "a valid view is registered")
		ck(23, view.Find(n) == bad, "a valid view is found")
		return
	}
	sym.Cover("invalid")
	ck(23, err != nil, "an invalid view is refused")
	ck(23, view.Find(n) == nil, "an invalid view is not registered")
	ck(23, (view.Find("w") == w) == before, "nothing else is registered")
	if before {
		rows, err := view.RetrieveData("w")
		ck(23, err == nil && len(rows) == 1 && rows[0].Data.(*view.CountData).Value == 1, "a registered view keeps its data")
	}
}

// HRecord: which measurements reach which views.
func HRecord() {
	m := stats.Int64("m", "", "1")
	f := stats.Float64("f", "", "1")
	u := stats.Int64("u", "", "1")
	v := &view.View{Name: "v", Measure: m, Aggregation: view.Distribution(5), TagKeys: []tag.Key{k1, k2}}
	vc := &view.View{Name: "vc", Measure: m, Aggregation: view.Count()}
	w := &view.View{Name: "w", Measure: f, Aggregation: view.LastValue(), TagKeys: []tag.Key{k1}}
	var meter view.Meter
	useMeter := sym.Range("meter", 0, 1) == 1
	if useMeter {
		meter = view.NewMeter()
		meter.Start()
		if meter.Register(v, vc, w) != nil {
			ck(24, false, "registered")
			return
		}
	} else if view.Register(v, vc, w) != nil {
		ck(24, false, "registered")
		return
	}
	ctx, base := bg, [2]string{}
	if sym.Range("ctxtags", 0, 1) == 1 {
		base[0] = "z"
		ctx, _ = tag.New(bg, tag.Insert(k1, "z"))
	}
	mx, fx := int64(sym.Int32("mx")), sym.Float64("fx")
	sym.Assume(finite(fx))
	var ms []stats.Measurement
	var nm, nf int
	list := sym.Range("list", 0, 7)
	switch list {
	case 0:
		ms, nm = []stats.Measurement{m.M(mx)}, 1
	case 1:
		ms = []stats.Measurement{u.M(mx)}
	case 2:
		ms, nm, nf = []stats.Measurement{u.M(mx), m.M(mx), f.M(fx)}, 1, 1
	case 3:
		ms, nm, nf = []stats.Measurement{f.M(fx), u.M(mx), m.M(mx), m.M(mx)}, 2, 1
	case 4:
	case 5:
		ms, nf = []stats.Measurement{f.M(fx)}, 1
	case 6:
		ms, nm = []stats.Measurement{m.M(mx), u.M(mx)}, 1
	case 7:
		ms, nm, nf = []stats.Measurement{u.M(mx), f.M(fx), m.M(mx), u.M(mx), u.M(mx)}, 1, 1
	}
	mut := sym.Range("mut", 0, 5)
	var muts []tag.Mutator
	tags, bad := base, false
	switch mut {
	case 1:
		muts = []tag.Mutator{tag.Upsert(k1, "y")}
		tags[0] = "y"
	case 2:
		muts = []tag.Mutator{tag.Insert(k1, "y"), tag.Insert(k2, "x")}
		if tags[0] == "" {
			tags[0] = "y"
		}
		tags[1] = "x"
	case 3, 4:
		c := sym.Byte("bad")
		sym.Assume(sym.Or(c < 32, c > 126))
		muts = []tag.Mutator{tag.Upsert(k1, string([]byte{c}))}
		if mut == 4 {
			muts = append([]tag.Mutator{tag.Upsert(k2, "x")}, muts...)
		}
		bad = true
	case 5:
		muts = []tag.Mutator{tag.Delete(k1), tag.Update(k2, "q")}
		tags[0] = ""
	}
	attach := false
	att := map[string]interface{}{"a": mx}
	rounds := sym.Range("rounds", 1, 2)
	for i := 0; i < rounds; i++ {
		var err error
		api := 2
		if !useMeter && i == 0 {
			api = sym.Range("api", 0, 2)
		}
		switch api {
		case 0:
			if mut != 0 {
				c2, e := tag.New(ctx, muts...)
				if e != nil {
					sym.Assume(false)
				}
				stats.Record(c2, ms...)
			} else {
				stats.Record(ctx, ms...)
			}
		case 1:
			err = stats.RecordWithTags(ctx, muts, ms...)
		case 2:
			opts := []stats.Options{stats.WithTags(muts...), stats.WithMeasurements(ms...)}
			if useMeter {
				opts = append(opts, stats.WithRecorder(meter))
			}
			if i == rounds-1 && sym.Range("attach", 0, 1) == 1 {
				attach = true
				opts = append(opts, stats.WithAttachments(att))
			}
			err = stats.RecordWithOptions(ctx, opts...)
		}
		ck(24, (err != nil) == (bad && nm+nf > 0), "an error exactly when a mutator fails")
	}
	if bad {
		nm, nf = 0, 0
		sym.Cover("refused")
	}
	get := func(n string) []*view.Row {
		var rows []*view.Row
		var err error
		if useMeter {
			rows, err = meter.RetrieveData(n)
		} else {
			rows, err = view.RetrieveData(n)
		}
		if err != nil {
			ck(24, false, "retrieved")
		}
		return rows
	}
	hasTags := func(r *view.Row, keys int) bool {
		var want []tag.Tag
		for i, k := range []tag.Key{k1, k2}[:keys] {
			if tags[i] != "" {
				want = append(want, tag.Tag{Key: k, Value: tags[i]})
			}
		}
		if len(r.Tags) != len(want) {
			return false
		}
		for i := range want {
			if r.Tags[i].Key.Name() != want[i].Key.Name() || r.Tags[i].Value != want[i].Value {
				return false
			}
		}
		return true
	}
	rv, rvc, rw := get("v"), get("vc"), get("w")
	if nm == 0 {
		ck(24, len(rv) == 0 && len(rvc) == 0, "nothing recorded for the first measure")
	} else if len(rv) != 1 || len(rvc) != 1 {
		ck(24, false, "one row for the first measure")
	} else {
		sym.Cover("recorded")
		ck(24, hasTags(rv[0], 2), "tags of the row")
		ck(24, len(rvc[0].Tags) == 0, "no tags without keys")
		ck(24, rvc[0].Data.(*view.CountData).Value == int64(nm*rounds), "every measurement counted once")
		d := rv[0].Data.(*view.DistributionData)
		k := 0
		if mx >= 5 {
			k = 1
		}
		ck(24, d.Count == int64(nm*rounds), "every measurement in the distribution")
		ck(24, d.CountPerBucket[k] == int64(nm*rounds), "measurements in their bucket")
		ck(24, d.ExemplarsPerBucket[1-k] == nil, "no exemplar without a value")
		e := d.ExemplarsPerBucket[k]
		if attach {
			sym.Cover("exemplar")
			if e == nil {
				ck(24, false, "an exemplar")
			} else {
				x, ok := e.Attachments["a"].(int64)
				ck(24, ok && x == mx && len(e.Attachments) == 1, "attachments of the exemplar")
				ck(24, e.Value == float64(mx), "value of the exemplar")
			}
		} else {
			ck(24, e == nil, "no exemplar without attachments")
		}
	}
	if nf == 0 {
		ck(24, len(rw) == 0, "nothing recorded for the second measure")
	} else if len(rw) != 1 {
		ck(24, false, "one row for the second measure")
	} else {
		ck(24, hasTags(rw[0], 1), "tags of the second row")
		ck(24, rw[0].Data.(*view.LastValueData).Value == fx, "value of the second row")
	}
	// the caller's context is left alone
	z, ok := tag.FromContext(ctx).Value(k1)
	ck(24, ok == (base[0] != "") && z == base[0], "the caller's tags are unchanged")
	if useMeter {
		// the other recorder saw nothing
		if view.Register(vc) == nil {
			rows, err := view.RetrieveData("vc")
			ck(24, err == nil && len(rows) == 0, "only the given recorder is used")
		}
		meter.Stop()
	}
}

// HSameView: a second definition of a name is accepted exactly when it is the same.
func HSameView() {
	m := stats.Int64("m", "", "1")
	m2 := stats.Int64("m2", "", "1")
	mk := func(n string) (*view.View, []int64, int, bool) {
		v := &view.View{Name: "v", Measure: m}
		other := sym.Range(n+".measure", 0, 1) == 1
		if other {
			v.Measure = m2
		}
		var bs []int64
		kind := sym.Range(n+".agg", 0, 3)
		switch kind {
		case 0:
			v.Aggregation = view.Count()
		case 1:
			v.Aggregation = view.Sum()
		case 2:
			v.Aggregation = view.LastValue()
		case 3:
			nb := sym.Range(n+".bounds", 0, sym.Param("bounds", 3))
			var fs []float64
			zero := false
			for i := 0; i < nb; i++ {
				b := int64(sym.IntIn(n+".b", 0, 7))
				if i == 0 {
					zero = b == 0
				} else {
					lo := int64(0)
					if len(bs) > 0 {
						lo = bs[len(bs)-1]
					}
					sym.Assume(b > lo)
				}
				fs = append(fs, float64(b))
				if i > 0 || !zero { // a bound of 0 does not count
					bs = append(bs, b)
				}
			}
			v.Aggregation = view.Distribution(fs...)
		}
		return v, bs, kind, other
	}
	a, ab, ak, am := mk("a")
	b, bb, bk, bm := mk("b")
	same := ak == bk && am == bm && len(ab) == len(bb)
	if same {
		for i := range ab {
			same = same && ab[i] == bb[i]
		}
	}
	ck(23, view.Register(a) == nil, "registered")
	stats.Record(bg, m.M(3), m2.M(4))
	err := view.Register(b)
	if same {
		ck(23, err == nil, "the same definition is accepted again")
		sym.Cover("same")
	} else {
		ck(23, err != nil, "another definition of the name is refused")
		sym.Cover("different")
	}
	f := view.Find("v")
	ck(23, f == a || same && f == b, "the registered view is found")
	rows, err := view.RetrieveData("v")
	ck(23, err == nil && len(rows) == 1, "the view keeps its data")
	if len(rows) == 1 {
		want := 3.0
		if am {
			want = 4
		}
		switch d := rows[0].Data.(type) {
		case *view.CountData:
			ck(23, ak == 0 && d.Value == 1, "the view keeps its count")
		case *view.SumData:
			ck(23, ak == 1 && d.Value == want, "the view keeps its sum")
		case *view.LastValueData:
			ck(23, ak == 2 && d.Value == want, "the view keeps its value")
		case *view.DistributionData:
			ck(23, ak == 3 && d.Count == 1 && d.Min == want && len(d.CountPerBucket) == len(ab)+1, "the view keeps its distribution")
		}
	}
}
