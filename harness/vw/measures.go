package vw

import (
	"sync"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
)

// HMeasures: measures made with one name are one measure, of the description
// and unit it was made with first.
func HMeasures() {
	type def struct{ name, desc, unit string }
	var first []def
	var all []stats.Measure
	var at []int
	n := sym.Param("n", 3)
	for i := 0; i < n; i++ {
		d := def{symVal("name", 1), symVal("desc", 1), symVal("unit", 1)}
		var m stats.Measure
		if sym.Range("float", 0, 1) == 1 {
			m = stats.Float64(d.name, d.desc, d.unit)
		} else {
			m = stats.Int64(d.name, d.desc, d.unit)
		}
		k := -1
		for j, f := range first {
			if f.name == d.name {
				k = j
			}
		}
		if k < 0 {
			k = len(first)
			first = append(first, d)
		} else {
			sym.Cover("same name")
		}
		all = append(all, m)
		at = append(at, k)
		for j, m := range all {
			ck(48, m.Name() == first[at[j]].name, "the name of a measure")
			ck(48, m.Description() == first[at[j]].desc, "the description a measure was made with first")
			ck(48, m.Unit() == first[at[j]].unit, "the unit a measure was made with first")
		}
	}
	// a view of one handle sees what is recorded by any handle of that name
	v := &view.View{Name: "v", Measure: all[0], Aggregation: view.Count()}
	k := sym.Range("recorded", 0, n-1)
	early := sym.Range("early", 0, 1) == 1
	if early {
		recordOn(all[k], 1) // before the view: not seen
	}
	if view.Register(v) != nil {
		ck(48, false, "registered")
		return
	}
	recordOn(all[k], 1)
	rows, err := view.RetrieveData("v")
	if err != nil {
		ck(48, false, "retrieved")
		return
	}
	if at[k] == at[0] {
		ck(48, len(rows) == 1 && rows[0].Data.(*view.CountData).Value == 1, "recorded by any handle of the name")
		sym.Cover("seen")
	} else {
		ck(48, len(rows) == 0, "another measure is not seen")
		sym.Cover("other")
	}
}

func recordOn(m stats.Measure, x int64) {
	switch m := m.(type) {
	case *stats.Int64Measure:
		stats.Record(bg, m.M(x))
	case *stats.Float64Measure:
		stats.Record(bg, m.M(float64(x)))
	}
}

// HMeasurement: a measurement carries its measure and its value.
func HMeasurement() {
	i := stats.Int64("i", "di", "1")
	f := stats.Float64("f", "df", "By")
	x, y := int64(sym.Int32("x")), sym.Float64("y")
	a, b := i.M(x), f.M(y)
	ck(48, a.Measure() == stats.Measure(i) && b.Measure() == stats.Measure(f), "the measure of a measurement")
	ck(48, a.Value() == float64(x), "the value of a measurement")
	ck(48, b.Value() == y || y != y && b.Value() != b.Value(), "the value of a measurement")
	sym.Cover("measured")
}

// HMeasuresConc: handles of one name made by two goroutines, one recording
// while the view of the other is registered.
func HMeasuresConc() {
	x := int64(sym.Uint16("x"))
	var ms [2]*stats.Int64Measure
	other := sym.Range("other", 0, 1) == 1
	var wg sync.WaitGroup
	wg.Add(2)
	sym.Explore()
	go func() {
		ms[0] = stats.Int64("m", "d0", "u0")
		view.Register(&view.View{Name: "v", Measure: ms[0], Aggregation: view.Sum()})
		wg.Done()
	}()
	go func() {
		n := "m"
		if other {
			n = "o"
		}
		ms[1] = stats.Int64(n, "d1", "u1")
		stats.Record(bg, ms[1].M(x))
		wg.Done()
	}()
	wg.Wait()
	sym.StopExplore()
	d, u := ms[0].Description(), ms[0].Unit()
	if other {
		ck(48, d == "d0" && u == "u0" && ms[1].Description() == "d1", "different measures")
	} else {
		ck(48, sym.Or(d == "d0" && u == "u0", d == "d1" && u == "u1"), "one definition wins")
		ck(48, ms[1].Description() == d && ms[1].Unit() == u, "one definition wins")
	}
	stats.Record(bg, ms[1].M(x))
	rows, err := view.RetrieveData("v")
	if err != nil {
		ck(48, false, "retrieved")
		return
	}
	if other {
		ck(48, len(rows) == 0, "another measure is not seen")
		sym.Cover("other")
		return
	}
	if len(rows) != 1 {
		ck(48, false, "recorded by any handle of the name")
		return
	}
	s := rows[0].Data.(*view.SumData).Value
	ck(48, sym.Or(s == float64(x), s == float64(2*x)), "recorded by any handle of the name")
	sym.Cover("same")
}
