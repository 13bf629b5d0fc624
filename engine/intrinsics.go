package main

// Models of the runtime, synchronisation, time, randomness and formatting.

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"regexp"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var growMemo = map[[3]int64]int{}
var growMu sync.Mutex

func stackTrace() string { return "\n" + trunc(string(debug.Stack()), 1200) }

type intrinsic func(in *Interp, fr *frame, args []value) value

// useBody makes callFn fall back to interpreting the real body.
type useBody struct{}

var pureNative = map[string]bool{
	"math.Float64bits": true, "math.Float64frombits": true, "math.IsNaN": true, "math.IsInf": true, "math.Abs": true,
	"math/bits.Len64": true, "math/bits.Len": true, "math/bits.LeadingZeros64": true,
}

const symPkg = "go.opencensus.io/internal/verifh/sym."

func basicByKind(k byte, w uint8, signed bool) basicInfo { return basicInfo{w, signed, k} }

var bInt = basicInfo{64, true, 'i'}
var bU64 = basicInfo{64, false, 'i'}

func argStr(v value) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported("non-constant label/name"))
	}
	return s
}

func (in *Interp) inputName(base string) string {
	p := in.path
	k := p.names[base]
	p.names[base]++
	return fmt.Sprintf("%s#%d", base, k)
}

func (in *Interp) freshInput(base, kind string, s Sort) value {
	if in.spec > 0 {
		panic(specAbort{})
	}
	n := in.inputName(base)
	t := in.tc.Var(n, s)
	in.path.inputs = append(in.path.inputs, inputVar{name: n, kind: kind, t: t})
	return t
}

// envVar is a nondeterministic environment value (not replayable as an input).
func (in *Interp) envVar(base string, s Sort) *Term {
	if in.spec > 0 {
		panic(specAbort{})
	}
	n := "env:" + in.inputName("env:"+base)
	return in.tc.Var(n, s)
}

func symIn(kind string, s Sort) intrinsic {
	return func(in *Interp, fr *frame, a []value) value { return in.freshInput(argStr(a[0]), kind, s) }
}

var intrinsics map[string]func(in *Interp, fr *frame, args []value) value

var modelFor = map[string]string{
	"internal/bytealg.IndexByte":           "IndexByte",
	"internal/bytealg.IndexByteString":     "IndexByteString",
	"internal/bytealg.LastIndexByteString": "LastIndexByteString",
	"internal/bytealg.LastIndexByte":       "LastIndexByte",
	"internal/bytealg.Count":               "Count",
	"internal/bytealg.CountString":         "CountString",
	"internal/bytealg.IndexString":         "IndexString",
	"internal/bytealg.Index":               "IndexBytes",
	"strings.Index":                        "IndexString",
	"bytes.Index":                          "IndexBytes",
	"strings.IndexByte":                    "IndexByteString",
	"strings.Count":                        "StringsCount",
	"internal/stringslite.Index":           "IndexString",
	"internal/stringslite.IndexByte":       "IndexByteString",
	"bytes.IndexByte":                      "IndexByte",
	"sort.Slice":                           "SortSlice",
	"sort.SliceStable":                     "SortSlice",
	"strings.EqualFold":                    "EqualFold",
	"strings.Map":                          "StringsMap",
	"strings.ToLower":                      "ToLower",
	"strings.ToUpper":                      "ToUpper",
	"strings.TrimSpace":                    "TrimSpace",
	"math.Floor":                           "",
}

func noop(in *Interp, fr *frame, a []value) value { return nil }

func cell(v value) *value {
	p, ok := v.(*value)
	if !ok {
		panic(unsupported(fmt.Sprintf("cell of %T", v)))
	}
	return p
}

func (in *Interp) nilCheck(p *value) {
	if p == nil {
		in.goPanicRuntime("invalid memory address or nil pointer dereference")
	}
}

func atomicOp(w int, f func(in *Interp, p *value, a []value) value) intrinsic {
	return func(in *Interp, fr *frame, a []value) value {
		p := cell(a[0])
		in.nilCheck(p)
		in.yieldPoint("atomic")
		in.acqrel(p)
		if pz, ok := (*p).(poison); ok {
			panic(unsupported("atomic on poison " + pz.why))
		}
		return f(in, p, a[1:])
	}
}

func (in *Interp) errorsNew(msg value) value {
	t := in.w.typeOf("errors", "errorString")
	p := new(value)
	*p = structv{msg}
	return iface{in.types.get(types.NewPointer(t)), p}
}

func init() {
	I := map[string]func(in *Interp, fr *frame, args []value) value{}
	intrinsics = I

	// ---- harness API
	I[symPkg+"Byte"] = symIn("u8", bvSort(8))
	I[symPkg+"Uint16"] = symIn("u16", bvSort(16))
	I[symPkg+"Int32"] = symIn("i32", bvSort(32))
	I[symPkg+"Uint32"] = symIn("u32", bvSort(32))
	I[symPkg+"Int64"] = symIn("i64", bvSort(64))
	I[symPkg+"Uint64"] = symIn("u64", bvSort(64))
	I[symPkg+"Int"] = symIn("i64", bvSort(64))
	I[symPkg+"Bool"] = symIn("bool", sBool)
	I[symPkg+"Float64"] = symIn("f64", sF64)
	bytesIn := func(in *Interp, a []value) []sbyte {
		base := argStr(a[0])
		n := int(in.intArg(a[1], types.Typ[types.Int], "sym length"))
		r := make([]sbyte, n)
		for i := range r {
			r[i] = toSbyte(in.freshInput(base, "u8", bvSort(8)))
		}
		return r
	}
	I[symPkg+"Str"] = func(in *Interp, fr *frame, a []value) value { return mkStr(bytesIn(in, a)) }
	I[symPkg+"Bytes"] = func(in *Interp, fr *frame, a []value) value {
		bs := bytesIn(in, a)
		r := make(slicev, len(bs))
		for i := range bs {
			r[i] = bs[i].val()
		}
		return r
	}
	I[symPkg+"Range"] = func(in *Interp, fr *frame, a []value) value {
		lo := int(in.intArg(a[1], types.Typ[types.Int], "range lo"))
		hi := int(in.intArg(a[2], types.Typ[types.Int], "range hi"))
		n := in.inputName(argStr(a[0]))
		if hi < lo {
			panic(pathAbort{"infeasible", "empty range"})
		}
		k := lo + in.choose(hi-lo+1, "range")
		in.path.inputs = append(in.path.inputs, inputVar{name: n, kind: "len", con: uint64(int64(k))})
		in.path.choices = append(in.path.choices, fmt.Sprintf("%s=%d", n, k))
		return uint64(int64(k))
	}
	I[symPkg+"Assume"] = func(in *Interp, fr *frame, a []value) value { in.assume(a[0]); return nil }
	I[symPkg+"Assert"] = func(in *Interp, fr *frame, a []value) value {
		in.assert(a[0], argStr(a[1]), "assertion failed")
		return nil
	}
	I[symPkg+"Cover"] = func(in *Interp, fr *frame, a []value) value {
		l := argStr(a[0])
		in.path.covers[l] = true
		in.path.obs = append(in.path.obs, obsEntry{label: l, kind: "cover"})
		return nil
	}
	I[symPkg+"Param"] = func(in *Interp, fr *frame, a []value) value {
		if v, ok := in.path.params[argStr(a[0])]; ok {
			return uint64(int64(v))
		}
		return a[1]
	}
	obs := func(kind string) intrinsic {
		return func(in *Interp, fr *frame, a []value) value {
			in.path.obs = append(in.path.obs, obsEntry{label: argStr(a[0]), kind: kind, v: a[1]})
			return nil
		}
	}
	I[symPkg+"ObsInt"] = obs("int")
	I[symPkg+"ObsBool"] = obs("bool")
	I[symPkg+"ObsStr"] = obs("str")
	I[symPkg+"MapOrder"] = func(in *Interp, fr *frame, a []value) value {
		in.path.mapOrder = a[0].(bool)
		if in.path.mapOrder {
			in.path.env = true
		}
		return nil
	}
	I[symPkg+"Explore"] = func(in *Interp, fr *frame, a []value) value {
		in.explore = true
		in.raceOn = true
		in.path.env = true
		return nil
	}
	I[symPkg+"StopExplore"] = func(in *Interp, fr *frame, a []value) value {
		in.explore = false
		in.raceOn = false
		return nil
	}
	I[symPkg+"Quiesce"] = func(in *Interp, fr *frame, a []value) value {
		for i := 0; i < 3; i++ {
			in.sleep()
		}
		return nil
	}
	I[symPkg+"Period"] = func(in *Interp, fr *frame, a []value) value {
		if in.period == nil {
			return uint64(0)
		}
		return in.period
	}
	I[symPkg+"FastTicks"] = func(in *Interp, fr *frame, a []value) value { return nil }
	I[symPkg+"Fire"] = func(in *Interp, fr *frame, a []value) value {
		in.yieldPoint("tick")
		for _, t := range in.timers {
			if t.active && t.fires < 0 && t.c != nil && len(t.c.buf) == 0 {
				in.deliver(t.c, in.now())
			}
		}
		return nil
	}
	I[symPkg+"Symbolic"] = func(in *Interp, fr *frame, a []value) value { return true }
	I[symPkg+"And"] = func(in *Interp, fr *frame, a []value) value {
		return norm(in.tc.And(in.boolTerm(a[0]), in.boolTerm(a[1])))
	}
	I[symPkg+"Or"] = func(in *Interp, fr *frame, a []value) value {
		return norm(in.tc.Or(in.boolTerm(a[0]), in.boolTerm(a[1])))
	}
	I[symPkg+"Implies"] = func(in *Interp, fr *frame, a []value) value {
		return norm(in.tc.Or(in.tc.Not(in.boolTerm(a[0])), in.boolTerm(a[1])))
	}
	for _, n := range []string{"And", "Or", "Implies"} {
		pureNative[symPkg+n] = true
	}
	I[symPkg+"EqBytes"] = func(in *Interp, fr *frame, a []value) value {
		x, y := a[0].(slicev), a[1].(slicev)
		if len(x) != len(y) {
			return false
		}
		r := in.tc.tru
		b8 := basicInfo{8, false, 'i'}
		for i := range x {
			r = in.tc.And(r, in.tc.Eq(in.term(x[i], b8), in.term(y[i], b8)))
		}
		return norm(r)
	}
	I[symPkg+"IteInt"] = func(in *Interp, fr *frame, a []value) value {
		return norm(in.tc.Ite(in.boolTerm(a[0]), in.term(a[1], bInt), in.term(a[2], bInt)))
	}

	// ---- sync
	lock := func(in *Interp, fr *frame, a []value) value {
		p := cell(a[0])
		in.nilCheck(p)
		in.yieldPoint("Lock")
		o := in.syncObj(p)
		in.blockUntil("mutex "+in.where1(), func() bool { return !o.locked && o.readers == 0 })
		o.locked = true
		o.owner = in.cur.id
		in.acquire(o.vc)
		in.acquire(o.rvc)
		return nil
	}
	unlock := func(in *Interp, fr *frame, a []value) value {
		p := cell(a[0])
		in.nilCheck(p)
		o := in.syncObj(p)
		if !o.locked {
			in.fatal("fatal error: sync: unlock of unlocked mutex")
		}
		o.vc = in.release(o.vc)
		o.locked = false
		in.yieldPoint("after Unlock")
		return nil
	}
	tryLock := func(in *Interp, fr *frame, a []value) value {
		p := cell(a[0])
		in.yieldPoint("TryLock")
		o := in.syncObj(p)
		if o.locked || o.readers > 0 {
			return false
		}
		o.locked = true
		in.acquire(o.vc)
		in.acquire(o.rvc)
		return true
	}
	rlock := func(in *Interp, fr *frame, a []value) value {
		p := cell(a[0])
		in.nilCheck(p)
		in.yieldPoint("RLock")
		o := in.syncObj(p)
		in.blockUntil("rwmutex", func() bool { return !o.locked })
		o.readers++
		in.acquire(o.vc)
		return nil
	}
	runlock := func(in *Interp, fr *frame, a []value) value {
		p := cell(a[0])
		in.nilCheck(p)
		o := in.syncObj(p)
		if o.readers == 0 {
			in.fatal("fatal error: sync: RUnlock of unlocked RWMutex")
		}
		o.rvc = in.release(o.rvc)
		o.readers--
		in.yieldPoint("after RUnlock")
		return nil
	}
	I["(*sync.Mutex).Lock"] = lock
	I["(*sync.Mutex).Unlock"] = unlock
	I["(*sync.Mutex).TryLock"] = tryLock
	I["(*internal/sync.Mutex).Lock"] = lock
	I["(*internal/sync.Mutex).Unlock"] = unlock
	I["(*internal/sync.Mutex).TryLock"] = tryLock
	I["(*sync.RWMutex).Lock"] = lock
	I["(*sync.RWMutex).Unlock"] = unlock
	I["(*sync.RWMutex).TryLock"] = tryLock
	I["(*sync.RWMutex).RLock"] = rlock
	I["(*sync.RWMutex).RUnlock"] = runlock
	onceDo := func(in *Interp, fr *frame, a []value) value {
		p := cell(a[0])
		in.nilCheck(p)
		// the done flag lives in the struct itself so that it survives/rolls back with memory
		in.yieldPoint("Once.Do")
		st := (*p).(structv)
		flag := firstLeaf(&st[0])
		o := in.syncObj(p)
		if isDone(*flag) {
			in.acquire(o.vc)
			return nil
		}
		in.blockUntil("once", func() bool { return !o.locked })
		if isDone(*flag) {
			in.acquire(o.vc)
			return nil
		}
		o.locked = true
		func() {
			defer func() {
				o.locked = false
				in.setCell(flag, onceDone{})
				o.vc = in.release(o.vc)
			}()
			in.call(fr, a[1], nil, 0)
		}()
		in.yieldPoint("after Once.Do")
		return nil
	}
	I["(*sync.Once).Do"] = onceDo
	wgAdd := func(in *Interp, fr *frame, a []value) value {
		p := cell(a[0])
		in.yieldPoint("WaitGroup.Add")
		o := in.syncObj(p)
		var d int64 = -1
		if len(a) > 1 {
			d = in.intArg(a[1], types.Typ[types.Int], "wg delta")
		}
		o.vc = in.release(o.vc)
		o.n += d
		if o.n < 0 {
			in.goPanicPlain("sync: negative WaitGroup counter")
		}
		return nil
	}
	I["(*sync.WaitGroup).Add"] = wgAdd
	I["(*sync.WaitGroup).Done"] = wgAdd
	I["(*sync.WaitGroup).Wait"] = func(in *Interp, fr *frame, a []value) value {
		p := cell(a[0])
		in.yieldPoint("WaitGroup.Wait")
		o := in.syncObj(p)
		in.blockUntil("WaitGroup.Wait", func() bool { return o.n == 0 })
		in.acquire(o.vc)
		return nil
	}
	I["(*sync.Cond).Wait"] = func(in *Interp, fr *frame, a []value) value {
		p := cell(a[0])
		in.nilCheck(p)
		o := in.syncObj(p)
		l := condLocker(*p)
		t := &condTicket{}
		o.cond = append(o.cond, t)
		in.callFn(fr, in.methodNamed(l.t, "Unlock"), []value{l.v}, nil)
		in.blockUntil("Cond.Wait", func() bool { return t.ready })
		in.acquire(o.vc)
		in.callFn(fr, in.methodNamed(l.t, "Lock"), []value{l.v}, nil)
		return nil
	}
	wakeCond := func(all bool) intrinsic {
		return func(in *Interp, fr *frame, a []value) value {
			p := cell(a[0])
			in.nilCheck(p)
			in.yieldPoint("Cond.Signal")
			o := in.syncObj(p)
			o.vc = in.release(o.vc)
			for len(o.cond) > 0 {
				o.cond[0].ready = true
				o.cond = o.cond[1:]
				if !all {
					break
				}
			}
			return nil
		}
	}
	I["(*sync.Cond).Signal"] = wakeCond(false)
	I["(*sync.Cond).Broadcast"] = wakeCond(true)
	I["(*sync.Pool).Get"] = func(in *Interp, fr *frame, a []value) value {
		st := (*cell(a[0])).(structv)
		nf := st[len(st)-1]
		if isNilFunc(nf) {
			return iface{}
		}
		return in.call(fr, nf, nil, 0)
	}
	I["(*sync.Pool).Put"] = noop

	// sync.Map: an ordered association list kept in the first field
	smap := func(in *Interp, p *value) *mapv {
		in.nilCheck(p)
		st := (*p).(structv)
		leaf := firstLeaf(&st[0])
		if m, ok := (*leaf).(*mapv); ok && m != nil && m.t == anyMapType {
			return m
		}
		m := newMap(anyMapType)
		in.setCell(leaf, m)
		return m
	}
	smapOp := func(name string, f func(in *Interp, m *mapv, a []value) value) {
		I["(*sync.Map)."+name] = func(in *Interp, fr *frame, a []value) value {
			p := cell(a[0])
			in.nilCheck(p)
			in.yieldPoint("sync.Map." + name)
			in.acqrel(p)
			r := in.raceOn
			in.raceOn = false
			defer func() { in.raceOn = r }()
			return f(in, smap(in, p), a[1:])
		}
	}
	smapOp("Load", func(in *Interp, m *mapv, a []value) value {
		if e := in.mapFind(m, a[0]); e != nil {
			return tuplev{e.v, true}
		}
		return tuplev{iface{}, false}
	})
	smapOp("Store", func(in *Interp, m *mapv, a []value) value { in.mapSet(m, a[0], a[1]); return nil })
	smapOp("LoadOrStore", func(in *Interp, m *mapv, a []value) value {
		if e := in.mapFind(m, a[0]); e != nil {
			return tuplev{e.v, true}
		}
		in.mapSet(m, a[0], a[1])
		return tuplev{a[1], false}
	})
	smapOp("Delete", func(in *Interp, m *mapv, a []value) value { in.mapDelete(m, a[0]); return nil })
	smapOp("LoadAndDelete", func(in *Interp, m *mapv, a []value) value {
		e := in.mapFind(m, a[0])
		if e == nil {
			return tuplev{iface{}, false}
		}
		v := e.v
		in.mapDelete(m, a[0])
		return tuplev{v, true}
	})
	smapOp("Swap", func(in *Interp, m *mapv, a []value) value {
		e := in.mapFind(m, a[0])
		r := tuplev{iface{}, false}
		if e != nil {
			r = tuplev{e.v, true}
		}
		in.mapSet(m, a[0], a[1])
		return r
	})
	smapOp("Clear", func(in *Interp, m *mapv, a []value) value {
		for _, e := range append([]*mapEntry(nil), m.ents...) {
			if !e.deleted {
				in.mapDelete(m, e.k)
			}
		}
		return nil
	})
	smapOp("CompareAndSwap", func(in *Interp, m *mapv, a []value) value {
		e := in.mapFind(m, a[0])
		if e == nil || !in.truth(in.ifaceEq(e.v.(iface), a[1].(iface))) {
			return false
		}
		in.mapSet(m, a[0], a[2])
		return true
	})
	I["(*sync.Map).Range"] = func(in *Interp, fr *frame, a []value) value {
		p := cell(a[0])
		in.nilCheck(p)
		in.yieldPoint("sync.Map.Range")
		in.acqrel(p)
		m := smap(in, p)
		var seen []*mapEntry
	next:
		for i := 0; i < len(m.ents); i++ {
			e := m.ents[i]
			if e.deleted {
				continue
			}
			for _, o := range seen { // no key is visited twice
				if o.deleted && in.truth(in.equals(m.t.Key(), o.k, e.k)) {
					continue next
				}
			}
			seen = append(seen, e)
			if !in.truth(in.call(fr, a[1], []value{e.k, e.v}, 0)) {
				break
			}
			in.yieldPoint("sync.Map.Range step")
			in.acqrel(p)
		}
		return nil
	}

	// ---- atomics
	for _, x := range []struct {
		n string
		b basicInfo
	}{{"Int32", basicInfo{32, true, 'i'}}, {"Int64", bInt}, {"Uint32", basicInfo{32, false, 'i'}}, {"Uint64", bU64}, {"Uintptr", bU64}} {
		b := x.b
		I["sync/atomic.Load"+x.n] = atomicOp(int(b.w), func(in *Interp, p *value, a []value) value { return *p })
		I["sync/atomic.Store"+x.n] = atomicOp(int(b.w), func(in *Interp, p *value, a []value) value { in.setCell(p, a[0]); return nil })
		I["sync/atomic.Add"+x.n] = atomicOp(int(b.w), func(in *Interp, p *value, a []value) value {
			v := norm(in.tc.Bin(OAdd, in.term(*p, b), in.term(a[0], b)))
			in.setCell(p, v)
			return v
		})
		I["sync/atomic.And"+x.n] = atomicOp(int(b.w), func(in *Interp, p *value, a []value) value {
			o := *p
			in.setCell(p, norm(in.tc.Bin(OBAnd, in.term(*p, b), in.term(a[0], b))))
			return o
		})
		I["sync/atomic.Or"+x.n] = atomicOp(int(b.w), func(in *Interp, p *value, a []value) value {
			o := *p
			in.setCell(p, norm(in.tc.Bin(OBOr, in.term(*p, b), in.term(a[0], b))))
			return o
		})
		I["sync/atomic.Swap"+x.n] = atomicOp(int(b.w), func(in *Interp, p *value, a []value) value {
			o := *p
			in.setCell(p, a[0])
			return o
		})
		I["sync/atomic.CompareAndSwap"+x.n] = atomicOp(int(b.w), func(in *Interp, p *value, a []value) value {
			if in.truth(norm(in.tc.Eq(in.term(*p, b), in.term(a[0], b)))) {
				in.setCell(p, a[1])
				return true
			}
			return false
		})
	}
	I["sync/atomic.LoadPointer"] = atomicOp(64, func(in *Interp, p *value, a []value) value { return *p })
	I["sync/atomic.StorePointer"] = atomicOp(64, func(in *Interp, p *value, a []value) value { in.setCell(p, a[0]); return nil })
	I["sync/atomic.SwapPointer"] = atomicOp(64, func(in *Interp, p *value, a []value) value { o := *p; in.setCell(p, a[0]); return o })
	I["sync/atomic.CompareAndSwapPointer"] = atomicOp(64, func(in *Interp, p *value, a []value) value {
		if in.truth(in.ptrEq(*p, a[0])) {
			in.setCell(p, a[1])
			return true
		}
		return false
	})
	I["(*sync/atomic.Value).Load"] = atomicOp(64, func(in *Interp, p *value, a []value) value { return (*p).(structv)[0] })
	valCheck := func(in *Interp, old, nw value) {
		n := nw.(iface)
		if n.t == nil {
			in.goPanicPlain("sync/atomic: store of nil value into Value")
		}
		o := old.(iface)
		if o.t != nil && in.types.get(o.t) != in.types.get(n.t) {
			in.goPanicPlain("sync/atomic: store of inconsistently typed value into Value")
		}
	}
	I["(*sync/atomic.Value).Store"] = atomicOp(64, func(in *Interp, p *value, a []value) value {
		s := (*p).(structv)
		valCheck(in, s[0], a[0])
		in.setCell(&s[0], a[0])
		return nil
	})
	I["(*sync/atomic.Value).Swap"] = atomicOp(64, func(in *Interp, p *value, a []value) value {
		s := (*p).(structv)
		valCheck(in, s[0], a[0])
		o := s[0]
		in.setCell(&s[0], a[0])
		return o
	})
	I["(*sync/atomic.Value).CompareAndSwap"] = atomicOp(64, func(in *Interp, p *value, a []value) value {
		s := (*p).(structv)
		if in.truth(in.ifaceEq(s[0].(iface), a[0].(iface))) {
			in.setCell(&s[0], a[1])
			return true
		}
		return false
	})

	// ---- runtime & misc
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.Release",
		"internal/race.ReleaseMerge", "internal/race.Enable", "internal/race.Disable", "internal/race.Write", "internal/race.Read", "internal/race.WriteRange", "internal/race.ReadRange",
		"log.Printf", "log.Println", "log.Print", "fmt.Printf", "fmt.Println", "fmt.Print", "internal/godebug.registerMetric",
		"(*internal/godebug.Setting).IncNonDefault", "runtime/debug.SetGCPercent", "internal/testlog.Getenv", "os.runtime_beforeExit"} {
		I[n] = noop
	}
	I["runtime.Gosched"] = func(in *Interp, fr *frame, a []value) value {
		if in.explore {
			in.yieldPoint("Gosched")
		} else {
			in.sleep()
		}
		return nil
	}
	I["runtime.NumGoroutine"] = func(in *Interp, fr *frame, a []value) value {
		if v, ok := in.side["numgo"]; ok {
			return v.(value)
		}
		return in.freshEnvInt("numgoroutine", 1, 1<<20)
	}
	I["runtime.NumCgoCall"] = func(in *Interp, fr *frame, a []value) value {
		if v, ok := in.side["numcgo"]; ok {
			return v.(value)
		}
		return in.freshEnvInt("numcgo", 0, 1<<20)
	}
	I["runtime.GOMAXPROCS"] = func(in *Interp, fr *frame, a []value) value { return uint64(4) }
	I["runtime.NumCPU"] = func(in *Interp, fr *frame, a []value) value { return uint64(4) }
	I["runtime.Caller"] = func(in *Interp, fr *frame, a []value) value { return tuplev{uint64(0), "file.go", uint64(1), true} }
	I["runtime.Callers"] = func(in *Interp, fr *frame, a []value) value { return uint64(0) }
	I["(*internal/godebug.Setting).Value"] = func(in *Interp, fr *frame, a []value) value { return "" }
	I["(*internal/godebug.Setting).Name"] = func(in *Interp, fr *frame, a []value) value { return "" }
	I["internal/godebug.New"] = func(in *Interp, fr *frame, a []value) value {
		p := new(value)
		*p = zero(in.w.typeOf("internal/godebug", "Setting"))
		return p
	}
	env := func(in *Interp) map[string]value {
		if in.side == nil {
			in.side = map[interface{}]interface{}{}
		}
		m, ok := in.side["env"].(map[string]value)
		if !ok {
			m = map[string]value{}
			in.side["env"] = m
		}
		return m
	}
	I["os.Setenv"] = func(in *Interp, fr *frame, a []value) value { env(in)[argStr(a[0])] = a[1]; return iface{} }
	I["os.Unsetenv"] = func(in *Interp, fr *frame, a []value) value { delete(env(in), argStr(a[0])); return iface{} }
	I["os.Getenv"] = func(in *Interp, fr *frame, a []value) value {
		if v, ok := env(in)[argStr(a[0])]; ok {
			return v
		}
		return ""
	}
	I["os.LookupEnv"] = func(in *Interp, fr *frame, a []value) value {
		if v, ok := env(in)[argStr(a[0])]; ok {
			return tuplev{v, true}
		}
		return tuplev{"", false}
	}
	I["os.Getpid"] = func(in *Interp, fr *frame, a []value) value { return uint64(1) }
	I["syscall.Getenv"] = func(in *Interp, fr *frame, a []value) value { return tuplev{"", false} }
	I["internal/abi.NoEscape"] = func(in *Interp, fr *frame, a []value) value { return a[0] }
	I["internal/abi.Escape"] = func(in *Interp, fr *frame, a []value) value { return a[0] }
	I["internal/bytealg.MakeNoZero"] = func(in *Interp, fr *frame, a []value) value {
		n := int(in.intArg(a[0], types.Typ[types.Int], "MakeNoZero"))
		s := make(slicev, n, bytesCap(n))
		z := s[:cap(s)]
		for i := range z {
			z[i] = uint64(0)
		}
		return s
	}
	I["(*strings.Builder).copyCheck"] = noop
	I["(*strings.Builder).String"] = func(in *Interp, fr *frame, a []value) value {
		p := cell(a[0])
		in.nilCheck(p)
		st := (*p).(structv)
		for _, f := range st {
			if s, ok := f.(slicev); ok {
				bs := make([]sbyte, len(s))
				for i := range s {
					bs[i] = toSbyte(s[i])
				}
				return mkStr(bs)
			}
		}
		panic(unsupported("Builder layout"))
	}
	I["strings.Clone"] = func(in *Interp, fr *frame, a []value) value { return a[0] }
	I["internal/stringslite.Clone"] = I["strings.Clone"]
	I["unique.Make"] = func(in *Interp, fr *frame, a []value) value {
		k := fmt.Sprintf("%v", a[0])
		if in.uniq == nil {
			in.uniq = map[string]*value{}
		}
		p := in.uniq[k]
		if p == nil {
			if strings.Contains(k, "0x") {
				panic(unsupported("unique.Make"))
			}
			p = new(value)
			*p = a[0]
			in.uniq[k] = p
		}
		return structv{p}
	}
	eqBytes := func(in *Interp, fr *frame, a []value) value {
		x, y := a[0].(slicev), a[1].(slicev)
		if len(x) != len(y) {
			return false
		}
		return in.strEq(bytesToStr(x), bytesToStr(y))
	}
	I["bytes.Equal"] = eqBytes
	I["internal/bytealg.Equal"] = eqBytes
	cmp := func(in *Interp, x, y value) value {
		if in.truth(in.strEq(x, y)) {
			return uint64(0)
		}
		if in.truth(in.strLt(x, y)) {
			return ^uint64(0)
		}
		return uint64(1)
	}
	I["bytes.Compare"] = func(in *Interp, fr *frame, a []value) value {
		return cmp(in, bytesToStr(a[0].(slicev)), bytesToStr(a[1].(slicev)))
	}
	I["internal/bytealg.Compare"] = I["bytes.Compare"]
	I["strings.Compare"] = func(in *Interp, fr *frame, a []value) value { return cmp(in, a[0], a[1]) }
	I["internal/bytealg.CompareString"] = I["strings.Compare"]
	I["cmp.Compare"] = func(in *Interp, fr *frame, a []value) value {
		switch a[0].(type) {
		case string, *symStr:
			return cmp(in, a[0], a[1])
		}
		return useBody{}
	}

	// ---- math
	I["math.Float64bits"] = func(in *Interp, fr *frame, a []value) value {
		switch x := a[0].(type) {
		case float64:
			return math.Float64bits(x)
		case *Term:
			if x.op == OFFromBits {
				return norm(x.a[0])
			}
			if x.op == OIte && x.a[1].op == OFFromBits || x.op == OIte && x.a[1].op == OConst {
				if r := in.fpBits(x); r != nil {
					return norm(r)
				}
			}
			if in.spec > 0 {
				panic(specAbort{})
			}
			v := in.tc.Var(fmt.Sprintf("f2b:%d", x.id), bvSort(64))
			if _, _, ok := in.tc.exactInt(x); ok {
				// comparisons of the bits are rewritten (see bitsEq); any other use
				// sees an unconstrained value
				return v
			}
			// bits b with to_fp(b) identical to x (SMT = on FP identifies NaNs)
			in.addPC(in.tc.mk(OEq, sBool, in.tc.FConv(OFFromBits, sF64, v), x, nil, 0, 0))
			return v
		}
		panic(unsupported("Float64bits"))
	}
	I["math.Float64frombits"] = func(in *Interp, fr *frame, a []value) value {
		switch x := a[0].(type) {
		case uint64:
			return math.Float64frombits(x)
		case *Term:
			if strings.HasPrefix(x.name, "f2b:") && x.op == OVar {
				id, _ := strconv.Atoi(x.name[4:])
				return in.tc.all[id]
			}
			return norm(in.tc.FConv(OFFromBits, sF64, x))
		}
		panic(unsupported("Float64frombits"))
	}
	I["math.IsNaN"] = func(in *Interp, fr *frame, a []value) value {
		if f, ok := a[0].(float64); ok {
			return f != f
		}
		return norm(in.tc.FUn(OFIsNaN, a[0].(*Term)))
	}
	I["math.IsInf"] = func(in *Interp, fr *frame, a []value) value {
		f, ok := a[0].(float64)
		s, ok2 := a[1].(uint64)
		if ok && ok2 {
			return math.IsInf(f, int(int64(s)))
		}
		if ok2 {
			t := a[0].(*Term)
			inf := in.tc.FUn(OFIsInf, t)
			switch {
			case int64(s) > 0:
				return norm(in.tc.And(inf, in.tc.FCmp(OFLt, in.tc.F64(0), t)))
			case int64(s) < 0:
				return norm(in.tc.And(inf, in.tc.FCmp(OFLt, t, in.tc.F64(0))))
			}
			return norm(inf)
		}
		panic(unsupported("IsInf"))
	}
	I["math.Abs"] = func(in *Interp, fr *frame, a []value) value {
		if f, ok := a[0].(float64); ok {
			return math.Abs(f)
		}
		return norm(in.tc.FUn(OFAbs, a[0].(*Term)))
	}
	I["math.Inf"] = func(in *Interp, fr *frame, a []value) value { return math.Inf(int(int64(a[0].(uint64)))) }
	I["math.NaN"] = func(in *Interp, fr *frame, a []value) value { return math.NaN() }
	f1 := func(name string, f func(float64) float64, sym func(in *Interp, t *Term) *Term) {
		I["math."+name] = func(in *Interp, fr *frame, a []value) value {
			if x, ok := a[0].(float64); ok {
				return f(x)
			}
			if sym != nil {
				return norm(sym(in, a[0].(*Term)))
			}
			panic(unsupported("math." + name + " of a symbolic value"))
		}
	}
	f1("Sqrt", math.Sqrt, func(in *Interp, t *Term) *Term { return in.tc.FUn(OFSqrt, t) })
	f1("Floor", math.Floor, func(in *Interp, t *Term) *Term { return in.tc.mk(OFRti, t.sort, t, nil, nil, 0, 0) })
	f1("Ceil", math.Ceil, func(in *Interp, t *Term) *Term { return in.tc.mk(OFRti, t.sort, t, nil, nil, 1, 0) })
	f1("Trunc", math.Trunc, func(in *Interp, t *Term) *Term { return in.tc.mk(OFRti, t.sort, t, nil, nil, 2, 0) })
	f1("Log", math.Log, nil)
	f1("Log2", math.Log2, nil)
	f1("Log10", math.Log10, nil)
	f1("Exp", math.Exp, nil)
	I["math.Pow"] = func(in *Interp, fr *frame, a []value) value {
		x, ok1 := a[0].(float64)
		y, ok2 := a[1].(float64)
		if ok1 && ok2 {
			return math.Pow(x, y)
		}
		panic(unsupported("math.Pow symbolic"))
	}

	// ---- context / reflect subset
	I["context.WithValue"] = func(in *Interp, fr *frame, a []value) value {
		par := a[0].(iface)
		if par.t == nil {
			in.goPanicPlain("cannot create context from nil parent")
		}
		key := a[1].(iface)
		if key.t == nil {
			in.goPanicPlain("nil key")
		}
		if !types.Comparable(key.t) {
			in.goPanicPlain("key is not comparable")
		}
		t := in.w.typeOf("context", "valueCtx")
		p := new(value)
		*p = structv{par, key, a[2]}
		return iface{in.types.get(types.NewPointer(t)), p}
	}
	I["reflect.DeepEqual"] = func(in *Interp, fr *frame, a []value) value {
		return in.deepEqual(a[0].(iface), a[1].(iface), 0)
	}
	I["reflect.TypeOf"] = func(in *Interp, fr *frame, a []value) value {
		it := a[0].(iface)
		if it.t == nil {
			return iface{}
		}
		return in.rtype(it.t)
	}
	I["internal/reflectlite.TypeOf"] = I["reflect.TypeOf"]
	I["errors.As"] = func(in *Interp, fr *frame, a []value) value {
		e, tgt := a[0].(iface), a[1].(iface)
		pt, ok := tgt.t.(*types.Pointer)
		cellp, ok2 := tgt.v.(*value)
		if !ok || !ok2 || cellp == nil {
			panic(unsupported("errors.As target"))
		}
		want := pt.Elem()
		wi, isI := want.Underlying().(*types.Interface)
		var walk func(e iface, depth int) bool
		walk = func(e iface, depth int) bool {
			for e.t != nil {
				if depth++; depth > 100 {
					panic(unsupported("errors.As chain"))
				}
				if isI && in.implements(e.t, wi) {
					in.setCell(cellp, e)
					return true
				}
				if !isI && types.Identical(e.t, want) {
					in.setCell(cellp, copyVal(e.v))
					return true
				}
				if f := in.methodNamed(e.t, "As"); f != nil {
					if r, ok := in.callFn(fr, f, []value{copyVal(e.v), a[1]}, nil).(bool); !ok || r {
						if !ok {
							panic(unsupported("symbolic As"))
						}
						return true
					}
				}
				f := in.methodNamed(e.t, "Unwrap")
				if f == nil {
					return false
				}
				switch r := in.callFn(fr, f, []value{copyVal(e.v)}, nil).(type) {
				case iface:
					e = r
				case slicev:
					for _, x := range r {
						if walk(x.(iface), depth) {
							return true
						}
					}
					return false
				default:
					return false
				}
			}
			return false
		}
		return walk(e, 0)
	}
	for _, n := range []string{"Max", "Min"} {
		n := n
		I["math.arch"+n] = func(in *Interp, fr *frame, a []value) value {
			return in.callFn(fr, in.w.pkgs["math"].Func(strings.ToLower(n)), a, nil)
		}
	}
	I["errors.Is"] = func(in *Interp, fr *frame, a []value) value {
		if e := a[0].(iface); e.t == nil {
			return norm(in.boolTerm(in.ifaceEq(e, a[1].(iface))))
		}
		return useBody{}
	}

	// ---- errors / fmt
	I["fmt.Sprintf"] = func(in *Interp, fr *frame, a []value) value { return in.sprintf(fr, a[0], a[1].(slicev)) }
	I["fmt.Errorf"] = func(in *Interp, fr *frame, a []value) value {
		var s value
		sym := false
		for _, x := range a[1].(slicev) {
			if anySym([]value{x}) {
				sym = true
			}
		}
		if sym && in.ex != nil && in.ex.h.param("errtext", 0) == 0 {
			s = poison{"text of an error formatted from symbolic values"}
		} else {
			s = in.sprintf(fr, a[0], a[1].(slicev))
		}
		if f, ok := a[0].(string); ok && strings.Contains(f, "%w") {
			for _, x := range a[1].(slicev) {
				it := x.(iface)
				if it.t != nil && in.implements(it.t, in.w.errorIface()) {
					t := in.w.typeOf("fmt", "wrapError")
					p := new(value)
					*p = structv{s, it}
					return iface{in.types.get(types.NewPointer(t)), p}
				}
			}
		}
		return in.errorsNew(s)
	}
	sprint := func(in *Interp, fr *frame, l slicev, ln bool) value {
		var out []sbyte
		prevStr := true
		for k, x := range l {
			it := x.(iface)
			isStr := false
			if it.t != nil {
				b, ok := it.t.Underlying().(*types.Basic)
				isStr = ok && b.Info()&types.IsString != 0
			}
			if k > 0 && (ln || !isStr && !prevStr) {
				out = append(out, sbyte{c: ' '})
			}
			prevStr = isStr
			out = append(out, strBytes(in.fmtVal(fr, 'v', it))...)
		}
		if ln {
			out = append(out, sbyte{c: '\n'})
		}
		return mkStr(out)
	}
	I["fmt.Sprint"] = func(in *Interp, fr *frame, a []value) value { return sprint(in, fr, a[0].(slicev), false) }
	I["fmt.Sprintln"] = func(in *Interp, fr *frame, a []value) value { return sprint(in, fr, a[0].(slicev), true) }
	I["fmt.Fprintf"] = func(in *Interp, fr *frame, a []value) value {
		s := in.sprintf(fr, a[1], a[2].(slicev))
		return in.writeTo(fr, a[0].(iface), s)
	}
	I["fmt.Fprint"] = func(in *Interp, fr *frame, a []value) value {
		return in.writeTo(fr, a[0].(iface), I["fmt.Sprint"](in, fr, a[1:]))
	}
	I["fmt.Fprintln"] = func(in *Interp, fr *frame, a []value) value {
		return in.writeTo(fr, a[0].(iface), sprint(in, fr, a[1].(slicev), true))
	}

	// ---- strconv on symbolic integers
	I["strconv.FormatInt"] = func(in *Interp, fr *frame, a []value) value {
		t, ok := a[0].(*Term)
		base, ok2 := a[1].(uint64)
		if !ok || !ok2 {
			return useBody{}
		}
		if base != 10 {
			return useBody{}
		}
		if in.branch(in.tc.Slt(t, in.tc.BV(0, 64))) {
			return mkStr(append([]sbyte{{c: '-'}}, in.decimal(in.tc.Neg(t))...))
		}
		return mkStr(in.decimal(t))
	}
	I["strconv.Itoa"] = func(in *Interp, fr *frame, a []value) value {
		if _, ok := a[0].(*Term); !ok {
			return useBody{}
		}
		return I["strconv.FormatInt"](in, fr, []value{a[0], uint64(10)})
	}
	I["strconv.FormatUint"] = func(in *Interp, fr *frame, a []value) value {
		t, ok := a[0].(*Term)
		base, ok2 := a[1].(uint64)
		if !ok || !ok2 || base != 10 {
			return useBody{}
		}
		return mkStr(in.decimal(t))
	}
	I["strconv.ParseUint"] = func(in *Interp, fr *frame, a []value) value {
		base, ok1 := a[1].(uint64)
		bits, ok2 := a[2].(uint64)
		if ok1 && ok2 && base == 10 && (bits == 64 || bits == 0) {
			if t := in.undecimal(a[0]); t != nil {
				return tuplev{norm(t), iface{}}
			}
		}
		return useBody{}
	}
	I["strconv.FormatFloat"] = func(in *Interp, fr *frame, a []value) value {
		f, ok := a[0].(float64)
		if !ok {
			panic(unsupported("FormatFloat of a symbolic value"))
		}
		return strconv.FormatFloat(f, byte(a[1].(uint64)), int(int64(a[2].(uint64))), int(int64(a[3].(uint64))))
	}
	I["strconv.ParseFloat"] = func(in *Interp, fr *frame, a []value) value {
		s, ok := a[0].(string)
		if !ok {
			panic(unsupported("ParseFloat of a symbolic string"))
		}
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return tuplev{f, in.errorsNew(err.Error())}
		}
		return tuplev{f, iface{}}
	}
	I["strconv.Quote"] = func(in *Interp, fr *frame, a []value) value {
		if s, ok := a[0].(string); ok {
			return strconv.Quote(s)
		}
		return useBody{}
	}
	I["strconv.cloneString"] = func(in *Interp, fr *frame, a []value) value { return a[0] }
	I["internal/strconv.cloneString"] = I["strconv.cloneString"]

	// ---- time
	I["time.Now"] = func(in *Interp, fr *frame, a []value) value { return in.now() }
	I["time.Since"] = func(in *Interp, fr *frame, a []value) value {
		return in.timeSub(in.now().(structv), a[0].(structv))
	}
	I["time.Until"] = func(in *Interp, fr *frame, a []value) value {
		return in.timeSub(a[0].(structv), in.now().(structv))
	}
	I["time.Sleep"] = func(in *Interp, fr *frame, a []value) value { in.sleep(); return nil }
	tm := func(name string, f func(in *Interp, t structv, a []value) value) {
		I["(time.Time)."+name] = func(in *Interp, fr *frame, a []value) value { return f(in, a[0].(structv), a[1:]) }
	}
	tm("Sub", func(in *Interp, t structv, a []value) value {
		if !isModelTime(t) && !isModelTime(a[0].(structv)) {
			return useBody{}
		}
		return in.timeSub(t, a[0].(structv))
	})
	tcmp := func(name string, f func(in *Interp, x, y *Term) *Term) {
		tm(name, func(in *Interp, t structv, a []value) value {
			u := a[0].(structv)
			if !isModelTime(t) && !isModelTime(u) {
				return useBody{}
			}
			return norm(f(in, in.timeKey(t), in.timeKey(u)))
		})
	}
	tcmp("Before", func(in *Interp, x, y *Term) *Term { return in.tc.Slt(x, y) })
	tcmp("After", func(in *Interp, x, y *Term) *Term { return in.tc.Slt(y, x) })
	tcmp("Equal", func(in *Interp, x, y *Term) *Term { return in.tc.Eq(x, y) })
	tm("IsZero", func(in *Interp, t structv, a []value) value {
		if isModelTime(t) {
			return false
		}
		return useBody{}
	})
	tm("Add", func(in *Interp, t structv, a []value) value {
		if !isModelTime(t) {
			return useBody{}
		}
		return structv{t[0], norm(in.tc.Bin(OAdd, in.term(t[1], bInt), in.term(a[0], bInt))), t[2]}
	})
	tm("UnixNano", func(in *Interp, t structv, a []value) value {
		if !isModelTime(t) {
			return useBody{}
		}
		return norm(in.timeKey(t))
	})
	for _, n := range []string{"UTC", "Local", "Round", "Truncate"} {
		n := n
		tm(n, func(in *Interp, t structv, a []value) value {
			if !isModelTime(t) {
				return useBody{}
			}
			if n == "UTC" || n == "Local" {
				return copyVal(t)
			}
			panic(unsupported("time." + n))
		})
	}
	tm("Format", func(in *Interp, t structv, a []value) value { return "<time>" })
	tm("String", func(in *Interp, t structv, a []value) value { return "<time>" })
	newTimer := func(tn string, fires int) intrinsic {
		return func(in *Interp, fr *frame, a []value) value {
			if tn == "Ticker" {
				if d, ok := a[0].(uint64); ok && int64(d) <= 0 {
					in.goPanicPlain("non-positive interval for NewTicker")
				} else if t, ok := a[0].(*Term); ok {
					if in.branch(in.tc.Not(in.tc.Slt(in.tc.BV(0, 64), t))) {
						in.goPanicPlain("non-positive interval for NewTicker")
					}
				}
			}
			nt := in.w.typeOf("time", tn)
			st := zero(nt).(structv)
			c := &chanv{cap: 1, elem: in.w.typeOf("time", "Time")}
			st[0] = c
			t := &timer{c: c, fires: fires, active: true}
			c.timer = t
			if tn == "Ticker" {
				in.period = a[0]
			}
			in.timers = append(in.timers, t)
			p := new(value)
			*p = st
			return p
		}
	}
	I["time.NewTicker"] = newTimer("Ticker", -1)
	I["time.NewTimer"] = newTimer("Timer", 1)
	I["time.After"] = func(in *Interp, fr *frame, a []value) value {
		p := newTimer("Timer", 1)(in, fr, a).(*value)
		return (*p).(structv)[0]
	}
	I["time.Tick"] = func(in *Interp, fr *frame, a []value) value {
		p := newTimer("Ticker", -1)(in, fr, a).(*value)
		return (*p).(structv)[0]
	}
	I["time.AfterFunc"] = func(in *Interp, fr *frame, a []value) value {
		st := zero(in.w.typeOf("time", "Timer")).(structv)
		t := &timer{f: a[1], fires: 1, active: true}
		in.timers = append(in.timers, t)
		p := new(value)
		*p = st
		in.side[p] = t
		return p
	}
	stopTimer := func(in *Interp, fr *frame, a []value) value {
		p := cell(a[0])
		in.nilCheck(p)
		var t *timer
		if c, ok := (*p).(structv)[0].(*chanv); ok && c != nil {
			t = c.timer
		}
		if x, ok := in.side[p].(*timer); ok {
			t = x
		}
		if t == nil {
			return false
		}
		was := t.active && t.fires != 0
		t.active = false
		return was
	}
	I["(*time.Ticker).Stop"] = func(in *Interp, fr *frame, a []value) value { stopTimer(in, fr, a); return nil }
	I["(*time.Timer).Stop"] = stopTimer
	I["(*time.Ticker).Reset"] = func(in *Interp, fr *frame, a []value) value {
		p := cell(a[0])
		if c, ok := (*p).(structv)[0].(*chanv); ok && c != nil {
			c.timer.active = true
		}
		return nil
	}

	// ---- randomness: arbitrary but fixed values, or symbolic when the harness asks
	I["encoding/binary.Read"] = func(in *Interp, fr *frame, a []value) value {
		d := a[2].(iface)
		p, ok := d.v.(*value)
		if !ok {
			panic(unsupported("binary.Read into non-pointer"))
		}
		in.fillRand(p)
		return iface{}
	}
	I["crypto/rand.Read"] = func(in *Interp, fr *frame, a []value) value {
		s := a[0].(slicev)
		for i := range s {
			in.setCell(&s[i], in.randVal("crand", 8))
		}
		return tuplev{uint64(len(s)), iface{}}
	}
	I["io.ReadFull"] = func(in *Interp, fr *frame, a []value) value { return useBody{} }
	I["math/rand.NewSource"] = func(in *Interp, fr *frame, a []value) value {
		return iface{in.types.get(types.NewPointer(in.w.typeOf("math/rand", "rngSource"))), new(value)}
	}
	I["math/rand.New"] = func(in *Interp, fr *frame, a []value) value {
		p := new(value)
		*p = zero(in.w.typeOf("math/rand", "Rand"))
		return p
	}
	for _, pre := range []string{"(*math/rand.Rand).", "math/rand."} {
		I[pre+"Uint64"] = func(in *Interp, fr *frame, a []value) value { return in.randVal("rand", 64) }
		I[pre+"Int63"] = func(in *Interp, fr *frame, a []value) value {
			v := in.randVal("rand", 64)
			return norm(in.tc.Bin(OBAnd, in.term(v, bU64), in.tc.BV(1<<63-1, 64)))
		}
		I[pre+"Int31"] = func(in *Interp, fr *frame, a []value) value {
			v := in.randVal("rand", 32)
			return norm(in.tc.Bin(OBAnd, in.term(v, basicInfo{32, true, 'i'}), in.tc.BV(1<<31-1, 32)))
		}
		I[pre+"Uint32"] = func(in *Interp, fr *frame, a []value) value { return in.randVal("rand", 32) }
		I[pre+"Float64"] = func(in *Interp, fr *frame, a []value) value { return 0.5 }
		pre := pre
		I[pre+"Read"] = func(in *Interp, fr *frame, a []value) value {
			s := a[len(a)-1].(slicev)
			for i := range s {
				in.setCell(&s[i], in.randVal("rand", 8))
			}
			return tuplev{uint64(len(s)), iface{}}
		}
	}
	I["math/rand.Seed"] = noop

	// ---- regexp (pattern kept as text; matching is encoded as a formula)
	I["regexp.MustCompile"] = func(in *Interp, fr *frame, a []value) value {
		return in.mkRegexp(argStr(a[0]))
	}
	I["regexp.Compile"] = func(in *Interp, fr *frame, a []value) value {
		if _, err := regexp.Compile(argStr(a[0])); err != nil {
			return tuplev{(*value)(nil), in.errorsNew(err.Error())}
		}
		return tuplev{in.mkRegexp(argStr(a[0])), iface{}}
	}
	I["regexp.MatchString"] = func(in *Interp, fr *frame, a []value) value {
		if _, err := regexp.Compile(argStr(a[0])); err != nil {
			return tuplev{false, in.errorsNew(err.Error())}
		}
		return tuplev{in.reMatch(argStr(a[0]), a[1]), iface{}}
	}
	I["(*regexp.Regexp).MatchString"] = func(in *Interp, fr *frame, a []value) value {
		return in.reMatch(in.rePattern(a[0]), a[1])
	}
	I["(*regexp.Regexp).Match"] = func(in *Interp, fr *frame, a []value) value {
		return in.reMatch(in.rePattern(a[0]), bytesToStr(a[1].(slicev)))
	}
	I["(*regexp.Regexp).String"] = func(in *Interp, fr *frame, a []value) value { return in.rePattern(a[0]) }
	initRegexpOps(I)

	I[symPkg+"SetClock"] = func(in *Interp, fr *frame, a []value) value {
		if in.side == nil {
			in.side = map[interface{}]interface{}{}
		}
		in.side["clock"] = a[0]
		return nil
	}
	I[symPkg+"Now"] = I["time.Now"]
	I[symPkg+"Since"] = I["time.Since"]
	I[symPkg+"SetMemStats"] = func(in *Interp, fr *frame, a []value) value { in.side["memstats"] = a[0]; return nil }
	I[symPkg+"SetNumGoroutine"] = func(in *Interp, fr *frame, a []value) value { in.side["numgo"] = a[0]; return nil }
	I[symPkg+"SetNumCgoCall"] = func(in *Interp, fr *frame, a []value) value { in.side["numcgo"] = a[0]; return nil }
	I[symPkg+"SymRand"] = func(in *Interp, fr *frame, a []value) value {
		if in.side == nil {
			in.side = map[interface{}]interface{}{}
		}
		in.side["symcrand"] = true
		return nil
	}

	// pre-built http bits
	I["net/http.init"] = noop
	// the HTML templates and the routes are not followed
	I["go.opencensus.io/zpages.parseTemplate"] = func(in *Interp, fr *frame, a []value) value { return (*value)(nil) }
	I["runtime/pprof.runtime_setProfLabel"] = func(in *Interp, fr *frame, a []value) value { return nil }
	I["(*net/http.ServeMux).HandleFunc"] = noop
	I["(*net/http.ServeMux).Handle"] = noop
	const gl = "google.golang.org/grpc/grpclog."
	for _, n := range []string{"Info", "Infof", "Infoln", "Warning", "Warningf", "Warningln", "Error", "Errorf", "Errorln"} {
		I[gl+n] = noop
	}
	I[gl+"V"] = func(in *Interp, fr *frame, a []value) value { return false }
	I["runtime.ReadMemStats"] = func(in *Interp, fr *frame, a []value) value {
		p := cell(a[0])
		in.nilCheck(p)
		in.raceCell(p, true)
		if m, ok := in.side["memstats"]; ok {
			in.storeCell(p, copyVal(*m.(*value)))
			return nil
		}
		in.path.env = true
		st := (*p).(structv)
		tt := in.w.typeOf("runtime", "MemStats").Underlying().(*types.Struct)
		for i := range st {
			b, ok := basicOf(tt.Field(i).Type())
			if ok && b.kind == 'i' && b.w == 64 {
				in.setCell(&st[i], in.envVar("memstats."+tt.Field(i).Name(), bvSort(64)))
			}
		}
		return nil
	}
	I["runtime/pprof.Lookup"] = func(in *Interp, fr *frame, a []value) value {
		return poison{"pprof.Lookup"}
	}
	I["maps.clone"] = func(in *Interp, fr *frame, a []value) value {
		it := a[0].(iface)
		m := it.v.(*mapv)
		if m == nil {
			return a[0]
		}
		n := newMap(m.t)
		for _, e := range m.ents {
			if !e.deleted {
				in.mapSet(n, e.k, copyVal(e.v))
			}
		}
		return iface{it.t, n}
	}
}

var anyMapType = types.NewMap(types.NewInterfaceType(nil, nil), types.NewInterfaceType(nil, nil))

type onceDone struct{}

func isDone(v value) bool { _, ok := v.(onceDone); return ok }

func firstLeaf(p *value) *value {
	for {
		switch v := (*p).(type) {
		case structv:
			// skip blank/zero-size leading fields
			moved := false
			for i := range v {
				if s, ok := v[i].(structv); ok && len(s) == 0 {
					continue
				}
				if a, ok := v[i].(arrayv); ok && len(a) == 0 {
					continue
				}
				p = &v[i]
				moved = true
				break
			}
			if !moved {
				return p
			}
		case arrayv:
			if len(v) == 0 {
				return p
			}
			p = &v[0]
		default:
			return p
		}
	}
}

func bytesToStr(s slicev) value {
	bs := make([]sbyte, len(s))
	for i := range s {
		bs[i] = toSbyte(s[i])
	}
	return mkStr(bs)
}

// dynIntrinsic resolves families of functions by name pattern.
func dynIntrinsic(name string) func(in *Interp, fr *frame, args []value) value {
	if strings.HasPrefix(name, "(*go.opencensus.io/internal/verifh") {
		return nil
	}
	return nil
}

func (in *Interp) fatal(msg string) {
	if in.ensureModel() {
		in.report("panic", "panic", msg)
	}
	panic(pathAbort{"violation", msg})
}

func (in *Interp) fpBits(x *Term) *Term {
	switch x.op {
	case OFFromBits:
		return x.a[0]
	case OConst:
		return in.tc.BV(x.c, 64)
	case OIte:
		a := in.fpBits(x.a[1])
		b := in.fpBits(x.a[2])
		if a == nil || b == nil {
			return nil
		}
		return in.tc.Ite(x.a[0], a, b)
	}
	return nil
}

func (in *Interp) freshEnvInt(name string, lo, hi int64) value {
	t := in.envVar(name, bvSort(64))
	in.path.env = true
	in.addPC(in.tc.And(in.tc.Not(in.tc.Slt(t, in.tc.BV(uint64(lo), 64))), in.tc.Slt(t, in.tc.BV(uint64(hi), 64))))
	return t
}

func (in *Interp) randVal(name string, w int) value {
	if in.initing == 0 && in.ex != nil && in.ex.h.param("symrand", 0) == 1 {
		in.path.env = true
		return in.envVar(name, bvSort(w))
	}
	in.randCtr()
	k := in.side["randctr"].(int)
	x := uint64(k)*0x9E3779B97F4A7C15 + 0x1234567
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	return x & mask(uint8(w))
}

func (in *Interp) randCtr() {
	if in.side == nil {
		in.side = map[interface{}]interface{}{}
	}
	k, _ := in.side["randctr"].(int)
	in.side["randctr"] = k + 1
}

func (in *Interp) fillRand(p *value) {
	switch v := (*p).(type) {
	case uint64, *Term:
		if in.side["symcrand"] != nil {
			// little-endian assembly of eight replayable bytes
			var t *Term
			for i := 0; i < 8; i++ {
				b := in.tc.Zext(in.freshInput("crand", "u8", bvSort(8)).(*Term), 64)
				b = in.tc.Bin(OShl, b, in.tc.BV(uint64(8*i), 64))
				if t == nil {
					t = b
				} else {
					t = in.tc.Bin(OBOr, t, b)
				}
			}
			in.setCell(p, norm(t))
			return
		}
		in.setCell(p, in.randVal("crand", 64))
	case arrayv:
		for i := range v {
			in.fillRand(&v[i])
		}
	default:
		panic(unsupported(fmt.Sprintf("binary.Read into %T", v)))
	}
}

// ---- time model

const timeBase = int64(1700000000) * 1e9

func isModelTime(t structv) bool {
	w, ok := t[0].(uint64)
	return ok && w>>63 == 1
}

// now returns a symbolic, non-decreasing instant.
func (in *Interp) now() value {
	if in.initing > 0 {
		return structv{uint64(1) << 63, uint64(0), (*value)(nil)}
	}
	if c, ok := in.side["clock"]; ok {
		return structv{uint64(1) << 63, c.(value), (*value)(nil)}
	}
	k, _ := in.side["nowctr"].(int)
	in.side["nowctr"] = k + 1
	if in.ex.h.param("symtime", 0) == 0 {
		// concrete clock: 1ms per reading
		return structv{uint64(1) << 63, uint64(int64(k+1) * int64(time.Millisecond)), (*value)(nil)}
	}
	t := in.envVar("now", bvSort(64))
	in.path.env = true
	var prev *Term
	if p, ok := in.side["nowprev"].(*Term); ok {
		prev = p
	} else {
		prev = in.tc.BV(0, 64)
	}
	in.addPC(in.tc.And(in.tc.Not(in.tc.Slt(t, prev)), in.tc.Slt(t, in.tc.BV(1<<56, 64))))
	in.side["nowprev"] = t
	return structv{uint64(1) << 63, t, (*value)(nil)}
}

// timeKey maps an instant to comparable nanoseconds; zero and pre-epoch-ish
// concrete times are mapped through their Unix nanoseconds.
func (in *Interp) timeKey(t structv) *Term {
	if isModelTime(t) {
		return in.tc.Bin(OAdd, in.term(t[1], bInt), in.tc.BV(uint64(timeBase), 64))
	}
	w, ok1 := t[0].(uint64)
	e, ok2 := t[1].(uint64)
	if !ok1 || !ok2 {
		panic(unsupported("mixing symbolic wall times"))
	}
	sec := int64(e) - 62135596800
	nsec := int64(w & (1<<30 - 1))
	if sec < -9200000000 {
		return in.tc.BV(uint64(math.MaxInt64)+1, 64) // long before everything else
	}
	if sec > 9200000000 {
		return in.tc.BV(uint64(math.MaxInt64), 64)
	}
	return in.tc.BV(uint64(sec*1e9+nsec), 64)
}

func (in *Interp) timeSub(t, u structv) value {
	if isModelTime(t) && isModelTime(u) {
		return norm(in.tc.Bin(OSub, in.term(t[1], bInt), in.term(u[1], bInt)))
	}
	a, b := in.timeKey(t), in.timeKey(u)
	if b.op == OConst && b.c == uint64(math.MaxInt64)+1 {
		return uint64(math.MaxInt64)
	}
	if a.op == OConst && a.c == uint64(math.MaxInt64)+1 {
		return uint64(math.MaxInt64) + 1
	}
	return norm(in.tc.Bin(OSub, a, b))
}

// decimal renders a non-negative symbolic 64-bit integer (forks on the number of digits).
func (in *Interp) decimal(t *Term) []sbyte {
	if in.spec > 0 {
		panic(specAbort{})
	}
	p := uint64(10)
	n := 1
	for n < 20 {
		if in.branch(in.tc.Ult(t, in.tc.BV(p, 64))) {
			break
		}
		n++
		if n == 20 {
			break
		}
		p *= 10
	}
	out := make([]sbyte, n)
	q := uint64(1)
	for i := n - 1; i >= 0; i-- {
		d := in.tc.Bin(OUrem, in.tc.Bin(OUdiv, t, in.tc.BV(q, 64)), in.tc.BV(10, 64))
		out[i] = toSbyte(norm(in.tc.Bin(OAdd, in.tc.Extract(d, 7, 0), in.tc.BV('0', 8))))
		q *= 10
	}
	decs, _ := in.side["decs"].(map[*Term]decimalOf)
	if decs == nil {
		decs = map[*Term]decimalOf{}
		in.side["decs"] = decs
	}
	if lt := out[n-1].t; lt != nil {
		decs[lt] = decimalOf{out, t}
	}
	return out
}

type decimalOf struct {
	ds []sbyte
	t  *Term
}

// undecimal recognises the decimal text of a symbolic number.
func (in *Interp) undecimal(s value) *Term {
	ss, ok := s.(*symStr)
	if !ok || len(ss.b) == 0 {
		return nil
	}
	decs, _ := in.side["decs"].(map[*Term]decimalOf)
	d, ok := decs[ss.b[len(ss.b)-1].t]
	if !ok || len(d.ds) != len(ss.b) {
		return nil
	}
	for i := range d.ds {
		if d.ds[i] != ss.b[i] {
			return nil
		}
	}
	return d.t
}

// ---- fmt

func (in *Interp) sprintf(fr *frame, f value, args slicev) value {
	fs, ok := f.(string)
	if !ok {
		return "<fmt>"
	}
	var out []sbyte
	ai := 0
	lit := func(s string) { out = append(out, strBytes(s)...) }
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			out = append(out, sbyte{c: fs[i]})
			continue
		}
		j := i + 1
		for j < len(fs) && strings.IndexByte("+-# 0123456789.", fs[j]) >= 0 {
			j++
		}
		if j >= len(fs) {
			lit("%!(NOVERB)")
			break
		}
		verb := fs[j]
		flags := fs[i+1 : j]
		i = j
		if verb == '%' {
			lit("%")
			continue
		}
		if ai >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[ai].(iface)
		ai++
		out = append(out, strBytes(in.fmtArg(fr, verb, flags, a))...)
	}
	return mkStr(out)
}

func (in *Interp) fmtVal(fr *frame, verb byte, a iface) value { return in.fmtArg(fr, verb, "", a) }

// native converts a concrete scalar/string/byte-array value to a Go value for real fmt.
func (in *Interp) native(t types.Type, v value) (interface{}, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		b, _ := basicOf(u)
		switch x := v.(type) {
		case uint64:
			if b.signed {
				switch b.w {
				case 8:
					return int8(x), true
				case 16:
					return int16(x), true
				case 32:
					return int32(x), true
				}
				return int64(x), true
			}
			switch b.w {
			case 8:
				return uint8(x), true
			case 16:
				return uint16(x), true
			case 32:
				return uint32(x), true
			}
			return x, true
		case bool, string, float64, float32:
			return x, true
		}
	case *types.Slice:
		if s, ok := v.(slicev); ok {
			if b, ok := basicOf(u.Elem()); ok && b.kind == 'i' && b.w == 8 {
				r := make([]byte, len(s))
				for i := range s {
					c, ok := s[i].(uint64)
					if !ok {
						return nil, false
					}
					r[i] = byte(c)
				}
				return r, true
			}
		}
	case *types.Array:
		if s, ok := v.(arrayv); ok {
			return in.native(types.NewSlice(u.Elem()), slicev(s))
		}
	}
	return nil, false
}

func (in *Interp) fmtArg(fr *frame, verb byte, flags string, a iface) value {
	if a.t == nil {
		return fmt.Sprintf("%"+flags+string(verb), nil)
	}
	if verb == 'T' {
		return types.TypeString(a.t, func(p *types.Package) string { return p.Name() })
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		// Error() / String()
		for _, mn := range []string{"Error", "String"} {
			ms := in.w.methodSet(a.t)
			if sel := ms.Lookup(nil, mn); sel != nil {
				if fn, ok := sel.Obj().(*types.Func); ok {
					sig := fn.Type().(*types.Signature)
					if sig.Params().Len() == 0 && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), types.Typ[types.String]) {
						if in.spec > 0 {
							panic(specAbort{})
						}
						if pp, ok := a.v.(*value); ok && pp == nil {
							return "<nil>"
						}
						return in.callFn(fr, in.lookupMethod(a.t, fn), []value{a.v}, nil)
					}
				}
			}
		}
		if verb == 'w' {
			verb = 'v'
		}
	}
	if n, ok := in.native(a.t, a.v); ok {
		return fmt.Sprintf("%"+flags+string(verb), n)
	}
	switch x := a.v.(type) {
	case *symStr:
		if verb == 'q' {
			out := append([]sbyte{{c: '"'}}, x.b...)
			return mkStr(append(out, sbyte{c: '"'}))
		}
		if verb == 'x' {
			return mkStr(in.hexOf(x.b))
		}
		return x
	case *Term:
		if x.sort.k == KBV && (verb == 'd' || verb == 'v') && flags == "" {
			b, _ := basicOf(a.t)
			t := x
			if b.signed {
				t = in.tc.Sext(x, 64)
				if in.branch(in.tc.Slt(t, in.tc.BV(0, 64))) {
					return mkStr(append([]sbyte{{c: '-'}}, in.decimal(in.tc.Neg(t))...))
				}
			} else {
				t = in.tc.Zext(x, 64)
			}
			return mkStr(in.decimal(t))
		}
		if x.sort.k == KBV && (verb == 'x' || verb == 'X') && flags == "02" && x.sort.w == 8 {
			return mkStr(in.hexOf([]sbyte{{t: x}}))
		}
		if x.sort.k == KBV && verb == 'x' && len(flags) > 1 && flags[0] == '0' {
			if n, err := strconv.Atoi(flags[1:]); err == nil && n == int(x.sort.w)/4 {
				var bs []sbyte
				for h := int(x.sort.w) - 1; h > 0; h -= 8 {
					bs = append(bs, toSbyte(norm(in.tc.Extract(x, h, h-7))))
				}
				return mkStr(in.hexOf(bs))
			}
		}
		return "<sym>"
	case slicev:
		if verb == 'x' {
			return mkStr(in.hexOf(strBytes(bytesToStr(x))))
		}
	case arrayv:
		if at, ok := a.t.Underlying().(*types.Array); ok && verb == 'x' {
			if b, ok := basicOf(at.Elem()); ok && b.w == 8 {
				return mkStr(in.hexOf(strBytes(bytesToStr(slicev(x)))))
			}
		}
	}
	return "<" + a.t.String() + ">"
}

func (in *Interp) hexOf(bs []sbyte) []sbyte {
	var out []sbyte
	for _, b := range bs {
		for _, sh := range []int{4, 0} {
			if b.t == nil {
				out = append(out, sbyte{c: "0123456789abcdef"[(b.c>>sh)&15]})
				continue
			}
			nib := in.tc.Zext(in.tc.Extract(b.t, sh+3, sh), 8)
			lt := in.tc.Ult(nib, in.tc.BV(10, 8))
			out = append(out, toSbyte(norm(in.tc.Ite(lt, in.tc.Bin(OAdd, nib, in.tc.BV('0', 8)), in.tc.Bin(OAdd, nib, in.tc.BV('a'-10, 8))))))
		}
	}
	return out
}

func (in *Interp) writeTo(fr *frame, w iface, s value) value {
	if w.t == nil {
		in.goPanicRuntime("nil writer")
	}
	ms := in.w.methodSet(w.t)
	sel := ms.Lookup(nil, "Write")
	if sel == nil {
		panic(unsupported("Fprintf to non-writer"))
	}
	bs := strBytes(s)
	sl := make(slicev, len(bs))
	for i := range bs {
		sl[i] = bs[i].val()
	}
	return in.callFn(fr, in.lookupMethod(w.t, sel.Obj().(*types.Func)), []value{w.v, sl}, nil)
}

// ---- reflect

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
		// the numeric kinds have the same order in both packages
		return reflect.Kind(int(u.Kind()) - int(types.Int) + int(reflect.Int))
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

type condTicket struct{ ready bool }

// condLocker finds the L field of a sync.Cond.
func condLocker(v value) iface {
	for _, f := range v.(structv) {
		if it, ok := f.(iface); ok && it.t != nil {
			return it
		}
	}
	panic(unsupported("sync.Cond without a locker"))
}

// methodNamed is the exported method of a type, nil if it has none of that name.
func (in *Interp) methodNamed(t types.Type, name string) *ssa.Function {
	sel := in.w.methodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return in.lookupMethod(t, sel.Obj().(*types.Func))
}

func (in *Interp) rtype(t types.Type) value {
	ct := in.types.get(t)
	o := &nativeObj{name: "reflect.Type", data: ct}
	str := func(f func() string) func(in *Interp, args []value) value {
		return func(in *Interp, args []value) value { return f() }
	}
	o.methods = map[string]func(in *Interp, args []value) value{
		"Kind": func(in *Interp, args []value) value { return uint64(kindOf(ct)) },
		"Comparable": func(in *Interp, args []value) value { return types.Comparable(ct) },
		"String": str(func() string {
			return types.TypeString(ct, func(p *types.Package) string { return p.Name() })
		}),
		"Name": str(func() string {
			if n, ok := ct.(*types.Named); ok {
				return n.Obj().Name()
			}
			return ""
		}),
	}
	// rtype values compare by canonical type: use a named native type per canonical type
	if v, ok := in.side2[ct]; ok {
		return v
	}
	v := iface{rtypeType, o}
	if in.side2 == nil {
		in.side2 = map[types.Type]value{}
	}
	in.side2[ct] = v
	return v
}

var rtypeType types.Type = types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "rtype", nil), types.NewStruct(nil, nil), nil))

func (in *Interp) deepEqual(a, b iface, d int) value {
	if a.t == nil || b.t == nil {
		return a.t == nil && b.t == nil
	}
	if in.types.get(a.t) != in.types.get(b.t) {
		return false
	}
	return in.deepVal(a.t, a.v, b.v, d)
}

func (in *Interp) deepVal(t types.Type, a, b value, d int) value {
	if d > 30 {
		panic(unsupported("DeepEqual depth"))
	}
	conj := func(parts ...func() value) value {
		r := in.tc.tru
		for _, f := range parts {
			r = in.tc.And(r, in.boolTerm(f()))
			if r == in.tc.fls {
				return false
			}
		}
		return norm(r)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		x, ok1 := a.(*value)
		y, ok2 := b.(*value)
		if !ok1 || !ok2 {
			panic(unsupported("DeepEqual pointer kind"))
		}
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		return in.deepVal(u.Elem(), *x, *y, d+1)
	case *types.Struct:
		x, y := a.(structv), b.(structv)
		var ps []func() value
		for i := range x {
			i := i
			ps = append(ps, func() value { return in.deepVal(u.Field(i).Type(), x[i], y[i], d+1) })
		}
		return conj(ps...)
	case *types.Array:
		x, y := a.(arrayv), b.(arrayv)
		var ps []func() value
		for i := range x {
			i := i
			ps = append(ps, func() value { return in.deepVal(u.Elem(), x[i], y[i], d+1) })
		}
		return conj(ps...)
	case *types.Slice:
		x, y := a.(slicev), b.(slicev)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		var ps []func() value
		for i := range x {
			i := i
			ps = append(ps, func() value { return in.deepVal(u.Elem(), x[i], y[i], d+1) })
		}
		return conj(ps...)
	case *types.Interface:
		return in.deepEqual(a.(iface), b.(iface), d+1)
	case *types.Map:
		x, y := a.(*mapv), b.(*mapv)
		if (x == nil) != (y == nil) {
			return false
		}
		if x == nil || x == y {
			return true
		}
		if x.n != y.n {
			return false
		}
		for _, e := range x.ents {
			if e.deleted {
				continue
			}
			f := in.mapFind(y, e.k)
			if f == nil {
				return false
			}
			if !in.truth(in.deepVal(u.Elem(), e.v, f.v, d+1)) {
				return false
			}
		}
		return true
	case *types.Signature:
		return isNilFunc(a) && isNilFunc(b)
	case *types.Chan:
		return a.(*chanv) == b.(*chanv)
	}
	return in.equals(t, a, b)
}

// ---- regexp

func (in *Interp) mkRegexp(pat string) value {
	if _, err := regexp.Compile(pat); err != nil {
		in.goPanicPlain("regexp: Compile: " + err.Error())
	}
	p := new(value)
	st := zero(in.w.typeOf("regexp", "Regexp")).(structv)
	st[0] = pat // expr
	*p = st
	return p
}

func (in *Interp) rePattern(v value) string {
	p := cell(v)
	in.nilCheck(p)
	return argStr((*p).(structv)[0])
}

var _ = reflect.TypeOf
var _ ssa.Value

func init() {
	I := intrinsics
	const mp = "go.opencensus.io/internal/verifh/model."
	I[mp+"nonASCII"] = func(in *Interp, fr *frame, a []value) value { panic(unsupported("non-ASCII case mapping")) }
	I[mp+"unicodeLower"] = func(in *Interp, fr *frame, a []value) value {
		if s, ok := a[0].(string); ok {
			return strings.ToLower(s)
		}
		panic(unsupported("ToLower on symbolic non-ASCII text"))
	}
	I[mp+"unicodeUpper"] = func(in *Interp, fr *frame, a []value) value {
		if s, ok := a[0].(string); ok {
			return strings.ToUpper(s)
		}
		panic(unsupported("ToUpper on symbolic non-ASCII text"))
	}
	I[mp+"Len"] = func(in *Interp, fr *frame, a []value) value {
		s, ok := a[0].(iface).v.(slicev)
		if !ok {
			panic(unsupported("sort.Slice on non-slice"))
		}
		return uint64(len(s))
	}
	I[mp+"Swap"] = func(in *Interp, fr *frame, a []value) value {
		s := a[0].(iface).v.(slicev)
		i, j := int(a[1].(uint64)), int(a[2].(uint64))
		if in.raceOn {
			in.raceCell(&s[i], true)
			in.raceCell(&s[j], true)
		}
		x, y := copyVal(s[i]), copyVal(s[j])
		in.storeCell(&s[i], y)
		in.storeCell(&s[j], x)
		return nil
	}
}
