package simrt

import (
	"fmt"
	"reflect"
	"sort"
	"time"
	"unsafe"
)

// Go is the go statement of instrumented code.
func Go(f func()) {
	if cur == nil {
		go f()
		return
	}
	S.Go("library goroutine", cur.group, func(*Task) { f() })
	Point()
}

//---------------------------------------- maps

// Entry is a map entry under iteration.
type Entry[K comparable, V any] struct {
	K K
	m map[K]V
}

func (e Entry[K, V]) Live() bool { _, ok := e.m[e.K]; return ok }
func (e Entry[K, V]) V() V       { return e.m[e.K] }

// Entries returns the entries of a map in an order the simulator chooses.
func Entries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	es := make([]Entry[K, V], 0, len(m))
	for k := range m {
		es = append(es, Entry[K, V]{k, m})
	}
	if len(es) < 2 {
		return es
	}
	ks := make([]string, len(es))
	for i := range es {
		ks[i] = keyString(es[i].K)
	}
	sort.Sort(&byKey[Entry[K, V]]{ks, es})
	return permute(es)
}

// keyString orders the keys of a map the same way in every execution.
func keyString(k any) string {
	if t, ok := k.(reflect.Type); ok {
		return t.PkgPath() + "/" + t.String()
	}
	return fmt.Sprintf("%v", k)
}

type byKey[T any] struct {
	ks []string
	es []T
}

func (b *byKey[T]) Len() int           { return len(b.ks) }
func (b *byKey[T]) Less(i, j int) bool { return b.ks[i] < b.ks[j] }
func (b *byKey[T]) Swap(i, j int) {
	b.ks[i], b.ks[j] = b.ks[j], b.ks[i]
	b.es[i], b.es[j] = b.es[j], b.es[i]
}

// MapPerms counts the map iterations whose order was changed.
var MapPerms int64

func permute[T any](es []T) []T {
	if cur == nil || cur.kill {
		return es
	}
	p := S.Env.Perm(len(es))
	out := make([]T, len(es))
	moved := false
	for i, j := range p {
		out[i] = es[j]
		if i != j {
			moved = true
		}
	}
	if moved {
		countPerm()
	}
	return out
}

//go:norace
func countPerm() { MapPerms++ }

// Keys replaces reflect.Value.MapKeys.
func Keys(ks []reflect.Value) []reflect.Value {
	if len(ks) < 2 {
		return ks
	}
	ss := make([]string, len(ks))
	for i, k := range ks {
		ss[i] = fmt.Sprintf("%v", k)
	}
	out := append([]reflect.Value(nil), ks...)
	sort.Sort(&byKey[reflect.Value]{ss, out})
	return permute(out)
}

// MapIter replaces *reflect.MapIter.
type MapIter struct {
	m  reflect.Value
	ks []reflect.Value
	i  int
}

func MapRange(m reflect.Value) *MapIter { return &MapIter{m: m, ks: Keys(m.MapKeys())} }
func (it *MapIter) Next() bool {
	for it.i < len(it.ks) {
		it.i++
		if it.m.MapIndex(it.ks[it.i-1]).IsValid() {
			return true
		}
	}
	return false
}
func (it *MapIter) Key() reflect.Value   { return it.ks[it.i-1] }
func (it *MapIter) Value() reflect.Value { return it.m.MapIndex(it.ks[it.i-1]) }

//---------------------------------------- clock

// Second keeps a replaced expression's package in use.
func Second[T any](_, b T) T { return b }

var epoch = time.Unix(1700000000, 0).UTC()

func TimeNow() time.Time {
	if S == nil {
		return epoch
	}
	return epoch.Add(time.Duration(S.Now()))
}
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeSleep(d time.Duration) {
	if cur == nil {
		return
	}
	Sleep(int64(d))
}

//---------------------------------------- channels

func Send[T any](c chan<- T, v T) {
	if cur == nil {
		c <- v
		return
	}
	if cap(c) == 0 {
		Unsupported("send on an unbuffered channel")
		return
	}
	Point()
	for !Dying() {
		select {
		case c <- v:
			Wake(chanPtr(c))
			return
		default:
		}
		Block(chanPtr(c), true)
	}
}

func Recv[T any](c <-chan T) T { v, _ := Recv2(c); return v }

func Recv2[T any](c <-chan T) (v T, ok bool) {
	if cur == nil {
		v, ok = <-c
		return
	}
	Point()
	for !Dying() {
		select {
		case v, ok = <-c:
			Wake(chanPtr(c))
			return
		default:
		}
		// A close wakes nobody, so poll at every scheduling decision.
		poll()
	}
	return
}

// poll lets others run; if nobody else can, the task is blocked for good.
//
//go:norace
func poll() {
	t := cur
	s := S
	for i := 0; i < s.ntasks; i++ {
		o := s.tasks[i]
		if o != t && o.state == stRunnable && !o.polling() {
			t.onSite = -7
			Gosched()
			t.onSite = 0
			return
		}
	}
	for i := 0; i < s.ntasks; i++ {
		if s.tasks[i].state == stSleeping {
			s.BadBlock = "waiting for a channel while the others are in user code"
			s.next(t)
			return
		}
	}
	s.Deadlock = true
	s.Blocked = append(s.Blocked, t.Name)
	s.next(t)
}

//go:norace
func (t *Task) polling() bool { return t.onSite == -7 }

func chanPtr(c any) unsafe.Pointer {
	return reflect.ValueOf(c).UnsafePointer()
}
