package vs

import "unsafe"

// Made registers a channel the code under test has made, which fixes its place
// among map keys.
func Made[C any](ch C) C {
	if Active() {
		ident(*(*uintptr)(unsafe.Pointer(&ch)))
		W.keeps = append(W.keeps, ch)
	}
	return ch
}

// MapIter iterates over a map in a deterministic order; like the range
// statement it skips entries deleted meanwhile.
type MapIter[M ~map[K]V, K comparable, V any] struct {
	m    M
	keys []K
	K    K
	V    V
}

// NewMapIter starts an iteration; the other results only carry types.
func NewMapIter[M ~map[K]V, K comparable, V any](m M) (it *MapIter[M, K, V], k K, v V) {
	RdMap(m)
	return &MapIter[M, K, V]{m: m, keys: MapKeys[M, K, V](m)}, k, v
}

// Next advances.
func (it *MapIter[M, K, V]) Next() bool {
	RdMap(it.m)
	for len(it.keys) > 0 {
		k := it.keys[0]
		it.keys = it.keys[1:]
		if v, ok := it.m[k]; ok {
			it.K, it.V = k, v
			return true
		}
	}
	return false
}

// ChanIter starts `for v := range ch`.
func ChanIter[T any](ch chan T) (c chan T, v T)      { return ch, v }
func ChanIterR[T any](ch <-chan T) (c <-chan T, v T) { return ch, v }

// CloseS and LenR, LenS are Close and Len for directional channels.
func CloseS[T any](ch chan<- T)   { Close(ch) }
func LenR[T any](ch <-chan T) int { return lenR(ch) }
func LenS[T any](ch chan<- T) int {
	if W == nil || W.dead || ch == nil {
		return len(ch)
	}
	n := 0
	c := getS(ch)
	Point(Op{Name: "len " + c.String(), Exec: func() { Touch(&c.Obj, false); n = len(ch) }})
	return n
}

// CountState counts a checked state of a serial exploration.
func CountState() {
	if Active() && W.ex.cfg.Serial {
		W.ex.res.States++
	}
}

// Drain takes everything out of a buffered channel in one step.
func Drain[T any](ch chan T) (out []T) {
	if !Active() {
		return nil
	}
	c := getR((<-chan T)(ch))
	Point(Op{Name: "drain " + c.String(), Exec: func() {
		Touch(&c.Obj, true)
		for {
			v, ok := TryRecv(ch)
			if !ok {
				return
			}
			out = append(out, v)
		}
	}})
	return
}

// Finalize runs the finalizer of obj, if one was set, once.
func Finalize(obj any) bool {
	f := W.Finalizers[obj]
	if f == nil {
		return false
	}
	delete(W.Finalizers, obj)
	f()
	return true
}
