// Package runtime replaces some functions of package runtime.
package runtime

import (
	"reflect"

	"vmc/vs"
)

// SetFinalizer remembers the finalizer; executions are shorter than garbage
// collection, unless the harness asks for it.
func SetFinalizer(obj, finalizer any) {
	if !vs.Active() {
		return
	}
	if finalizer == nil {
		delete(vs.W.Finalizers, obj)
		return
	}
	if vs.W.Finalizers == nil {
		vs.W.Finalizers = map[any]func(){}
	}
	vs.W.Finalizers[obj] = func() {
		reflect.ValueOf(finalizer).Call([]reflect.Value{reflect.ValueOf(obj)})
	}
}

// Gosched is a scheduling point.
func Gosched() { vs.Point(vs.Op{Name: "Gosched"}) }

// GC does nothing.
func GC() {}
