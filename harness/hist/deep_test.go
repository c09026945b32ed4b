package hist

import (
	"reflect"
	"unsafe"

	"verifharness/tf"
)

// deep copies a value with everything its slices hold; pointers, maps and functions are shared.
func deep(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	unshare(n)
	return n
}

// unshare gives an addressable value its own slices, unexported ones included.
func unshare(v reflect.Value) {
	if !v.CanSet() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			unshare(v.Field(i))
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(s, v)
		switch v.Type().Elem().Kind() {
		case reflect.Struct, reflect.Slice:
			for i := 0; i < s.Len(); i++ {
				unshare(s.Index(i))
			}
		}
		v.Set(s)
	}
}

func ptr(v reflect.Value) any {
	if v.CanAddr() {
		return v.Addr().Interface()
	}
	n := reflect.New(v.Type())
	n.Elem().Set(v)
	return n.Interface()
}

// same compares two values of one type scalar by scalar.
func same(a, b reflect.Value) string {
	if a.Kind() == reflect.Func {
		return ""
	}
	if a.Kind() == reflect.Complex128 || a.Kind() == reflect.Complex64 {
		if a.Complex() != b.Complex() {
			return "complex numbers differ"
		}
		return ""
	}
	if a.Kind() == reflect.Slice && a.Type().Elem().Kind() == reflect.Func {
		return ""
	}
	return tf.Diff(ptr(a), ptr(b))
}
