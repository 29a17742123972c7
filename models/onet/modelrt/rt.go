// Package modelrt holds the few reflective helpers of the overlay-network
// model. The symbolic executor replaces them; the bodies below serve native
// replays.
package modelrt

import (
	"os"
	"reflect"
	"unsafe"
)

// MakeChan stores a new buffered channel in the channel variable c points to.
func MakeChan(c interface{}, n int) {
	v := reflect.ValueOf(c).Elem()
	v.Set(reflect.MakeChan(v.Type(), n))
}

// ChanInfo returns the message type of the channel c points to and whether its
// elements are slices (one message per child).
func ChanInfo(c interface{}) (string, bool) {
	t := reflect.TypeOf(c).Elem().Elem()
	agg := false
	if t.Kind() == reflect.Slice {
		agg = true
		t = t.Elem()
	}
	return t.Field(1).Type.String(), agg
}

// Send sends {from[i], *msgs[i]} (or the slice of them) on the channel.
func Send(c interface{}, agg bool, from []interface{}, msgs []interface{}) {
	ch := reflect.ValueOf(c).Elem()
	t := ch.Type().Elem()
	mk := func(t reflect.Type, i int) reflect.Value {
		x := reflect.New(t).Elem()
		x.Field(0).Set(reflect.ValueOf(from[i]))
		x.Field(1).Set(reflect.ValueOf(msgs[i]).Elem())
		return x
	}
	if !agg {
		ch.Send(mk(t, 0))
		return
	}
	s := reflect.MakeSlice(t, 0, len(msgs))
	for i := range msgs {
		s = reflect.Append(s, mk(t.Elem(), i))
	}
	ch.Send(s)
}

// TypeName names the (dereferenced) type of a message.
func TypeName(m interface{}) string {
	t := reflect.TypeOf(m)
	if t == nil {
		return "nil"
	}
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t.String()
}

// Copy returns a pointer to a deep copy of the message, as the wire would give.
func Copy(m interface{}) interface{} {
	v := reflect.ValueOf(m)
	if v.Kind() != reflect.Ptr {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		v = p
	}
	out := reflect.New(v.Type().Elem())
	out.Elem().Set(cp(v.Elem()))
	return out.Interface()
}

func cp(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		out := reflect.New(v.Type()).Elem()
		e := v.Elem()
		if m := e.MethodByName("Clone"); m.IsValid() && e.Kind() == reflect.Ptr {
			if s := e.MethodByName("MarshalBinary"); s.IsValid() {
				out.Set(m.Call(nil)[0])
				return out
			}
		}
		out.Set(cp(e))
		return out
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		out := reflect.New(v.Type().Elem())
		out.Elem().Set(cp(v.Elem()))
		return out
	case reflect.Slice:
		if v.Len() == 0 {
			return reflect.Zero(v.Type())
		}
		out := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(cp(v.Index(i)))
		}
		return out
	case reflect.Map:
		if v.Len() == 0 {
			return reflect.Zero(v.Type())
		}
		out := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			out.SetMapIndex(cp(k), cp(v.MapIndex(k)))
		}
		return out
	case reflect.Array:
		out := reflect.New(v.Type()).Elem()
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(cp(v.Index(i)))
		}
		return out
	case reflect.Struct:
		out := reflect.New(v.Type()).Elem()
		out.Set(v)
		for i := 0; i < v.NumField(); i++ {
			f := out.Field(i)
			if !f.CanSet() {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			f.Set(cp(f))
		}
		return out
	}
	return v
}

// Handler describes a service handler func(*T) (network.Message, error).
func HandlerType(f interface{}) string { return reflect.TypeOf(f).In(0).Elem().String() }

// CallHandler calls a service handler.
func CallHandler(f interface{}, m interface{}) (interface{}, error) {
	r := reflect.ValueOf(f).Call([]reflect.Value{reflect.ValueOf(m)})
	var err error
	if !r[1].IsNil() {
		err = r[1].Interface().(error)
	}
	if r[0].Kind() == reflect.Interface && r[0].IsNil() {
		return nil, err
	}
	return r[0].Interface(), err
}

// Assign stores *src in *dst.
func Assign(dst, src interface{}) { reflect.ValueOf(dst).Elem().Set(reflect.ValueOf(src).Elem()) }

func Exit(code int) { os.Exit(code) }
