package sym

import (
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"go.dedis.ch/kyber/v3"
)

// Observe lists the encodings of the group elements and of the scalars that a
// message contains (integers that depend on the inputs count as scalars).
// Executed symbolically it knows which bytes encode an element; the replay
// uses the positions found then.
func Observe(m interface{}) (points, scalars [][]byte) {
	o := &observer{seen: map[uintptr]bool{}}
	o.walk(reflect.ValueOf(m))
	return o.points, o.scalars
}

type observer struct {
	seen            map[uintptr]bool
	points, scalars [][]byte
}

func (o *observer) leaf() []string {
	s := inputs[name("obs")]
	if s == "" {
		return nil
	}
	return strings.Split(s, ";")
}

func (o *observer) walk(v reflect.Value) {
	if !v.IsValid() || strings.Contains(v.Type().PkgPath(), "onet") {
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			o.walk(v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			o.walk(v.Index(i))
		}
	case reflect.Slice:
		if v.Len() == 0 {
			return
		}
		if v.Type().Elem().Kind() != reflect.Uint8 {
			for i := 0; i < v.Len(); i++ {
				o.walk(v.Index(i))
			}
			return
		}
		b := v.Bytes()
		for _, r := range o.leaf() {
			at, _ := strconv.Atoi(r[1:])
			if at+32 > len(b) {
				continue
			}
			c := append([]byte{}, b[at:at+32]...)
			if r[0] == 'p' {
				o.points = append(o.points, c)
			} else {
				o.scalars = append(o.scalars, c)
			}
		}
	case reflect.Map:
		if v.Type().Key().Kind() != reflect.String {
			return
		}
		var ks []string
		by := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			ks = append(ks, k.String())
			by[k.String()] = v.MapIndex(k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			o.walk(by[k])
		}
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		if v.CanInterface() {
			switch x := v.Interface().(type) {
			case kyber.Point:
				b, _ := x.MarshalBinary()
				o.points = append(o.points, b)
				return
			case kyber.Scalar:
				b, _ := x.MarshalBinary()
				o.scalars = append(o.scalars, b)
				return
			}
		}
		o.walk(v.Elem())
	case reflect.Ptr:
		if v.IsNil() || o.seen[v.Pointer()] {
			return
		}
		o.seen[v.Pointer()] = true
		if !strings.Contains(v.Type().Elem().PkgPath(), "onet") {
			o.walk(v.Elem())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if len(o.leaf()) > 0 {
			o.scalars = append(o.scalars, le(big.NewInt(v.Int())))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if len(o.leaf()) > 0 {
			o.scalars = append(o.scalars, le(new(big.Int).SetUint64(v.Uint())))
		}
	}
}

// order is the order of the group.
func order() *big.Int {
	k, _ := new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	return k
}

func le(k *big.Int) []byte {
	b := new(big.Int).Mod(k, order()).Bytes()
	out := make([]byte, 32)
	for i := range b {
		out[i] = b[len(b)-1-i]
	}
	return out
}

// Relation tells whether a linear combination of the points vanishes in which
// a secret one has a coefficient other than zero, for all values of the keys,
// the data and the randomness. The replay computes the combination found.
func Relation(known, secrets []kyber.Point) bool {
	n := name("relation")
	all := append(append([]kyber.Point{}, known...), secrets...)
	var sum kyber.Point
	hit := false
	for i, p := range all {
		s, ok := inputs[fmt.Sprintf("%s.%d", n, i)]
		if !ok {
			continue
		}
		k, _ := new(big.Int).SetString(s, 10)
		k.Mod(k, order())
		if i >= len(known) {
			hit = true
		}
		t := mul(k, p)
		if sum == nil {
			sum = t
		} else {
			sum.Add(sum, t)
		}
	}
	return hit && sum.Equal(sum.Clone().Null())
}

func mul(k *big.Int, p kyber.Point) kyber.Point {
	out := p.Clone().Null()
	for i := k.BitLen() - 1; i >= 0; i-- {
		out.Add(out, out)
		if k.Bit(i) == 1 {
			out.Add(out, p)
		}
	}
	return out
}
