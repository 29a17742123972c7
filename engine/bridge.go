package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Standard library functions executed by the host when every argument is
// concrete. With symbolic arguments the library's own code is interpreted.
var bridged = map[string]any{
	"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.Join": strings.Join, "strings.Replace": strings.Replace,
	"strings.ReplaceAll": strings.ReplaceAll, "strings.Contains": strings.Contains, "strings.Index": strings.Index,
	"strings.IndexByte": strings.IndexByte, "strings.LastIndex": strings.LastIndex, "strings.HasPrefix": strings.HasPrefix,
	"strings.HasSuffix": strings.HasSuffix, "strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.TrimRight": strings.TrimRight, "strings.TrimLeft": strings.TrimLeft,
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.Repeat": strings.Repeat, "strings.Fields": strings.Fields,
	"strings.Compare": strings.Compare, "strings.Count": strings.Count, "strings.EqualFold": strings.EqualFold, "strings.Title": strings.Title,
	"strings.ContainsRune": strings.ContainsRune, "strings.ContainsAny": strings.ContainsAny, "strings.IndexRune": strings.IndexRune, "strings.IndexAny": strings.IndexAny,
	"strconv.Itoa": strconv.Itoa, "strconv.Atoi": strconv.Atoi, "strconv.ParseInt": strconv.ParseInt, "strconv.ParseUint": strconv.ParseUint,
	"strconv.ParseFloat": strconv.ParseFloat, "strconv.ParseBool": strconv.ParseBool, "strconv.FormatInt": strconv.FormatInt,
	"strconv.FormatUint": strconv.FormatUint, "strconv.FormatFloat": strconv.FormatFloat, "strconv.FormatBool": strconv.FormatBool,
	"strconv.Quote": strconv.Quote, "strconv.Unquote": strconv.Unquote, "strconv.QuoteRune": strconv.QuoteRune,
	"math.Ceil": math.Ceil, "math.Floor": math.Floor, "math.Max": math.Max, "math.Min": math.Min, "math.Abs": math.Abs, "math.Sqrt": math.Sqrt,
	"math.Pow": math.Pow, "math.Exp": math.Exp, "math.Log": math.Log, "math.Log2": math.Log2, "math.Log10": math.Log10, "math.Mod": math.Mod,
	"math.Trunc": math.Trunc, "math.Round": math.Round, "math.IsNaN": math.IsNaN, "math.IsInf": math.IsInf, "math.Inf": math.Inf, "math.NaN": math.NaN,
	"math.Float64bits": math.Float64bits, "math.Float64frombits": math.Float64frombits, "math.Float32bits": math.Float32bits, "math.Float32frombits": math.Float32frombits,
	"math.Erf": math.Erf, "math.Signbit": math.Signbit, "math.Copysign": math.Copysign,
	"math/bits.Len": bits.Len, "math/bits.Len64": bits.Len64, "math/bits.TrailingZeros": bits.TrailingZeros, "math/bits.OnesCount64": bits.OnesCount64,
	"unicode.IsDigit": unicode.IsDigit, "unicode.IsLetter": unicode.IsLetter, "unicode.IsSpace": unicode.IsSpace, "unicode.IsUpper": unicode.IsUpper,
	"unicode.IsLower": unicode.IsLower, "unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper, "unicode.IsPunct": unicode.IsPunct,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString, "unicode/utf8.RuneLen": utf8.RuneLen,
	"unicode/utf8.ValidString": utf8.ValidString,
	"path.Join": path.Join, "path/filepath.Join": filepath.Join, "path/filepath.Base": filepath.Base, "path/filepath.Dir": filepath.Dir, "path/filepath.Ext": filepath.Ext,
	"path/filepath.Clean": filepath.Clean, "path.Base": path.Base, "path.Dir": path.Dir,
	"regexp.MatchString": regexp.MatchString, "regexp.QuoteMeta": regexp.QuoteMeta,
	"sort.SearchInts": sort.SearchInts,
}

// toHost converts a concrete value to a host value of type t.
func toHost(v value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.Bool:
		if b, ok := v.(bool); ok {
			return reflect.ValueOf(b).Convert(t), true
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if i, ok := v.(int64); ok {
			return reflect.ValueOf(i).Convert(t), true
		}
	case reflect.Float64, reflect.Float32:
		if f, ok := v.(float64); ok {
			return reflect.ValueOf(f).Convert(t), true
		}
	case reflect.String:
		if s, ok := v.(string); ok {
			return reflect.ValueOf(s).Convert(t), true
		}
	case reflect.Slice:
		s, ok := v.([]value)
		if !ok {
			return reflect.Value{}, false
		}
		r := reflect.MakeSlice(t, len(s), len(s))
		for i, x := range s {
			h, ok := toHost(x, t.Elem())
			if !ok {
				return reflect.Value{}, false
			}
			r.Index(i).Set(h)
		}
		if s == nil {
			r = reflect.Zero(t)
		}
		return r, true
	}
	return reflect.Value{}, false
}

func (p *Path) fromHost(r reflect.Value) value {
	switch r.Kind() {
	case reflect.Bool:
		return r.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return r.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(r.Uint())
	case reflect.Float32, reflect.Float64:
		return r.Float()
	case reflect.String:
		return r.String()
	case reflect.Slice:
		if r.IsNil() {
			return []value(nil)
		}
		out := make([]value, r.Len())
		for i := range out {
			out[i] = p.fromHost(r.Index(i))
		}
		return out
	case reflect.Interface:
		if r.IsNil() {
			return iface{}
		}
		if e, ok := r.Interface().(error); ok {
			return p.mkError(e.Error())
		}
	}
	panic(engineError{fmt.Sprintf("fromHost %v", r.Type())})
}

func (p *Path) bridge(f any, args []value) (value, bool) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		h, ok := toHost(a, ft.In(i))
		if !ok {
			return nil, false
		}
		in[i] = h
	}
	var out []reflect.Value
	func() {
		defer func() {
			if r := recover(); r != nil {
				p.rtPanic(fmt.Sprint(r))
			}
		}()
		if ft.IsVariadic() {
			out = fv.CallSlice(in)
		} else {
			out = fv.Call(in)
		}
	}()
	switch len(out) {
	case 0:
		return nil, true
	case 1:
		return p.fromHost(out[0]), true
	}
	t := make(tuple, len(out))
	for i := range out {
		t[i] = p.fromHost(out[i])
	}
	return t, true
}

// mkError makes an error value of type *errors.errorString.
func (p *Path) mkError(msg value) value {
	pk := p.eng.prog.ImportedPackage("errors")
	if pk == nil {
		unsup("package errors not loaded")
	}
	t := pk.Type("errorString").Type()
	var v value = structure{msg}
	return iface{types.NewPointer(t), &v}
}
