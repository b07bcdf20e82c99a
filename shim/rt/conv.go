// Package rt drives generated Go code: it turns neutral values into generated
// types and back by reflection, performs operations read from standard input,
// and writes what it observed to standard output.
package rt

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"time"

	"github.com/shopspring/decimal"
	"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf"
)

var (
	timeType = reflect.TypeOf(hbuf.Time{})
	decType  = reflect.TypeOf(decimal.Decimal{})
)

type bad struct{ msg string }

func fail(format string, a ...any) { panic(bad{fmt.Sprintf(format, a...)}) }

// Set stores a neutral value.
func Set(rv reflect.Value, v any) {
	t := rv.Type()
	if t.Kind() == reflect.Pointer {
		if v == nil {
			rv.SetZero()
			return
		}
		p := reflect.New(t.Elem())
		Set(p.Elem(), v)
		rv.Set(p)
		return
	}
	if v == nil {
		rv.SetZero()
		return
	}
	switch t {
	case timeType:
		n, err := strconv.ParseInt(v.(string), 10, 64)
		if err != nil {
			fail("date %v", v)
		}
		rv.Set(reflect.ValueOf(hbuf.Time(time.UnixMilli(n))))
		return
	case decType:
		d, err := decimal.NewFromString(v.(string))
		if err != nil {
			fail("decimal %v", v)
		}
		rv.Set(reflect.ValueOf(d))
		return
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, err := strconv.ParseInt(fmt.Sprint(v), 10, t.Bits())
		if err != nil {
			fail("%v does not fit %s", v, t)
		}
		rv.SetInt(n)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, err := strconv.ParseUint(fmt.Sprint(v), 10, t.Bits())
		if err != nil {
			fail("%v does not fit %s", v, t)
		}
		rv.SetUint(n)
	case reflect.Float32, reflect.Float64:
		n, err := strconv.ParseFloat(fmt.Sprint(v), t.Bits())
		if err != nil {
			fail("%v does not fit %s", v, t)
		}
		rv.SetFloat(n)
	case reflect.Bool:
		switch x := v.(type) {
		case bool:
			rv.SetBool(x)
		case string:
			rv.SetBool(x == "true")
		default:
			fail("bool %v", v)
		}
	case reflect.String:
		s, ok := v.(string)
		if !ok {
			fail("string %v", v)
		}
		rv.SetString(s)
	case reflect.Slice:
		l, ok := v.([]any)
		if !ok {
			fail("list %v for %s", v, t)
		}
		s := reflect.MakeSlice(t, len(l), len(l))
		for i := range l {
			Set(s.Index(i), l[i])
		}
		rv.Set(s)
	case reflect.Map:
		l, ok := v.([]any)
		if !ok {
			fail("map %v for %s", v, t)
		}
		m := reflect.MakeMap(t)
		for _, p := range l {
			kv := p.([]any)
			k := reflect.New(t.Key()).Elem()
			Set(k, kv[0])
			e := reflect.New(t.Elem()).Elem()
			Set(e, kv[1])
			m.SetMapIndex(k, e)
		}
		rv.Set(m)
	case reflect.Struct:
		o, ok := v.(map[string]any)
		if !ok {
			fail("object %v for %s", v, t)
		}
		for k, x := range o {
			f, ok := t.FieldByName(k)
			if !ok {
				fail("%s has no member %s", t, k)
			}
			Set(rv.FieldByIndex(f.Index), x)
		}
	default:
		fail("unexpected type %s", t)
	}
}

// Get reads a neutral value.
func Get(rv reflect.Value) any {
	t := rv.Type()
	if t.Kind() == reflect.Pointer {
		if rv.IsNil() {
			return nil
		}
		return Get(rv.Elem())
	}
	switch t {
	case timeType:
		return strconv.FormatInt(time.Time(rv.Interface().(hbuf.Time)).UnixMilli(), 10)
	case decType:
		return rv.Interface().(decimal.Decimal).String()
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(rv.Int(), 10)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(rv.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(rv.Float(), 'g', -1, t.Bits())
	case reflect.Bool:
		return rv.Bool()
	case reflect.String:
		return rv.String()
	case reflect.Slice:
		if rv.IsNil() {
			return nil
		}
		out := []any{}
		for i := 0; i < rv.Len(); i++ {
			out = append(out, Get(rv.Index(i)))
		}
		return out
	case reflect.Map:
		if rv.IsNil() {
			return nil
		}
		out := [][]any{}
		for it := rv.MapRange(); it.Next(); {
			out = append(out, []any{fmt.Sprint(Get(it.Key())), Get(it.Value())})
		}
		sort.Slice(out, func(i, j int) bool { return out[i][0].(string) < out[j][0].(string) })
		return out
	case reflect.Struct:
		o := map[string]any{}
		for _, f := range reflect.VisibleFields(t) {
			if !f.Anonymous {
				o[f.Name] = Get(rv.FieldByIndex(f.Index))
			}
		}
		return o
	case reflect.Interface:
		if rv.IsNil() {
			return nil
		}
		return Get(rv.Elem())
	}
	fail("unexpected type %s", t)
	return nil
}
