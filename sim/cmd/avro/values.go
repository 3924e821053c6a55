package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"
	"time"

	"verifsim/simrt"
)

// genType is a generated type with its writers.
type genType struct {
	name string
	zero func() any // new(T)
	null func() any // (*T)(nil)
	bulk func(w io.Writer, t time.Time, buffer int) bulk
}

type avroWriter interface {
	WriteAvroCF(io.Writer, time.Time) error
	WriteAvroDeletedCF(io.Writer, time.Time) error
}

// bulk is a running bulk writer.
type bulk struct {
	errs  <-chan error
	send  func(item any, stop <-chan struct{}, timeout <-chan time.Time) sendResult
	close func()
}

type sendResult struct {
	sent, timeout, stopped, closed bool
	err                            error
}

var types []genType
var typeByName = map[string]*genType{}

func register[T any](name string, f func(io.Writer, time.Time, <-chan *T) <-chan error) {
	types = append(types, genType{
		name: name,
		zero: func() any { return new(T) },
		null: func() any { return (*T)(nil) },
		bulk: func(w io.Writer, t time.Time, buffer int) bulk {
			req := make(chan *T, buffer)
			errs := f(w, t, req)
			return bulk{
				errs: errs,
				send: func(item any, stop <-chan struct{}, timeout <-chan time.Time) (r sendResult) {
					// Errors are received here unless somebody else is told to (stop or timeout given).
					in := errs
					if stop != nil || timeout != nil {
						in = nil
					}
					select {
					case req <- item.(*T):
						r.sent = true
					case err, ok := <-in:
						r.err, r.closed = err, !ok
					case <-stop:
						r.stopped = true
					case <-timeout:
						r.timeout = true
					}
					simrt.Yield(21)
					return
				},
				close: func() { close(req) },
			}
		},
	})
	typeByName[name] = &types[len(types)-1]
	for i := range types {
		typeByName[types[i].name] = &types[i]
	}
}

var timeType = reflect.TypeOf(time.Time{})

func jsonName(f reflect.StructField) (string, bool) {
	n, _, _ := strings.Cut(f.Tag.Get("json"), ",")
	if n == "" {
		n = f.Name
	}
	return n, n != "-"
}

// docFor makes a JSON document for a value of the type.
func docFor(r *simrt.Rand, t reflect.Type, depth int) any {
	switch t.Kind() {
	case reflect.Pointer:
		if r.Chance(0.25) {
			return nil
		}
		return docFor(r, t.Elem(), depth)
	case reflect.Struct:
		if t == timeType {
			return genTime(r)
		}
		out := map[string]any{}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.Anonymous {
				if m, ok := docFor(r, f.Type, depth).(map[string]any); ok {
					for k, v := range m {
						if _, ok := out[k]; !ok {
							out[k] = v
						}
					}
				}
				continue
			}
			n, ok := jsonName(f)
			if !ok || depth > 0 && r.Chance(0.15) || r.Chance(0.1) {
				continue
			}
			out[n] = docFor(r, f.Type, depth+1)
		}
		return out
	case reflect.Slice:
		n := simrt.Pick(r, 0, 0, 1, 1, 2, 3)
		if r.Chance(0.01) {
			n = r.Range(20, 200)
		}
		if n == 0 && r.Chance(0.5) {
			return nil
		}
		out := []any{}
		for i := 0; i < n; i++ {
			d := docFor(r, t.Elem(), depth+1)
			if d == nil {
				if t.Elem().Kind() == reflect.Pointer && (t.Elem().Elem() != timeType || r.Chance(0.3)) {
					d = docFor(r, t.Elem().Elem(), depth+1)
				}
			}
			out = append(out, d)
		}
		return out
	case reflect.Map:
		out := map[string]any{}
		for n := r.Intn(4); n > 0; n-- {
			out[genString(r)] = docFor(r, t.Elem(), depth+1)
		}
		return out
	case reflect.String:
		return genString(r)
	case reflect.Bool:
		return r.Chance(0.5)
	case reflect.Int64:
		return json.Number(fmt.Sprint(simrt.Pick(r, 0, 1, -1, 63, 64, -64, -65, 1<<20, math.MaxInt64, math.MinInt64, int64(r.Uint64()), int64(r.Uint64()>>uint(r.Intn(64))))))
	case reflect.Float64:
		f := simrt.Pick(r, 0, 1, -1.5, 1e300, 5e-324, math.MaxFloat64, math.Copysign(0, -1), float64(r.Uint64())/3)
		return f
	}
	return nil
}

func genString(r *simrt.Rand) string {
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		return strings.Repeat(simrt.Pick(r, "a", "ab", "0123456789"), r.Range(1, 40))
	case 2:
		return simrt.Pick(r, "\x00", "é", "日本", "\"\\\n", "Obj\x01", "gogenavromagic10", "null")
	case 3:
		if r.Chance(0.1) {
			return strings.Repeat(fmt.Sprintf("%x", r.Uint64()), r.Range(100, 8000))
		}
	}
	return fmt.Sprintf("s%x", r.Intn(1<<12))
}

func genTime(r *simrt.Rand) string {
	return simrt.Pick(r,
		time.Unix(0, int64(r.Uint64())),
		time.Unix(int64(r.Intn(2e9)), int64(r.Intn(1e9))),
		time.Unix(int64(r.Intn(2e9)), 0),
		time.Unix(0, int64(r.Range(-2e6, 2e6))),
		time.Unix(0, 0),
		time.Time{},
		time.Date(r.Range(1, 9998), 7, 1, 2, 3, 4, r.Intn(1e9), time.UTC),
	).In(time.FixedZone("", r.Range(-12, 12)*3600)).Format(time.RFC3339Nano)
}

// value builds the value that a document describes.
func (g *genType) value(doc string) (any, error) {
	v := g.zero()
	err := json.Unmarshal([]byte(doc), v)
	if doc == "null" {
		return g.null(), nil
	}
	return v, err
}

// nilElement says whether the value has a nil pointer as an element of a list.
func nilElement(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Pointer:
		return !v.IsNil() && nilElement(v.Elem())
	case reflect.Struct:
		if v.Type() == timeType {
			return false
		}
		for i := 0; i < v.NumField(); i++ {
			if nilElement(v.Field(i)) {
				return true
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			if e.Kind() == reflect.Pointer && e.IsNil() && e.Type().Elem() != timeType {
				return true
			}
			if nilElement(e) {
				return true
			}
		}
	}
	return false
}

// fields lists the fields of a struct by their JSON names. Fields of embedded structs count unless
// the struct itself has one of the same name.
func fields(v reflect.Value) map[string]reflect.Value {
	out, inner := map[string]reflect.Value{}, map[string]reflect.Value{}
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.Anonymous {
			for n, x := range fields(v.Field(i)) {
				if _, ok := inner[n]; !ok {
					inner[n] = x
				}
			}
			continue
		}
		if n, ok := jsonName(f); ok {
			out[n] = v.Field(i)
		}
	}
	for n, x := range inner {
		if _, ok := out[n]; !ok {
			out[n] = x
		}
	}
	return out
}

// blank says whether a value is one that an absent one cannot be told from.
func blank(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Pointer:
		return v.IsNil() || blank(v.Elem())
	case reflect.Slice, reflect.Map:
		return v.Len() == 0
	case reflect.Struct:
		if v.Type() == timeType {
			return v.Interface().(time.Time).IsZero()
		}
		for i := 0; i < v.NumField(); i++ {
			if !blank(v.Field(i)) {
				return false
			}
		}
		return true
	}
	return v.IsZero()
}

// blankRecord says the same of what was read.
func blankRecord(got any) bool {
	switch g := got.(type) {
	case nil:
		return true
	case bool:
		return !g
	case int64:
		return g == 0
	case float64:
		return g == 0
	case string:
		return g == ""
	case []any:
		return len(g) == 0
	case map[string]any:
		return len(g) == 0
	case record:
		for _, v := range g {
			if !blankRecord(v) {
				return false
			}
		}
		return true
	}
	return false
}

// sameTime says whether the milliseconds are those of the time.
func sameTime(ms int64, t time.Time) bool {
	m := t.UnixMilli()
	return ms == m || ms == m+1 && t.Nanosecond()%1e6 != 0
}

// compare says where what was read differs from the value that was written.
func compare(path string, want reflect.Value, got any) string {
	bad := func() string { return fmt.Sprintf("%s: %s was read, %s was written", path, brief(got), brief(want)) }
	if want.Kind() == reflect.Pointer {
		if want.IsNil() {
			if blankRecord(got) {
				return ""
			}
			return bad()
		}
		return compare(path, want.Elem(), got)
	}
	if got == nil {
		if blank(want) {
			return ""
		}
		return bad()
	}
	switch want.Kind() {
	case reflect.Struct:
		if want.Type() == timeType {
			t := want.Interface().(time.Time)
			ms, ok := got.(int64)
			if ok && (sameTime(ms, t) || t.IsZero() && ms == 0) {
				return ""
			}
			return bad()
		}
		rec, ok := got.(record)
		if !ok {
			return bad()
		}
		fs := fields(want)
		for n, f := range fs {
			g, ok := rec[n]
			if !ok {
				return fmt.Sprintf("%s: the record has no field %q", path, n)
			}
			if d := compare(path+"."+n, f, g); d != "" {
				return d
			}
		}
		for n := range rec {
			if _, ok := fs[n]; !ok && (strings.Contains(path, ".") || n != "AvroWriteTime" && n != "AvroDeleted") {
				return fmt.Sprintf("%s: the record has a field %q", path, n)
			}
		}
		return ""
	case reflect.Slice:
		list, ok := got.([]any)
		if !ok {
			return bad()
		}
		var elems []reflect.Value
		for i := 0; i < want.Len(); i++ {
			e := want.Index(i)
			if e.Type() == reflect.PointerTo(timeType) && e.IsNil() {
				continue // an absent time is left out
			}
			elems = append(elems, e)
		}
		if len(list) != len(elems) {
			return fmt.Sprintf("%s: %d elements were read, %d were written", path, len(list), len(elems))
		}
		for i := range list {
			if d := compare(fmt.Sprintf("%s[%d]", path, i), elems[i], list[i]); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		m, ok := got.(map[string]any)
		if !ok || len(m) != want.Len() {
			return bad()
		}
		for _, k := range want.MapKeys() {
			g, ok := m[k.String()]
			if !ok {
				return bad()
			}
			if d := compare(path+"{"+k.String()+"}", want.MapIndex(k), g); d != "" {
				return d
			}
		}
		return ""
	case reflect.String:
		if g, ok := got.(string); ok && g == want.String() {
			return ""
		}
	case reflect.Bool:
		if g, ok := got.(bool); ok && g == want.Bool() {
			return ""
		}
	case reflect.Int64:
		if g, ok := got.(int64); ok && g == want.Int() {
			return ""
		}
	case reflect.Float64:
		if g, ok := got.(float64); ok && math.Float64bits(g) == math.Float64bits(want.Float()) {
			return ""
		}
	}
	return bad()
}

func brief(v any) string {
	if r, ok := v.(reflect.Value); ok {
		v = r.Interface()
	}
	s := fmt.Sprintf("%v", v)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}
