package main

import (
	"math"
	"math/rand"
	"reflect"
	"strings"
	"time"
)

var fillStrings = []string{"", "a", "id-1", "0123456789abcdef", "buy", "long", "limit", "BTC", "ünïcödé ☃", "with \"quotes\" \\ and\nlines", "<a&b>", "{1 2 3}", "%d%s%n", "null", " ",
	"a_b/c:d.e,f", " padded ", "0", "-1", "true", "BUY", "3b241101-e2bb-4255-8caf-4136c566a962", strings.Repeat("x", 40), strings.Repeat("0123456789", 15), "tab\tand\x00"}
var fillFloats = []float64{0, 1, -1, 2, 0.1, 1e-8, 27123.45, 1e12, -0.5, 123456789.987654321, math.MaxFloat64, math.SmallestNonzeroFloat64, 1.0 / 3, -1e300}
var fillInts = []int64{0, 1, -1, 2, 59, 60, 1619827200, 4102444800, math.MaxInt32, math.MaxInt32 + 1, -62135596800, math.MaxInt64, math.MinInt64}

// domain lists the meaningful values of the named string types.
var domain = map[string][]string{
	"ActionType":   {"buy", "sell"},
	"OrderType":    {"market", "close_position", "limit", "take_profit", "stop_loss"},
	"OrderStatus":  {"fulfilled", "partial_fill", "unfilled", "canceled"},
	"PositionType": {"long", "short"},
	"FractalType":  {"up", "down"},
}

// fill sets every settable field of a value. Small tables make equal fields frequent.
func fill(v reflect.Value, r *rand.Rand, depth int) {
	switch v.Kind() {
	case reflect.Ptr:
		if r.Intn(4) != 0 {
			p := reflect.New(v.Type().Elem())
			fill(p.Elem(), r, depth+1)
			v.Set(p)
		} else {
			v.Set(reflect.Zero(v.Type()))
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			switch r.Intn(8) {
			case 0:
				v.Set(reflect.ValueOf(time.Time{}))
			case 2:
				v.Set(reflect.ValueOf(time.Unix(r.Int63n(4e9), 0).UTC()))
			case 3:
				v.Set(reflect.ValueOf(time.Unix(86400*(r.Int63n(60000)-20000), 0).UTC()))
			case 4:
				v.Set(reflect.ValueOf(time.Unix(-r.Int63n(6e10), 1e6*r.Int63n(1000)).UTC()))
			case 1:
				v.Set(reflect.ValueOf(time.Unix(r.Int63n(4e9), r.Int63n(1e9)).In(time.FixedZone("", 60*(r.Intn(1440)-720)))))
			default:
				v.Set(reflect.ValueOf(time.Unix(r.Int63n(4e9), r.Int63n(1e9)).UTC()))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fill(v.Field(i), r, depth+1)
			}
		}
	case reflect.Slice:
		n := r.Intn(4)
		if r.Intn(10) == 0 {
			n = 20
			if depth < 2 && r.Intn(3) == 0 {
				n = 21 + r.Intn(60)
			}
		}
		s := reflect.MakeSlice(v.Type(), n, n+r.Intn(3))
		for i := 0; i < n; i++ {
			fill(s.Index(i), r, depth+1)
		}
		v.Set(s)
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		for n := r.Intn(4); n > 0; n-- {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			fill(k, r, depth+1)
			fill(e, r, depth+1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.String:
		if words := domain[v.Type().Name()]; len(words) > 0 && r.Intn(3) > 0 {
			v.SetString(words[r.Intn(len(words))])
		} else {
			v.SetString(fillStrings[r.Intn(len(fillStrings))])
		}
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Float64, reflect.Float32:
		if r.Intn(2) == 0 {
			v.SetFloat(fillFloats[r.Intn(len(fillFloats))])
		} else {
			v.SetFloat(float64(r.Intn(5)) / 2)
		}
	case reflect.Int, reflect.Int64:
		v.SetInt(fillInts[r.Intn(len(fillInts))])
	case reflect.Int32, reflect.Int16, reflect.Int8:
		v.SetInt(int64(r.Intn(100)))
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		v.SetUint(uint64(r.Intn(100)))
	}
}
