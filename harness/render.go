package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/vanclief/finmod/market"
)

func init() { drivers["render"] = driveRender }

type renderField struct {
	Label string `json:"label"`
	Field string `json:"field"`
	Sort  string `json:"sort"`
}

const renderEpoch = 1600000000

var nameToken = regexp.MustCompile(`q(\d+)`)

func setName(v reflect.Value, r *rand.Rand) int {
	n := 1 + r.Intn(9999999)
	v.SetString("q" + strconv.Itoa(n))
	return n
}

// wordCode is a negative number for each meaningful value of the named string types.
func wordCode(w string) int {
	c := 0
	for _, k := range []string{"ActionType", "OrderType", "OrderStatus", "PositionType", "FractalType"} {
		for _, x := range domain[k] {
			c--
			if x == w {
				return c
			}
		}
	}
	return 0
}

func amount(r *rand.Rand) int {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return r.Intn(200) - 100
	case 2:
		return 10000 * (r.Intn(2000) - 1000)
	case 3:
		return r.Intn(800000000) - 400000000
	}
	return r.Intn(10000000)
}

// names sets the shown names of an asset or a pair.
func names(v reflect.Value, r *rand.Rand) []int {
	switch p := v.Addr().Interface().(type) {
	case *market.Asset:
		return []int{setName(v.FieldByName("Name"), r), setName(v.FieldByName("Symbol"), r)}
	case *market.Pair:
		setName(v.FieldByName("Base").FieldByName("Name"), r)
		setName(v.FieldByName("Quote").FieldByName("Name"), r)
		return []int{setName(v.FieldByName("Base").FieldByName("Symbol"), r), setName(v.FieldByName("Quote").FieldByName("Symbol"), r)}
	default:
		fatal("no names in", fmt.Sprintf("%T", p))
	}
	return nil
}

// setField gives a field some value of its sort and returns it as the model sees it.
func setField(m reflect.Value, f renderField, r *rand.Rand) []int {
	v := m
	if f.Field != "self" {
		v = m.FieldByName(f.Field)
	}
	if !v.IsValid() {
		fatal("no field", f.Field)
	}
	switch f.Sort {
	case "name":
		if r.Intn(8) == 0 {
			return []int{}
		}
		if words := domain[v.Type().Name()]; len(words) > 0 && r.Intn(3) > 0 {
			k := r.Intn(len(words))
			v.SetString(words[k])
			return []int{wordCode(words[k])}
		}
		return []int{setName(v, r)}
	case "names":
		if v.Kind() == reflect.Ptr {
			if r.Intn(5) == 0 {
				return []int{}
			}
			v.Set(reflect.New(v.Type().Elem()))
			v = v.Elem()
		}
		return names(v, r)
	case "amount":
		n := amount(r)
		v.SetFloat(float64(n) / 10000)
		return []int{n}
	case "number":
		n := r.Intn(2000000000) - 5
		v.SetInt(int64(n))
		return []int{n}
	case "flag":
		n := r.Intn(2)
		v.SetBool(n == 1)
		return []int{n}
	case "count":
		n := r.Intn(12)
		v.Set(reflect.MakeSlice(v.Type(), n, n+r.Intn(3)))
		return []int{n}
	case "time":
		n := r.Intn(300000000)
		if v.Kind() == reflect.Int64 {
			v.SetInt(renderEpoch + int64(n))
		} else {
			v.Set(reflect.ValueOf(time.Unix(renderEpoch+int64(n), 0).UTC()))
		}
		return []int{n}
	}
	fatal("unknown sort", f.Sort)
	return nil
}

// readShown reads what stands behind a label.
func readShown(f renderField, text string) []int {
	text = strings.Trim(text, " ,|\n")
	switch f.Sort {
	case "name", "names":
		out := []int{}
		if c := wordCode(text); c < 0 {
			return append(out, c)
		}
		for _, m := range nameToken.FindAllStringSubmatch(text, -1) {
			n, _ := strconv.Atoi(m[1])
			out = append(out, n)
		}
		return out
	case "flag":
		if b, err := strconv.ParseBool(text); err == nil {
			if b {
				return []int{1}
			}
			return []int{0}
		}
	case "time":
		if t, err := time.Parse("2006-01-02 15:04:05 -0700 MST", text); err == nil && math.Abs(float64(t.Unix()-renderEpoch)) < 1e9 {
			return []int{int(t.Unix() - renderEpoch)}
		}
	case "number", "count":
		if n, err := strconv.ParseInt(text, 10, 32); err == nil {
			return []int{int(n)}
		}
	case "amount":
		x, err := strconv.ParseFloat(strings.Replace(text, "$", "", 1), 64)
		if err == nil && math.Abs(x) <= 50000 {
			return []int{int(math.Round(x * 10000))}
		}
	}
	return []int{off}
}

func driveRender(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var c struct {
			Kind   string        `json:"kind"`
			Layout []renderField `json:"layout"`
		}
		decode(raw, &c)
		r := e.rng()
		for n := 0; n < 8; n++ {
			m := reflect.New(printTypes[c.Kind])
			fields := map[string][]int{}
			for _, f := range c.Layout {
				fields[f.Field] = setField(m.Elem(), f, r)
			}
			var text string
			if !e.call("render", func() { text = m.Interface().(interface{ String() string }).String() }) {
				return
			}
			starts, ends := []int{}, []int{}
			at := 0
			for _, f := range c.Layout {
				k := strings.Index(text[at:], f.Label)
				if k < 0 {
					break
				}
				starts = append(starts, at+k)
				at += k + len(f.Label)
				ends = append(ends, at)
			}
			shown := [][]int{}
			for k := range starts {
				to := len(text)
				if k+1 < len(starts) {
					to = starts[k+1]
				}
				shown = append(shown, readShown(c.Layout[k], text[ends[k]:to]))
			}
			e.emit(rec{"op": "render", "kind": c.Kind, "fields": fields, "shown": shown, "text": text})
		}
	})
}
