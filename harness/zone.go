package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"time"

	"github.com/vanclief/finmod/indicators"
	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/strategy"
	"github.com/vanclief/finmod/utils"
)

func init() { drivers["zone"] = driveZone }

var machineZones = []string{"Asia/Kolkata", "Asia/Kathmandu", "America/St_Johns", "Pacific/Chatham", "Australia/Lord_Howe", "Australia/Eucla", "Pacific/Apia", "Pacific/Marquesas",
	"Africa/Monrovia", "America/New_York", "Europe/Berlin", "Asia/Tokyo", "Etc/GMT+12", "Etc/GMT-14", "Asia/Tehran", "Europe/London", "America/Sao_Paulo"}

func machineZone(name string) *time.Location {
	loc, err := time.LoadLocation(name)
	if err != nil {
		fatal(err)
	}
	return loc
}

// askIn makes the same calls on machines in different zones.
func askIn(e *env, what string, zones []*time.Location, ask func() interface{}) bool {
	fps, results, names := interned{}, []int{}, []string{}
	old := time.Local
	defer func() { time.Local = old }()
	for _, z := range zones {
		time.Local = z
		var got interface{}
		if !e.call(what, func() { got = ask() }) {
			return false
		}
		results = append(results, fps.id(got))
		names = append(names, z.String())
	}
	e.emit(rec{"op": what, "zones": names, "results": results})
	return true
}

func askCandles(e *env, zones []*time.Location, in []market.Candle, n int, all bool) {
	if !askIn(e, "resample", zones, func() interface{} {
		out, err := market.ModifyInterval(in, n)
		return []interface{}{out, code(err)}
	}) || !all {
		return
	}
	if !askIn(e, "min", zones, func() interface{} { return market.GetMinInterval(in) }) {
		return
	}
	if !askIn(e, "fractals", zones, func() interface{} { return indicators.WilliamFractals(in) }) {
		return
	}
	askIn(e, "file", zones, func() interface{} {
		name := filepath.Join(e.scratch, "zone.txt")
		if err := market.SaveCandlesToFile(&in, name); err != nil {
			return code(err)
		}
		out, err := market.LoadCandlesFromFile(name)
		return []interface{}{out, code(err)}
	})
}

func driveZone(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var c struct {
			S    []mCandle `json:"s"`
			N    int       `json:"n"`
			Zone int       `json:"zone"`
		}
		decode(raw, &c)
		s := newSeries(id+int(e.seed), 60, false)
		fixed := time.FixedZone(fmt.Sprintf("at%+d", c.Zone), 60*c.Zone)
		askCandles(e, []*time.Location{time.UTC, fixed, machineZone(machineZones[(id+int(e.seed))%len(machineZones)])}, s.in(c.S), c.N, id%8 == 0)
	})
	e.randoms(func(id int, r *rand.Rand) {
		zones := []*time.Location{time.UTC}
		for _, k := range r.Perm(len(machineZones))[:5] {
			zones = append(zones, machineZone(machineZones[k]))
		}
		zones = append(zones, time.FixedZone("odd", r.Intn(100000)-50000))
		switch r.Intn(4) {
		case 0:
			text := fmt.Sprintf("%04d-%02d-%02d", 1+r.Intn(9999), r.Intn(14), r.Intn(33))
			askIn(e, "date", zones, func() interface{} {
				t, err := utils.RawDateToRFC3339(text)
				return []interface{}{t, t.Format(time.RFC3339), code(err)}
			})
		case 1:
			tick := &strategy.Tick{Candle: &market.Candle{Time: r.Int63n(4e9) - 1e9}}
			where := machineZones[r.Intn(len(machineZones))]
			askIn(e, "location", zones, func() interface{} {
				t, err := tick.GetLocationTime(where)
				return []interface{}{t, t.Format(time.RFC3339), code(err)}
			})
			askIn(e, "local", zones, func() interface{} { return tick.GetLocalTime() })
		default:
			d := []int{1, 1, 5, 10, 15, 30, 60, 240, 1440}[r.Intn(9)]
			n := d * []int{1, 2, 3, 4, 5, 6, 7, 12, 24, 30, 60}[r.Intn(11)]
			s := newSeries(r.Intn(100000), 60, false)
			in := s.in(randomCandles(r, r.Intn(240), d, r.Intn(120), []int{0, 10, 30}[r.Intn(3)]))
			if r.Intn(3) == 0 { // around a change of the clock
				shift := time.Date(2010+r.Intn(20), time.Month(3+7*r.Intn(2)), 20+r.Intn(12), r.Intn(24), 0, 0, 0, time.UTC).Unix() - s.base
				for k := range in {
					in[k].Time += shift
				}
			}
			askCandles(e, zones, in, n, r.Intn(3) == 0)
		}
	})
}
