package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"time"
	_ "time/tzdata"

	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/strategy"
	"github.com/vanclief/finmod/utils"
)

func init() {
	drivers["date"] = driveDate
	drivers["tick"] = driveTick
}

// instant splits seconds since 1970 into days and seconds of the day.
func instant(unix int64) [2]int {
	d, s := unix/86400, unix%86400
	if s < 0 {
		d, s = d-1, s+86400
	}
	if d > 1e9 || d < -1e9 {
		d = off
	}
	return [2]int{int(d), int(s)}
}

func runDate(e *env, text string) {
	var t time.Time
	var err error
	if !e.call("parse", func() { t, err = utils.RawDateToRFC3339(text) }) {
		return
	}
	codes := []int{}
	for _, b := range []byte(text) {
		codes = append(codes, int(b))
	}
	_, offset := t.Zone()
	e.emit(rec{"op": "parse", "text": codes, "shown": fmt.Sprintf("%q", text), "err": code(err), "at": instant(t.Unix()), "nano": t.Nanosecond(), "offset": offset})
}

var oddDates = []string{
	"", " ", "-", "--", "2021", "2021-02", "2021-02-", "2021-2-3", "2021-02-3", "2021-2-03", "21-02-03", "02021-02-03", "12021-02-03", "-2021-02-03", "+2021-02-03", "2021-02-030", "2021-002-03",
	"2021-02-29", "2021-02-30", "2021-02-31", "2020-02-30", "1900-02-29", "2100-02-29", "2021-04-31", "2021-06-31", "2021-09-31", "2021-11-31", "2021-01-32", "2021-12-32", "2021-13-01", "2021-00-10", "2021-01-00", "2021-99-99",
	"20210203", "2021/02/03", "2021.02.03", "2021 02 03", "2021_02_03", "03-02-2021", "02-03-2021", "2021-034", "2021-W05-3", "Feb 3 2021", "3 February 2021", "today", "now", "1612310400", "0",
	"2021-02-03 ", " 2021-02-03", "2021-02-03\n", "\t2021-02-03", "2021-02-03Z", "2021-02-03T", "2021-02-03T00:00:00Z", "2021-02-03T00:00:00", "2021-02-03 00:00:00", "2021-02-03T10:00", "2021-02-03+02:00", "2021-02-03T00:00:00Z#",
	"2021-02-0x", "202x-02-03", "2021-0x-03", "2021--2-03", "2021-02--3", "2021-02-+3", "2021-+2-03", "２０２１-02-03", "2021–02–03", "2021-02-03\x00", "2021-02-03-04", "2021-02-03,2021-02-04", "0x21-02-03", "2e03-02-03", "2021-1-1", "2021-10-1",
}

func driveDate(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var b struct{ Y, M, D, N int }
		decode(raw, &b)
		runDate(e, fmt.Sprintf("%04d-%02d-%02d", b.Y, b.M, b.D))
		if b.D >= 28 || b.D == 1 { // around the ends of the month
			for _, d := range []int{0, 29, 30, 31, 32} {
				runDate(e, fmt.Sprintf("%04d-%02d-%02d", b.Y, b.M, d))
			}
		}
	})
	e.randoms(func(id int, r *rand.Rand) {
		if k := id - randomBase; k < len(oddDates) {
			runDate(e, oddDates[k])
			return
		}
		y, m, d := 1+r.Intn(9999), r.Intn(14), r.Intn(33)
		text := fmt.Sprintf("%04d-%02d-%02d", y, m, d)
		if r.Intn(3) == 0 { // one or two edits
			b := []byte(text)
			for n := 1 + r.Intn(2); n > 0; n-- {
				k := r.Intn(len(b))
				c := []byte("0123456789- :TZ/x+.\n")[r.Intn(20)]
				switch r.Intn(4) {
				case 0:
					b[k] = c
				case 1:
					b = append(b[:k], b[k+1:]...)
				case 2:
					b = append(b[:k], append([]byte{c}, b[k:]...)...)
				case 3:
					j := r.Intn(len(b))
					b[j], b[k] = b[k], b[j]
				}
				if len(b) == 0 {
					break
				}
			}
			text = string(b)
			if len(text) >= 4 && text[:4] == "0000" { // whether there is a year 0 is left open
				return
			}
		}
		runDate(e, text)
	})
}

var fixedZones = []string{"UTC", "Etc/GMT+5", "Etc/GMT-14", "Asia/Tokyo", "Asia/Kolkata", "Asia/Kathmandu", "America/Phoenix", "Asia/Dubai", "Australia/Brisbane"}
var seasonalZones = []string{"America/New_York", "America/Los_Angeles", "Europe/London", "Europe/Berlin", "Australia/Adelaide"}

var noZones = []string{"Nowhere/City", "America/Nowhere", "Mars", "utc+25", "America/New_York ", " UTC", "Asia/", "/Asia/Tokyo", "../UTC", "America\\New_York", "+02:00", "UTC+2", "GMT+99", "Tokyo", "New York", "america/nowhere", "Europe/Berlin/Mitte", "0", "\x00", "-"}

func runTick(e *env, unix int64, zone string, local bool, r *rand.Rand) {
	candle := &market.Candle{Time: unix, Open: r.Float64(), Close: r.Float64()}
	tick := &strategy.Tick{Candle: candle, Capital: r.Float64()}
	if r.Intn(2) == 0 {
		fill(reflect.ValueOf(tick).Elem(), r, 0)
		fill(reflect.ValueOf(candle).Elem(), r, 0)
		candle.Time, tick.Candle = unix, candle
	}
	var t time.Time
	var err error
	op := "location"
	if local {
		op = "local"
		loc, lerr := time.LoadLocation(zone)
		if lerr != nil {
			fatal(lerr)
		}
		old := time.Local
		time.Local = loc
		defer func() { time.Local = old }()
		if !e.call(op, func() { t = tick.GetLocalTime() }) {
			return
		}
	} else if !e.call(op, func() { t, err = tick.GetLocationTime(zone) }) {
		return
	}
	y, m, d := t.Date()
	e.emit(rec{"op": op, "zone": zone, "t": instant(unix), "err": code(err), "at": instant(t.Unix()), "nano": t.Nanosecond(), "wall": []int{y, int(m), d, t.Hour(), t.Minute(), t.Second()}, "unix": fmt.Sprint(unix)})
}

func driveTick(e *env) {
	zones := append(append([]string{}, fixedZones...), seasonalZones...)
	e.behaviours(func(id int, raw []byte) {
		var b struct{ Y, M, D, N int }
		decode(raw, &b)
		r := e.rng()
		base := int64(b.N) * 86400
		for k := 0; k < 3; k++ { // around possible changes of the clock, and anywhere
			s := []int64{int64(r.Intn(24))*3600 - int64(r.Intn(2)), int64(r.Intn(86400)), int64(r.Intn(48)) * 1800}[k]
			runTick(e, base+s, zones[(id+k*5+int(e.seed))%len(zones)], r.Intn(4) == 0, r)
		}
	})
	e.randoms(func(id int, r *rand.Rand) {
		switch k := r.Intn(10); {
		case k == 0: // before 1970 and far away
			runTick(e, []int64{0, 1, -1, 59, r.Int63n(400e9) - 150e9, r.Int63n(400e9) - 150e9, r.Int63n(400e9) - 150e9}[r.Intn(7)], fixedZones[r.Intn(3)], r.Intn(3) == 0, r)
		case k == 1:
			unix := r.Int63n(4e9)
			tick := &strategy.Tick{Candle: &market.Candle{Time: unix}}
			zone := noZones[r.Intn(len(noZones))]
			var err error
			if !e.call("unknown", func() { _, err = tick.GetLocationTime(zone) }) {
				return
			}
			e.emit(rec{"op": "unknown", "zone": zone, "err": code(err)})
		case k < 6: // exactly at a change of the clock, found in the zone itself
			zone := seasonalZones[r.Intn(len(seasonalZones))]
			loc, err := time.LoadLocation(zone)
			if err != nil {
				fatal(err)
			}
			lo := time.Date(2009+r.Intn(28), time.Month(1+r.Intn(12)), 1, 0, 0, 0, 0, time.UTC).Unix()
			hi := lo + 180*86400
			offset := func(u int64) int { _, o := time.Unix(u, 0).In(loc).Zone(); return o }
			for hi-lo > 1 && offset(lo) != offset(hi) {
				if mid := (lo + hi) / 2; offset(mid) == offset(lo) {
					lo = mid
				} else {
					hi = mid
				}
			}
			runTick(e, hi-1+int64(r.Intn(3)), zone, r.Intn(3) == 0, r)
		default:
			runTick(e, 725846400+r.Int63n(1420070400), zones[r.Intn(len(zones))], r.Intn(3) == 0, r)
		}
	})
}
