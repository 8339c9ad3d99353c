package main

import (
	"math/rand"
	"sort"
	"strings"

	"github.com/vanclief/finmod/market"
)

func init() { drivers["catalog"] = driveCatalog }

func runLookup(e *env, which, symbol string) {
	var a market.Asset
	var err error
	if !e.call("lookup", func() {
		switch which {
		case "crypto":
			a, err = market.NewCryptoAsset(symbol)
		case "forex":
			a, err = market.NewForexAsset(symbol)
		default:
			a, err = market.NewStockAsset(symbol)
		}
	}) {
		return
	}
	e.emit(rec{"op": "lookup", "which": which, "symbol": symbol, "err": code(err), "outSymbol": a.Symbol, "outName": a.Name})
}

func runSymbol(e *env, base, sep, quote string) {
	p := market.NewPair(market.Asset{Symbol: base, Name: "n"}, market.Asset{Symbol: quote})
	var s string
	if !e.call("symbol", func() { s = p.Symbol(sep) }) {
		return
	}
	e.emit(rec{"op": "symbol", "base": base, "sep": sep, "quote": quote, "out": s})
}

func runNew(e *env, symbol, name string) {
	var a market.Asset
	var err error
	if !e.call("new", func() { a, err = market.NewAsset(symbol, name) }) {
		return
	}
	e.emit(rec{"op": "new", "symbol": symbol, "name": name, "err": code(err), "outSymbol": a.Symbol, "outName": a.Name})
}

// No symbol of any catalogue, although some look like one.
var noSymbols = []string{"XBT", "BITCOIN", "Bitcoin", "US", "USDD", "$BTC", "BTC/USD", "BTCUSD", "BTC-USD", "EURO", "APPL", "AAPL.US", "Apple Inc", "ETH2", "ETHEREUM", "BT", "TC", "B", "BTCC", "GBP", "JPY", "MSFT", "TSLA", "NULL", "NONE", "0", "?", "*", "%s", "XXX", "TEST", "UNKNOWN"}

var separators = []string{"", "/", "-", "_", ":", " ", "%", "%s", "%d%%", "\\", "BTC", "ü", "--", "\t", "'", "\"", " / ", "%!", "\n", strings.Repeat("=", 40), "☃", "&", "0"}

// shortSymbols are all words of up to three capital letters (four in the thorough tier) and the symbols of the pairs.
func shortSymbols(keys []string, thorough bool) []string {
	out := []string{""}
	words := []string{""}
	most := 3
	if thorough {
		most = 4
	}
	for n := 0; n < most; n++ {
		var next []string
		for _, w := range words {
			for c := 'A'; c <= 'Z'; c++ {
				next = append(next, w+string(c))
			}
		}
		out = append(out, next...)
		words = next
	}
	seen := map[string]bool{}
	for _, k := range keys {
		p := market.PairMappings[k]
		for _, s := range []string{p.Base.Symbol, p.Quote.Symbol, k} {
			if len(s) > most && !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
		}
	}
	return out
}

func driveCatalog(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var b struct{ Op, Which, Symbol, Base, Sep, Quote, Name string }
		decode(raw, &b)
		switch {
		case b.Op == "lookup" && e.prop == "C36":
			runLookup(e, b.Which, b.Symbol)
			for _, s := range []string{strings.ToLower(b.Symbol), strings.ToUpper(b.Symbol), strings.Title(strings.ToLower(b.Symbol)), b.Symbol + " ", " " + b.Symbol, b.Symbol + b.Symbol, b.Symbol + "\n"} {
				runLookup(e, b.Which, s)
			}
		case b.Op == "symbol" && e.prop == "C35":
			runSymbol(e, b.Base, b.Sep, b.Quote)
		case b.Op == "new" && e.prop == "C36":
			runNew(e, b.Symbol, b.Name)
		}
	})
	var keys []string
	for k := range market.PairMappings {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	short := shortSymbols(keys, e.thorough)
	e.randoms(func(id int, r *rand.Rand) {
		k := id - randomBase
		if e.prop == "C35" {
			if k < len(keys) {
				p := market.PairMappings[keys[k]]
				var s string
				if !e.call("entry", func() { s = p.Symbol("") }) {
					return
				}
				e.emit(rec{"op": "entry", "key": keys[k], "base": p.Base.Symbol, "quote": p.Quote.Symbol, "out": s})
				return
			}
			word := func() string {
				switch r.Intn(5) {
				case 0:
					return ""
				case 1:
					return separators[r.Intn(len(separators))]
				}
				if r.Intn(6) == 0 {
					return []string{"ünï", "a b", "☃", "BRK.B", "with \"quotes\"", strings.Repeat("LONG", 12), "x\ny", " ", "%v", "1INCH"}[r.Intn(10)]
				}
				b := make([]byte, 1+r.Intn(8))
				for j := range b {
					b[j] = []byte("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789%.-/abc")[r.Intn(43)]
				}
				return string(b)
			}
			runSymbol(e, word(), separators[r.Intn(len(separators))], word())
			return
		}
		if k == 0 { // every short symbol, and every symbol of the pairs
			for _, s := range short {
				for _, which := range []string{"crypto", "forex", "stock"} {
					runLookup(e, which, s)
				}
			}
			return
		}
		which := []string{"crypto", "forex", "stock"}[r.Intn(3)]
		if k < 3*len(noSymbols) {
			runLookup(e, []string{"crypto", "forex", "stock"}[k%3], noSymbols[k/3])
			return
		}
		if r.Intn(6) == 0 {
			words := append([]string{"BTC", "Bitcoin", "Shiba Inu", "brk.b", "USD"}, fillStrings...)
			runNew(e, words[r.Intn(len(words))], words[r.Intn(len(words))])
			return
		}
		b := make([]byte, 6+r.Intn(4)) // longer than any known symbol
		for j := range b {
			b[j] = byte('A' + r.Intn(26))
		}
		runLookup(e, which, string(b))
	})
}
