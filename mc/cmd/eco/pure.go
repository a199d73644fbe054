package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/pricecurve"
	"github.com/ndau/ndaumath/pkg/signed"
	"github.com/ndau/ndaumath/pkg/types"
	"github.com/ndau/ndaumath/pkg/unsigned"
	"github.com/tinylib/msgp/msgp"
	"verif/mc/engine"
	"verif/mc/pure"
)

const pureDay = types.Duration(86400000000)

type pureLock struct {
	notice, bonus int64
	unlocks       *types.Timestamp
}

func (l *pureLock) GetNoticePeriod() types.Duration { return types.Duration(l.notice) }
func (l *pureLock) GetBonusRate() eai.Rate          { return eai.Rate(l.bonus) }
func (l *pureLock) GetUnlocksOn() *types.Timestamp  { return l.unlocks }

var pureTables = func() (l []eai.RateTable) {
	r := func(p uint64) eai.Rate { return eai.Rate(p * 10000000000) }
	base := eai.RateTable{{From: 30 * pureDay, Rate: r(2)}, {From: 60 * pureDay, Rate: r(3)}, {From: 90 * pureDay, Rate: r(4)}}
	for i := 0; i < 7; i++ {
		t := append(eai.RateTable{}, base...)
		switch i {
		case 1:
			t[2].Rate++
		case 2:
			t[1].From++
		case 3:
			t[0].Rate = r(1)
		case 4:
			t = t[:2]
		case 5:
			t = append(t, eai.RTRow{From: 120 * pureDay, Rate: r(5)})
		case 6:
			t = eai.RateTable{}
		}
		l = append(l, t)
	}
	return
}()

func pureTable(v int, a *pure.Args) eai.RateTable {
	full := a.Keep("table", func() interface{} { return make(eai.RateTable, 9) }).(eai.RateTable)
	for i := range full {
		full[i] = eai.RTRow{From: types.Duration(i) + 5, Rate: 77}
	}
	n := copy(full, pureTables[v])
	a.Watch(func() string { return fmt.Sprint(full) })
	return full[:n]
}

// pureMakeLock is lock v of 8, the first of which is none
func pureMakeLock(v int, a *pure.Args) eai.Lock {
	if v == 0 {
		return nil
	}
	l := a.Keep("lock", func() interface{} { return &pureLock{unlocks: new(types.Timestamp)} }).(*pureLock)
	u := a.Keep("unlocks", func() interface{} { return new(types.Timestamp) }).(*types.Timestamp)
	*l = pureLock{int64(90 * pureDay), 10000000000, nil}
	switch v {
	case 2:
		l.notice++
	case 3:
		l.bonus++
	case 4, 5, 6, 7:
		l.unlocks = u
		*u = types.Timestamp(700 * int64(pureDay))
		if v == 5 {
			*u++
		}
		if v == 6 {
			*u = 0
		}
		if v == 7 {
			l.bonus = 0
		}
	}
	a.Watch(func() string {
		if l.unlocks != nil {
			return fmt.Sprint(l.notice, l.bonus, *l.unlocks)
		}
		return fmt.Sprint(l.notice, l.bonus)
	})
	return l
}

var pureSuite = func() *pure.Suite {
	var cs []pure.Call
	add := func(name string, n int, f func(v int, a *pure.Args) pure.Result) {
		cs = append(cs, pure.Call{Name: name, N: n, Do: f, Rounded: strings.Contains(name, "Approx")})
	}
	texts := func(name string, l []string, f func(s string) pure.Result) {
		add(name, len(l), func(v int, a *pure.Args) pure.Result { return f(l[v]) })
	}

	// numbers
	three := [][3]int64{{7, 5, 3}, {8, 5, 3}, {7, 6, 3}, {7, 5, 4}, {5, 7, 3}, {-7, 5, 3}, {7, 5, 0}, {1<<63 - 1, 1<<63 - 1, 1<<63 - 1}, {1<<63 - 1, 1<<62 - 1, 3}, {-1 << 63, -1, 1}, {0, 0, 1}, {1 << 62, 1<<62 + 1, 1 << 62}}
	add("signed", len(three), func(v int, a *pure.Args) pure.Result {
		x := three[v]
		p, e1 := signed.Add(x[0], x[1])
		q, e2 := signed.Sub(x[0], x[1])
		r, e3 := signed.Mul(x[0], x[1])
		s, t, e4 := signed.DivMod(x[0], x[2])
		return pure.S(p, e1, q, e2, r, e3, s, t, e4)
	})
	add("signed.MulDiv", len(three), func(v int, a *pure.Args) pure.Result {
		r, err := signed.MulDiv(three[v][0], three[v][1], three[v][2])
		return pure.S(r, err)
	})
	add("unsigned", len(three), func(v int, a *pure.Args) pure.Result {
		x := [3]uint64{uint64(three[v][0]), uint64(three[v][1]), uint64(three[v][2])}
		p, e1 := unsigned.Add(x[0], x[1])
		q, e2 := unsigned.Sub(x[0], x[1])
		r, e3 := unsigned.Mul(x[0], x[1])
		s, t, e4 := unsigned.DivMod(x[0], x[2])
		return pure.S(p, e1, q, e2, r, e3, s, t, e4)
	})
	add("unsigned.MulDiv", len(three), func(v int, a *pure.Args) pure.Result {
		r, err := unsigned.MulDiv(uint64(three[v][0]), uint64(three[v][1]), uint64(three[v][2]))
		return pure.S(r, err)
	})
	fracs := [][2]uint64{{7, 9}, {8, 9}, {7, 10}, {14, 18}, {0, 5}, {5, 5}, {6, 5}, {700000000000, 1000000000000}, {700000000001, 1000000000000}, {700000000000, 1000000000001}, {1 << 63, 1<<64 - 1}, {0, 0}}
	add("unsigned.ExpFrac", len(fracs), func(v int, a *pure.Args) pure.Result {
		r, err := unsigned.ExpFrac(fracs[v][0], fracs[v][1])
		return pure.S(r, err)
	})
	add("signed.ExpFrac", 10, func(v int, a *pure.Args) pure.Result {
		r, err := signed.ExpFrac(int64(fracs[v][0]), int64(fracs[v][1]))
		return pure.S(r, err)
	})
	lns := []uint64{1, 2, 3, 7, 8, 20, 21, 1096, 1097, 1<<64 - 1}
	add("unsigned.LnInt", len(lns), func(v int, a *pure.Args) pure.Result { return pure.S(unsigned.LnInt(lns[v])) })

	// amounts and times
	texts("types.ParseNdau", []string{"1", "1.0", "1.5", "1.05", "-1.5", "10", "01.5", "1.50000001", "1.500000001", "", "x", "92233720368", "92233720369"}, func(s string) pure.Result {
		n, err := types.ParseNdau(s)
		return pure.S(n, int64(n), err)
	})
	amounts := []types.Ndau{0, 1, -1, 100000000, 100000001, 150000000, 1<<63 - 1, -1 << 63, -150000000}
	add("types.Ndau", len(amounts), func(v int, a *pure.Args) pure.Result {
		n := amounts[v]
		x, e1 := n.Add(100000000)
		y, e2 := n.Sub(100000000)
		return pure.S(n.String(), x, e1, y, e2, n.Abs(), n.Compare(1))
	})
	texts("types.ParseDuration", []string{"1y", "1m", "1d", "1dt1h", "t1h", "t1m", "t1s1us", "-1y", "1y2m3dt4h5m6s7us", "1y2m3dt4h5m6s8us", "", "x", "292471y", "292472y"}, func(s string) pure.Result {
		d, err := types.ParseDuration(s)
		return pure.S(d, int64(d), err)
	})
	durs := []types.Duration{0, 1, -1, pureDay, pureDay + 1, 365 * pureDay, 30 * pureDay, 1<<63 - 1, -1 << 63, 1000001}
	add("types.Duration", len(durs), func(v int, a *pure.Args) pure.Result {
		return pure.S(durs[v].String(), durs[v].TimeDuration(), types.DurationFrom(time.Duration(durs[v])))
	})
	add("types.Duration.MarshalText", len(durs), func(v int, a *pure.Args) pure.Result { return pure.B(durs[v].MarshalText()) })
	add("types.Duration.UnmarshalText", 4, func(v int, a *pure.Args) pure.Result {
		d := types.Duration(5)
		err := d.UnmarshalText(a.Bytes([]byte([]string{"1y", "1m", "1d", "1x"}[v])))
		return pure.S(int64(d), err)
	})
	ages := [][4]int64{{1000, 50, 100, 300}, {1001, 50, 100, 300}, {1000, 51, 100, 300}, {1000, 50, 101, 300}, {1000, 50, 100, 301}, {1000, 50, -100, 300}, {1000, 50, 0, 300}, {1000, 50, 100, 0}, {1<<63 - 1, 50, 100, 300}, {1<<63 - 1, 0, 100, 300}}
	add("types.UpdateWeightedAverageAge", len(ages), func(v int, a *pure.Args) pure.Result {
		d := types.Duration(ages[v][0])
		err := d.UpdateWeightedAverageAge(types.Duration(ages[v][1]), types.Ndau(ages[v][2]), types.Ndau(ages[v][3]))
		return pure.S(int64(d), err)
	})
	texts("types.ParseTimestamp", []string{"2000-01-01T00:00:00Z", "2000-01-01T00:00:01Z", "2000-01-02T00:00:00Z", "2000-02-29T00:00:00Z", "2001-02-29T00:00:00Z", "2019-05-06T07:08:09.000001Z", "2019-05-06T07:08:09.1Z", "1999-12-31T23:59:59Z", "x", ""}, func(s string) pure.Result {
		d, err := types.ParseTimestamp(s)
		return pure.S(d, int64(d), err)
	})
	stamps := []types.Timestamp{0, 1, 1000000, types.Timestamp(pureDay), types.Timestamp(59 * pureDay), types.Timestamp(60 * pureDay), types.Timestamp(7000*pureDay) + 1, 1<<63 - 1, types.Timestamp(366 * pureDay)}
	add("types.Timestamp", len(stamps), func(v int, a *pure.Args) pure.Result {
		t := stamps[v]
		return pure.S(t.String(), t.AsTime(), t.Since(1000), t.Add(7), t.Sub(7), t.Compare(1000000))
	})
	add("types.Timestamp.text", len(stamps), func(v int, a *pure.Args) pure.Result { return pure.B(stamps[v].MarshalText()) })
	add("types.TimestampFrom", 8, func(v int, a *pure.Args) pure.Result {
		z := []*time.Location{time.UTC, time.FixedZone("a", 3600), time.FixedZone("b", -5400), time.FixedZone("a", 7200)}[v%4]
		t, err := types.TimestampFrom(time.Date(2010+v/4, 3, 4, 5, 6, 7, 8000, z))
		return pure.S(int64(t), err)
	})

	// rates
	texts("eai.ParseRate", []string{"1%", "1.0%", "10%", "1.5%", "1.05%", "0.0000000001%", "0.0000000002%", "1", "%", "", "92233720%"}, func(s string) pure.Result {
		d, err := eai.ParseRate(s)
		return pure.S(d, int64(d), err)
	})
	rates := []eai.Rate{0, 1, 10, 10000000000, 10000000001, 15000000000, 1<<63 - 1}
	add("eai.Rate", len(rates), func(v int, a *pure.Args) pure.Result {
		return pure.S(rates[v].String(), eai.RateFromPercent(uint64(v)))
	})
	add("eai.RTRow.UnmarshalText", 7, func(v int, a *pure.Args) pure.Result {
		var r eai.RTRow
		err := r.UnmarshalText(a.Bytes([]byte([]string{"30d:2%", "31d:2%", "30d:3%", "30d:2.5%", "30d", "30d:", "30m:2%"}[v])))
		return pure.S(r, err)
	})
	add("eai.RTRow.MarshalText", 4, func(v int, a *pure.Args) pure.Result {
		return pure.B(eai.RTRow{From: durs[3+v%2], Rate: rates[3+v/2]}.MarshalText())
	})
	points := []types.Duration{0, 30 * pureDay, 30*pureDay - 1, 60 * pureDay, 100 * pureDay, 1000 * pureDay}
	add("eai.RateAt", len(pureTables)*len(points), func(v int, a *pure.Args) pure.Result {
		return pure.S(pureTable(v/len(points), a).RateAt(points[v%len(points)]))
	})
	windows := [][4]types.Duration{{0, 100, 0, 0}, {0, 101, 0, 0}, {1, 100, 0, 0}, {0, 100, 1, 0}, {0, 100, 0, 1}, {0, 100, 0, 45}, {0, 100, 45, 0}, {40, 40, 0, 0}, {0, 1000, 0, 0}}
	add("eai.SliceF", len(windows)*3, func(v int, a *pure.Args) pure.Result {
		w := windows[v/3]
		s := pureTable(v%3, a).SliceF(w[0]*pureDay, w[1]*pureDay, w[2]*pureDay, w[3]*pureDay)
		return pure.Result{Show: func() string { return fmt.Sprint(s) }, Spoil: func() {
			for i := range s {
				s[i] = eai.RSRow{Duration: 1, Rate: 1}
			}
		}}
	})
	add("eai.SliceF-tables", len(pureTables), func(v int, a *pure.Args) pure.Result {
		s := pureTable(v, a).SliceF(10*pureDay, 110*pureDay, 0, 0)
		return pure.Result{Show: func() string { return fmt.Sprint(s) }, Spoil: func() {
			for i := range s {
				s[i] = eai.RSRow{Duration: 1, Rate: 1}
			}
		}}
	})
	calc := func(v int, a *pure.Args, l, t int) (types.Ndau, error) {
		x := [4]int64{100000000000, 800 * int64(pureDay), 400 * int64(pureDay), 500 * int64(pureDay)}
		if v < 8 {
			x[v/2] += []int64{1, int64(30 * pureDay)}[v%2]
		}
		return eai.Calculate(types.Ndau(x[0]), types.Timestamp(x[1]), types.Timestamp(x[2]), types.Duration(x[3]), pureMakeLock(l, a), pureTable(t, a), v != 9)
	}
	add("eai.Calculate", 10, func(v int, a *pure.Args) pure.Result { x, err := calc(v, a, 0, 0); return pure.S(x, err) })
	add("eai.Calculate-locked", 10, func(v int, a *pure.Args) pure.Result { x, err := calc(v, a, 4, 0); return pure.S(x, err) })
	add("eai.Calculate-locks", 8, func(v int, a *pure.Args) pure.Result { x, err := calc(8, a, v, 0); return pure.S(x, err) })
	add("eai.Calculate-tables", len(pureTables), func(v int, a *pure.Args) pure.Result { x, err := calc(8, a, 0, v); return pure.S(x, err) })
	add("eai.CalculateEAIRate", 24, func(v int, a *pure.Args) pure.Result {
		return pure.S(eai.CalculateEAIRate([]types.Duration{20, 50, 50}[v%3]*pureDay, pureMakeLock(v/3, a), pureTable(v%2, a), []types.Timestamp{600, 699, 701}[v%3]*types.Timestamp(pureDay)))
	})
	add("eai.defaults", 2, func(v int, a *pure.Args) pure.Result {
		t := []eai.RateTable{eai.DefaultUnlockedEAI, eai.DefaultLockBonusEAI}[v]
		return pure.S(t, t.RateAt(100*pureDay))
	})

	// prices
	const block = 100000000000
	sold := []types.Ndau{0, 1, block - 1, block, block + 1, 9999 * block, 10000 * block, 10000*block - 1, 12382 * block, 29999 * block, 30000 * block, 45 * block}
	add("pricecurve.PriceAtUnit", len(sold), func(v int, a *pure.Args) pure.Result {
		x, err := pricecurve.PriceAtUnit(sold[v])
		return pure.S(x, err)
	})
	add("pricecurve.PriceAtUnit9999", len(sold), func(v int, a *pure.Args) pure.Result {
		x, err := pricecurve.PriceAtUnit9999(sold[v])
		return pure.S(x, err)
	})
	add("pricecurve.PriceAtUnit10000", len(sold), func(v int, a *pure.Args) pure.Result {
		x, err := pricecurve.PriceAtUnit10000(sold[v])
		return pure.S(x, err)
	})
	add("pricecurve.ApproxPriceAtUnit", len(sold), func(v int, a *pure.Args) pure.Result { return pure.S(pricecurve.ApproxPriceAtUnit(sold[v])) })
	prices := []float64{0, 0.5, 1, 1.0000001, 1.001, 2, 16384, 16385, 500000, 500451, 1e9}
	add("pricecurve.ApproxUnitAtPrice", len(prices), func(v int, a *pure.Args) pure.Result { return pure.S(pricecurve.ApproxUnitAtPrice(prices[v])) })
	add("pricecurve.ApproxTotalPriceFor", 16, func(v int, a *pure.Args) pure.Result {
		return pure.S(pricecurve.ApproxTotalPriceFor([]types.Ndau{1, block / 2, block, 3 * block}[v/4], []types.Ndau{0, 1, block / 2, 20000 * block}[v%4]))
	})
	texts("pricecurve.ParseDollars", []string{"1", "$1", "-1", "1.5", "1.05", "$1,000", "1.00000000001", "1.00000000002", "1.000000000001", "", "x", "92233720", "92233721"}, func(s string) pure.Result {
		d, err := pricecurve.ParseDollars(s)
		return pure.S(int64(d), err)
	})

	// message pack
	for _, k := range kinds() {
		k := k
		n := 7
		of := func(v int) packed {
			x := []int64{5, 7}
			switch v {
			case 1:
				x[0]++
			case 2:
				x[1]++
			case 3:
				x = []int64{127, 128}
			case 4:
				x = []int64{128, 127}
			case 5:
				x = []int64{1<<62 + 1, 1 << 62}
			case 6:
				if k.depth == 2 {
					x = append(x, 1, 2, 3, 4)
				} else {
					x = []int64{0, 0}
				}
			}
			return k.of(x)
		}
		add(k.name+".MarshalMsg", n, func(v int, a *pure.Args) pure.Result { return pure.B(of(v).MarshalMsg(nil)) })
		add(k.name+".EncodeMsg", n, func(v int, a *pure.Args) pure.Result {
			var b bytes.Buffer
			err := msgp.Encode(&b, of(v))
			return pure.B(b.Bytes(), err)
		})
		add(k.name+".UnmarshalMsg", n+2, func(v int, a *pure.Args) pure.Result {
			var b []byte
			if v < n {
				b, _ = of(v).MarshalMsg(nil)
			} else {
				b = []byte{[]byte{0xc0, 0xd9}[v-n], 1}
			}
			p := k.of([]int64{0, 0})
			_, err := p.UnmarshalMsg(a.Bytes(b))
			return pure.Show(func() string { return fmt.Sprint(k.nums(p), err) })
		})
		add(k.name+".DecodeMsg", n, func(v int, a *pure.Args) pure.Result {
			b, _ := of(v).MarshalMsg(nil)
			p := k.of([]int64{0, 0})
			err := msgp.Decode(bytes.NewReader(a.Bytes(b)), p)
			return pure.Show(func() string { return fmt.Sprint(k.nums(p), err) })
		})
	}
	return &pure.Suite{Calls: cs}
}

func init() {
	register(&engine.Property{ID: "X02", Level: "model_checking", Harnesses: func(tier string) []engine.Harness {
		ids := []string{"A01", "A03", "A04", "T02", "T03", "T04", "E01", "E02", "E03", "E04", "P02", "P03", "P04", "T01", "T05", "F01"}
		// what takes long where an int has 32 bits
		long := map[string]bool{"A01/edge-triples": true, "E01/edges": true, "T05/update": true, "T05/histories": true}
		if tier == "thorough" {
			ids, long = append(ids, "P01", "A02", "G01"), nil
		}
		hs := []engine.Harness{pureSuite().Builds("BUILD_AMD64", "BUILD_AMD64_V3")}
		for _, h := range engine.Gather(props, ids, "quick") {
			if !long[h.Name] {
				hs = append(hs, h)
			}
		}
		return hs
	}, Rule: "every harness ran to the end of its space in the 32-bit build"})
	register(&engine.Property{ID: "R02", Level: "model_checking", Harnesses: func(tier string) []engine.Harness { return pureSuite().Harnesses(tier) }})
}
