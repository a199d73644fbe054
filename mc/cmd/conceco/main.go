// Command conceco model-checks concurrent calls of the packages which
// compute with decimals.
package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/pricecurve"
	"github.com/ndau/ndaumath/pkg/signed"
	"github.com/ndau/ndaumath/pkg/types"
	"github.com/ndau/ndaumath/pkg/unsigned"
	"github.com/tinylib/msgp/msgp"
	"verif/mc/conc"
	"verif/mc/engine"
)

const day = 86400000000

type lock struct {
	notice  types.Duration
	bonus   eai.Rate
	unlocks *types.Timestamp
}

func (l *lock) GetNoticePeriod() types.Duration { return l.notice }
func (l *lock) GetBonusRate() eai.Rate          { return l.bonus }
func (l *lock) GetUnlocksOn() *types.Timestamp  { return l.unlocks }

type shared struct {
	table eai.RateTable
	lock  *lock
}

func own(name string, f func(v int64) string) conc.Op {
	return conc.Op{Name: name, Make: func(v int, _ interface{}) func() string { return func() string { return f(int64(v)) } }}
}

func on(name string, f func(v int64, sh *shared) string) conc.Op {
	return conc.Op{Name: name + "*", Shared: true, Make: func(v int, x interface{}) func() string {
		return func() string { return f(int64(v), x.(*shared)) }
	}}
}

var p = fmt.Sprintln

var suite = &conc.Suite{Shared: func() interface{} {
	u := types.Timestamp(700 * day)
	return &shared{table: append(eai.RateTable{}, eai.DefaultUnlockedEAI...), lock: &lock{90 * day, eai.RateFromPercent(1), &u}}
}, Ops: []conc.Op{
	own("signed.MulDiv", func(v int64) string {
		a, err := signed.MulDiv(9223372036854775807-v, 9223372036854775-v, 9223372036854775800)
		b, err2 := signed.MulDiv(-7777777777777777-v, 3, 1000+v)
		q, r, err3 := signed.DivMod(100+v, 7)
		e, err4 := signed.ExpFrac(7+v, 9)
		return p(a, err, b, err2, q, r, err3, e, err4)
	}),
	own("unsigned.MulDiv", func(v int64) string {
		x := uint64(v)
		a, err := unsigned.MulDiv(18446744073709551615-x, 18446744073709551-x, 18446744073709551600)
		b, err2 := unsigned.MulDiv(18446744073709551615, 3, x)
		return p(a, err, b, err2)
	}),
	own("unsigned.ExpFrac", func(v int64) string {
		e, err := unsigned.ExpFrac(123456789012+uint64(v)*100000000, 1000000000000)
		return p(e, err, unsigned.LnInt(1000000+uint64(v)*1000000000))
	}),
	own("types.Ndau", func(v int64) string {
		n, err := types.ParseNdau([]string{"12.345", "9.00000001"}[v])
		m, err2 := n.Add(types.Ndau(7 + v))
		return p(n.String(), err, m.String(), err2)
	}),
	own("types.Duration", func(v int64) string {
		d, err := types.ParseDuration([]string{"1y2m3dt4h5m6s7us", "-t9h10m"}[v])
		e := types.Duration(1000000 + v)
		err2 := e.UpdateWeightedAverageAge(types.Duration(day), types.Ndau(500+v), types.Ndau(1234))
		return p(d.String(), err, e.String(), err2)
	}),
	own("types.Timestamp", func(v int64) string {
		t, err := types.ParseTimestamp([]string{"2019-05-06T07:08:09Z", "2420-02-29T23:59:59.999999Z"}[v])
		u, err2 := types.TimestampFrom(time.Unix(1600000000+v, 0))
		return p(t.String(), err, u.Since(t), err2, u.Add(types.Duration(day+v)).String())
	}),
	own("eai.Rate", func(v int64) string {
		r, err := eai.ParseRate([]string{"12.5%", "0.0000000001%"}[v])
		var w eai.RTRow
		err2 := w.UnmarshalText([]byte([]string{"30d:2%", "1y:10.25%"}[v]))
		b, err3 := w.MarshalText()
		return p(r.String(), err, err2, string(b), err3)
	}),
	own("eai.Calculate", func(v int64) string {
		a, err := eai.Calculate(types.Ndau(100000000000+v), types.Timestamp((800+v)*day), types.Timestamp(400*day), types.Duration((500-v)*day), nil, eai.DefaultUnlockedEAI, true)
		return p(a, err, eai.DefaultLockBonusEAI.RateAt(types.Duration(v*400*day)))
	}),
	own("eai.Calculate-locked", func(v int64) string {
		u := types.Timestamp(700 * day)
		l := &lock{types.Duration((90 + v) * day), eai.RateFromPercent(uint64(1 + v)), &u}
		if v == 0 {
			l.unlocks = nil
		}
		a, err := eai.Calculate(types.Ndau(100000000000+v), types.Timestamp((800+v)*day), types.Timestamp(400*day), types.Duration((500-v)*day), l, eai.DefaultUnlockedEAI, true)
		return p(a, err, eai.CalculateEAIRate(types.Duration((500-v)*day), l, eai.DefaultUnlockedEAI, types.Timestamp(660*day)))
	}),
	on("eai.Calculate", func(v int64, sh *shared) string {
		a, err := eai.Calculate(types.Ndau(100000000000+v), types.Timestamp((800+v)*day), types.Timestamp(400*day), types.Duration((500-v)*day), sh.lock, sh.table, true)
		return p(a, err, sh.table.Slice(0, types.Duration((100+v)*day), 0), sh.table.SliceF(0, types.Duration(200*day), types.Duration(v*day), types.Duration(10*day)))
	}),
	on("eai.write", func(v int64, sh *shared) string {
		b, err := sh.table.MarshalMsg(nil)
		var t eai.RateTable
		left, err2 := t.UnmarshalMsg(append(b, byte(v)))
		var buf bytes.Buffer
		err3 := msgp.Encode(&buf, sh.table)
		return p(b, err, t, left, err2, buf.Bytes(), err3, sh.table.RateAt(types.Duration((100+100*v)*day)))
	}),
	own("pricecurve.PriceAtUnit", func(v int64) string {
		const block = 100000000000
		a, err := pricecurve.PriceAtUnit(types.Ndau((37 + 8*v) * block))
		b, err2 := pricecurve.PriceAtUnit10000(types.Ndau((45 - 8*v) * block))
		c, err3 := pricecurve.PriceAtUnit(types.Ndau((12382 + v*10000) * block))
		return p(a, err, b, err2, c, err3)
	}),
	own("pricecurve.Approx", func(v int64) string {
		return p(pricecurve.ApproxPriceAtUnit(types.Ndau((v*7000+500)*100000000)), pricecurve.ApproxUnitAtPrice(float64(2+v*1000)), pricecurve.ApproxTotalPriceFor(types.Ndau(3500*100000000), types.Ndau(v*100000000)))
	}),
	own("pricecurve.ParseDollars", func(v int64) string {
		a, err := pricecurve.ParseDollars([]string{"-$1,234.56", "0.00000000001"}[v])
		b, err2 := a.MarshalMsg(nil)
		return p(a, err, b, err2)
	}),
}}

func main() {
	suite.Worker()
	engine.Main([]*engine.Property{suite.Property("C02", []string{"between two statements of the packages' source files at most two changes of thread happen, at the first and last visits of a statement", "the decimal library behaves as the stand-in for it in shim/decimal does"})})
}
