//go:build go1.25

package lib

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"sync"
	"time"

	"github.com/unit-io/unitdb/metrics"
	smetrics "github.com/unit-io/unitdb/server/internal/pkg/metrics"
	"github.com/unit-io/unitdb/server/zzverif/vh"
)

// TOp is a step on a registry of metrics, its counters, gauges and series of durations.
type TOp struct {
	K string  `json:"k"`           // inc, gauge, add, time, reset, snap, unreg, unregall, again
	M int     `json:"m"`           // metric, the kind is M%4: counter, gauge, series, histogram
	V []int64 `json:"v,omitempty"` // values, a negative one is subtracted from a counter
	G int     `json:"g,omitempty"` // goroutines that do the step at once
}

// TCase is a history of metrics.
type TCase struct {
	Server bool  `json:"server"`
	Size   int   `json:"size"`
	Ops    []TOp `json:"ops"`
}

const tMetrics = 8

func genMetrics(r *rand.Rand, tier string, n int) TCase {
	c := TCase{Server: r.Intn(2) == 0, Size: []int{1, 2, 3, 10, 19, 20, 21, 50, 99, 100, 101, 1000, 1 + r.Intn(300)}[r.Intn(13)]}
	kinds := []string{"inc", "gauge", "add", "add", "add", "time", "snap", "again", "reset", "unreg"}
	if r.Intn(10) == 0 {
		kinds = append(kinds, "unregall")
	}
	scale := int64(1) << uint(1+r.Intn(42))
	for i, k := 0, 1+r.Intn(30); i < k; i++ {
		op := TOp{K: kinds[r.Intn(len(kinds))], M: r.Intn(tMetrics), G: 1}
		if r.Intn(4) == 0 {
			op.G = 2 + r.Intn(6)
		}
		switch op.K {
		case "inc":
			op.M = op.M / 4 * 4
			op.V = []int64{r.Int63n(2*scale) - scale}
		case "gauge":
			op.M = op.M/4*4 + 1
			op.V = []int64{r.Int63n(2*scale) - scale}
		case "add":
			op.M = op.M/2*2 | 2
			m := 1 + r.Intn(5)
			if r.Intn(3) == 0 {
				m = 1 + r.Intn(c.Size*2)
			}
			if op.G > 1 {
				m = 1
			}
			for ; m > 0; m-- {
				v := 1 + r.Int63n(scale)
				if len(op.V) > 0 && r.Intn(4) == 0 {
					v = op.V[r.Intn(len(op.V))]
				}
				op.V = append(op.V, v)
			}
		case "time":
			op.M = op.M/4*4 + 2
		case "reset":
			op.M = op.M/4*4 + 3
			if r.Intn(2) == 0 {
				op.M -= 3 // a counter
			}
		case "snap":
			op.M = op.M/2*2 | 2
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type stats interface {
	Cumulative() time.Duration
	HMean() time.Duration
	Avg() time.Duration
	P50() time.Duration
	P75() time.Duration
	P95() time.Duration
	P99() time.Duration
	P999() time.Duration
	Long5p() time.Duration
	Short5p() time.Duration
	Max() time.Duration
	Min() time.Duration
	StdDev() time.Duration
	Range() time.Duration
}

type adder interface {
	stats
	AddTime(time.Duration)
}

type tCounter interface {
	Reset()
	Count() int64
	Dec(int64)
	Inc(int64)
}

type tGauge interface {
	Update(int64)
	Value() int64
}

type tRegistry interface {
	GetOrRegister(string, interface{}) interface{}
	Unregister(string)
	UnregisterAll()
}

// metricsPkg is one of the two packages.
type metricsPkg struct {
	reg  tRegistry
	get  func(name string, m int) interface{}
	snap func(m interface{}) interface{}
}

func newMetricsPkg(server bool, size int) metricsPkg {
	if server {
		reg := smetrics.NewMetrics()
		return metricsPkg{reg: reg,
			get: func(name string, m int) interface{} {
				switch m % 4 {
				case 0:
					return smetrics.GetOrRegisterCounter(name, reg)
				case 1:
					return smetrics.GetOrRegisterGauge(name, reg)
				case 2:
					return smetrics.GetOrRegisterTimeSeries(name, reg)
				}
				return smetrics.GetOrRegisterHistogram(name, reg, smetrics.NewSample(&smetrics.Config{Size: size}))
			},
			snap: func(m interface{}) interface{} {
				switch m := m.(type) {
				case smetrics.TimeSeries:
					return m.Snapshot()
				case smetrics.Histogram:
					return m.Snapshot()
				case smetrics.Counter:
					return m.Snapshot()
				}
				return m.(smetrics.Gauge).Snapshot()
			},
		}
	}
	reg := metrics.NewMetrics()
	return metricsPkg{reg: reg,
		get: func(name string, m int) interface{} {
			switch m % 4 {
			case 0:
				return metrics.GetOrRegisterCounter(name, reg)
			case 1:
				return metrics.GetOrRegisterGauge(name, reg)
			case 2:
				return metrics.GetOrRegisterTimeSeries(name, reg)
			}
			return metrics.GetOrRegisterHistogram(name, reg, metrics.NewSample(&metrics.Config{Size: size}))
		},
		snap: func(m interface{}) interface{} {
			switch m := m.(type) {
			case metrics.TimeSeries:
				return m.Snapshot()
			case metrics.Histogram:
				return m.Snapshot()
			case metrics.Counter:
				return m.Snapshot()
			}
			return m.(metrics.Gauge).Snapshot()
		},
	}
}

func near(got, want time.Duration, rel float64) bool {
	return math.Abs(float64(got)-float64(want)) <= 2+rel*math.Abs(float64(want))
}

// checkStats compares the statistics of a series with those of the durations recorded.
func checkStats(s stats, window []int64) error {
	w := append([]int64(nil), window...)
	sort.Slice(w, func(i, j int) bool { return w[i] < w[j] })
	n := len(w)
	all := map[string]time.Duration{"Cumulative": s.Cumulative(), "HMean": s.HMean(), "Avg": s.Avg(), "P50": s.P50(), "P75": s.P75(), "P95": s.P95(), "P99": s.P99(), "P999": s.P999(),
		"Long5p": s.Long5p(), "Short5p": s.Short5p(), "Max": s.Max(), "Min": s.Min(), "StdDev": s.StdDev(), "Range": s.Range()}
	if n == 0 {
		for k, v := range all {
			if v != 0 {
				return fmt.Errorf("%s of no durations is %d", k, v)
			}
		}
		return nil
	}
	var sum, inv float64
	var isum int64
	for _, v := range w {
		sum += float64(v)
		isum += v
		inv += 1 / float64(v)
	}
	mean := sum / float64(n)
	var sq float64
	for _, v := range w {
		sq += (float64(v) - mean) * (float64(v) - mean)
	}
	if got := all["Cumulative"]; got != time.Duration(isum) {
		return fmt.Errorf("Cumulative of %v is %d, not %d", w, got, isum)
	}
	for _, x := range []struct {
		k    string
		want float64
		rel  float64
	}{{"Avg", mean, 1e-9}, {"HMean", float64(n) / inv, 1e-6}, {"StdDev", math.Sqrt(sq / float64(n)), 1e-3}, {"Min", float64(w[0]), 0}, {"Max", float64(w[n-1]), 0}, {"Range", float64(w[n-1] - w[0]), 0}} {
		if got := all[x.k]; !near(got, time.Duration(x.want), x.rel) {
			return fmt.Errorf("%s of %v is %d, not %.0f", x.k, w, got, x.want)
		}
	}
	for _, k := range []string{"Min", "Max", "Range"} {
		want := map[string]int64{"Min": w[0], "Max": w[n-1], "Range": w[n-1] - w[0]}[k]
		if got := all[k]; got != time.Duration(want) {
			return fmt.Errorf("%s of %v is %d, not %d", k, w, got, want)
		}
	}
	for _, x := range []struct {
		k string
		p float64
	}{{"P50", 0.5}, {"P75", 0.75}, {"P95", 0.95}, {"P99", 0.99}, {"P999", 0.999}} {
		ok := false
		for i, v := range w {
			if time.Duration(v) == all[x.k] && math.Abs(float64(i+1)-x.p*float64(n)) <= 1 {
				ok = true
				break
			}
		}
		if !ok {
			return fmt.Errorf("%s of %v is %d", x.k, w, all[x.k])
		}
	}
	// the average of the longest, and of the shortest, part of them
	for _, k := range []string{"Long5p", "Short5p"} {
		ok := false
		var t int64
		for i := 0; i < n && !ok; i++ {
			if k == "Long5p" {
				t += w[n-1-i]
			} else {
				t += w[i]
			}
			if math.Abs(float64(i+1)-0.05*float64(n)) <= 1 && near(all[k], time.Duration(t/int64(i+1)), 0) {
				ok = true
			}
		}
		if !ok {
			return fmt.Errorf("%s of %v is %d", k, w, all[k])
		}
	}
	return nil
}

type tModel struct {
	count  int64
	window []int64
}

func (m *tModel) add(v int64, size int) {
	m.window = append(m.window, v)
	if len(m.window) > size {
		m.window = append([]int64(nil), m.window[len(m.window)-size:]...)
	}
}

func runMetrics(in *vh.Info, c TCase) error {
	return bounded(func() error { return metricsCase(in, c) })
}

func metricsCase(in *vh.Info, c TCase) error {
	p := newMetricsPkg(c.Server, c.Size)
	name := func(m int) string { return fmt.Sprint("m", m) }
	held := make([]interface{}, tMetrics)
	models := make([]*tModel, tMetrics)
	size := func(m int) int {
		if m%4 == 2 {
			return 50
		}
		return c.Size
	}
	type kept struct {
		m int
		s interface{}
		tModel
	}
	var snaps []kept
	// verify compares a metric, or a snapshot of one, with what was recorded.
	verify := func(m int, x interface{}, mod *tModel) error {
		switch m % 4 {
		case 0:
			if got := x.(tCounter).Count(); got != mod.count {
				return fmt.Errorf("a counter is %d, not %d", got, mod.count)
			}
		case 1:
			if got := x.(tGauge).Value(); got != mod.count {
				return fmt.Errorf("a gauge is %d, not %d", got, mod.count)
			}
		default:
			return checkStats(x.(stats), mod.window)
		}
		return nil
	}
	// together runs f in several goroutines at once, with f failing if it panics.
	together := func(g int, f func(i int) error) error {
		errs := make([]error, g)
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						errs[i] = fmt.Errorf("panic: %v", e)
					}
				}()
				errs[i] = f(i)
			}()
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return err
			}
		}
		return nil
	}
	for n, op := range c.Ops {
		fail := func(err error) error { return fmt.Errorf("step %d %s: %v", n, op.K, err) }
		m := op.M % tMetrics
		if op.G < 1 {
			op.G = 1
		}
		if held[m] == nil {
			// the first one to ask makes the metric, all others get the same
			got := make([]interface{}, op.G)
			if err := together(op.G, func(i int) error { got[i] = p.get(name(m), m); return nil }); err != nil {
				return fail(err)
			}
			for _, x := range got {
				if x != got[0] {
					return fail(fmt.Errorf("two metrics are registered under one name"))
				}
			}
			held[m], models[m] = got[0], &tModel{}
			if op.G > 1 {
				in.Hit("registered at once")
			}
		}
		x, mod := held[m], models[m]
		switch op.K {
		case "inc":
			if err := together(op.G, func(i int) error {
				if op.V[0] < 0 {
					x.(tCounter).Dec(-op.V[0])
				} else {
					x.(tCounter).Inc(op.V[0])
				}
				return nil
			}); err != nil {
				return fail(err)
			}
			mod.count += op.V[0] * int64(op.G)
			in.Hit("counted")
		case "gauge":
			if err := together(op.G, func(i int) error { x.(tGauge).Update(op.V[0]); return nil }); err != nil {
				return fail(err)
			}
			mod.count = op.V[0]
		case "add":
			old := append([]int64(nil), mod.window...)
			if err := together(op.G, func(i int) error {
				for _, v := range op.V {
					x.(adder).AddTime(time.Duration(v))
				}
				if op.G > 1 {
					// whatever is read meanwhile was recorded
					s := p.snap(x).(stats)
					for _, got := range []time.Duration{s.Min(), s.Max(), s.P75()} {
						ok := false
						for _, v := range append(old[:len(old):len(old)], op.V...) {
							ok = ok || time.Duration(v) == got
						}
						if !ok {
							return fmt.Errorf("a duration of %d was never recorded", got)
						}
					}
				}
				return nil
			}); err != nil {
				return fail(err)
			}
			for i := 0; i < op.G; i++ {
				for _, v := range op.V {
					mod.add(v, size(m))
				}
			}
			in.Hit("recorded")
			if len(mod.window) == size(m) {
				in.Hit("window full")
			}
		case "time":
			called := 0
			x.(interface{ Time(func()) }).Time(func() { called++ })
			if called != 1 {
				return fail(fmt.Errorf("the function timed is called %d times", called))
			}
			// the duration is not known but may be read back as the series is the only one that has it
			s := x.(stats)
			var sum int64
			for _, v := range append(append([]int64(nil), mod.window...), 0)[max(0, len(mod.window)+1-size(m)):] {
				sum += v
			}
			d := int64(s.Cumulative()) - sum
			if d < 0 || d > int64(time.Minute) {
				return fail(fmt.Errorf("a call is recorded with %d ns", d))
			}
			if d == 0 {
				// the clock did not go on, which the harmonic mean of the model does not cover
				return nil
			}
			mod.add(d, size(m))
			in.Hit("timed")
		case "reset":
			x.(interface{ Reset() }).Reset()
			*mod = tModel{}
			in.Hit("reset")
		case "snap":
			s := p.snap(x)
			snaps = append(snaps, kept{m, s, tModel{mod.count, append([]int64(nil), mod.window...)}})
			in.Hit("snapshot")
		case "again":
			if got := p.get(name(m), m); got != x {
				return fail(fmt.Errorf("another metric is returned for the name of a registered one"))
			}
			in.Hit("asked again")
		case "unreg":
			p.reg.Unregister(name(m))
			if got := p.get(name(m), m); got == x {
				return fail(fmt.Errorf("a metric that was unregistered is returned"))
			}
			p.reg.Unregister(name(m))
			held[m] = nil
			in.Hit("unregistered")
		case "unregall":
			p.reg.UnregisterAll()
			for i := range held {
				if held[i] != nil {
					if got := p.get(name(i), i); got == held[i] {
						return fail(fmt.Errorf("a metric that was unregistered is returned"))
					}
					held[i] = nil
				}
			}
			p.reg.UnregisterAll()
		}
		for i := range held {
			if held[i] == nil {
				continue
			}
			if err := verify(i, held[i], models[i]); err != nil {
				return fail(err)
			}
			if err := verify(i, p.snap(held[i]), models[i]); err != nil {
				return fail(fmt.Errorf("snapshot: %v", err))
			}
		}
		for _, k := range snaps {
			if err := verify(k.m, k.s, &k.tModel); err != nil {
				return fail(fmt.Errorf("earlier snapshot: %v", err))
			}
		}
	}
	if len(c.Ops) > 1 {
		in.NonTrivial()
	}
	return nil
}

func shrinkMetrics(c TCase) (out []TCase) {
	for n := len(c.Ops) / 2; n > 0; n /= 2 {
		for i := 0; i+n <= len(c.Ops); i += n {
			d := c
			d.Ops = append(append([]TOp(nil), c.Ops[:i]...), c.Ops[i+n:]...)
			out = append(out, d)
		}
	}
	for i, op := range c.Ops {
		edit := func(f func(o *TOp)) {
			d := c
			d.Ops = append([]TOp(nil), c.Ops...)
			f(&d.Ops[i])
			out = append(out, d)
		}
		if op.G > 1 {
			edit(func(o *TOp) { o.G = op.G / 2 })
		}
		if len(op.V) > 1 {
			edit(func(o *TOp) { o.V = op.V[:len(op.V)/2] })
			edit(func(o *TOp) { o.V = op.V[1:] })
		}
	}
	return
}
