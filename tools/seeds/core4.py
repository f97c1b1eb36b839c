exec(open("/verif/tools/seeds/srvpre.py").read())


def T(imports, body):
    return '//go:build go1.25\n\npackage zzdemo\n\nimport (\n' + "".join('\t"%s"\n' % i for i in imports) + ')\n\nfunc TestDemo(t *testing.T) {\n' + body + '\n}\n'


U = "github.com/unit-io/unitdb/"
SEEDS = [
 dict(id="l05", property="L05", edits=[("metrics/sample.go", "	times := make(_TimeSlice, sample.Samples)\n	copy(times, s.Times[:sample.Samples])\n", "	times := s.Times[:sample.Samples:sample.Samples]\n")],
  needs="a snapshot, and more durations recorded after it than the series holds",
  breaks="the ring is sorted in place, so that later durations replace other ones than the oldest, and change the snapshot",
  demo=T(["testing", "time", U+"metrics"], '''
	s := metrics.NewTimeSeries()
	for i := 0; i < 60; i++ {
		s.AddTime(time.Duration(100 - i))
	}
	a := s.Snapshot()
	if a.Min() != 41 || a.Max() != 90 {
		t.Fatal(a.Min(), a.Max())
	}
	for i := 0; i < 20; i++ {
		s.AddTime(time.Second)
	}
	if a.Min() != 41 || a.Max() != 90 {
		t.Fatal(a.Min(), a.Max())
	}
	b := s.Snapshot()
	if b.Min() != 41 || b.Cumulative() != 20*time.Second+30*(41+70)/2 {
		t.Fatal(b.Min(), b.Cumulative())
	}''')),
 dict(id="l06", property="L05", edits=[("metrics/metrics.go", "	m.mutex.Lock()\n	defer m.mutex.Unlock()\n	if metric, ok := m.metrics[name]; ok {\n		return metric\n	}\n	if v := reflect.ValueOf(i); v.Kind() == reflect.Func {\n		i = v.Call(nil)[0].Interface()\n	}\n	m.register(name, i)\n	return i\n", "	if v := reflect.ValueOf(i); v.Kind() == reflect.Func {\n		i = v.Call(nil)[0].Interface()\n	}\n	m.mutex.Lock()\n	defer m.mutex.Unlock()\n	m.register(name, i)\n	return i\n")],
  needs="two goroutines that ask for the same new metric at once",
  breaks="each gets a metric of its own, and what the second one counts is not reported",
  demo=T(["sync", "testing", U+"metrics"], '''
	for k := 0; k < 3000; k++ {
		m := metrics.NewMetrics()
		var wg sync.WaitGroup
		start := make(chan bool)
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				metrics.GetOrRegisterCounter("a", m).Inc(1)
			}()
		}
		close(start)
		wg.Wait()
		if n := metrics.GetOrRegisterCounter("a", m).Count(); n != 8 {
			t.Fatal(k, n)
		}
	}''')),
]
