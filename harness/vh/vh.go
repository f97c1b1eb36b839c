//go:build go1.25

// Package vh is the property-testing engine shared by all harnesses: seeded
// case generation, execution inside one fake-clock bubble, shrinking of a
// failing case to a minimal one, replay files, and coverage accounting.
package vh

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
)

// Info is what a run of one case reports about itself.
type Info struct {
	classes map[string]int
	nontriv bool
	// Dir is a scratch directory private to the case, removed afterwards.
	Dir string
}

// Hit counts that the case exercised the named situation.
func (i *Info) Hit(class string) { i.classes[class]++ }

// Seen tells how often a situation occurred in this case.
func (i *Info) Seen(class string) int { return i.classes[class] }

// NonTrivial marks the case as non-trivial.
func (i *Info) NonTrivial() { i.nontriv = true }

// Suite is one executable check: a generator, an oracle-carrying runner and a shrinker.
type Suite struct {
	Name   string
	Prop   string
	Rule   string // what makes a case non-trivial
	Weight int    // share of the time budget
	Bubble bool   // run in the fake-clock bubble
	gen    func(r *rand.Rand, tier string, n int) any
	run    func(in *Info, c any) error
	shrink func(c any) []any
	decode func(raw []byte) (any, error)
}

// New builds a suite over cases of type C. shrink returns smaller candidates.
func New[C any](prop, name, rule string, bubble bool, gen func(r *rand.Rand, tier string, n int) C, run func(in *Info, c C) error, shrink func(c C) []C) *Suite {
	s := &Suite{Name: name, Prop: prop, Rule: rule, Weight: 1, Bubble: bubble}
	s.gen = func(r *rand.Rand, tier string, n int) any { return gen(r, tier, n) }
	s.run = func(in *Info, c any) error { return run(in, c.(C)) }
	s.shrink = func(c any) []any {
		if shrink == nil {
			return nil
		}
		var out []any
		for _, x := range shrink(c.(C)) {
			out = append(out, x)
		}
		return out
	}
	s.decode = func(raw []byte) (any, error) {
		var c C
		err := json.Unmarshal(raw, &c)
		return c, err
	}
	return s
}

// W sets the weight of a suite.
func (s *Suite) W(w int) *Suite { s.Weight = w; return s }

type violation struct {
	Suite  string          `json:"suite"`
	Prop   string          `json:"property"`
	Seed   int64           `json:"seed"`
	Error  string          `json:"error"`
	Case   json.RawMessage `json:"case"`
	Shrunk bool            `json:"shrunk"`
}

type suiteOut struct {
	Rule     string         `json:"rule"`
	Cases    int            `json:"cases"`
	Nontriv  int            `json:"nontrivial"`
	Hashes   []string       `json:"hashes"`
	Classes  map[string]int `json:"classes"`
	Samples  []string       `json:"samples"`
	hashSeen map[uint64]bool
}

type output struct {
	Suites    map[string]*suiteOut `json:"suites"`
	Violation *violation           `json:"violation"`
	Known     []string             `json:"known,omitempty"`
	Done      bool                 `json:"done"`
}

// RealNow is the wall clock in seconds, unaffected by the bubble.
func RealNow() float64 {
	var tv syscall.Timeval
	syscall.Gettimeofday(&tv)
	return float64(tv.Sec) + float64(tv.Usec)/1e6
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

var (
	curStart atomic.Int64 // wall second at which the running case started, 0 if none
	hangSecs = int64(envInt("VERIF_HANG_S", 90))
)

func watchdog() {
	for {
		time.Sleep(time.Second)
		if s := curStart.Load(); s != 0 && int64(RealNow())-s > hangSecs {
			fmt.Fprintln(os.Stderr, "VERIF-HANG: case did not finish")
			p := debug.Stack()
			_ = p
			syscall.Kill(syscall.Getpid(), syscall.SIGQUIT)
			time.Sleep(5 * time.Second)
			os.Exit(4)
		}
	}
}

// Main is called from TestMain.
func Main(m *testing.M, suites ...*Suite) {
	registered = suites
	go watchdog()
	if p := os.Getenv("VERIF_CPUPROFILE"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		go func() {
			time.Sleep(time.Duration(envInt("VERIF_BUDGET_S", 20)) * time.Second)
			pprof.StopCPUProfile()
			f.Close()
		}()
	}
	os.Exit(m.Run())
}

var registered []*Suite

// Test is the single test function body.
func Test(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	rp := os.Getenv("VERIF_REPLAY")
	var ss []*Suite
	if rp == "" {
		only := os.Getenv("VERIF_SUITE")
		for _, s := range registered {
			if s.Prop == prop && (only == "" || only == s.Name) {
				ss = append(ss, s)
			}
		}
		if len(ss) == 0 {
			fmt.Fprintln(os.Stderr, "VERIF-NOSUITE: no suite for property", prop)
			os.Exit(5)
		}
	} else {
		ss = registered
	}
	bubble := false
	for _, s := range ss {
		if s.Bubble {
			bubble = true
		}
	}
	if rp != "" {
		v := readReplay(rp)
		for _, s := range ss {
			if s.Name == v.Suite {
				bubble = s.Bubble
			}
		}
	}
	body := func() {
		code := 0
		if rp != "" {
			code = replay(ss, rp)
		} else {
			code = loop(ss)
		}
		cleanAll()
		os.Exit(code)
	}
	if !bubble {
		body()
		return
	}
	synctest.Test(t, func(t *testing.T) {
		// move the fake clock to a present-day date.
		time.Sleep(time.Until(time.Date(2024, 3, 1, 12, 0, 0, 123456789, time.UTC)))
		body()
	})
}

var scratchRoot string
var scratchOnce sync.Once

func scratch() string {
	scratchOnce.Do(func() {
		base := os.Getenv("VERIF_SCRATCH")
		if base == "" {
			base = "/dev/shm"
		}
		d, err := os.MkdirTemp(base, "verif-w")
		if err != nil {
			d, err = os.MkdirTemp("", "verif-w")
			if err != nil {
				panic(err)
			}
		}
		scratchRoot = d
	})
	return scratchRoot
}

func cleanAll() {
	if scratchRoot != "" {
		os.RemoveAll(scratchRoot)
	}
}

var caseNo int

// schedule, if built in, explores a schedule of a case that belongs to its seed.
var schedule func(seed int64) (stop func())

// exec runs one case with a panic guard and a fresh scratch directory.
func exec(s *Suite, c any, seed int64) (in *Info, err error) {
	if s.Bubble {
		// a case starts at the same phase of the clock whenever it is run.
		const minute = int64(time.Minute)
		now := time.Now().UnixNano()
		time.Sleep(time.Duration(minute - now%minute + int64(splitmix(uint64(seed))%uint64(minute))))
	}
	caseNo++
	in = &Info{classes: map[string]int{}, Dir: filepath.Join(scratch(), "c"+strconv.Itoa(caseNo))}
	if e := os.MkdirAll(in.Dir, 0777); e != nil {
		panic(e)
	}
	curStart.Store(int64(RealNow()))
	defer func() {
		curStart.Store(0)
		os.RemoveAll(in.Dir)
		if p := recover(); p != nil {
			if os.Getenv("VERIF_STACK") != "" {
				fmt.Fprintf(os.Stderr, "%s\n", debug.Stack())
			}
			err = fmt.Errorf("panic: %v at %s", p, panicSite())
		}
	}()
	if schedule != nil && s.Bubble {
		defer schedule(seed)()
	}
	return in, s.run(in, c)
}

func panicSite() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "/repo/") && strings.Contains(l, ".go:") && !strings.Contains(l, "/zzverif/") {
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			out = append(out, filepath.Base(l))
			if len(out) == 3 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

func readReplay(p string) violation {
	raw, err := os.ReadFile(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, "VERIF-REPLAY-ERR", err)
		os.Exit(5)
	}
	var v violation
	if err := json.Unmarshal(raw, &v); err != nil {
		fmt.Fprintln(os.Stderr, "VERIF-REPLAY-ERR", err)
		os.Exit(5)
	}
	return v
}

// replay: exit 1 if the case in the file still fails, 0 if it passes.
func replay(ss []*Suite, p string) int {
	v := readReplay(p)
	for _, s := range ss {
		if s.Name != v.Suite {
			continue
		}
		c, err := s.decode(v.Case)
		if err != nil {
			fmt.Fprintln(os.Stderr, "VERIF-REPLAY-ERR", err)
			return 5
		}
		n := envInt("VERIF_REPEAT", 1)
		limit := time.Duration(envInt("VERIF_REPEAT_S", 3600)) * time.Second
		start := time.Now()
		for i := 0; i < n && (i < 3 || time.Since(start) < limit); i++ {
			if _, err := exec(s, c, v.Seed); err != nil {
				fmt.Println("REPLAY-FAIL:", err)
				return 1
			}
		}
		fmt.Println("REPLAY-PASS")
		return 0
	}
	fmt.Fprintln(os.Stderr, "VERIF-NOSUITE", v.Suite)
	return 5
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func loop(ss []*Suite) int {
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed := int64(envInt("VERIF_SEED", 1))
	shard := envInt("VERIF_SHARD", 0)
	budget := float64(envInt("VERIF_BUDGET_S", 20))
	maxCases := envInt("VERIF_CASES", 1<<30)
	first := envInt("VERIF_FIRST", 0)
	outDir := os.Getenv("VERIF_OUT")
	if outDir == "" {
		outDir = scratch()
	}
	cur := filepath.Join(outDir, fmt.Sprintf("cur-%d.json", shard))
	outFile := filepath.Join(outDir, fmt.Sprintf("out-%d.json", shard))
	out := &output{Suites: map[string]*suiteOut{}}
	var order []*Suite
	for _, s := range ss {
		out.Suites[s.Name] = &suiteOut{Rule: s.Rule, Classes: map[string]int{}, hashSeen: map[uint64]bool{}}
		for i := 0; i < s.Weight; i++ {
			order = append(order, s)
		}
	}
	write := func() {
		for _, so := range out.Suites {
			so.Hashes = so.Hashes[:0]
			for h := range so.hashSeen {
				so.Hashes = append(so.Hashes, strconv.FormatUint(h, 16))
			}
			sort.Strings(so.Hashes)
		}
		raw, _ := json.Marshal(out)
		os.WriteFile(outFile+".tmp", raw, 0644)
		os.Rename(outFile+".tmp", outFile)
	}
	start := RealNow()
	spent := map[string]float64{}
	verbose := os.Getenv("VERIF_VERBOSE") != ""
	for n := first; n < maxCases; n++ {
		if RealNow()-start > budget {
			break
		}
		// the suite that has used the least of its share goes next
		s := ss[0]
		for _, x := range ss {
			if spent[x.Name]/float64(x.Weight) < spent[s.Name]/float64(s.Weight) {
				s = x
			}
		}
		if len(ss) > 1 && out.Suites[s.Name].Cases > 0 {
			_ = order
		}
		so := out.Suites[s.Name]
		h := fnv.New64a()
		fmt.Fprintf(h, "%s/%s/%d/%d/%d", s.Prop, s.Name, seed, shard, so.Cases+first)
		cs := int64(splitmix(h.Sum64()) >> 1)
		c := s.gen(rand.New(rand.NewSource(cs)), tier, so.Cases+first)
		raw, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		vv := violation{Suite: s.Name, Prop: s.Prop, Seed: cs, Error: "worker died while running this case", Case: raw}
		vr, _ := json.Marshal(vv)
		os.WriteFile(cur, vr, 0644)
		t0 := RealNow()
		in, err := exec(s, c, cs)
		spent[s.Name] += RealNow() - t0 + 1e-6
		so.Cases++
		if verbose {
			fmt.Printf("%s case %d seed %d: %.3fs %v err=%v\n", s.Name, so.Cases, cs, RealNow()-t0, in.classes, err)
		}
		for k, v := range in.classes {
			so.Classes[k] += v
		}
		if in.nontriv {
			so.Nontriv++
			hh := fnv.New64a()
			hh.Write(raw)
			if len(so.hashSeen) < 200000 {
				so.hashSeen[hh.Sum64()] = true
			}
			if len(so.Samples) < 3 {
				smp := string(raw)
				if len(smp) > 1500 {
					smp = smp[:1500] + "...(truncated)"
				}
				so.Samples = append(so.Samples, smp)
			}
		}
		if err != nil {
			small, serr := minimise(s, c, err, cs)
			raw, _ := json.Marshal(small)
			out.Violation = &violation{Suite: s.Name, Prop: s.Prop, Seed: cs, Error: serr.Error(), Case: raw, Shrunk: true}
			write()
			os.Remove(cur)
			fmt.Println("VERIF-FAIL", s.Name, serr)
			return 1
		}
	}
	out.Done = true
	write()
	os.Remove(cur)
	return 0
}

// minimise greedily follows shrink candidates that still fail.
func minimise(s *Suite, c any, err error, seed int64) (any, error) {
	limit := RealNow() + float64(envInt("VERIF_SHRINK_S", 25))
	for {
		improved := false
		for _, cand := range s.shrink(c) {
			if RealNow() > limit {
				return c, err
			}
			if _, e := exec(s, cand, seed); e != nil {
				c, err, improved = cand, e, true
				break
			}
		}
		if !improved {
			return c, err
		}
	}
}

// Chunks returns the standard delta-debugging candidates of a slice: large
// chunks removed first, then single elements.
func Chunks[T any](xs []T) [][]T {
	var out [][]T
	for size := len(xs) / 2; size >= 1; size /= 2 {
		for i := 0; i+size <= len(xs); i += size {
			y := make([]T, 0, len(xs)-size)
			y = append(y, xs[:i]...)
			y = append(y, xs[i+size:]...)
			out = append(out, y)
		}
		if size == 1 {
			break
		}
	}
	return out
}

// CopyTree copies a directory tree byte for byte.
func CopyTree(dst, src string) (err error) {
	if pause != nil {
		// nothing is written while the files are copied
		pause(func() { err = copyTree(dst, src) })
		return err
	}
	return copyTree(dst, src)
}

// pause runs f without giving others a chance to run, where schedules are explored.
var pause func(f func())

func copyTree(dst, src string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			if os.IsNotExist(err) {
				return nil
			}
			return err
		}
		rel, _ := filepath.Rel(src, p)
		q := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(q, 0777)
		}
		data, err := os.ReadFile(p)
		if err != nil {
			if os.IsNotExist(err) {
				return nil
			}
			return err
		}
		return os.WriteFile(q, data, 0666)
	})
}

// Scheduled tells whether schedules are explored: goroutines sleep for moments of virtual time.
func Scheduled() bool { return schedule != nil }
