// Package run drives the scenarios of one check program: the same program is started several times, the copies
// share the scenarios between them through claim files, and each writes what it covered.
package run

import (
	"crypto/sha1"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif.local/v/mc"
)

// Scenario is one finite space of executions.
type Scenario struct {
	Name     string
	Max      int // highest deviation bound worth exploring in the quick tier
	MaxDeep  int // in the thorough tier (0: Max+2)
	TimeCost int // cost of letting time pass early; 0 means 1, negative never
	Horizon  int
	NoRace   bool
	Delay    bool // bound deviations from two default orders (oldest and newest goroutine first)
	Sleep    bool // explore without bound, with sleep sets
	Body     func(e *mc.Exec)
	Nat      func(t *T) // a native enumeration instead of a controlled one
	Deep     bool       // thorough tier only
	Timeout  time.Duration
}

// T counts what a native enumeration covers.
type T struct {
	Name                 string
	States, Steps, Execs int64
	mu                   sync.Mutex
	fail                 string
	samples              []string
	deadline             time.Time
	cut                  bool
	thorough             bool
	dir                  string
}

type natFail struct{ msg string }

// Fail reports a violation and ends the scenario.
func (t *T) Fail(format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	t.mu.Lock()
	if t.fail == "" {
		t.fail = m
	}
	t.mu.Unlock()
	panic(natFail{m})
}

// Note records a violation without unwinding (for goroutines).
func (t *T) Note(format string, a ...any) {
	t.mu.Lock()
	if t.fail == "" {
		t.fail = fmt.Sprintf(format, a...)
	}
	t.mu.Unlock()
}

// Check fails when a violation was noted.
func (t *T) Check() {
	t.mu.Lock()
	m := t.fail
	t.mu.Unlock()
	if m != "" {
		panic(natFail{m})
	}
}

// State counts a distinct case, Step a call into the code under test, Exec a completed sequence.
func (t *T) State()      { atomic.AddInt64(&t.States, 1) }
func (t *T) Step()       { atomic.AddInt64(&t.Steps, 1) }
func (t *T) StepN(n int) { atomic.AddInt64(&t.Steps, int64(n)) }
func (t *T) Exec()       { atomic.AddInt64(&t.Execs, 1) }

// Case counts a case of one execution with n steps.
func (t *T) Case(n int) {
	atomic.AddInt64(&t.States, 1)
	atomic.AddInt64(&t.Steps, int64(n))
	atomic.AddInt64(&t.Execs, 1)
}

// Sample keeps an example of what was covered.
func (t *T) Sample(format string, a ...any) {
	if len(t.samples) < 2 {
		t.samples = append(t.samples, fmt.Sprintf(format, a...))
	}
}

// Thorough tells the tier, More whether there is time left; a false More is recorded.
func (t *T) Thorough() bool { return t.thorough }
func (t *T) More() bool {
	if time.Now().After(t.deadline) {
		t.cut = true
		return false
	}
	return true
}

// Dir is a scratch directory of this scenario.
func (t *T) Dir() string {
	if t.dir == "" {
		d, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "nat")
		if err != nil {
			panic(err)
		}
		t.dir = d
	}
	return t.dir
}

// NoPanic runs f and fails when it panics.
func (t *T) NoPanic(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if nf, ok := r.(natFail); ok {
				panic(nf)
			}
			t.Fail("%s panicked: %v\n%s", what, r, debug.Stack())
		}
	}()
	f()
}

// Returns runs f and fails when it has not returned within d.
func (t *T) Returns(what string, d time.Duration, f func()) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			if nf, ok := r.(natFail); ok {
				panic(nf)
			}
			t.Fail("%s panicked: %v", what, r)
		}
	case <-time.After(d):
		t.Fail("%s did not return within %v", what, d)
	}
}

// Item is what one (scenario, bound) run covered.
type Item struct {
	Name     string
	Bound    int
	Complete bool // everything within the bound was explored
	Full     bool // nothing was left out because of the bound
	Execs    int64
	Steps    int64
	States   int64
	Nondet   int
	Wall     float64
	Samples  []string
}

// Violation found.
type Violation struct {
	Scenario string
	Bound    int
	Kind     string
	Msg      string
	Trace    []string
	Hist     []string
	Path     []int
}

// Out is the result file of a process.
type Out struct {
	Items      []Item
	Violations []Violation
	Finished   bool
}

// Maker lists the scenarios of a property.
type Maker func(thorough bool) []Scenario

func bound(s *Scenario, thorough bool) int {
	if thorough {
		if s.MaxDeep != 0 {
			return s.MaxDeep
		}
		return s.Max + 2
	}
	return s.Max
}

func body(s *Scenario) func(e *mc.Exec) {
	if !s.Delay {
		return s.Body
	}
	return func(e *mc.Exec) {
		e.Reverse = mc.Choose(2) == 1
		s.Body(e)
	}
}

func explorer(s *Scenario, b int) *mc.Explorer {
	x := &mc.Explorer{Bound: b, Horizon: s.Horizon, TimeCost: s.TimeCost, NoRace: s.NoRace, Delay: s.Delay}
	if s.TimeCost == 0 {
		x.TimeCost = 1
	}
	return x
}

// Main is the main function of check programs.
func Main(props map[string]Maker) {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	secs := flag.Float64("secs", 30, "")
	dir := flag.String("dir", "", "claim directory")
	tag := flag.String("tag", "x", "")
	out := flag.String("out", "", "")
	only := flag.String("only", "", "scenario name (substring)")
	maxb := flag.Int("bound", -1, "limit the bound")
	rep := flag.String("replay", "", "replay file")
	list := flag.Bool("list", false, "")
	quiet := flag.Bool("q", true, "")
	flag.Parse()
	mc.Det = true
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	thorough := *tier == "thorough"
	mk := props[*prop]
	if mk == nil {
		fmt.Println("no such property")
		os.Exit(3)
	}
	all := mk(thorough)
	if *rep != "" {
		replay(all, *rep)
		return
	}
	var scs []Scenario
	seen := map[string]bool{}
	for _, s := range all {
		if seen[s.Name] {
			panic("duplicate scenario " + s.Name)
		}
		seen[s.Name] = true
		if s.Deep && !thorough || *only != "" && !strings.Contains(s.Name, *only) {
			continue
		}
		scs = append(scs, s)
	}
	if *list {
		for _, s := range scs {
			fmt.Println(s.Name)
		}
		return
	}
	res := &Out{}
	var cur atomic.Value
	cur.Store("")
	var mu sync.Mutex
	save := func() {
		mu.Lock()
		defer mu.Unlock()
		if *out != "" {
			b, _ := json.Marshal(res)
			os.WriteFile(*out+".tmp", b, 0666)
			os.Rename(*out+".tmp", *out)
		}
	}
	mark := func(n string) {
		cur.Store(n)
		if *out != "" {
			os.WriteFile(*out+".cur", []byte(n), 0666)
		}
	}
	stop := func() {
		if *dir != "" {
			os.WriteFile(filepath.Join(*dir, "stop"), nil, 0666)
		}
	}
	known := LoadKnown(os.Getenv("VERIF_KNOWN"), *prop)
	// a known finding ends its scenario only
	report := func(v Violation) (end bool) {
		mu.Lock()
		res.Violations = append(res.Violations, v)
		mu.Unlock()
		save()
		if known.Match(v) != "" {
			return false
		}
		stop()
		return true
	}
	hang = func(sc, msg string) {
		report(Violation{Scenario: sc, Kind: "hang", Msg: msg})
		os.Exit(4)
	}
	mc.StartWatchdog(60*time.Second, func() {
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		report(Violation{Scenario: cur.Load().(string), Kind: "hang", Msg: "no progress for 60 s under the controlled scheduler (code blocks outside it or never ends)\n" + string(buf)})
		os.Exit(4)
	})
	go func() {
		// an execution that allocates without end must not take the sandbox down
		for {
			time.Sleep(200 * time.Millisecond)
			b, _ := os.ReadFile("/proc/self/statm")
			f := strings.Fields(string(b))
			if len(f) > 1 {
				if n, _ := strconv.Atoi(f[1]); n*os.Getpagesize() > 7<<29 {
					report(Violation{Scenario: cur.Load().(string), Kind: "memory", Msg: "the execution allocates without end (more than 3.5 GB)"})
					os.Exit(4)
				}
			}
		}
	}()
	claim := func(i, b int) bool {
		if *dir == "" {
			return true
		}
		if _, err := os.Stat(filepath.Join(*dir, "stop")); err == nil {
			return false
		}
		f, err := os.OpenFile(filepath.Join(*dir, fmt.Sprintf("%s.%d.%x", *tag, b, sha1.Sum([]byte(scs[i].Name)))), os.O_CREATE|os.O_EXCL, 0666)
		if err != nil {
			return false
		}
		f.Close()
		return true
	}
	skip := func(i int) bool {
		if *dir == "" {
			return false
		}
		_, err := os.Stat(filepath.Join(*dir, fmt.Sprintf("%s.done.%x", *tag, sha1.Sum([]byte(scs[i].Name)))))
		return err == nil
	}
	setSkip := func(i int) {
		if *dir != "" {
			os.WriteFile(filepath.Join(*dir, fmt.Sprintf("%s.done.%x", *tag, sha1.Sum([]byte(scs[i].Name)))), nil, 0666)
		}
	}
	deadline := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	top := 0
	for i := range scs {
		if scs[i].Nat == nil && !scs[i].Sleep {
			top = max(top, bound(&scs[i], thorough))
		}
	}
	if *maxb >= 0 {
		top = min(top, *maxb)
	}
	n := len(scs)
levels:
	for b := 0; b <= top; b++ {
		for i := range scs {
			s := &scs[i]
			if (s.Nat != nil || s.Sleep) && b > 0 || s.Nat == nil && !s.Sleep && b > bound(s, thorough) || skip(i) {
				continue
			}
			if time.Now().After(deadline) && b > 0 {
				break levels
			}
			if !claim(i, b) {
				continue
			}
			mark(s.Name)
			t0 := time.Now()
			if s.Nat != nil {
				t := &T{Name: s.Name, deadline: deadline, thorough: thorough}
				runNat(t, s)
				mu.Lock()
				res.Items = append(res.Items, Item{Name: s.Name, Complete: !t.cut, Full: !t.cut, Execs: t.Execs, Steps: t.Steps, States: t.States, Wall: time.Since(t0).Seconds(), Samples: t.samples})
				mu.Unlock()
				if t.dir != "" {
					os.RemoveAll(t.dir)
				}
				if t.fail != "" && report(Violation{Scenario: s.Name, Kind: "native", Msg: t.fail}) {
					return
				}
				save()
				continue
			}
			bb := b
			if s.Sleep {
				bb = -1
			}
			x := explorer(s, bb)
			left := time.Until(deadline)
			if b == 0 && left < 2*time.Second {
				left = 2 * time.Second // bound 0 is always given a chance
			}
			x.Deadline = time.Now().Add(left)
			r := x.Explore(body(s))
			it := Item{Name: s.Name, Bound: bb, Complete: x.Completed, Full: x.Completed && !x.BoundHit, Execs: int64(x.Execs), Steps: int64(x.Steps), States: int64(x.Nodes), Nondet: x.Nondet, Wall: time.Since(t0).Seconds()}
			mu.Lock()
			res.Items = append(res.Items, it)
			mu.Unlock()
			if it.Full || x.Nondet > 0 {
				setSkip(i)
			}
			if !*quiet {
				fmt.Fprintf(os.Stderr, "%-50s b=%d execs=%d steps=%d complete=%v full=%v nondet=%d %.1fs\n", s.Name, bb, x.Execs, x.Steps, x.Completed, it.Full, x.Nondet, it.Wall)
			}
			if r != nil {
				end := report(Violation{Scenario: s.Name, Bound: bb, Kind: r.Fail.Kind, Msg: r.Fail.Msg, Trace: r.Trace, Hist: r.Hist, Path: r.Path})
				setSkip(i)
				if *out == "" {
					fmt.Printf("VIOLATION in %s (%s): %s\n", s.Name, r.Fail.Kind, r.Fail.Msg)
					tr := r.Trace
					if len(tr) > 120 {
						tr = tr[len(tr)-120:]
					}
					for _, l := range tr {
						fmt.Println("   ", l)
					}
				}
				if end {
					return
				}
			}
			if it.Wall > 1 {
				save()
			}
		}
	}
	_ = n
	res.Finished = true
	save()
	if *out == "" {
		for _, v := range res.Violations {
			fmt.Printf("VIOLATION %s: %s\n", v.Scenario, v.Msg)
		}
	}
}

// hangAfter is the number of seconds a native enumeration may go without progress.
const hangAfter = 100

var hang func(scenario, msg string)

func runNat(t *T, s *Scenario) {
	to := s.Timeout
	if to == 0 {
		to = 10 * time.Minute
	}
	over := make(chan struct{})
	defer close(over)
	go func() {
		// progress shows in the counters
		var last int64
		idle, worst := 0, 0
		for {
			select {
			case <-over:
				if os.Getenv("VERIF_GAPS") != "" && worst > 5 {
					fmt.Fprintf(os.Stderr, "gap %d s in %s\n", worst, s.Name)
				}
				return
			case <-time.After(time.Second):
			}
			n := atomic.LoadInt64(&t.Steps) + atomic.LoadInt64(&t.States) + atomic.LoadInt64(&t.Execs)
			if n != last {
				last, idle = n, 0
				continue
			}
			idle++
			worst = max(worst, idle)
			if idle >= hangAfter && hang != nil {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				hang(s.Name, fmt.Sprintf("no call has returned for %d s (code blocks or never ends)\n%s", idle, buf))
			}
		}
	}()
	timer := time.AfterFunc(to, func() {
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		panic(fmt.Sprintf("scenario %s does not end within %v\n%s", s.Name, to, buf))
	})
	defer timer.Stop()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(natFail); !ok {
				t.mu.Lock()
				if t.fail == "" {
					t.fail = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
				}
				t.mu.Unlock()
			}
		}
	}()
	s.Nat(t)
	t.Check()
}

func replay(all []Scenario, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	for i := range all {
		s := &all[i]
		if s.Name != v.Scenario {
			continue
		}
		if s.Nat != nil {
			t := &T{Name: s.Name, deadline: time.Now().Add(time.Hour)}
			runNat(t, s)
			if t.fail != "" {
				fmt.Printf("reproduced: %s\n", t.fail)
				os.Exit(1)
			}
			fmt.Println("not reproduced")
			return
		}
		x := explorer(s, v.Bound)
		r := x.Replay(v.Path, body(s))
		if r == nil {
			fmt.Println("not reproduced")
			return
		}
		for _, l := range r.Trace {
			fmt.Println("   ", l)
		}
		fmt.Printf("reproduced (%s): %s\n", r.Fail.Kind, r.Fail.Msg)
		os.Exit(1)
	}
	fmt.Println("scenario not found")
}

// KnownFinding is a line "known: property=ID scenario=NAME match="TEXT" description" of the known-findings file.
type KnownFinding struct{ Scenario, Text, Desc string }
type KnownList []KnownFinding

func LoadKnown(file, id string) (l KnownList) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	for _, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "known: property="+id+" ")
		if !ok {
			continue
		}
		var k KnownFinding
		rest, _ = strings.CutPrefix(rest, "scenario=")
		k.Scenario, rest, _ = strings.Cut(rest, " ")
		rest, _ = strings.CutPrefix(rest, "match=")
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		k.Text, _ = strconv.Unquote(q)
		k.Desc = strings.TrimSpace(rest[len(q):])
		l = append(l, k)
	}
	return
}

// Match returns the description of the known finding that v is, or "".
func (l KnownList) Match(v Violation) string {
	for _, k := range l {
		if k.Scenario == v.Scenario && strings.Contains(v.Msg, k.Text) {
			return k.Desc
		}
	}
	return ""
}
