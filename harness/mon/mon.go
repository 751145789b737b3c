// Package mon runs deterministic case lists in parallel, collects what was observed and the
// violations found, and leaves breadcrumbs so that a crash of the whole process can be
// attributed to the case that caused it.
package mon

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Violation struct {
	Phase string `json:"phase"`
	Idx   int    `json:"idx"`
	Key   string `json:"key"`
	Msg   string `json:"msg"`
}

type PhaseInfo struct {
	Name  string  `json:"name"`
	Cases int     `json:"cases"`
	Note  string  `json:"note,omitempty"`
	Wall  float64 `json:"wall_s"`
}

// NeedInfo is what must have been observed by all parts of a run together.
type NeedInfo struct {
	Name string `json:"name"`
	Min  int64  `json:"min"`
	Have int64  `json:"have"`
}

type Result struct {
	Needs       []NeedInfo       `json:"needs,omitempty"`
	Prop        string           `json:"prop"`
	Config      string           `json:"config"`
	Seed        uint64           `json:"seed"`
	Tier        string           `json:"tier"`
	Phases      []PhaseInfo      `json:"phases"`
	Evaluations int64            `json:"evaluations"`
	Distinct    int              `json:"distinct"`
	Counters    map[string]int64 `json:"counters"`
	Samples     []string         `json:"samples"`
	Violations  []Violation      `json:"violations"`
	Total       int64            `json:"violations_total"`
	Errors      []string         `json:"errors"`
	Wall        float64          `json:"wall_s"`
}

type Run struct {
	Prop, Tier, Config string
	Boost              int
	Seed               uint64
	Out                string
	Workers            int

	// Sub is put before the names of phases and violations, where one run does several properties' work.
	Sub string

	shard, shards, thin int

	onlyPhase string
	onlyIdx   int
	res       Result
	mu        sync.Mutex
	distinct  map[uint64]struct{}
	counters  map[string]*int64
	evals     atomic.Int64
	total     atomic.Int64
	crumb     *os.File
	start     time.Time
	slots     []slot
	phases    map[string]bool
}

type slot struct {
	since atomic.Int64 // unix ns, 0 when idle
	what  atomic.Pointer[string]
}

// Main parses the flags, runs f and writes the result. Exit 0: no violation; 1: violations; 2: harness error.
func Main(f func(r *Run)) {
	r := &Run{distinct: map[uint64]struct{}{}, counters: map[string]*int64{}, start: time.Now(), onlyIdx: -1, phases: map[string]bool{}}
	var only, crumb string
	var hang int
	flag.StringVar(&r.Prop, "prop", "", "property")
	flag.StringVar(&r.Tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&r.Config, "config", "plain", "name of the build configuration")
	flag.Uint64Var(&r.Seed, "seed", 1, "seed")
	flag.StringVar(&r.Out, "out", "", "result file")
	flag.StringVar(&only, "only", "", "phase:index of the one case to run")
	flag.StringVar(&crumb, "crumb", "", "breadcrumb file")
	flag.IntVar(&r.Workers, "workers", runtime.GOMAXPROCS(0), "workers")
	var shard string
	flag.StringVar(&shard, "shard", "0/1", "K/N: run only the K-th of N parts of the cases")
	flag.IntVar(&r.Boost, "boost", 1, "times as many cases per type")
	flag.IntVar(&r.thin, "thin", 1, "run only one case in so many")
	flag.IntVar(&hang, "hang", 90, "seconds a single case may take")
	flag.Parse()
	fmt.Sscanf(shard, "%d/%d", &r.shard, &r.shards)
	if only != "" {
		i := strings.LastIndexByte(only, ':')
		r.onlyPhase = only[:i]
		r.onlyIdx, _ = strconv.Atoi(only[i+1:])
		r.Workers = 1
	}
	if crumb != "" {
		var err error
		if r.crumb, err = os.OpenFile(crumb, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	r.slots = make([]slot, r.Workers)
	go r.watch(time.Duration(hang) * time.Second)
	r.res = Result{Prop: r.Prop, Config: r.Config, Seed: r.Seed, Tier: r.Tier, Violations: []Violation{}, Samples: []string{}, Errors: []string{}}
	func() {
		defer func() {
			if x := recover(); x != nil {
				r.Error(fmt.Sprintf("harness panic outside a case: %v\n%s", x, debug.Stack()))
			}
		}()
		f(r)
	}()
	r.finish()
}

func (r *Run) finish() {
	r.res.Evaluations = r.evals.Load()
	r.res.Total = r.total.Load()
	r.res.Distinct = len(r.distinct)
	r.res.Counters = map[string]int64{}
	for k, v := range r.counters {
		r.res.Counters[k] = *v
	}
	r.res.Wall = time.Since(r.start).Seconds()
	sort.SliceStable(r.res.Violations, func(i, j int) bool {
		a, b := r.res.Violations[i], r.res.Violations[j]
		if a.Phase != b.Phase {
			return a.Phase < b.Phase
		}
		return a.Idx < b.Idx
	})
	b, err := json.MarshalIndent(&r.res, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if r.Out != "" {
		if err := os.WriteFile(r.Out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	} else {
		os.Stdout.Write(append(b, '\n'))
	}
	switch {
	case len(r.res.Errors) > 0:
		os.Exit(2)
	case len(r.res.Violations) > 0:
		os.Exit(1)
	}
	os.Exit(0)
}

// A case that never ends is reported as such; the driver confirms it by CPU time.
func (r *Run) watch(d time.Duration) {
	for {
		time.Sleep(time.Second)
		now := time.Now().UnixNano()
		for i := range r.slots {
			s := r.slots[i].since.Load()
			if s != 0 && now-s > int64(d) {
				w := r.slots[i].what.Load()
				fmt.Fprintf(os.Stderr, "\nHANG case=%s\n", *w)
				buf := make([]byte, 1<<20)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(7)
			}
		}
	}
}

func (r *Run) Error(msg string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.res.Errors) < 20 {
		r.res.Errors = append(r.res.Errors, msg)
	}
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N scales a case count: q in the quick tier, t in the thorough tier.
func (r *Run) N(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

type Case struct {
	Run    *Run
	Phase  string
	Idx    int
	R      *rand.Rand
	Worker int
	fails  int
}

func Hash(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprint(h, p)
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func HashBytes(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func (r *Run) newCase(phase string, i, w int) *Case {
	return &Case{Run: r, Phase: phase, Idx: i, Worker: w, R: rand.New(rand.NewPCG(Hash(r.Seed, r.Prop, phase), uint64(i)*0x9E3779B97F4A7C15+1))}
}

// Seed returns a PRNG for the set-up of a phase, independent of the cases.
func (r *Run) Rand(name string) *rand.Rand {
	return rand.New(rand.NewPCG(Hash(r.Seed, r.Prop, name), 77))
}

// Phase runs cases 0..n-1, in parallel.
func (r *Run) Phase(name string, n int, note string, f func(c *Case)) {
	r.phase(name, n, note, r.Workers, f)
}

// Serial runs cases one at a time (for process-wide observations).
func (r *Run) Serial(name string, n int, note string, f func(c *Case)) {
	r.phase(name, n, note, 1, f)
}

func (r *Run) phase(name string, n int, note string, workers int, f func(c *Case)) {
	if r.Sub != "" {
		name = r.Sub + "." + name
	}
	if r.phases[name] {
		panic("phase twice: " + name)
	}
	r.phases[name] = true
	if r.onlyPhase != "" {
		if r.onlyPhase != name {
			return
		}
		if r.onlyIdx < n {
			r.one(r.newCase(name, r.onlyIdx, 0), f)
		}
		r.res.Phases = append(r.res.Phases, PhaseInfo{name, 1, note, 0})
		return
	}
	t0 := time.Now()
	h := Hash(0, name)
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				if r.mine(h, i) {
					r.one(r.newCase(name, i, w), f)
				}
			}
		}(w)
	}
	wg.Wait()
	r.res.Phases = append(r.res.Phases, PhaseInfo{name, n, note, time.Since(t0).Seconds()})
}

// mine tells whether a case belongs to this part of the run.
func (r *Run) mine(h uint64, i int) bool {
	m := r.shards * r.thin
	return m <= 1 || int(((h+uint64(i))*0x9E3779B97F4A7C15>>33)%uint64(m)) == r.shard
}

func (r *Run) one(c *Case, f func(c *Case)) {
	what := fmt.Sprintf("%s:%d", c.Phase, c.Idx)
	if r.crumb != nil {
		var b [128]byte
		for i := range b {
			b[i] = ' '
		}
		copy(b[:], what)
		b[127] = '\n'
		r.crumb.WriteAt(b[:], int64(c.Worker)*128)
	}
	s := &r.slots[c.Worker]
	s.what.Store(&what)
	s.since.Store(time.Now().UnixNano())
	defer func() {
		s.since.Store(0)
		if x := recover(); x != nil {
			// Cases are deterministic and do not panic on values that are well-formed, so a
			// panic here means the library handed back something that cannot be examined.
			c.Fail("unexaminable", "panic while examining what the library returned: %v\n%s", x, debug.Stack())
		}
		if r.crumb != nil {
			var b [128]byte
			for i := range b {
				b[i] = ' '
			}
			copy(b[:], "idle")
			b[127] = '\n'
			r.crumb.WriteAt(b[:], int64(c.Worker)*128)
		}
	}()
	debug.SetPanicOnFault(true)
	f(c)
}

// Fail records a violation. key identifies what fails (for the list of known findings).
func (c *Case) Fail(key, format string, a ...any) {
	r := c.Run
	r.total.Add(1)
	c.fails++
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.res.Violations) >= 200 || c.fails > 3 {
		return
	}
	if r.Sub != "" {
		key = r.Sub + "/" + key
	}
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 3000 {
		msg = msg[:3000] + "..."
	}
	r.res.Violations = append(r.res.Violations, Violation{c.Phase, c.Idx, key, msg})
}

func (c *Case) Failed() bool { return c.fails > 0 }

// Eval counts one evaluation of the oracle; h identifies what was evaluated.
func (c *Case) Eval(h uint64) {
	c.Run.evals.Add(1)
	c.Run.mu.Lock()
	c.Run.distinct[h] = struct{}{}
	c.Run.mu.Unlock()
}

// Evals counts evaluations that are not recorded individually.
func (c *Case) Evals(n int) { c.Run.evals.Add(int64(n)) }

func (r *Run) counter(name string) *int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	p := r.counters[name]
	if p == nil {
		p = new(int64)
		r.counters[name] = p
	}
	return p
}

func (r *Run) Count(name string, n int64)   { atomic.AddInt64(r.counter(name), n) }
func (c *Case) Count(name string)           { c.Run.Count(name, 1) }
func (c *Case) CountN(name string, n int64) { c.Run.Count(name, n) }

// CountMax keeps the largest value seen.
func (c *Case) CountMax(name string, n int64) { c.Run.CountMax(name, n) }

func (r *Run) CountMax(name string, n int64) {
	p := r.counter(name)
	for {
		o := atomic.LoadInt64(p)
		if n <= o || atomic.CompareAndSwapInt64(p, o, n) {
			return
		}
	}
}

// Sample keeps a few descriptions of what was evaluated.
func (c *Case) Sample(format string, a ...any) {
	r := c.Run
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.res.Samples) < 12 && (c.Idx%97 == 3 || len(r.res.Samples) < 4) {
		s := fmt.Sprintf(format, a...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		r.res.Samples = append(r.res.Samples, c.Phase+":"+strconv.Itoa(c.Idx)+" "+s)
	}
}

// Need fails the run as inconclusive if a counter stayed below a minimum (unless one case is replayed).
func (r *Run) Need(name string, min int64) {
	if r.onlyPhase != "" {
		return
	}
	if m := int64(r.shards * r.thin); m > 1 {
		// judged when the parts are put together
		r.res.Needs = append(r.res.Needs, NeedInfo{name, min / int64(4*r.thin), atomic.LoadInt64(r.counter(name))})
		return
	}
	if v := atomic.LoadInt64(r.counter(name)); v < min {
		if r.total.Load() > 0 {
			return
		}
		r.Error(fmt.Sprintf("observed too little: %s = %d, need %d", name, v, min))
	}
}

// Replaying tells whether a single case is being replayed.
func (r *Run) Replaying() bool { return r.onlyPhase != "" }

// Violated tells whether a violation was found so far.
func (r *Run) Violated() bool { return r.total.Load() > 0 }

// Replays tells whether the case being replayed is in a phase whose name starts this way.
func (r *Run) Replays(prefix string) bool {
	return strings.HasPrefix(strings.TrimPrefix(r.onlyPhase, r.Sub+"."), prefix)
}
