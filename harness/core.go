package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	mrand "math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// Config of one run of a check
type Cfg struct {
	Prop string
	Seed int64
	Tier string
	Only string // run a single case (replay)
	Dir  string // scratch directory of this run
}

func (c Cfg) Thorough() bool { return c.Tier == "thorough" }

// Scale picks the quick or the thorough amount of work
func (c Cfg) Scale(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// A Case is one monitored workload. Everything random in it comes from T.Rng
type Case struct {
	ID     string
	Run    func(t *T)
	Serial bool // not run in parallel with other cases
}

type Violation struct {
	Property string          `json:"property"`
	Case     string          `json:"case"`
	Kind     string          `json:"kind"`
	Message  string          `json:"message"`
	Input    json.RawMessage `json:"input,omitempty"`
	Value    string          `json:"value,omitempty"`
	Seed     int64           `json:"seed"`
	Tier     string          `json:"tier"`
}

type Sample struct {
	Case  string `json:"case"`
	Input string `json:"input,omitempty"`
	Seen  string `json:"seen"`
}

// Recorder collects what the monitors of a run observed
type Recorder struct {
	mu         sync.Mutex
	Events     int64            `json:"events"`
	Counters   map[string]int64 `json:"counters"`
	distinct   map[uint64]struct{}
	Distinct   int         `json:"distinct"`
	Violations []Violation `json:"violations"`
	NumViol    int         `json:"num_violations"`
	Samples    []Sample    `json:"samples"`
	Cases      int         `json:"cases"`
	Done       bool        `json:"done"`
}

// T is handed to a running case
type T struct {
	Cfg  Cfg
	ID   string
	Rng  *mrand.Rand
	rec  *Recorder
	nv   int
	ns   int
	muID sync.Mutex
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func subRng(seed int64, parts ...string) *mrand.Rand {
	return mrand.New(mrand.NewSource(seed ^ int64(hash64(parts...)&0x7fffffffffffffff)))
}

// Event records one observation of the monitor, state being what makes it distinct
func (t *T) Event(counter string, state string) {
	h := hash64(t.ID, counter, state)
	t.rec.mu.Lock()
	t.rec.Events++
	t.rec.Counters[counter]++
	if len(t.rec.distinct) < 4_000_000 {
		t.rec.distinct[h] = struct{}{}
	}
	t.rec.mu.Unlock()
}

func (t *T) Count(counter string, n int64) {
	t.rec.mu.Lock()
	t.rec.Counters[counter] += n
	t.rec.mu.Unlock()
}

func (t *T) Sample(input, seen string) {
	t.muID.Lock()
	t.ns++
	n := t.ns
	t.muID.Unlock()
	if n > 1 {
		return
	}
	t.rec.mu.Lock()
	if len(t.rec.Samples) < 400 {
		t.rec.Samples = append(t.rec.Samples, Sample{t.ID, clip(input, 300), clip(seen, 200)})
	}
	t.rec.mu.Unlock()
}

func clip(s string, n int) string {
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "") + "..."
	}
	return s
}

// Violate records a violation of the property. At most a few are kept for each case
func (t *T) Violate(kind, input, value, format string, args ...any) {
	t.muID.Lock()
	t.nv++
	n := t.nv
	t.muID.Unlock()
	t.rec.mu.Lock()
	defer t.rec.mu.Unlock()
	t.rec.NumViol++
	if n > 3 || len(t.rec.Violations) > 200 {
		return
	}
	raw, _ := json.Marshal(input)
	if json.Valid([]byte(input)) {
		raw = json.RawMessage(input)
	}
	t.rec.Violations = append(t.rec.Violations, Violation{
		Property: t.Cfg.Prop, Case: t.ID, Kind: kind, Message: clip(fmt.Sprintf(format, args...), 1200),
		Input: raw, Value: clip(value, 4000), Seed: t.Cfg.Seed, Tier: t.Cfg.Tier,
	})
}

func (t *T) Failed() bool {
	t.muID.Lock()
	defer t.muID.Unlock()
	return t.nv > 0
}

// caseTimeout is far above what any case takes, it only turns a hang into an answer
const caseTimeout = 240 * time.Second

// runWorker runs the cases in this process, writing a journal the parent reads if this process dies
func runWorker(cfg Cfg, cases []Case) int {
	debug.SetMaxStack(512 << 20)
	rec := &Recorder{Counters: map[string]int64{}, distinct: map[uint64]struct{}{}}
	journal, err := os.OpenFile(filepath.Join(cfg.Dir, "journal"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	flush := func() {
		rec.mu.Lock()
		rec.Distinct = len(rec.distinct)
		b, _ := json.Marshal(rec)
		rec.mu.Unlock()
		os.WriteFile(filepath.Join(cfg.Dir, "result.json"), b, 0o644)
	}
	go func() { // memory watchdog
		var ms runtime.MemStats
		for {
			time.Sleep(500 * time.Millisecond)
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 12<<30 {
				fmt.Fprintf(journal, "MEM\n")
				os.Exit(4)
			}
		}
	}()
	runOne := func(c Case) {
		fmt.Fprintf(journal, "START %s\n", c.ID)
		began := time.Now()
		t := &T{Cfg: cfg, ID: c.ID, Rng: subRng(cfg.Seed, cfg.Prop, c.ID), rec: rec}
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() {
				if r := recover(); r != nil {
					st := string(debug.Stack())
					t.Violate("panic", "", "", "panic: %v\n%s", r, trimStack(st))
				}
			}()
			c.Run(t)
		}()
		select {
		case <-done:
		case <-time.After(caseTimeout):
			t.Violate("hang", "", "", "case did not terminate within %s", caseTimeout)
			flush()
			fmt.Fprintf(journal, "HANG %s\n", c.ID)
			os.Exit(5)
		}
		rec.mu.Lock()
		rec.Cases++
		rec.mu.Unlock()
		fmt.Fprintf(journal, "END %s\n", c.ID)
		if d := time.Since(began); d > 2*time.Second && os.Getenv("VH_SLOW") != "" {
			fmt.Fprintf(os.Stderr, "slow case %s %.1fs\n", c.ID, d.Seconds())
		}
	}
	var serial, parallel []Case
	for _, c := range cases {
		if cfg.Only != "" && c.ID != cfg.Only {
			continue
		}
		if c.Serial {
			serial = append(serial, c)
		} else {
			parallel = append(parallel, c)
		}
	}
	ch := make(chan Case)
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range ch {
				runOne(c)
			}
		}()
	}
	for _, c := range parallel {
		ch <- c
	}
	close(ch)
	wg.Wait()
	for _, c := range serial {
		runOne(c)
	}
	rec.Done = true
	sort.Slice(rec.Samples, func(i, j int) bool { return rec.Samples[i].Case < rec.Samples[j].Case })
	flush()
	return 0
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "go-chaff") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}
