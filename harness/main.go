// Command vh runs the monitored workloads that decide the properties of go-chaff.
// The parent process starts a worker (the same binary) so that crashes, hangs and runaway
// memory of the code under test become verdicts.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Check struct {
	Prop  string
	Rule  string
	Cases func(cfg Cfg) []Case
	// Race: the worker is the race-detector build
	Race bool
}

var checks = map[string]Check{}

func register(c Check) { checks[c.Prop] = c }

func main() {
	worker := flag.Bool("worker", false, "")
	prop := flag.String("prop", "", "")
	only := flag.String("only", "", "")
	dir := flag.String("dir", "", "")
	verif := flag.String("verif", "/verif", "")
	replay := flag.String("replay", "", "replay file to run again")
	tier := flag.String("tier", envOr("VERIF_TIER", "quick"), "")
	list := flag.Bool("list", false, "")
	flag.Parse()
	seed, err := strconv.ParseInt(envOr("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		seed = int64(hash64(os.Getenv("VERIF_SEED")) & 0xffffffff)
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *replay != "" {
		var v Violation
		b, err := os.ReadFile(*replay)
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Println("cannot read replay:", err)
			os.Exit(1)
		}
		*prop, *only, seed, *tier = v.Property, v.Case, v.Seed, v.Tier
	}
	check, ok := checks[*prop]
	if !ok {
		fmt.Println("no such property:", *prop)
		os.Exit(1)
	}
	cfg := Cfg{Prop: *prop, Seed: seed, Tier: *tier, Only: *only, Dir: *dir}
	if *list {
		for _, c := range check.Cases(cfg) {
			fmt.Println(c.ID)
		}
		return
	}
	if *worker {
		os.Exit(runWorker(cfg, check.Cases(cfg)))
	}
	os.Exit(parent(cfg, check, *verif))
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// A finding recorded in known_findings.json: a defect of the unchanged tree that is not repaired
type Known struct {
	Property string `json:"property"`
	Case     string `json:"case"`
	Kind     string `json:"kind"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
}

func parent(cfg Cfg, check Check, verif string) int {
	start := time.Now()
	build := filepath.Join(verif, ".build")
	dir := filepath.Join(build, "run-"+cfg.Prop)
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fmt.Println(err)
		return 1
	}
	exe := filepath.Join(build, "vh")
	env := os.Environ()
	if check.Race {
		exe = filepath.Join(build, "vh-race")
		env = append(env, "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(dir, "race"))
	}
	env = append(env, "VERIF_SEED="+strconv.FormatInt(cfg.Seed, 10), "VERIF_TIER="+cfg.Tier, "VH_BUILD="+build, "GOTRACEBACK=single")
	args := []string{"-worker", "-prop", cfg.Prop, "-dir", dir, "-tier", cfg.Tier}
	if cfg.Only != "" {
		args = append(args, "-only", cfg.Only)
	}
	cmd := exec.Command(exe, args...)
	cmd.Env = env
	var stderr bytes.Buffer
	cmd.Stderr = &limited{buf: &stderr, n: 1 << 20}
	cmd.Stdout = &limited{buf: &stderr, n: 1 << 20}
	limit := 780 * time.Second
	if cfg.Thorough() {
		limit = 3 * time.Hour
	}
	timedOut := false
	runErr := cmd.Start()
	if runErr == nil {
		timer := time.AfterFunc(limit, func() { timedOut = true; cmd.Process.Kill() })
		runErr = cmd.Wait()
		timer.Stop()
	}
	if os.Getenv("VH_SLOW") != "" {
		fmt.Print(stderr.String())
	}
	var rec Recorder
	b, _ := os.ReadFile(filepath.Join(dir, "result.json"))
	json.Unmarshal(b, &rec)
	if !rec.Done {
		// the worker died: find out in which cases
		inflight := inFlight(filepath.Join(dir, "journal"))
		msg := fmt.Sprintf("the worker process died before the monitors finished (%v, timed out: %v)\n%s", runErr, timedOut, headTail(stderr.String(), 1500))
		fmt.Println("worker stderr:", headTail(stderr.String(), 1500))
		if len(rec.Violations) == 0 {
			c := "unknown"
			if len(inflight) > 0 {
				c = inflight[0]
			}
			rec.Violations = append(rec.Violations, Violation{Property: cfg.Prop, Case: c, Kind: "crash", Message: msg + "\nin flight: " + strings.Join(inflight, ", "), Seed: cfg.Seed, Tier: cfg.Tier})
			rec.NumViol++
		}
	}
	if check.Race {
		logs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
		for _, l := range logs {
			rb, _ := os.ReadFile(l)
			n := int64(strings.Count(string(rb), "WARNING: DATA RACE"))
			if rec.Counters == nil {
				rec.Counters = map[string]int64{}
			}
			rec.Counters["race_reports"] += n
			if n > 0 {
				rec.Violations = append(rec.Violations, Violation{Property: cfg.Prop, Case: "race-detector", Kind: "race", Message: clip(string(rb), 5000), Seed: cfg.Seed, Tier: cfg.Tier})
				rec.NumViol += int(n)
			}
		}
	}
	known := loadKnown(filepath.Join(verif, "known_findings.json"))
	replays := filepath.Join(build, "replays")
	os.MkdirAll(replays, 0o755)
	knownHit := map[string]string{}
	bad := 0
	failing := []string{}
	for i, v := range rec.Violations {
		matched := false
		for _, k := range known {
			if k.Status == "known" && k.Property == v.Property && k.Case == v.Case && k.Kind == v.Kind {
				knownHit[k.Case+"/"+k.Kind] = k.What
				matched = true
			}
		}
		if matched {
			continue
		}
		bad++
		if name := v.Case + "[" + v.Kind + "]"; !slices.Contains(failing, name) {
			failing = append(failing, name)
		} else {
			continue
		}
		if len(failing) > 10 && os.Getenv("VH_ALL") == "" {
			continue
		}
		path := filepath.Join(replays, fmt.Sprintf("%s-%d.json", v.Property, i))
		rb, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, rb, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, path)
		fmt.Printf("  case %s [%s]: %s\n", v.Case, v.Kind, clip(v.Message, 700))
		if len(v.Input) > 0 {
			fmt.Printf("  input: %s\n", clip(string(v.Input), 600))
		}
		if v.Value != "" {
			fmt.Printf("  value: %s\n", clip(v.Value, 300))
		}
	}
	if len(failing) > 10 {
		fmt.Printf("  failing cases: %s\n", clip(strings.Join(failing, " "), 2000))
	}
	keys := []string{}
	for k := range knownHit {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", cfg.Prop, knownHit[k])
	}
	if rec.Done && rec.Events == 0 && bad == 0 {
		fmt.Printf("VIOLATION property=%s replay=none\n  the monitors observed nothing\n", cfg.Prop)
		bad++
	}
	if cfg.Only == "" {
		writeEvidence(cfg, check, &rec, verif, time.Since(start))
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d monitored events, %d distinct states, %d violations, %d known findings, %.1fs\n",
		cfg.Prop, cfg.Tier, cfg.Seed, rec.Cases, rec.Events, rec.Distinct, bad, len(knownHit), time.Since(start).Seconds())
	if bad > 0 {
		return 1
	}
	os.RemoveAll(dir)
	return 0
}

func loadKnown(path string) []Known {
	var k struct {
		Findings []Known `json:"findings"`
	}
	b, err := os.ReadFile(path)
	if err == nil {
		json.Unmarshal(b, &k)
	}
	return k.Findings
}

func writeEvidence(cfg Cfg, check Check, rec *Recorder, verif string, wall time.Duration) {
	samples := []string{}
	step := len(rec.Samples)/12 + 1
	for i := 0; i < len(rec.Samples); i += step {
		s := rec.Samples[i]
		samples = append(samples, fmt.Sprintf("[%s] %s => %s", s.Case, s.Input, s.Seen))
	}
	for k, v := range rec.Counters {
		if len(samples) < 40 {
			samples = append(samples, fmt.Sprintf("counter %s = %d", k, v))
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "nothing was observed")
	}
	sort.Strings(samples)
	ev := map[string]any{
		"property": cfg.Prop, "tier": cfg.Tier, "seed": cfg.Seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": rec.Events, "distinct_nontrivial": rec.Distinct, "rule": check.Rule, "samples": samples,
		},
		"wall_s": wall.Seconds(),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", cfg.Prop+".json"), append(b, '\n'), 0o644)
}

func inFlight(journal string) []string {
	b, _ := os.ReadFile(journal)
	open := map[string]int{}
	for i, l := range strings.Split(string(b), "\n") {
		if id, ok := strings.CutPrefix(l, "START "); ok {
			open[id] = i
		} else if id, ok := strings.CutPrefix(l, "END "); ok {
			delete(open, id)
		}
	}
	ids := []string{}
	for id := range open {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return open[ids[i]] < open[ids[j]] })
	return ids
}

type limited struct {
	buf *bytes.Buffer
	n   int
}

func (l *limited) Write(p []byte) (int, error) {
	if room := l.n - l.buf.Len(); room > 0 {
		if len(p) < room {
			room = len(p)
		}
		l.buf.Write(p[:room])
	}
	return len(p), nil
}

func headTail(s string, n int) string {
	if len(s) <= 2*n {
		return s
	}
	return s[:n] + "\n ... \n" + s[len(s)-n:]
}
