// Command mc is the bounded exhaustive explorer for gospn.
//
//	mc supervise -id C01 -tier quick -verif /verif      runs a check with parallel workers
//	mc worker ...                                        one worker (internal)
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/RenatoGeh/gospn/sys"
)

type check struct {
	fn      func(*Ctx)
	workers int // 0: number of CPUs
	rule    string
}

var checks = map[string]check{}

func register(id string, rule string, fn func(*Ctx)) { checks[id] = check{fn: fn, rule: rule} }

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc supervise|worker ...")
		os.Exit(3)
	}
	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	id := fs.String("id", "", "")
	tier := fs.String("tier", "quick", "")
	verif := fs.String("verif", "/verif", "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	only := fs.Int64("case", -1, "")
	trace := fs.String("trace", "", "")
	out := fs.String("out", "", "")
	scratch := fs.String("scratch", "", "")
	budget := fs.Int("budget", 0, "seconds")
	fs.Parse(os.Args[2:])
	ck, ok := checks[*id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown check", *id)
		os.Exit(3)
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	switch mode {
	case "supervise":
		if *budget == 0 {
			*budget = 300
			if *tier == "thorough" {
				*budget = 3000
			}
		}
		os.Exit(supervise(*id, ck, *tier, *verif, *only, *budget, seed))
	case "worker":
		worker(*id, ck, *tier, *verif, *shard, *shards, *only, *trace, *out, *scratch, *budget, seed)
	default:
		os.Exit(3)
	}
}

func worker(id string, ck check, tier, verif string, shard, shards int, only int64, trace, out, scratch string, budget int, seed int64) {
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
	sys.Verbose = false
	debug.SetGCPercent(400)
	c := &Ctx{ID: id, Tier: tier, Thorough: tier == "thorough", Seed: seed, Scratch: scratch, shard: shard, shards: shards,
		only: only, out: out, deadline: time.Now().Add(time.Duration(budget) * time.Second), known: loadKnown(verif, id)}
	c.res.Outcomes = map[string]int64{}
	c.res.Bounds = map[string]any{}
	c.res.Known = map[string]int64{}
	if trace != "" {
		c.traceFile, _ = os.Create(trace)
	}
	c.label = func() string { return "start" }
	go c.watch()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopWorker); !ok {
					panic(r)
				}
			}
		}()
		ck.fn(c)
	}()
	c.res.Done = true
	c.write()
}

func loadKnown(verif, id string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: property="+id+" key=") {
			continue
		}
		r := strings.TrimPrefix(l, "finding: property="+id+" key=")
		k, what, _ := strings.Cut(r, " ")
		m[k] = what
	}
	return m
}

func supervise(id string, ck check, tier, verif string, only int64, budget int, seed int64) int {
	t0 := time.Now()
	self, _ := os.Executable()
	n := ck.workers
	if n == 0 {
		n = runtime.NumCPU()
	}
	if w, err := strconv.Atoi(os.Getenv("MC_WORKERS")); err == nil && w > 0 {
		n = w
	}
	if only >= 0 {
		n = 1
	}
	tmp, err := os.MkdirTemp("", "mcrun")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(tmp)
	results := make([]Result, n)
	errs := make([]string, n)
	var wg sync.WaitGroup
	var mu sync.Mutex
	procs := map[int]*exec.Cmd{}
	killed := false
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var tail string
			for attempt := 0; attempt < 3; attempt++ {
				out := filepath.Join(tmp, fmt.Sprintf("%d.json", i))
				scratch := filepath.Join(tmp, fmt.Sprintf("scratch%d", i))
				os.RemoveAll(scratch)
				os.MkdirAll(scratch, 0o755)
				args := []string{"worker", "-id", id, "-tier", tier, "-verif", verif, "-shard", strconv.Itoa(i), "-shards", strconv.Itoa(n),
					"-case", strconv.FormatInt(only, 10), "-out", out, "-scratch", scratch, "-budget", strconv.Itoa(budget)}
				tf := filepath.Join(tmp, fmt.Sprintf("%d.trace", i))
				if attempt > 0 {
					args = append(args, "-trace", tf)
				}
				cmd := exec.Command(self, args...)
				cmd.Dir = scratch
				cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+filepath.Join(tmp, fmt.Sprintf("race%d", i)))
				ef, _ := os.Create(filepath.Join(tmp, fmt.Sprintf("%d.err", i)))
				cmd.Stderr = ef
				mu.Lock()
				if killed {
					mu.Unlock()
					return
				}
				if err := cmd.Start(); err != nil {
					mu.Unlock()
					errs[i] = err.Error()
					return
				}
				procs[i] = cmd
				mu.Unlock()
				werr := cmd.Wait()
				ef.Close()
				mu.Lock()
				delete(procs, i)
				k := killed
				mu.Unlock()
				b, e := os.ReadFile(out)
				if e == nil && json.Unmarshal(b, &results[i]) == nil && results[i].Done {
					if len(results[i].Violations) > 0 {
						mu.Lock()
						killed = true
						for _, p := range procs {
							p.Process.Kill()
						}
						mu.Unlock()
					}
					return
				}
				if k {
					return
				}
				eb, _ := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("%d.err", i)))
				if len(eb) > 4000 {
					eb = append(eb[:3000], eb[len(eb)-1000:]...)
				}
				tail = string(eb)
				errs[i] = fmt.Sprintf("worker ended abnormally: %v\n%s", werr, tail)
				if attempt > 0 {
					tb, _ := os.ReadFile(tf)
					lines := strings.SplitN(string(tb), "\n", 3)
					cs := int64(-1)
					lab := "unknown"
					if len(lines) >= 2 {
						cs, _ = strconv.ParseInt(lines[0], 10, 64)
						lab = lines[1]
					}
					if attempt == 2 && cs > 0 {
						results[i].Violations = append(results[i].Violations, Violation{Case: cs, Label: lab, Msg: errs[i], Repro: "process ended abnormally on 3 of 3 runs"})
						results[i].Done = true
						errs[i] = ""
						return
					}
				}
			}
		}(i)
	}
	wg.Wait()
	tot := Result{Outcomes: map[string]int64{}, Bounds: map[string]any{}, Known: map[string]int64{}}
	done := true
	for i, r := range results {
		if !r.Done {
			done = false
			if !killed {
				fmt.Fprintf(os.Stderr, "worker %d: %s\n", i, errs[i])
			}
			continue
		}
		tot.Cases += r.Cases
		tot.Enumerated = max(tot.Enumerated, r.Enumerated)
		tot.States += r.States
		tot.Transitions += r.Transitions
		tot.Traces += r.Traces
		tot.Skipped += r.Skipped
		tot.Capped = tot.Capped || r.Capped
		for k, v := range r.Outcomes {
			tot.Outcomes[k] += v
		}
		for k, v := range r.Bounds {
			tot.Bounds[k] = v
		}
		for k, v := range r.Known {
			tot.Known[k] += v
		}
		if i < 2 {
			tot.Samples = append(tot.Samples, r.Samples...)
		}
		for _, a := range r.Assumptions {
			dup := false
			for _, b := range tot.Assumptions {
				dup = dup || a == b
			}
			if !dup {
				tot.Assumptions = append(tot.Assumptions, a)
			}
		}
		tot.Notes = append(tot.Notes, r.Notes...)
		tot.Violations = append(tot.Violations, r.Violations...)
	}
	if !done && len(tot.Violations) == 0 {
		fmt.Fprintln(os.Stderr, "check could not be completed")
		return 3
	}
	for k, what := range loadKnown(verif, id) {
		if tot.Known[k] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%d cases)\n", id, what, tot.Known[k])
		}
	}
	exhaustive := !tot.Capped && tot.Skipped == 0 && only < 0 && len(tot.Violations) == 0
	assume := append([]string{"bounds as listed in coverage.bounds; values outside the enumerated alphabet are not covered",
		"floating-point results are compared with a relative tolerance unless stated"}, tot.Assumptions...)
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": tot.States, "transitions": tot.Transitions, "traces_validated_against_impl": tot.Traces,
			"cases": tot.Cases, "distinct_outcomes": len(tot.Outcomes), "bounds": tot.Bounds, "samples": tot.Samples,
			"exhaustive": exhaustive, "rule": ck.rule, "skipped_for_time": tot.Skipped, "notes": tot.Notes, "known_findings": tot.Known,
		},
		"assumptions": assume, "wall_s": time.Since(t0).Seconds(), "violations": len(tot.Violations),
	}
	os.MkdirAll(filepath.Join(verif, "evidence", "replay"), 0o755)
	if only < 0 {
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	if len(tot.Violations) > 0 {
		v := tot.Violations[0]
		for _, w := range tot.Violations {
			if w.Case < v.Case {
				v = w
			}
		}
		rp := filepath.Join("evidence", "replay", id+".json")
		b, _ := json.MarshalIndent(map[string]any{"property": id, "tier": tier, "case": v.Case, "label": v.Label, "message": v.Msg,
			"reproduced": v.Repro, "replay_cmd": fmt.Sprintf("VERIF_TIER=%s ./run.sh %s -case %d", tier, id, v.Case)}, "", " ")
		os.WriteFile(filepath.Join(verif, rp), append(b, '\n'), 0o644)
		fmt.Printf("case %d: %s\n%s\n", v.Case, v.Label, v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	fmt.Printf("%s %s: held on %d cases, states=%d transitions=%d traces=%d outcomes=%d exhaustive=%v %.1fs\n", id, tier, tot.Cases, tot.States, tot.Transitions, tot.Traces, len(tot.Outcomes), exhaustive, time.Since(t0).Seconds())
	for _, nt := range tot.Notes {
		fmt.Println("note:", nt)
	}
	return 0
}
