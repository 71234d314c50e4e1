// drive decides one property: it runs many seeded simulations in worker
// processes, confirms and minimises the first violation, and writes the
// evidence file.
//
//	drive -prop C01 [-replay FILE]
package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/sim"
	"verifsim/tape"
)

type plan struct {
	Runs    int           // simulations
	Wall    time.Duration // stop starting new ones after this long
	Race    int           // every Race-th simulation also runs under the race detector (0: none)
	Timeout time.Duration
	Rule    string
	Real    []string
	Stub    []string
	Assume  []string
}

type replayFile struct {
	Property  string              `json:"property"`
	Seed      uint64              `json:"seed"`
	Tier      string              `json:"tier"`
	Race      bool                `json:"race,omitempty"`
	Class     string              `json:"class"`
	Detail    string              `json:"detail"`
	Tape      map[string][]uint64 `json:"tape,omitempty"`
	Plans     [][]sim.Switch      `json:"plans,omitempty"`
	Focus     []string            `json:"focus,omitempty"`
	Trace     []string            `json:"trace,omitempty"`
	Minimised string              `json:"minimised,omitempty"`
}

var (
	worker     = os.Getenv("SIM_WORKER")
	workerRace = os.Getenv("SIM_WORKERRACE")
	verif      = envOr("SIM_VERIF", "/verif")
)

type outcome struct {
	i    int
	seed uint64
	race bool
	res  *sim.Result
	err  error
}

func die(code int, f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(code)
}

// request runs one request and turns a crash of the library into a result.
func request(q *sim.Request, timeout time.Duration) (*sim.Result, error) {
	path := worker
	if q.Race {
		path = workerRace
	}
	res, err := sim.Spawn(path, q, timeout)
	if err == nil {
		if res.Err != "" {
			return nil, errors.New(res.Err)
		}
		return res, nil
	}
	var c *sim.Crash
	if errors.As(err, &c) {
		if s := fatalIn(c); s != "" {
			return &sim.Result{Viol: &sim.Violation{Class: "fatal", Detail: s}, Trace: strings.Split(c.Stderr, "\n")}, nil
		}
	}
	return nil, err
}

// fatalIn recognises a process ended by an error in library code.
func fatalIn(c *sim.Crash) string {
	if strings.Contains(c.Status, "killed") {
		return ""
	}
	head := ""
	lib := false
	for _, l := range strings.Split(c.Stderr, "\n") {
		if head == "" && (strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") || strings.HasPrefix(l, "unexpected fault") || strings.HasPrefix(l, "SIG")) {
			head = l
		}
		if strings.HasPrefix(l, "github.com/phoreproject/bls") && !strings.Contains(l, "zzverif/sim") {
			lib = true
		}
	}
	if head == "" || !lib {
		return ""
	}
	return head
}

// focus lists the operations that were seen to touch shared state.
var focus []string

// probe finds them; without an answer there are none.
func probe(prop, tier string) {
	res, err := request(&sim.Request{Mode: "probe", Prop: prop, Tier: tier, Seed: 1}, 60*time.Second)
	if err != nil || res.Viol != nil {
		fmt.Fprintln(os.Stderr, "the probe gave no answer")
		return
	}
	json.Unmarshal(res.Body, &focus)
	if len(focus) > 0 {
		fmt.Fprintf(os.Stderr, "%d operations touch shared state\n", len(focus))
	}
}

func seedOf(base uint64, prop string, i int) uint64 {
	return tape.HashString(tape.Mix(base*1000003+uint64(i)), prop) >> 1
}

func main() {
	prop := flag.String("prop", "", "")
	replay := flag.String("replay", "", "")
	runsFlag := flag.Int("runs", 0, "")
	wallFlag := flag.Duration("wall", 0, "")
	first := flag.Int("first", 0, "")
	dump := flag.String("digests", "", "write the digest of every run to this file")
	par := flag.Int("par", 8, "")
	flag.Parse()
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	base := uint64(1)
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		base = v
	}
	p, ok := plans[*prop]
	if !ok {
		die(2, "no such property: %s", *prop)
	}
	if tier == "thorough" {
		p.Runs *= 12
		p.Wall = 800 * time.Second
	}
	if *runsFlag > 0 {
		p.Runs = *runsFlag
	}
	if *wallFlag > 0 {
		p.Wall = *wallFlag
	}
	if p.Timeout == 0 {
		p.Timeout = 150 * time.Second
	}
	start := time.Now()
	known := loadKnown(*prop)

	probe(*prop, tier)

	jobs := make(chan outcome)
	results := make(chan outcome, 64)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < *par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				q := &sim.Request{Mode: "run", Prop: *prop, Seed: j.seed, Tier: tier, Race: j.race, Full: j.i < 3 && !j.race, Focus: focus}
				j.res, j.err = request(q, p.Timeout)
				results <- j
			}
		}()
	}
	go func() {
		defer close(jobs)
		for i := *first; i < *first+p.Runs; i++ {
			if time.Since(start) > p.Wall {
				return
			}
			kinds := []bool{false}
			if p.Race > 0 && i%p.Race == 0 {
				kinds = append(kinds, true)
			}
			for _, race := range kinds {
				select {
				case jobs <- outcome{i: i, seed: seedOf(base, *prop, i), race: race}:
				case <-stop:
					return
				}
			}
		}
	}()
	go func() { wg.Wait(); close(results) }()

	agg := newAgg()
	var bad []outcome
	var errs []outcome
	stopped := false
	digests := map[string]uint64{}
	knownSeen := map[string]bool{}
	for o := range results {
		if o.err != nil {
			errs = append(errs, o)
			if !stopped && len(errs) > 3 {
				close(stop)
				stopped = true
			}
			continue
		}
		if o.res.Viol != nil {
			if k := known.match(o.res.Viol); k != "" {
				knownSeen[k] = true
				agg.add(o)
				continue
			}
			bad = append(bad, o)
			if !stopped {
				close(stop)
				stopped = true
			}
			continue
		}
		digests[fmt.Sprintf("%d/%v", o.i, o.race)] = o.res.Digest
		agg.add(o)
	}
	for k := range knownSeen {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
	}
	if *dump != "" {
		var ks []string
		for k, d := range digests {
			ks = append(ks, fmt.Sprintf("%s %x", k, d))
		}
		sort.Strings(ks)
		os.WriteFile(*dump, []byte(strings.Join(ks, "\n")+"\n"), 0o644)
	}

	// determinism: repeat a sample and compare event digests
	detSample, detBad := 0, ""
	if len(bad) == 0 && len(errs) == 0 {
		n := 16
		if tier == "thorough" {
			n = 200
		}
		var mu sync.Mutex
		var dw sync.WaitGroup
		sem := make(chan struct{}, 6)
		cnt := agg.runs
		if cnt > p.Runs {
			cnt = p.Runs
		}
		for k := 0; k < n; k++ {
			i := *first + k*cnt/n
			want, ok := digests[fmt.Sprintf("%d/%v", i, false)]
			if !ok {
				continue
			}
			dw.Add(1)
			sem <- struct{}{}
			go func(i int, want uint64) {
				defer dw.Done()
				defer func() { <-sem }()
				res, err := request(&sim.Request{Mode: "run", Prop: *prop, Seed: seedOf(base, *prop, i), Tier: tier, Focus: focus}, p.Timeout)
				mu.Lock()
				defer mu.Unlock()
				detSample++
				if err != nil {
					detBad = err.Error()
				} else if res.Digest != want || res.Viol != nil {
					detBad = fmt.Sprintf("run %d gave digest %x, then %x", i, want, res.Digest)
				}
			}(i, want)
		}
		dw.Wait()
	}

	wall := time.Since(start).Seconds()
	if len(bad) > 0 {
		sort.Slice(bad, func(a, b int) bool {
			if bad[a].i != bad[b].i {
				return bad[a].i < bad[b].i
			}
			return !bad[a].race
		})
		var trouble []string
		for _, o := range bad {
			path, err := confirm(*prop, tier, o, p.Timeout)
			if err != nil {
				trouble = append(trouble, err.Error())
				continue
			}
			agg.add(o)
			agg.write(*prop, tier, base, p, wall, 1, detSample)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
			os.Exit(1)
		}
		die(2, "violations that did not reproduce: %s", strings.Join(trouble, "; "))
	}
	if len(errs) > 0 {
		die(2, "%d runs failed to answer; first: run %d seed %d race %v: %v", len(errs), errs[0].i, errs[0].seed, errs[0].race, errs[0].err)
	}
	if detBad != "" {
		die(2, "not deterministic: %s", detBad)
	}
	if agg.runs == 0 {
		die(2, "nothing was run")
	}
	agg.write(*prop, tier, base, p, wall, 0, detSample)
	fmt.Printf("property=%s held on %d simulated runs (%d distinct) in %.0f s\n", *prop, agg.runs, len(agg.shapes), wall)
}

// confirm reproduces a violation in a fresh process, minimises it and writes
// the replay file.
func confirm(prop, tier string, o outcome, timeout time.Duration) (string, error) {
	v := o.res.Viol
	fmt.Fprintf(os.Stderr, "violation in run %d (seed %d, race %v): %s: %s\n", o.i, o.seed, o.race, v.Class, v.Detail)
	rf := &replayFile{Property: prop, Seed: o.seed, Tier: tier, Race: o.race, Class: v.Class, Detail: v.Detail, Tape: o.res.Tape, Plans: o.res.Plans, Focus: focus, Trace: o.res.Trace}
	if v.Class == "fatal" || o.res.Tape == nil {
		rf.Tape, rf.Plans = nil, nil
	}
	res, err := runReplay(rf, timeout)
	if err != nil || res.Viol == nil || res.Viol.Class != v.Class {
		// fall back to the seed alone
		rf.Tape, rf.Plans = nil, nil
		ok := false
		for k := 0; k < 3 && !ok; k++ {
			res, err = runReplay(rf, timeout)
			ok = err == nil && res.Viol != nil && res.Viol.Class == v.Class
		}
		if !ok {
			return "", fmt.Errorf("run %d %s did not reproduce", o.i, v.Class)
		}
	}
	if rf.Tape != nil {
		minimise(rf, timeout)
	}
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, o.seed))
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		return "", err
	}
	fmt.Fprintf(os.Stderr, "%s: %s\n", rf.Class, rf.Detail)
	for _, l := range rf.Trace {
		if len(l) > 300 {
			l = l[:300] + "..."
		}
		fmt.Fprintln(os.Stderr, "  ", l)
	}
	return path, nil
}

func runReplay(rf *replayFile, timeout time.Duration) (*sim.Result, error) {
	return request(&sim.Request{Mode: "run", Prop: rf.Property, Seed: rf.Seed, Tier: rf.Tier, Race: rf.Race, Tape: rf.Tape, Plans: rf.Plans, Focus: rf.Focus}, timeout)
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		die(2, "%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		die(2, "%v", err)
	}
	res, err := runReplay(&rf, 150*time.Second)
	if err != nil {
		die(2, "replay failed: %v", err)
	}
	for _, l := range res.Trace {
		fmt.Println("  ", l)
	}
	if res.Viol == nil {
		fmt.Printf("replay of %s: no violation\n", path)
		return 0
	}
	fmt.Printf("%s: %s\n", res.Viol.Class, res.Viol.Detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}

// minimise shrinks the preemptions and the choices while the same class of
// violation persists.
func minimise(rf *replayFile, timeout time.Duration) {
	deadline := time.Now().Add(60 * time.Second)
	tries, kept := 0, 0
	size := func() string {
		n, d := 0, 0
		for _, p := range rf.Plans {
			n += len(p)
		}
		for _, s := range rf.Tape {
			d += len(s)
		}
		return fmt.Sprintf("%d streams, %d choices, %d preemptions", len(rf.Tape), d, n)
	}
	before := size()
	clone := func() *replayFile {
		c := *rf
		c.Tape = map[string][]uint64{}
		for k, v := range rf.Tape {
			c.Tape[k] = append([]uint64{}, v...)
		}
		c.Plans = nil
		for _, p := range rf.Plans {
			c.Plans = append(c.Plans, append([]sim.Switch{}, p...))
		}
		return &c
	}
	// try several candidates at once, keep the first that still fails
	try := func(cs []*replayFile) int {
		if time.Now().After(deadline) || len(cs) == 0 {
			return -1
		}
		ok := make([]bool, len(cs))
		rs := make([]*sim.Result, len(cs))
		var wg sync.WaitGroup
		for i := range cs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				res, err := runReplay(cs[i], timeout)
				if err == nil && res.Viol != nil && res.Viol.Class == rf.Class {
					ok[i], rs[i] = true, res
				}
			}(i)
		}
		wg.Wait()
		tries += len(cs)
		for i := range cs {
			if ok[i] {
				kept++
				rf.Tape, rf.Plans = cs[i].Tape, cs[i].Plans
				if rs[i].Tape != nil { // drop choices no longer used
					rf.Tape = rs[i].Tape
				}
				rf.Detail, rf.Trace = rs[i].Viol.Detail, rs[i].Trace
				return i
			}
		}
		return -1
	}
	names := func() []string {
		var out []string
		for k := range rf.Tape {
			out = append(out, k)
		}
		sort.Strings(out)
		return out
	}
	for pass := 0; pass < 4 && time.Now().Before(deadline); pass++ {
		k0 := kept
		// preemptions: all, then chunks
		for ri := range rf.Plans {
			chunk := len(rf.Plans[ri])
			for chunk >= 1 && time.Now().Before(deadline) {
				progress := false
				for at := 0; at < len(rf.Plans[ri]); {
					var cs []*replayFile
					var ats []int
					for k := 0; k < 8 && at+k*chunk < len(rf.Plans[ri]); k++ {
						c := clone()
						a := at + k*chunk
						b := a + chunk
						if b > len(c.Plans[ri]) {
							b = len(c.Plans[ri])
						}
						c.Plans[ri] = append(append([]sim.Switch{}, c.Plans[ri][:a]...), c.Plans[ri][b:]...)
						cs = append(cs, c)
						ats = append(ats, a)
					}
					if i := try(cs); i >= 0 {
						progress = true
						at = ats[i]
					} else {
						at += len(cs) * chunk
					}
					if time.Now().After(deadline) {
						break
					}
				}
				if !progress || chunk > 1 {
					chunk /= 2
				}
			}
		}
		// whole streams
		ns := names()
		for chunk := (len(ns) + 1) / 2; chunk >= 1 && time.Now().Before(deadline); chunk /= 2 {
			ns = names()
			for at := 0; at < len(ns); {
				var cs []*replayFile
				for k := 0; k < 8 && at+k*chunk < len(ns); k++ {
					c := clone()
					for _, n := range ns[at+k*chunk : min(at+(k+1)*chunk, len(ns))] {
						delete(c.Tape, n)
					}
					cs = append(cs, c)
				}
				if i := try(cs); i >= 0 {
					at += i * chunk
					ns = names()
				} else {
					at += len(cs) * chunk
				}
				if time.Now().After(deadline) {
					break
				}
			}
		}
		// choices: zero, then halve
		for _, n := range names() {
			for at := 0; at < len(rf.Tape[n]) && time.Now().Before(deadline); {
				var cs []*replayFile
				var ats []int
				for k := 0; k < 8 && at < len(rf.Tape[n]); at++ {
					v := rf.Tape[n][at]
					if v == 0 {
						continue
					}
					c := clone()
					c.Tape[n][at] = 0
					cs = append(cs, c)
					ats = append(ats, at)
					k++
					if v > 1 {
						c := clone()
						c.Tape[n][at] = v / 2
						cs = append(cs, c)
						ats = append(ats, at)
						k++
					}
				}
				if i := try(cs); i >= 0 {
					at = ats[i] + 1
				}
			}
		}
		if kept == k0 {
			break
		}
	}
	rf.Minimised = fmt.Sprintf("from %s to %s in %d attempts", before, size(), tries)
	if res, err := runReplay(rf, timeout); err == nil && res.Viol != nil {
		rf.Detail, rf.Trace = res.Viol.Detail, res.Trace
	}
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
