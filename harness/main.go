// Command harness decides the properties of /verif/properties.jsonl by search
// over generated inputs.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Property collects the specs that decide one property.
type Property struct {
	ID          string
	Specs       func() []*Spec
	Race        bool // workers run under the race detector
	Assumptions []string
	Rule        string
	Workers     int
}

var (
	properties  = map[string]*Property{}
	textedBin   string // path of the command line under test
	scratchRoot string // a directory the checks may write in
	repoDir     = "/repo"
	knownKeys   = map[string]bool{} // property/key
	theTier     = "quick"
	verifDir    string
)

func register(p *Property) { properties[p.ID] = p }

func main() {
	if len(os.Args) == 2 && os.Args[1] == "libedit" {
		l := &libEdit{}
		if err := json.NewDecoder(os.Stdin).Decode(l); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		l.run()
		os.Stdout.Write(caseJSON(l))
		os.Exit(0)
	}
	if len(os.Args) > 3 && os.Args[1] == "limited" {
		execLimited(os.Args[2], os.Args[3:])
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check|worker|one|replay …")
		os.Exit(3)
	}
	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	verif := fs.String("verif", "/verif", "")
	fs.StringVar(&textedBin, "bin", "", "")
	fs.StringVar(&repoDir, "repo", "/repo", "")
	raceBin := fs.String("racebin", "", "")
	fs.StringVar(&scratchRoot, "scratch", "", "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	out := fs.String("out", "", "")
	journal := fs.String("journal", "", "")
	spec := fs.String("spec", "", "")
	caseFile := fs.String("case", "", "")
	budget := fs.Duration("budget", 0, "")
	workers := fs.Int("workers", 0, "")
	patient := fs.Bool("patient", false, "")
	fs.Parse(os.Args[2:])
	theTier = *tier
	verifDir = *verif
	loadKnown(filepath.Join(*verif, "known_findings.txt"))
	if mode == "list" {
		var ids []string
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	if mode == "probe" {
		os.Exit(probe(*verif))
	}
	var fr FailRec
	if mode == "replay" {
		b, err := os.ReadFile(fs.Arg(0))
		if err == nil {
			err = json.Unmarshal(b, &fr)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		*prop = fr.Prop
		*spec = fr.Spec
	}
	p := properties[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		os.Exit(3)
	}
	ownScratch := scratchRoot == ""
	if ownScratch {
		d, err := os.MkdirTemp("", "verif-")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		os.Chmod(d, 0711) // some cases run texted as another user
		scratchRoot = d
	}
	replayName := fs.Arg(0)
	if n := os.Getenv("VERIF_REPLAY"); n != "" {
		replayName = n
	}
	if mode == "replay" {
		if code, done := replayInside(*verif, fs.Arg(0), []string{"replay", "-verif", *verif, "-bin", textedBin, "-repo", repoDir}); done {
			if ownScratch {
				os.RemoveAll(scratchRoot)
			}
			os.Exit(code)
		}
	}
	switch mode {
	case "worker":
		workerMain(workerOpts{prop: *prop, tier: *tier, seed: *seed, shard: *shard, shards: *shards, out: *out, journal: *journal, patient: *patient, race: p.Race,
			deadline: time.Now().Add(*budget)}, p.Specs())
	case "one", "replay":
		if mode == "replay" {
			*caseFile = filepath.Join(scratchRoot, "case.json")
			os.WriteFile(*caseFile, fr.Case, 0644)
		}
		code := runOne(p, *spec, *caseFile)
		if mode == "replay" {
			if code == 0 && fr.Shard != "" {
				// the failure may need what ran before it in the same process
				fmt.Println("the case passes on its own; running its whole series again")
				theTier = fr.Tier
				o := workerOpts{prop: *prop, tier: fr.Tier, seed: fr.Seed, deadline: time.Now().Add(time.Hour), out: filepath.Join(scratchRoot, "out.json")}
				fmt.Sscanf(fr.Shard, "%d/%d", &o.shard, &o.shards)
				workerMain(o, p.Specs())
				var r WorkerResult
				if b, err := os.ReadFile(o.out); err == nil && json.Unmarshal(b, &r) == nil && r.Fail != nil {
					fmt.Printf("FAIL: %s\n", r.Fail.Msg)
					code = 1
				}
			}
			if ownScratch {
				os.RemoveAll(scratchRoot)
			}
			if code == 1 {
				fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, replayName)
			}
		}
		os.Exit(code)
	case "check":
		code := check(p, *tier, *seed, *verif, *raceBin, *workers)
		os.RemoveAll(scratchRoot)
		os.Exit(code)
	default:
		os.Exit(3)
	}
}

func loadKnown(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "KNOWN-FINDING:") {
			continue
		}
		var p, k string
		for _, f := range strings.Fields(l) {
			if v, ok := strings.CutPrefix(f, "property="); ok {
				p = v
			}
			if v, ok := strings.CutPrefix(f, "key="); ok {
				k = v
			}
		}
		if p != "" && k != "" {
			knownKeys[p+"/"+k] = true
		}
	}
}

func findSpec(p *Property, name string) *Spec {
	for _, s := range p.Specs() {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// runOne checks a single recorded case.
func runOne(p *Property, spec, caseFile string) int {
	s := findSpec(p, spec)
	b, err := os.ReadFile(caseFile)
	if s == nil || err != nil {
		fmt.Fprintln(os.Stderr, "no spec", spec, err)
		return 3
	}
	c, err := s.Decode(b)
	if err != nil {
		fmt.Fprintln(os.Stderr, "decode:", err)
		return 3
	}
	go func() { // memory guard
		var ms runtime.MemStats
		for {
			time.Sleep(100 * time.Millisecond)
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 6<<30 {
				fmt.Println("FAIL: memory use above 6 GiB")
				os.Exit(1)
			}
		}
	}()
	n := 1
	if p.Race {
		n = 30
	}
	for i := 0; i < n; i++ {
		if f := runCheck(s, c, &Rec{}); f != nil {
			fmt.Printf("FAIL: %s\n", f.Msg)
			return 1
		}
	}
	fmt.Println("ok")
	return 0
}

type procEnd struct {
	code   int
	signal string
	stderr string
	killed bool
	cpu    time.Duration
}

func runProc(ctx context.Context, bin string, args []string, gomaxprocs int, stdout *bytes.Buffer) procEnd {
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", gomaxprocs), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
	cmd.SysProcAttr = contained(verifDir)
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var eb bytes.Buffer
	cmd.Stderr = &eb
	if stdout != nil {
		cmd.Stdout = stdout
	} else {
		cmd.Stdout = &eb
	}
	runtime.LockOSThread() // Pdeathsig follows the thread
	defer runtime.UnlockOSThread()
	err := cmd.Run()
	pe := procEnd{stderr: eb.String()}
	if cmd.ProcessState != nil {
		pe.cpu = cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime()
	}
	if len(pe.stderr) > 20000 {
		pe.stderr = pe.stderr[:10000] + "\n…\n" + pe.stderr[len(pe.stderr)-8000:]
	}
	if err != nil {
		pe.code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			pe.code = ee.ExitCode()
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				pe.signal = ws.Signal().String()
			}
		} else {
			pe.stderr += err.Error()
		}
		pe.killed = ctx.Err() != nil
	}
	return pe
}

func check(p *Property, tier string, seed int64, verif, raceBin string, workers int) int {
	t0 := time.Now()
	self, _ := os.Executable()
	bin := self
	if p.Race && raceBin != "" {
		bin = raceBin
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 2 {
		n = 2
	}
	if p.Workers > 0 {
		n = p.Workers
	}
	if workers > 0 {
		n = workers
	}
	budget := 150 * time.Second
	if tier == "thorough" {
		budget = 40 * time.Minute
	}
	ctx, cancel := context.WithTimeout(context.Background(), budget*2+3*time.Minute)
	defer cancel()
	results := make([]*WorkerResult, n)
	ends := make([]procEnd, n)
	fatals := make([]*FailRec, n)
	args := func(i int, extra ...string) []string {
		sc := filepath.Join(scratchRoot, fmt.Sprintf("w%d", i))
		makeInside(sc)
		return append([]string{"worker", "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-verif", verif, "-bin", textedBin, "-repo", repoDir,
			"-scratch", sc, "-shard", fmt.Sprint(i), "-shards", fmt.Sprint(n), "-budget", budget.String(),
			"-out", filepath.Join(scratchRoot, fmt.Sprintf("out%d.json", i))}, extra...)
	}
	journalOf := func(i int) string { return filepath.Join(scratchRoot, fmt.Sprintf("journal%d", i)) }
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var extra []string
			gmp := 2
			if p.Race {
				extra = []string{"-journal", journalOf(i)}
				gmp = 4
			}
			o := filepath.Join(scratchRoot, fmt.Sprintf("out%d.json", i))
			for try := 0; try < 2; try++ {
				ends[i] = runProc(ctx, bin, args(i, extra...), gmp, nil)
				if b, err := os.ReadFile(o); err == nil {
					var r WorkerResult
					if json.Unmarshal(b, &r) == nil {
						results[i] = &r
					}
				}
				var f FailRec
				b, err := os.ReadFile(o + ".fatal")
				if err != nil || json.Unmarshal(b, &f) != nil {
					break
				}
				os.Remove(o + ".fatal")
				f.Prop, f.Seed, f.Tier = p.ID, seed, tier
				out, ok := confirm(bin, p, &f, verif, 150*time.Second)
				if ok {
					f.Msg = f.Fatal + ": " + out
					fatals[i] = &f
					break
				}
				// the machine may be slow: have it run all its cases again, with more time
				fmt.Fprintf(os.Stderr, "worker %d: a case took too long once, but not when run again%s\n", i, out)
				extra = append(extra, "-patient")
			}
			if (results[i] != nil && results[i].Fail != nil) || fatals[i] != nil {
				cancel() // one violation is enough
			}
		}()
	}
	wg.Wait()
	var fail *FailRec
	infra := ""
	for i := range results {
		if results[i] != nil && results[i].Fail != nil {
			fail = results[i].Fail
			break
		}
	}
	for i := range fatals {
		if fail == nil && fatals[i] != nil {
			fail = fatals[i]
		}
	}
	if fail == nil && infra == "" {
		for i := range results {
			if results[i] != nil {
				if results[i].Infra != "" {
					infra = results[i].Infra
				}
				continue
			}
			if ends[i].killed && ctx.Err() == context.DeadlineExceeded {
				infra = "worker ran out of time"
				continue
			}
			// the worker died: find the case that kills it
			fmt.Fprintf(os.Stderr, "worker %d ended with %d %s\n%s\n", i, ends[i].code, ends[i].signal, ends[i].stderr)
			if ends[i].code == 3 {
				infra = "worker failed"
				break
			}
			e := ends[i]
			if !p.Race {
				c2, cancel2 := context.WithTimeout(context.Background(), budget*2+time.Minute)
				e = runProc(c2, bin, args(i, "-journal", journalOf(i)), 2, nil)
				cancel2()
			}
			b, err := os.ReadFile(journalOf(i))
			name, cs, ok := bytes.Cut(b, []byte("\n"))
			if err != nil || !ok || e.code == 0 {
				infra = "a worker died, but not when run again"
				break
			}
			f := &FailRec{Prop: p.ID, Spec: string(name), Case: cs, Seed: seed, Tier: tier, Fatal: "crash"}
			if out, ok := confirm(bin, p, f, verif, 150*time.Second); ok {
				f.Msg = "crash: " + out
				fail = f
			} else if e.code == 2 && ends[i].code == 2 && strings.Contains(e.stderr, "goroutine ") {
				f.Msg = "crash, twice in the same series of cases: " + e.stderr
				f.Shard = fmt.Sprintf("%d/%d", i, n)
				fail = f
			} else if strings.Contains(e.stderr, "WARNING: DATA RACE") {
				f.Msg = "data race: " + e.stderr
				fail = f
			} else {
				infra = "a worker died, but its last case does not fail on its own"
			}
			break
		}
	}

	// merge what was covered
	cov := map[string]any{}
	eval, nt := 0, 0
	hashes := map[uint64]struct{}{}
	merged := map[string]*SpecStat{}
	var order []string
	var samples []string
	known := map[string]string{}
	for _, r := range results {
		if r == nil {
			continue
		}
		for _, h := range r.Hashes {
			hashes[h] = struct{}{}
		}
		for k, v := range r.Known {
			if _, ok := known[k]; !ok {
				known[k] = v
			}
		}
		for _, s := range r.Stats {
			m := merged[s.Name]
			if m == nil {
				c := *s
				merged[s.Name] = &c
				order = append(order, s.Name)
				continue
			}
			m.Random += s.Random
			m.Enumerated += s.Enumerated
			m.NonTrivial += s.NonTrivial
			m.EnumNT += s.EnumNT
			m.Complete = m.Complete && s.Complete
			m.Cut = m.Cut || s.Cut
			m.Seconds = max(m.Seconds, s.Seconds)
			for l, k := range s.Labels {
				if m.Labels == nil {
					m.Labels = map[string]int{}
				}
				m.Labels[l] += k
			}
		}
		samples = append(samples, r.Samples...)
	}
	var stats []*SpecStat
	for _, o := range order {
		m := merged[o]
		stats = append(stats, m)
		eval += m.Random + m.Enumerated
		nt += m.EnumNT
	}
	nt += len(hashes)
	if len(samples) > 24 {
		var s2 []string
		for i := 0; i < 24; i++ {
			s2 = append(s2, samples[i*len(samples)/24])
		}
		samples = s2
	}
	if samples == nil {
		samples = []string{}
	}
	cov["evaluations"] = eval
	cov["distinct_nontrivial"] = nt
	cov["rule"] = p.Rule
	cov["samples"] = samples
	cov["specs"] = stats
	cov["workers"] = n
	if len(known) > 0 {
		cov["known_findings_seen"] = known
	}
	ev := map[string]any{"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": p.Assumptions, "wall_s": time.Since(t0).Seconds()}
	ev["violations"] = 0
	if fail != nil {
		ev["violations"] = 1
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	writeJSON(filepath.Join(verif, "evidence", p.ID+".json"), ev)

	var kk []string
	for k := range known {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s key=%s %s\n", p.ID, k, strings.ReplaceAll(known[k], "\n", " "))
	}
	if fail != nil {
		h := fnv.New32a()
		h.Write(fail.Case)
		os.MkdirAll(filepath.Join(verif, "replays"), 0755)
		path := filepath.Join(verif, "replays", fmt.Sprintf("%s-%s-%08x.json", p.ID, strings.NewReplacer("/", "-", " ", "-", ",", "").Replace(fail.Spec), h.Sum32()))
		writeJSON(path, fail)
		cs := string(fail.Case)
		if len(cs) > 3000 {
			cs = cs[:3000] + "…"
		}
		fmt.Printf("%s: %s\ncase: %s\n", fail.Spec, fail.Msg, cs)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	if infra != "" {
		fmt.Fprintln(os.Stderr, "error:", infra)
		return 2
	}
	fmt.Printf("%s ok: %d cases, %d distinct and non-trivial, %.1fs\n", p.ID, eval, nt, time.Since(t0).Seconds())
	return 0
}

// maxCPU is how much processor time a case may take; the slowest ones take a second
// or two, or some more when watched by the race detector.
func maxCPU(race bool) time.Duration {
	if race {
		return 75 * time.Second
	}
	return 25 * time.Second
}

var confirms atomic.Int64

// confirm runs one case on its own and tells whether it fails, dies or never ends.
func confirm(bin string, p *Property, f *FailRec, verif string, limit time.Duration) (string, bool) {
	name := fmt.Sprintf("confirm%d", confirms.Add(1))
	cf := filepath.Join(scratchRoot, name+".json")
	if os.WriteFile(cf, f.Case, 0644) != nil {
		return "", false
	}
	sc := filepath.Join(scratchRoot, name)
	makeInside(sc)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	var ob bytes.Buffer
	e := runProc(ctx, bin, []string{"one", "-prop", p.ID, "-spec", f.Spec, "-case", cf, "-verif", verif, "-bin", textedBin, "-repo", repoDir, "-scratch", sc}, 4, &ob)
	if e.killed {
		return fmt.Sprintf("the case did not end within %v", limit), true
	}
	if e.code != 3 && f.Fatal != "" && e.cpu >= maxCPU(p.Race) {
		return fmt.Sprintf("the case takes %v of processor time", e.cpu.Round(time.Second)), true
	}
	if e.code == 0 || e.code == 3 {
		return fmt.Sprintf(" (%v of processor time)", e.cpu), false
	}
	return ob.String() + e.stderr, true
}
