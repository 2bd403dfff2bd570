package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// T is a source of choices: random ones that are recorded, or a recorded
// sequence that is replayed (and shrunk).
type T struct {
	long   bool // the case has a long text: keep to patterns that take linear time
	rng    *rand.Rand
	replay []uint64
	isRep  bool
	pos    int
	rec    []uint64
	max    int // replays: the most choices a candidate may take (0: any number)
}

type tooManyChoices struct{}

func newT(seed1, seed2 uint64) *T { return &T{rng: rand.New(rand.NewPCG(seed1, seed2))} }
func replayT(rec []uint64) *T     { return &T{replay: rec, isRep: true} }

// N returns a choice in [0,n). Zero is the simplest choice.
func (t *T) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint64
	if t.isRep {
		if t.pos < len(t.replay) {
			v = t.replay[t.pos] % uint64(n)
		}
	} else {
		v = t.rng.Uint64N(uint64(n))
	}
	if t.max > 0 && t.pos >= t.max { // no candidate for a smaller case; a retry loop would never end
		panic(tooManyChoices{})
	}
	t.pos++
	t.rec = append(t.rec, v)
	return int(v)
}

// R returns a choice in [lo,hi].
func (t *T) R(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + t.N(hi-lo+1)
}
func (t *T) Bool() bool { return t.N(2) == 1 }

// P is true with a chance of k in n (false is simpler).
func (t *T) P(k, n int) bool { return t.N(n) >= n-k }

// W picks an index with the given weights; index 0 is the simplest.
func (t *T) W(w ...int) int {
	s := 0
	for _, x := range w {
		s += x
	}
	v := t.N(s)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// Small returns a number in [0,max], small ones more likely.
func (t *T) Small(max int) int {
	switch t.W(6, 3, 1) {
	case 0:
		return t.R(0, min(3, max))
	case 1:
		return t.R(0, min(12, max))
	}
	return t.R(0, max)
}

func pick[X any](t *T, xs []X) X { return xs[t.N(len(xs))] }

// Spec is one executable statement over generated cases.
type Spec struct {
	Name     string
	Gen      func(t *T) any
	Enum     func(tier string, yield func(any) bool)
	Check    func(c any, r *Rec)
	Decode   func([]byte) (any, error)
	Quick    int // random cases, all workers together
	Thorough int
	Rule     string
	Shards   bool // Enum distributes itself
}

func mkSpec[C any](name string, gen func(t *T) *C, check func(c *C, r *Rec)) *Spec {
	s := &Spec{Name: name,
		Check:  func(c any, r *Rec) { check(c.(*C), r) },
		Decode: func(b []byte) (any, error) { c := new(C); return c, json.Unmarshal(b, c) }}
	if gen != nil {
		s.Gen = func(t *T) any { return gen(t) }
	}
	return s
}
func enum[C any](s *Spec, f func(tier string, yield func(*C) bool)) *Spec {
	s.Enum = func(tier string, yield func(any) bool) { f(tier, func(c *C) bool { return yield(c) }) }
	return s
}
func (s *Spec) n(q, th int) *Spec        { s.Quick, s.Thorough = q, th; return s }
func (s *Spec) rule(format string) *Spec { s.Rule = format; return s }

// Failure is a broken property.
type Failure struct{ Msg string }
type infraErr struct{ msg string }

// Rec collects what one check observes.
type Rec struct {
	nontrivial bool
	known      map[string]string
	labels     map[string]int
}

func (r *Rec) NonTrivial() { r.nontrivial = true }
func (r *Rec) Fail(f string, a ...any) {
	panic(Failure{fmt.Sprintf(f, a...)})
}
func (r *Rec) Infra(f string, a ...any) { panic(infraErr{fmt.Sprintf(f, a...)}) }
func (r *Rec) Known(key, msg string) {
	if r.known == nil {
		r.known = map[string]string{}
	}
	if _, ok := r.known[key]; !ok {
		r.known[key] = msg
	}
}
func (r *Rec) Label(l string) {
	if r.labels == nil {
		r.labels = map[string]int{}
	}
	r.labels[l]++
}

// runCheck runs one check, turning panics of the code under test into failures.
func runCheck(s *Spec, c any, r *Rec) (fail *Failure) {
	defer func() {
		if x := recover(); x != nil {
			switch v := x.(type) {
			case Failure:
				fail = &v
			case infraErr:
				panic(v)
			default:
				st := string(debug.Stack())
				fail = &Failure{fmt.Sprintf("panic: %v\n%s", x, trimStack(st))}
			}
		}
	}()
	s.Check(c, r)
	return nil
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	if i := indexOf(l, "panic("); i >= 0 {
		l = l[i:]
	}
	if len(l) > 16 {
		l = l[:16]
	}
	return strings.Join(l, "\n")
}
func indexOf(l []string, p string) int {
	for i, x := range l {
		if strings.HasPrefix(x, p) {
			return i
		}
	}
	return -1
}

// ---- worker

type FailRec struct {
	Prop  string          `json:"property"`
	Spec  string          `json:"spec"`
	Msg   string          `json:"message"`
	Case  json.RawMessage `json:"case"`
	Seed  int64           `json:"seed"`
	Tier  string          `json:"tier"`
	Fatal string          `json:"fatal,omitempty"`
	Shard string          `json:"shard,omitempty"`
}
type SpecStat struct {
	Name       string         `json:"name"`
	Random     int            `json:"random_cases"`
	Enumerated int            `json:"enumerated_cases"`
	NonTrivial int            `json:"nontrivial"`
	EnumNT     int            `json:"enumerated_nontrivial"`
	Complete   bool           `json:"enumeration_complete"`
	HasEnum    bool           `json:"has_enumeration"`
	Cut        bool           `json:"cut_short_by_time"`
	Labels     map[string]int `json:"labels,omitempty"`
	Rule       string         `json:"rule,omitempty"`
	Seconds    float64        `json:"seconds"`
	hashes     map[uint64]struct{}
}
type WorkerResult struct {
	Stats   []*SpecStat       `json:"stats"`
	Hashes  []uint64          `json:"hashes"`
	Samples []string          `json:"samples"`
	Known   map[string]string `json:"known"`
	Fail    *FailRec          `json:"fail"`
	Infra   string            `json:"infra"`
}

type curCase struct {
	spec  *Spec
	c     any
	start time.Time
}

var current atomic.Pointer[curCase]

func caseJSON(c any) []byte {
	b, err := json.Marshal(c)
	if err != nil {
		panic(infraErr{"encoding a case: " + err.Error()})
	}
	return b
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(path, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "write", path, err)
		os.Exit(3)
	}
}

// watchdog ends the worker when one case takes too long or too much memory, and
// leaves that case in a file for the parent to confirm. A machine may be busy, so it
// is the processor time that counts, unless the case is stuck.
func watchdog(path string, stuck, cpu time.Duration, memLimit uint64) {
	var ms runtime.MemStats
	var seen *curCase
	var before time.Duration
	used := func() time.Duration {
		var u syscall.Rusage
		syscall.Getrusage(syscall.RUSAGE_SELF, &u)
		return time.Duration(u.Utime.Nano() + u.Stime.Nano())
	}
	for i := 0; ; i++ {
		time.Sleep(50 * time.Millisecond)
		cc := current.Load()
		if cc == nil {
			continue
		}
		if cc != seen {
			seen, before = cc, used()
		}
		why := ""
		if time.Since(cc.start) > stuck || used()-before > cpu {
			why = "hang"
		} else if i%4 == 0 {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > memLimit {
				why = "memory"
			}
		}
		if why != "" {
			writeJSON(path, FailRec{Spec: cc.spec.Name, Fatal: why, Case: caseJSON(cc.c)})
			os.Exit(97)
		}
	}
}

type workerOpts struct {
	prop     string
	tier     string
	seed     int64
	shard    int
	shards   int
	out      string
	journal  string // when set, write every case before running it
	deadline time.Time
	race     bool
	patient  bool // with slow cases
}

func workerMain(o workerOpts, specs []*Spec) {
	res := &WorkerResult{Known: map[string]string{}}
	hashes := map[uint64]struct{}{}
	stuck, cpu := 60*time.Second, maxCPU(o.race)
	if o.patient {
		stuck, cpu = 5*time.Minute, 4*cpu
	}
	go watchdog(o.out+".fatal", stuck, cpu, 6<<30)
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(infraErr); ok {
				res.Infra = e.msg
			} else {
				res.Infra = fmt.Sprintf("harness panic: %v\n%s", x, debug.Stack())
			}
		}
		for h := range hashes {
			res.Hashes = append(res.Hashes, h)
		}
		writeJSON(o.out, res)
	}()
	run := func(s *Spec, st *SpecStat, c any, isEnum bool) *Failure {
		if o.journal != "" {
			os.WriteFile(o.journal, append([]byte(s.Name+"\n"), caseJSON(c)...), 0644)
		}
		r := &Rec{}
		current.Store(&curCase{s, c, time.Now()})
		f := runCheck(s, c, r)
		current.Store(nil)
		if r.nontrivial {
			if isEnum {
				st.EnumNT++
			} else {
				st.NonTrivial++
				h := fnv.New64a()
				h.Write([]byte(s.Name))
				h.Write(caseJSON(c))
				hashes[h.Sum64()] = struct{}{}
			}
		}
		for l, n := range r.labels {
			if st.Labels == nil {
				st.Labels = map[string]int{}
			}
			st.Labels[l] += n
		}
		for k, v := range r.known {
			if _, ok := res.Known[k]; !ok {
				res.Known[k] = v
			}
		}
		return f
	}
	mkFail := func(s *Spec, c any, f *Failure) {
		res.Fail = &FailRec{Prop: o.prop, Spec: s.Name, Msg: f.Msg, Case: caseJSON(c), Seed: o.seed, Tier: o.tier, Shard: fmt.Sprintf("%d/%d", o.shard, o.shards)}
	}
	for si, s := range specs {
		st := &SpecStat{Name: s.Name, Rule: s.Rule, HasEnum: s.Enum != nil}
		res.Stats = append(res.Stats, st)
		t0 := time.Now()
		if s.Enum != nil {
			i := 0
			done := true
			s.Enum(o.tier, func(c any) bool {
				i++
				if (i-1)%o.shards != o.shard {
					return true
				}
				st.Enumerated++
				if f := run(s, st, c, true); f != nil {
					mkFail(s, c, f)
					done = false
					return false
				}
				if len(res.Samples) < 40 && i%997 == o.shard%997 {
					res.Samples = append(res.Samples, sample(s, c))
				}
				if st.Enumerated%256 == 0 && time.Now().After(o.deadline) {
					st.Cut, done = true, false
					return false
				}
				return true
			})
			st.Complete = done
			if res.Fail != nil {
				return
			}
		}
		if s.Gen != nil {
			n := s.Quick
			if o.tier == "thorough" {
				n = s.Thorough
			}
			n = (n + o.shards - 1) / o.shards
			for i := 0; i < n; i++ {
				if time.Now().After(o.deadline) {
					st.Cut = true
					break
				}
				t := newT(uint64(o.seed)*1000003+uint64(si), uint64(o.shard)<<40|uint64(i))
				c := s.Gen(t)
				st.Random++
				if f := run(s, st, c, false); f != nil {
					c, f = shrink(s, t.rec, c, f)
					mkFail(s, c, f)
					return
				}
				if i < 3 {
					res.Samples = append(res.Samples, sample(s, c))
				}
			}
		}
		st.Seconds = time.Since(t0).Seconds()
	}
}

func sample(s *Spec, c any) string {
	b := string(caseJSON(c))
	if len(b) > 600 {
		b = b[:600] + "…"
	}
	return s.Name + " " + b
}

// shrink looks for a smaller sequence of choices that still fails.
func shrink(s *Spec, rec []uint64, c any, f *Failure) (any, *Failure) {
	best, bestC, bestF := append([]uint64(nil), rec...), c, f
	deadline := time.Now().Add(15 * time.Second)
	tries := 0
	try := func(cand []uint64) bool {
		if tries > 6000 || time.Now().After(deadline) {
			return false
		}
		tries++
		t := replayT(cand)
		t.max = len(best)
		var nc any
		ok := func() (ok bool) {
			defer func() {
				if recover() != nil {
					ok = false
				}
			}()
			nc = s.Gen(t)
			return true
		}()
		if !ok || len(t.rec) > len(best) {
			return false
		}
		if len(t.rec) == len(best) {
			less := false
			for i := range best {
				if t.rec[i] != best[i] {
					less = t.rec[i] < best[i]
					break
				}
			}
			if !less {
				return false
			}
		}
		current.Store(&curCase{s, nc, time.Now()})
		nf := func() (f *Failure) {
			defer func() {
				if recover() != nil { // this candidate tells nothing
					f = nil
				}
			}()
			return runCheck(s, nc, &Rec{})
		}()
		current.Store(nil)
		if nf == nil {
			return false
		}
		best, bestC, bestF = append([]uint64(nil), t.rec...), nc, nf
		return true
	}
	for improved := true; improved; {
		improved = false
		for size := 64; size >= 1; size /= 2 {
			for i := len(best) - size; i >= 0; i-- {
				if i+size > len(best) {
					continue
				}
				cand := append(append([]uint64(nil), best[:i]...), best[i+size:]...)
				if try(cand) {
					improved = true
				}
			}
		}
		for i := 0; i < len(best); i++ {
			for best[i] > 0 {
				cand := append([]uint64(nil), best...)
				cand[i] = 0
				if try(cand) {
					improved = true
					break
				}
				lo := best[i]
				cand[i] = lo / 2
				if try(cand) {
					improved = true
				} else {
					cand = append([]uint64(nil), best...)
					if i >= len(cand) {
						break
					}
					cand[i] = lo - 1
					if !try(cand) {
						break
					}
					improved = true
				}
				if i >= len(best) {
					break
				}
			}
		}
		if tries > 6000 || time.Now().After(deadline) {
			break
		}
	}
	return bestC, bestF
}
