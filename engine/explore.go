package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Sample struct {
	Inputs []uint64 `json:"inputs"`
	Labels []string `json:"labels,omitempty"`
	Obs    []string `json:"obs,omitempty"`
}

type FuncRes struct {
	Name       string
	Paths      int64
	Completed  int64
	Infeasible int64
	Unsup      map[string]int64
	Fails      []Failure
	FailCount  map[string]int64
	Covers     map[string]int64
	Steps      int64
	Forks      int64
	Queries    int64
	CacheHits  int64
	Asserts    int64
	Unknown    int64
	SolverTime time.Duration
	Wall       time.Duration
	Incomplete string
	Samples    []Sample
	MaxTrace   int
}

// firstFail ends the exploration at the first failure.
var firstFail bool

type explorer struct {
	mu    sync.Mutex
	cond  *sync.Cond
	stack []workItem
	busy  int
	stop  bool
	res   *FuncRes
	npath int64
}

func (e *Engine) explore(ms []*Machine, fn *ssa.Function, deadline time.Time, maxPaths int64, stepMax int64, nSamples int) *FuncRes {
	res := &FuncRes{Name: fn.Name(), Unsup: map[string]int64{}, FailCount: map[string]int64{}, Covers: map[string]int64{}}
	x := &explorer{res: res}
	x.cond = sync.NewCond(&x.mu)
	x.stack = []workItem{{}}
	t0 := time.Now()
	var q0, h0, a0, u0, f0 int64
	var s0 time.Duration
	for _, m := range ms {
		q0 += m.solver.Queries
		h0 += m.solver.Hits
		a0 += m.assertsQ
		u0 += m.unknown
		f0 += m.forks
		s0 += m.solver.Time
		res.Steps -= m.totSteps
	}
	var wg sync.WaitGroup
	var abort atomic.Value
	for _, m := range ms {
		wg.Add(1)
		go func(m *Machine) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					abort.Store(fmt.Sprintf("engine crash: %v\n%s\nat %s", r, debug.Stack(), m.stack(12)))
					x.mu.Lock()
					x.stop = true
					x.cond.Broadcast()
					x.mu.Unlock()
				}
			}()
			m.stepMax = stepMax
			var local []workItem
			m.push = func(w workItem) { local = append(local, w) }
			for {
				x.mu.Lock()
				// share work when others are idle
				if len(local) > 1 && len(x.stack) == 0 && x.busy < len(ms) {
					n := len(local) / 2
					x.stack = append(x.stack, local[:n]...)
					local = append([]workItem{}, local[n:]...)
					x.cond.Broadcast()
				}
				var it workItem
				if len(local) > 0 {
					it = local[len(local)-1]
					local = local[:len(local)-1]
					if x.stop {
						x.mu.Unlock()
						return
					}
				} else {
					for len(x.stack) == 0 && x.busy > 0 && !x.stop {
						x.cond.Wait()
					}
					if x.stop || len(x.stack) == 0 {
						x.cond.Broadcast()
						x.mu.Unlock()
						return
					}
					it = x.stack[len(x.stack)-1]
					x.stack = x.stack[:len(x.stack)-1]
				}
				x.busy++
				x.mu.Unlock()
				r := m.runPath(fn, it)
				x.mu.Lock()
				x.busy--
				x.record(m, r, nSamples)
				if time.Now().After(deadline) || (maxPaths > 0 && res.Paths >= maxPaths) {
					if len(local) > 0 || len(x.stack) > 0 || x.busy > 0 {
						if res.Incomplete == "" {
							res.Incomplete = "time or path budget exhausted"
						}
					}
					x.stop = true
				}
				if len(local) > 0 && len(x.stack) == 0 {
					// keep the oldest item available for idle workers
					x.stack = append(x.stack, local[0])
					local = local[1:]
				}
				x.cond.Broadcast()
				x.mu.Unlock()
			}
		}(m)
	}
	wg.Wait()
	if a := abort.Load(); a != nil {
		fmt.Fprintln(os.Stderr, a)
		res.Incomplete = strings.SplitN(a.(string), "\n", 2)[0]
	}
	for _, m := range ms {
		res.Queries += m.solver.Queries
		res.CacheHits += m.solver.Hits
		res.Asserts += m.assertsQ
		res.Unknown += m.unknown
		res.Forks += m.forks
		res.SolverTime += m.solver.Time
		res.Steps += m.totSteps
	}
	res.Queries -= q0
	res.CacheHits -= h0
	res.Asserts -= a0
	res.Unknown -= u0
	res.Forks -= f0
	res.SolverTime -= s0
	res.Wall = time.Since(t0)
	sort.Slice(res.Fails, func(i, j int) bool {
		a, b := res.Fails[i], res.Fails[j]
		if a.Msg != b.Msg {
			return a.Msg < b.Msg
		}
		return len(a.Inputs) < len(b.Inputs)
	})
	return res
}

func (x *explorer) record(m *Machine, r pathRes, nSamples int) {
	res := x.res
	res.Paths++
	if len(m.trace) > res.MaxTrace {
		res.MaxTrace = len(m.trace)
	}
	switch r.kind {
	case "ok":
		res.Completed++
	case "assume":
		res.Infeasible++
	case "unsupported":
		res.Unsup[r.detail]++
	}
	for _, f := range m.fails {
		if firstFail && f.Known == "" {
			x.stop = true
		}
		k := f.Kind + ": " + f.Msg
		res.FailCount[k]++
		if res.FailCount[k] <= 6 {
			res.Fails = append(res.Fails, f)
		}
	}
	if r.kind == "ok" || r.kind == "panic" {
		for c := range m.covers {
			res.Covers[c]++
		}
	}
	if r.kind == "ok" && r.detail == "" && nSamples > 0 {
		// keep an evenly thinned set of completed paths
		take := len(res.Samples) < nSamples
		slot := len(res.Samples)
		if !take {
			h := uint64(res.Completed)*0x9E3779B97F4A7C15 + uint64(m.eng.seed())
			h ^= h >> 29
			if h%uint64(res.Completed) < uint64(nSamples) {
				take = true
				slot = int(h>>17) % nSamples
			}
		}
		if take {
			in, lab := m.inputsUnder(m.model)
			s := Sample{Inputs: in, Labels: lab}
			for _, o := range m.obs {
				s.Obs = append(s.Obs, o.label+"="+m.render(o.v, o.t, m.model))
			}
			if slot == len(res.Samples) {
				res.Samples = append(res.Samples, s)
			} else {
				res.Samples[slot] = s
			}
		}
	}
}
