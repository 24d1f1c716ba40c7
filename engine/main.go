package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// target is one harness function.
type target struct {
	dir string // harness directory name
	fn  string
}

type harnessFn struct {
	name string
	pkg  string // import path (or "main" package dir)
	doc  string
	fn   *ssa.Function
}

type config struct {
	repo, verif, prop, tier string
	only                    string
	budget                  time.Duration
	verbose                 bool
	noReplay                bool
	workers                 int
}

var propFn = regexp.MustCompile(`(?m)^func (C\d\d)_(\w+)\(\) \{`)

func die(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(code)
}

func main() {
	debug.SetGCPercent(400)
	setEnv()
	var c config
	var secs int
	flag.StringVar(&c.repo, "repo", "/repo", "")
	flag.StringVar(&c.verif, "verif", "/verif", "")
	flag.StringVar(&c.prop, "prop", "", "property id")
	flag.StringVar(&c.tier, "tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	flag.StringVar(&c.only, "only", "", "regexp of harness functions")
	flag.IntVar(&secs, "budget", 0, "seconds of exploration")
	flag.BoolVar(&c.verbose, "v", false, "")
	flag.BoolVar(&c.noReplay, "noreplay", false, "")
	flag.IntVar(&c.workers, "j", 8, "")
	flag.BoolVar(&firstFail, "first", false, "stop at the first candidate, without replay (development)")
	flag.Parse()
	if c.tier != "thorough" {
		c.tier = "quick"
	}
	if secs == 0 {
		secs = 240
		if c.tier == "thorough" {
			secs = 3600
		}
	}
	c.budget = time.Duration(secs) * time.Second
	if n := runtime.NumCPU(); c.workers > n {
		c.workers = n
	}
	os.Exit(run(&c))
}

// setEnv pins the Go toolchain the repository is built with, whatever the caller's environment.
func setEnv() {
	for k, v := range map[string]string{"HOME": "/root", "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build", "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod -buildvcs=false", "GOSUMDB": "off", "GONOSUMDB": "*", "GOWORK": "off", "GOOS": "", "GOARCH": "", "GOROOT": ""} {
		if v == "" {
			os.Unsetenv(k)
			continue
		}
		os.Setenv(k, v)
	}
	const bin = "/opt/veriftools/go1.26.10/bin"
	if _, err := os.Stat(bin); err == nil {
		os.Setenv("PATH", bin+":"+os.Getenv("PATH"))
	}
}

// harnessDirs lists the harness directories that hold functions of property id.
func harnessDirs(c *config) map[string][]string {
	out := map[string][]string{}
	files, _ := filepath.Glob(filepath.Join(c.verif, "harness", "*", "*.go"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, mt := range propFn.FindAllStringSubmatch(string(b), -1) {
			if mt[1] == c.prop {
				d := filepath.Base(filepath.Dir(f))
				out[d] = append(out[d], mt[1]+"_"+mt[2])
			}
		}
	}
	return out
}

type knownT struct{ prop, id, text string }

func readKnown(verif string) []knownT {
	b, _ := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	var out []knownT
	re := regexp.MustCompile(`^finding: property=(\S+) id=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			out = append(out, knownT{m[1], m[2], m[3]})
		}
	}
	return out
}

type violation struct {
	Func   string   `json:"func"`
	Dir    string   `json:"harness"`
	Kind   string   `json:"kind"`
	Msg    string   `json:"message"`
	Where  string   `json:"where"`
	Inputs []uint64 `json:"inputs"`
	Labels []string `json:"labels"`
	Native string   `json:"native_output"`
	path   string
}

func run(c *config) int {
	t0 := time.Now()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	dirs := harnessDirs(c)
	if len(dirs) == 0 {
		die(2, "no harness for property %s", c.prop)
	}
	known := map[string]knownT{}
	for _, k := range readKnown(c.verif) {
		if k.prop == c.prop {
			known[k.id] = k
		}
	}
	type summary struct {
		FuncRes
		Dir       string
		Doc       string
		Uncovered []string
	}
	var sums []*summary
	var viols []violation
	var unconfirmed []map[string]any
	knownHit := map[string]bool{}
	fnSteps := map[string]int64{}
	var validated, mismatched int64
	var mism []string
	var sampleOut []any
	var poisonNotes []string
	var loadSecs float64
	deadline := time.Now().Add(c.budget)
	var names []string
	for d := range dirs {
		names = append(names, d)
	}
	sort.Strings(names)
	total := 0
	for _, fs := range dirs {
		total += len(fs)
	}
	done := 0
	for _, d := range names {
		e := &Engine{repo: c.repo, verif: c.verif, tier: c.tier, seedV: seed, solverBin: solverPath(), intr: makeIntrinsics()}
		tl := time.Now()
		if err := e.load(d); err != nil {
			die(2, "%s: %v", d, err)
		}
		loadSecs += time.Since(tl).Seconds()
		var ms []*Machine
		for i := 0; i < c.workers; i++ {
			ms = append(ms, newMachine(e))
		}
		rp := newReplayer(c, e, d)
		for _, fname := range dirs[d] {
			if c.only != "" && !regexp.MustCompile(c.only).MatchString(fname) {
				done++
				continue
			}
			fn, doc := e.findHarness(fname)
			if fn == nil {
				die(2, "harness function %s not found", fname)
			}
			left := time.Until(deadline)
			share := left / time.Duration(total-done)
			if share < 5*time.Second {
				share = 5 * time.Second
			}
			if done < total-1 {
				share = share * 2
				if share > left {
					share = left
				}
			}
			done++
			nS := 4
			if c.tier == "thorough" {
				nS = 16
			}
			stepMax := int64(3_000_000)
			r := e.explore(ms, fn, time.Now().Add(share), 0, stepMax, nS)
			if firstFail {
				for _, f := range r.Fails {
					if f.Known == "" {
						fmt.Printf("candidate %s %s: %s inputs=%v %v\n", fname, f.Kind, f.Msg, f.Inputs, f.Labels)
						os.Exit(1)
					}
				}
				for k := range r.Unsup {
					fmt.Printf("unsupported %s %s\n", fname, k)
				}
			}
			s := &summary{FuncRes: *r, Dir: d, Doc: doc}
			for _, cv := range coverLabels(fn) {
				if r.Covers[cv] == 0 {
					s.Uncovered = append(s.Uncovered, cv)
				}
			}
			sums = append(sums, s)
			if c.verbose {
				fmt.Fprintf(os.Stderr, "%-28s paths %d ok %d infeasible %d steps %d forks %d queries %d hits %d asserts %d unknown %d solver %.1fs wall %.1fs %s\n", fname, r.Paths, r.Completed, r.Infeasible, r.Steps, r.Forks, r.Queries, r.CacheHits, r.Asserts, r.Unknown, r.SolverTime.Seconds(), r.Wall.Seconds(), r.Incomplete)
				for k, n := range r.Unsup {
					fmt.Fprintf(os.Stderr, "   unsupported %d: %s\n", n, k)
				}
				for k, n := range r.FailCount {
					fmt.Fprintf(os.Stderr, "   FAIL %d: %s\n", n, k)
				}
				for _, u := range s.Uncovered {
					fmt.Fprintf(os.Stderr, "   uncovered: %s\n", u)
				}
			}
			// native confirmation of counterexamples
			byMsg := map[string][]Failure{}
			var keys []string
			for _, f := range r.Fails {
				k := f.Kind + ": " + f.Msg
				if byMsg[k] == nil {
					keys = append(keys, k)
				}
				byMsg[k] = append(byMsg[k], f)
			}
			sort.Strings(keys)
			for _, k := range keys {
				confirmed := false
				var last string
				for _, f := range byMsg[k] {
					if c.noReplay {
						fmt.Printf("candidate %s %s inputs=%v %v at %s\n", fname, k, f.Inputs, f.Labels, f.Where)
						continue
					}
					ok, out := rp.confirm(fname, f)
					last = out
					if !ok {
						continue
					}
					confirmed = true
					if f.Known != "" {
						if _, listed := known[f.Known]; listed {
							knownHit[f.Known] = true
							break
						}
					}
					viols = append(viols, violation{Func: fname, Dir: d, Kind: f.Kind, Msg: f.Msg, Where: f.Where, Inputs: f.Inputs, Labels: f.Labels, Native: out})
					break
				}
				if !confirmed && !c.noReplay {
					unconfirmed = append(unconfirmed, map[string]any{"func": fname, "failure": k, "native": last, "inputs": byMsg[k][0].Inputs, "where": byMsg[k][0].Where})
					if c.verbose {
						fmt.Fprintf(os.Stderr, "   UNCONFIRMED %s inputs %v at %s: %s\n", k, byMsg[k][0].Inputs, byMsg[k][0].Where, last)
					}
				}
			}
			// translation validation: replay sampled paths natively and compare observations
			if !c.noReplay {
				for _, sm := range r.Samples {
					if rp.slow && validated+mismatched > 8 {
						break
					}
					ok, why := rp.validate(fname, sm)
					if ok {
						validated++
					} else {
						mismatched++
						mism = append(mism, fname+": "+why)
						if c.verbose {
							fmt.Fprintf(os.Stderr, "   MISMATCH %s inputs %v: %s\n", fname, sm.Inputs, why)
						}
					}
					if len(sampleOut) < 12 {
						sampleOut = append(sampleOut, map[string]any{"func": fname, "inputs": inputText(sm)})
					}
				}
			}
		}
		for _, m := range ms {
			for f, n := range m.fnCov {
				if e.isRepoFn(f) {
					fnSteps[strings.ReplaceAll(f.String(), modPath, ".")] += n
				}
			}
			m.solver.stop()
		}
		for p, w := range e.poisons {
			if strings.HasPrefix(p, modPath) {
				for k := range w {
					poisonNotes = append(poisonNotes, p+": "+k)
				}
			}
		}
		rp.close()
	}
	// ---- evidence ----
	var paths, steps, queries, hits, asserts, unknown, forks int64
	var solver time.Duration
	var fev []any
	incomplete := []string{}
	for _, s := range sums {
		paths += s.Paths
		steps += s.Steps
		queries += s.Queries
		hits += s.CacheHits
		asserts += s.Asserts
		unknown += s.Unknown
		forks += s.Forks
		solver += s.SolverTime
		ent := map[string]any{"harness": s.Dir + "." + s.Name, "bounds": s.Doc, "paths": s.Paths, "completed": s.Completed, "infeasible": s.Infeasible, "assertions_decided": s.Asserts, "solver_queries": s.Queries, "solver_cache_hits": s.CacheHits, "solver_s": round(s.SolverTime.Seconds()), "wall_s": round(s.Wall.Seconds()), "exhaustive": s.Incomplete == "" && len(s.Unsup) == 0 && s.Unknown == 0}
		if s.Incomplete != "" {
			ent["incomplete"] = s.Incomplete
			incomplete = append(incomplete, s.Name+": "+s.Incomplete)
		}
		if len(s.Unsup) > 0 {
			ent["paths_outside_encoding"] = s.Unsup
			for k, n := range s.Unsup {
				incomplete = append(incomplete, fmt.Sprintf("%s: %d paths end outside the encoding: %s", s.Name, n, k))
			}
		}
		if len(s.Uncovered) > 0 {
			ent["unreached_points"] = s.Uncovered
		}
		if len(s.FailCount) > 0 {
			ent["counterexamples"] = s.FailCount
		}
		fev = append(fev, ent)
	}
	var encoded []string
	for f := range fnSteps {
		encoded = append(encoded, f)
	}
	sort.Strings(encoded)
	sort.Strings(incomplete)
	sort.Strings(poisonNotes)
	if len(sampleOut) == 0 {
		sampleOut = append(sampleOut, "none")
	}
	cov := map[string]any{
		"states":                        paths + forks,
		"transitions":                   steps,
		"traces_validated_against_impl": validated,
		"samples":                       sampleOut,
		"functions_encoded":             encoded,
		"harnesses":                     fev,
		"paths":                         paths,
		"forks":                         forks,
		"assertions_decided":            asserts,
		"solver_queries":                queries,
		"solver_cache_hits":             hits,
		"solver_unknown":                unknown,
		"solver_s":                      round(solver.Seconds()),
		"solver":                        solverPath(),
		"ssa_load_s":                    round(loadSecs),
		"exhaustive":                    len(incomplete) == 0 && unknown == 0,
		"limits":                        incomplete,
		"unconfirmed_counterexamples":   unconfirmed,
		"model_mismatches":              mism,
		"known_findings_hit":            sortedKeys(knownHit),
		"note":                          "states = explored paths + solver-decided forks of the symbolic execution; transitions = SSA instructions executed symbolically",
	}
	if len(poisonNotes) > 0 {
		cov["uninitialised_globals"] = poisonNotes
	}
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"go/ssa (x/tools v0.52.0) translates /repo's source faithfully; the executor's semantics are validated on sampled paths against the native build",
			"encoding/json, yaml.v2, text/template, fmt, os file access, sync and reflect are models; regexp, net/url, strings, strconv, sort, go/types, gabs, structtag, tagparser run from source",
			"a counterexample is reported only when the native build of /repo reproduces it",
			"inputs outside the stated bounds are not covered",
		},
		"wall_s": round(time.Since(t0).Seconds()), "violations": len(viols),
	}
	if c.only == "" && !c.noReplay {
		os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o777)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), append(b, '\n'), 0o666); err != nil {
			die(2, "evidence: %v", err)
		}
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d assertions decided, %d solver queries (%.1fs), %d replays agree, %d disagree, %d unconfirmed, %.1fs\n", c.prop, c.tier, len(sums), paths, asserts, queries, solver.Seconds(), validated, mismatched, len(unconfirmed), time.Since(t0).Seconds())
	for _, l := range incomplete {
		fmt.Println("  limit:", l)
	}
	for _, id := range sortedKeys(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.prop, id, known[id].text)
	}
	if len(viols) > 0 {
		os.MkdirAll(filepath.Join(c.verif, "replays"), 0o777)
		for i, v := range viols {
			p := filepath.Join(c.verif, "replays", fmt.Sprintf("%s-%d.json", c.prop, i))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(p, append(b, '\n'), 0o666)
			fmt.Printf("  %s: %s: %s\n    inputs: %s\n    native: %s\n", v.Func, v.Kind, v.Msg, inputText(Sample{Inputs: v.Inputs, Labels: v.Labels}), strings.ReplaceAll(strings.TrimSpace(v.Native), "\n", " | "))
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, p)
		}
		return 1
	}
	return 0
}

func round(f float64) float64 { return float64(int64(f*100)) / 100 }

// inputText groups string bytes for readability.
func inputText(s Sample) string {
	var sb strings.Builder
	for i := 0; i < len(s.Inputs); i++ {
		l := ""
		if i < len(s.Labels) {
			l = s.Labels[i]
		}
		if strings.HasSuffix(l, "[0]") {
			base := strings.TrimSuffix(l, "[0]")
			var b []byte
			j := i
			for k := 0; j < len(s.Inputs) && j < len(s.Labels) && s.Labels[j] == fmt.Sprintf("%s[%d]", base, k); j, k = j+1, k+1 {
				b = append(b, byte(s.Inputs[j]))
			}
			fmt.Fprintf(&sb, "%s=%q ", base, b)
			i = j - 1
			continue
		}
		fmt.Fprintf(&sb, "%s=%d ", l, int64(s.Inputs[i]))
	}
	return strings.TrimSpace(sb.String())
}

func solverPath() string {
	for _, n := range []string{"z3-new", "z3"} {
		if p, err := exec.LookPath(n); err == nil {
			return p
		}
	}
	return "z3"
}

// findHarness looks a harness function up in the packages of the overlay.
func (e *Engine) findHarness(name string) (*ssa.Function, string) {
	for _, p := range e.prog.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path(), modPath) {
			continue
		}
		f := p.Func(name)
		if f == nil {
			continue
		}
		return f, e.docOf(f)
	}
	return nil, ""
}

// coverLabels lists the constant nd.Cover labels in fn, its closures and helpers of the harness package.
func coverLabels(fn *ssa.Function) []string {
	seen := map[*ssa.Function]bool{}
	labels := map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					walk(mc.Fn.(*ssa.Function))
				}
				cc, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, a := range cc.Common().Args {
					if g, ok := a.(*ssa.Function); ok && g.Pkg == fn.Pkg {
						walk(g)
					}
				}
				callee := cc.Common().StaticCallee()
				if callee == nil {
					continue
				}
				if callee.Pkg != nil && callee.Pkg.Pkg.Path() == ndPath && callee.Name() == "Cover" {
					if k, ok := cc.Common().Args[0].(*ssa.Const); ok {
						s, _ := strconv.Unquote(k.Value.ExactString())
						labels[s] = true
					}
				}
				if callee.Pkg == fn.Pkg && strings.Contains(fn.Pkg.Pkg.Path(), "/zzverif/") {
					walk(callee)
				}
			}
		}
	}
	walk(fn)
	return sortedKeys(labels)
}

var _ = types.Typ
