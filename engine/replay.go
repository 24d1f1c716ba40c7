package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// replayer builds the harness natively (from /repo's current tree through an
// overlay) and runs it on recorded inputs.
type replayer struct {
	c       *config
	e       *Engine
	dir     string
	tmp     string
	bin     string
	race    string
	args    []string
	useRace bool
	err     error
	slow    bool
}

func newReplayer(c *config, e *Engine, dir string) *replayer {
	return &replayer{c: c, e: e, dir: dir}
}

func (r *replayer) close() {
	if r.tmp != "" {
		os.RemoveAll(r.tmp)
	}
	if r.e.stubDir != "" {
		os.RemoveAll(r.e.stubDir)
		r.e.stubDir = ""
	}
}

func (r *replayer) build() error {
	if r.bin != "" || r.err != nil {
		return r.err
	}
	r.tmp, r.err = os.MkdirTemp("", "ndreplay")
	if r.err != nil {
		return r.err
	}
	ov, _, err := harnessOverlay(r.c.repo, r.c.verif, r.dir)
	if err != nil {
		r.err = err
		return err
	}
	// functions by package directory
	type pk struct {
		name string
		fns  []string
	}
	pkgs := map[string]*pk{}
	for dst, src := range ov {
		d := filepath.Dir(dst)
		if strings.HasSuffix(d, "/zzverif/nd") || strings.HasSuffix(d, "/zzverif/world") {
			continue
		}
		b, err := os.ReadFile(src)
		if err != nil {
			r.err = err
			return err
		}
		p := pkgs[d]
		if p == nil {
			p = &pk{}
			pkgs[d] = p
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "package ") {
				p.name = strings.Fields(l)[1]
				break
			}
		}
		for _, m := range propFn.FindAllStringSubmatch(string(b), -1) {
			p.fns = append(p.fns, m[1]+"_"+m[2])
		}
	}
	var dirs []string
	for d := range pkgs {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	var imp, reg bytes.Buffer
	mainDir := ""
	for i, d := range dirs {
		p := pkgs[d]
		if p.name == "main" {
			mainDir = d
			for _, f := range p.fns {
				fmt.Fprintf(&reg, "\t\t%q: %s,\n", f, f)
			}
			continue
		}
		if len(p.fns) == 0 {
			continue
		}
		rel, _ := filepath.Rel(r.c.repo, d)
		fmt.Fprintf(&imp, "\th%d %q\n", i, strings.TrimSuffix(modPath+"/"+rel, "/."))
		for _, f := range p.fns {
			fmt.Fprintf(&reg, "\t\t%q: h%d.%s,\n", f, i, f)
		}
	}
	var src, target string
	if mainDir != "" {
		src = "package main\n\nimport (\n\tndos \"os\"\n\tnd \"" + ndPath + "\"\n" + imp.String() + ")\n\nfunc init() {\n\tif ndos.Getenv(\"ND_FUNC\") != \"\" {\n\t\tnd.Main(map[string]func(){\n" + reg.String() + "\t\t})\n\t}\n}\n"
		target = filepath.Join(mainDir, "zz_verif_runner.go")
	} else {
		src = "package main\n\nimport (\n\tnd \"" + ndPath + "\"\n" + imp.String() + ")\n\nfunc main() {\n\tnd.Main(map[string]func(){\n" + reg.String() + "\t})\n}\n"
		target = filepath.Join(r.c.repo, "internal/zzverif/run/main.go")
	}
	run := filepath.Join(r.tmp, "runner.go")
	if r.err = os.WriteFile(run, []byte(src), 0o666); r.err != nil {
		return r.err
	}
	ov[target] = run
	oj, _ := json.Marshal(map[string]any{"Replace": ov})
	of := filepath.Join(r.tmp, "overlay.json")
	if r.err = os.WriteFile(of, oj, 0o666); r.err != nil {
		return r.err
	}
	rel, _ := filepath.Rel(r.c.repo, filepath.Dir(target))
	bin := filepath.Join(r.tmp, "run.bin")
	args := []string{"build", "-overlay", of, "-o", bin}
	if r.e.modfile != "" {
		args = append(args, "-modfile="+r.e.modfile)
	}
	cmd := exec.Command("go", append(args, "./"+rel)...)
	cmd.Dir = r.c.repo
	cmd.Env = goEnv()
	if p, err := exec.LookPath("/opt/veriftools/go1.26.10/bin/go"); err == nil {
		cmd.Path = p
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		r.err = fmt.Errorf("native build: %v: %s", err, out)
		return r.err
	}
	r.bin = bin
	r.args = append(args, "-race", "./"+rel)
	return nil
}

// buildRace builds the same with the race detector.
func (r *replayer) buildRace() error {
	if err := r.build(); err != nil || r.race != "" {
		return err
	}
	bin := filepath.Join(r.tmp, "race.bin")
	args := append([]string{}, r.args...)
	for i := range args {
		if args[i] == r.bin {
			args[i] = bin
		}
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = r.c.repo
	cmd.Env = append(goEnv(), "CGO_ENABLED=1")
	if p, err := exec.LookPath("/opt/veriftools/go1.26.10/bin/go"); err == nil {
		cmd.Path = p
	}
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("native build: %v: %s", err, out)
	}
	r.race = bin
	return nil
}

// run executes fn on inputs; code -1 means it did not finish in time.
func (r *replayer) run(fn string, inputs []uint64, repeat int, timeout time.Duration) (string, int, error) {
	if err := r.build(); err != nil {
		return "", 0, err
	}
	in := filepath.Join(r.tmp, "inputs.json")
	if inputs == nil {
		inputs = []uint64{}
	}
	b, _ := json.Marshal(inputs)
	if err := os.WriteFile(in, b, 0o666); err != nil {
		return "", 0, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	wd := filepath.Join(r.tmp, "wd")
	os.MkdirAll(wd, 0o777)
	bin := r.bin
	if r.useRace {
		bin = r.race
	}
	cmd := exec.CommandContext(ctx, bin)
	cmd.Dir = wd
	cmd.Env = append(goEnv(), "ND_FUNC="+fn, "ND_INPUTS="+in, fmt.Sprintf("ND_REPEAT=%d", repeat), "ND_TIER="+r.c.tier, "TMPDIR="+r.tmp, "GOMEMLIMIT=2GiB")
	cmd.WaitDelay = time.Second
	t0 := time.Now()
	out, err := cmd.CombinedOutput()
	if time.Since(t0) > 2*time.Second && repeat == 1 {
		r.slow = true
	}
	if len(out) > 200000 {
		out = out[:200000]
	}
	if ctx.Err() != nil {
		return string(out), -1, nil
	}
	if err != nil {
		if x, ok := err.(*exec.ExitError); ok {
			return string(out), x.ExitCode(), nil
		}
		return "", 0, err
	}
	return string(out), 0, nil
}

func tail(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	var k []string
	for _, x := range l {
		if !strings.HasPrefix(x, "ND-OBS") {
			k = append(k, x)
		}
	}
	if len(k) > 6 {
		k = k[len(k)-6:]
	}
	r := strings.Join(k, "\n")
	if len(r) > 1200 {
		r = r[:1200]
	}
	return r
}

// confirm reports whether the native build shows the failure.
func (r *replayer) confirm(fn string, f Failure) (bool, string) {
	if f.Sched { // the scheduler of the race detector is random
		if err := r.buildRace(); err == nil {
			r.useRace = true
			defer func() { r.useRace = false }()
			out, code, err := r.run(fn, f.Inputs, 3000, 60*time.Second)
			if err != nil {
				return false, err.Error()
			}
			ok := strings.Contains(out, "DATA RACE") || strings.Contains(out, "fatal error: ") || code == 3 && strings.Contains(out, "ND-FAIL ") || strings.Contains(out, "ND-PANIC")
			if ok || f.Kind == "race" {
				return ok, tail(out)
			}
			r.useRace = false
		}
	}
	switch f.Kind {
	case "nontermination":
		out, code, err := r.run(fn, f.Inputs, 1, 20*time.Second)
		if err != nil {
			return false, err.Error()
		}
		return code == -1 || strings.Contains(out, "stack overflow") || strings.Contains(out, "out of memory") || strings.Contains(out, "all goroutines are asleep"), tail(out)
	case "panic":
		out, code, err := r.run(fn, f.Inputs, 100, 30*time.Second)
		if err != nil {
			return false, err.Error()
		}
		return code == 5 || code == 2 || strings.Contains(out, "ND-PANIC"), tail(out)
	}
	out, code, err := r.run(fn, f.Inputs, 400, 30*time.Second)
	if err != nil {
		return false, err.Error()
	}
	return code == 3 && strings.Contains(out, "ND-FAIL "+f.Msg), tail(out)
}

// validate replays a completed path and compares the observations.
func (r *replayer) validate(fn string, s Sample) (bool, string) {
	out, code, err := r.run(fn, s.Inputs, 1, 30*time.Second)
	if err != nil {
		return false, err.Error()
	}
	if code != 0 {
		return false, fmt.Sprintf("exit %d: %s", code, tail(out))
	}
	var obs []string
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "ND-OBS ") {
			obs = append(obs, strings.TrimPrefix(l, "ND-OBS "))
		}
	}
	if len(obs) != len(s.Obs) {
		return false, fmt.Sprintf("%d observations natively, %d symbolically", len(obs), len(s.Obs))
	}
	for i := range obs {
		if obs[i] != s.Obs[i] {
			return false, fmt.Sprintf("observation %q natively, %q symbolically", obs[i], s.Obs[i])
		}
	}
	return true, ""
}
