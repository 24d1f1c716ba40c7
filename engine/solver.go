package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

// Solver drives one z3 process over a pipe.
type Solver struct {
	tt    *TermTab
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	since int
	cache map[string]cacheEnt

	Queries  int64 // sent to the solver process
	Hits     int64 // answered from the cache of earlier solver verdicts
	Unknowns int64
	Time     time.Duration
	bin      string
}

type cacheEnt struct {
	r SatRes
	m map[int32]uint64
}

func newSolver(tt *TermTab, bin string) *Solver {
	return &Solver{tt: tt, cache: map[string]cacheEnt{}, bin: bin}
}

func (s *Solver) start() {
	s.stop()
	for _, x := range s.tt.tab {
		x.defd = false
	}
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		panic(engineErr("solver: " + err.Error()))
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.since = 0
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout 20000)\n(set-logic QF_BV)\n")
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Check decides the conjunction of cs and returns a model of their variables.
func (s *Solver) Check(cs []*Term) (SatRes, map[int32]uint64) {
	ids := make([]int, 0, len(cs))
	uniq := cs[:0:0]
	for _, c := range cs {
		if c == s.tt.T {
			continue
		}
		if c == s.tt.F {
			return Unsat, nil
		}
		uniq = append(uniq, c)
		ids = append(ids, int(c.id))
	}
	if len(uniq) == 0 {
		return Sat, map[int32]uint64{}
	}
	sort.Ints(ids)
	var kb []byte
	for i, d := range ids {
		if i > 0 && ids[i-1] == d {
			continue
		}
		kb = append(kb, byte(d), byte(d>>8), byte(d>>16), byte(d>>24))
	}
	key := string(kb)
	if e, ok := s.cache[key]; ok {
		s.Hits++
		return e.r, e.m
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	if s.cmd == nil || s.since > 60000 {
		s.start()
	}
	s.since++
	s.Queries++
	var sb strings.Builder
	names := make([]string, len(uniq))
	vs := map[int32]bool{}
	for i, c := range uniq {
		names[i] = s.tt.emit(c, &sb)
		for _, v := range c.vars {
			vs[v] = true
		}
	}
	vars := make([]int32, 0, len(vs))
	for v := range vs {
		vars = append(vars, v)
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i] < vars[j] })
	sb.WriteString("(push 1)\n")
	for _, n := range names {
		sb.WriteString("(assert ")
		sb.WriteString(n)
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	io.WriteString(s.in, sb.String())
	line, err := s.out.ReadString('\n')
	if err != nil {
		s.stop()
		s.Unknowns++
		return Unknown, nil
	}
	line = strings.TrimSpace(line)
	var res SatRes
	var model map[int32]uint64
	switch line {
	case "sat":
		res = Sat
		model = make(map[int32]uint64, len(vars))
		var q strings.Builder
		q.WriteString("(get-value (")
		for _, v := range vars {
			q.WriteString(" " + vSMT(s.tt.vars[v]))
		}
		q.WriteString("))\n(pop 1)\n")
		io.WriteString(s.in, q.String())
		txt := s.readSexp()
		parseModel(txt, model, s.tt)
	case "unsat":
		res = Unsat
		io.WriteString(s.in, "(pop 1)\n")
	default:
		s.Unknowns++
		res = Unknown
		s.stop() // any "(error" or timeout: restart, inconclusive
	}
	if res != Unknown {
		if len(s.cache) > 400000 {
			s.cache = map[string]cacheEnt{}
		}
		s.cache[key] = cacheEnt{res, model}
	}
	return res, model
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			panic(engineErr("solver died reading model"))
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
		} else if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	return sb.String()
}

func parseModel(txt string, m map[int32]uint64, tt *TermTab) {
	// ((v0_8 #x41) (v1_0 true) ...)
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i+1 < len(f); i += 2 {
		n := f[i]
		if !strings.HasPrefix(n, "v") {
			panic(engineErr("bad model: " + txt))
		}
		us := strings.IndexByte(n, '_')
		id, err := strconv.Atoi(n[1:us])
		if err != nil {
			panic(engineErr("bad model: " + txt))
		}
		var v uint64
		switch x := f[i+1]; {
		case x == "true":
			v = 1
		case x == "false":
			v = 0
		case strings.HasPrefix(x, "#x"):
			v, err = strconv.ParseUint(x[2:], 16, 64)
		case strings.HasPrefix(x, "#b"):
			v, err = strconv.ParseUint(x[2:], 2, 64)
		default:
			panic(engineErr("bad model value: " + txt))
		}
		if err != nil {
			panic(engineErr("bad model: " + txt))
		}
		m[int32(id)] = v
	}
}

type engineErr string

func (e engineErr) Error() string { return string(e) }
