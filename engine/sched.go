package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// Goroutines: every interpreted goroutine runs on a goroutine of its own, one at a time. At each synchronisation
// operation the next one to run is a decision of the path like any other: all schedules are explored in which at
// most `bound` switches happen where the running goroutine could have gone on (nd.Schedules; without it goroutines
// run until they wait). Accesses to variables and maps that no synchronisation orders are data races (vector clocks).

type thr struct {
	id     int
	cur    *frame
	depth  int
	resume chan struct{}
	wait   func() bool // nil: may run
	done   bool
	vc     []int
	ack    chan struct{}
}

type access struct {
	w  int // writer+1
	wc int
	r  []int
}

type sched struct {
	ts    []*thr
	cur   *thr
	pre   int
	abort any
	kill  bool
	clk   map[any][]int
	acc   map[any]*access
	quiet int
}

type lockSt struct {
	w bool
	r int
}

type killed struct{}
type crash struct { // a panic that no function of its goroutine recovers ends the program
	msg, where string
}
type deadlock struct{}

func (m *Machine) locks() map[*Val]*lockSt {
	l, _ := m.ext["locks"].(map[*Val]*lockSt)
	if l == nil {
		l = map[*Val]*lockSt{}
		m.ext["locks"] = l
	}
	return l
}

func (m *Machine) lockOf(p *Val) *lockSt {
	l := m.locks()
	s := l[p]
	if s == nil {
		s = &lockSt{}
		l[p] = s
	}
	return s
}

// spawn starts a goroutine.
func (m *Machine) spawn(f func()) *thr {
	s := m.sch
	if s == nil {
		s = &sched{clk: map[any][]int{}, acc: map[any]*access{}}
		s.cur = &thr{resume: make(chan struct{}), vc: []int{1}}
		s.ts = []*thr{s.cur}
		m.sch = s
		m.sched = true
	}
	if len(s.ts) > 64 {
		panic(unsupported("more than 64 goroutines"))
	}
	t := &thr{id: len(s.ts), resume: make(chan struct{}), ack: make(chan struct{})}
	t.vc = append([]int(nil), s.cur.vc...)
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id] = 1
	s.tick()
	s.ts = append(s.ts, t)
	go func() {
		<-t.resume
		defer func() {
			t.done = true
			r := recover()
			if s.kill {
				close(t.ack)
				return
			}
			if r == nil {
				func() {
					defer func() { r = recover() }()
					m.pass(t)
				}()
				if r == nil {
					return
				}
			}
			if gp, ok := r.(goPanic); ok {
				func() {
					defer func() {
						if x := recover(); x != nil {
							r = x
						}
					}()
					r = crash{m.panicText(gp.v), gp.where}
				}()
			}
			s.abort = r
			m.to(s.ts[0])
		}()
		if s.kill {
			return
		}
		f()
	}()
	return t
}

func (s *sched) tick() { s.cur.vc[s.cur.id]++ }

// runnable lists goroutines that may run, the current one first.
func (s *sched) runnable() (out []*thr) {
	ok := func(t *thr) bool { return !t.done && (t.wait == nil || t.wait()) }
	if ok(s.cur) {
		out = append(out, s.cur)
	}
	for _, t := range s.ts {
		if t != s.cur && ok(t) {
			out = append(out, t)
		}
	}
	return
}

func (m *Machine) to(t *thr) {
	s := m.sch
	if s.cur != t {
		s.cur.cur, s.cur.depth = m.cur, m.depth
		s.cur = t
		m.cur, m.depth = t.cur, t.depth
	}
	t.resume <- struct{}{}
}

// pass gives control away for good, after the end of a goroutine.
func (m *Machine) pass(t *thr) {
	s := m.sch
	ts := s.runnable()
	if len(ts) == 0 {
		panic(deadlock{})
	}
	m.to(ts[m.pick(len(ts))])
}

func (m *Machine) pick(n int) int {
	if m.schedBound == 0 {
		return 0
	}
	return m.choose(n)
}

func (m *Machine) switchTo(t *thr) {
	s := m.sch
	me := s.cur
	if t == me {
		return
	}
	m.to(t)
	<-me.resume
	if s.kill {
		panic(killed{})
	}
	if me.id == 0 && s.abort != nil {
		panic(s.abort)
	}
}

// point is a place where another goroutine may go on.
func (m *Machine) point() {
	s := m.sch
	if s == nil || m.initing > 0 || s.quiet > 0 || s.pre >= m.schedBound {
		return
	}
	ts := s.runnable()
	if len(ts) < 2 {
		return
	}
	if k := m.choose(len(ts)); k > 0 {
		s.pre++
		m.switchTo(ts[k])
	}
}

// block waits for a condition.
func (m *Machine) block(cond func() bool) {
	if m.initing > 0 {
		return
	}
	if cond() {
		return
	}
	s := m.sch
	if s == nil {
		panic(deadlock{})
	}
	me := s.cur
	me.wait = cond
	for !cond() {
		ts := s.runnable()
		if len(ts) == 0 {
			panic(deadlock{})
		}
		m.switchTo(ts[m.pick(len(ts))])
	}
	me.wait = nil
}

// endThreads ends all goroutines but the first.
func (m *Machine) endThreads() {
	s := m.sch
	if s == nil {
		return
	}
	s.kill = true
	for _, t := range s.ts[1:] {
		if !t.done {
			t.resume <- struct{}{}
			<-t.ack
		}
	}
	m.sch = nil
}

// ---- order of accesses ----

func join(a, b []int) []int {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, v := range b {
		if v > a[i] {
			a[i] = v
		}
	}
	return a
}

// acquire orders all that was released on x before what follows, release all that happened before what follows an acquire.
func (m *Machine) acquire(x any) {
	if s := m.sch; s != nil {
		s.cur.vc = join(s.cur.vc, s.clk[x])
	}
}

func (m *Machine) release(x any) {
	if s := m.sch; s != nil {
		s.clk[x] = join(s.clk[x], s.cur.vc)
		s.tick()
	}
}

func (s *sched) before(t, c int) bool { return t < len(s.cur.vc) && s.cur.vc[t] >= c }

func (m *Machine) track(x any, write bool) {
	s := m.sch
	if s.quiet > 0 || m.initing > 0 {
		return
	}
	a := s.acc[x]
	if a == nil {
		a = &access{}
		s.acc[x] = a
	}
	me := s.cur
	if a.w > 0 && a.w-1 != me.id && !s.before(a.w-1, a.wc) {
		m.race()
	}
	if !write {
		for len(a.r) <= me.id {
			a.r = append(a.r, 0)
		}
		a.r[me.id] = me.vc[me.id]
		return
	}
	for t, c := range a.r {
		if c > 0 && t != me.id && !s.before(t, c) {
			m.race()
		}
	}
	a.w, a.wc = me.id+1, me.vc[me.id]
}

func (m *Machine) trackVal(p *Val, write bool) {
	switch s := p.x.(type) {
	case Struct:
		for i := range s {
			m.trackVal(&s[i], write)
		}
		if len(s) == 0 {
			return
		}
	case Array:
		for i := range s {
			m.trackVal(&s[i], write)
		}
	default:
		m.track(p, write)
	}
}

func (m *Machine) race() {
	m.fail("race", "data race", "", m.model)
	panic(pathEnd("race"))
}

// racing tells if accesses have to be tracked.
func (m *Machine) racing() bool { return m.sch != nil && m.races }

// ---- channels ----

type chanV struct {
	buf    []Val
	size   int
	sendq  []*sending
	recvw  int
	closed bool
}

type sending struct {
	v     Val
	taken bool
}

func (m *Machine) chanLog(c *chanV) {
	old := *c
	m.logFn(func() { *c = old })
}

func (c *chanV) canRecv() bool { return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed }
func (c *chanV) canSend() bool {
	return c.closed || len(c.buf) < c.size || c.recvw > len(c.sendq)
}

func chanOf(m *Machine, v Val) *chanV {
	if v.x == nil {
		return nil
	}
	c, ok := v.x.(*chanV)
	if !ok {
		m.poisonCheck(v)
		panic(engineErr(fmt.Sprintf("channel is %T", v.x)))
	}
	return c
}

func never() bool { return false }

func (m *Machine) chanSend(c *chanV, v Val) {
	m.point()
	if c == nil {
		m.block(never)
	}
	if c.closed {
		m.goPanicStr("send on closed channel")
	}
	m.release(c)
	m.chanLog(c)
	if len(c.buf) < c.size {
		c.buf = append(c.buf[:len(c.buf):len(c.buf)], v)
		return
	}
	it := &sending{v: v}
	c.sendq = append(c.sendq[:len(c.sendq):len(c.sendq)], it)
	m.block(func() bool { return it.taken || c.closed })
	if !it.taken {
		m.goPanicStr("send on closed channel")
	}
	m.acquire(c)
}

// take receives from a channel that is ready.
func (m *Machine) take(c *chanV) (v Val, ok bool) {
	m.acquire(c)
	m.release(c)
	m.chanLog(c)
	switch {
	case len(c.buf) > 0:
		v, ok = c.buf[0], true
		c.buf = c.buf[1:]
		if len(c.sendq) > 0 {
			it := c.sendq[0]
			it.taken = true
			c.sendq = c.sendq[1:]
			c.buf = append(c.buf[:len(c.buf):len(c.buf)], it.v)
		}
	case len(c.sendq) > 0:
		it := c.sendq[0]
		it.taken = true
		c.sendq = c.sendq[1:]
		v, ok = it.v, true
	}
	return
}

func (m *Machine) chanRecv(c *chanV) (Val, bool) {
	m.point()
	if c == nil {
		m.block(never)
	}
	c.recvw++
	func() {
		defer func() { c.recvw-- }()
		m.block(c.canRecv)
	}()
	return m.take(c)
}

func (m *Machine) chanClose(c *chanV) {
	m.point()
	if c == nil {
		m.goPanicStr("close of nil channel")
	}
	if c.closed {
		m.goPanicStr("close of closed channel")
	}
	m.release(c)
	m.chanLog(c)
	c.closed = true
}

// selects performs a select statement and gives the index of its case and what was received.
func (m *Machine) selects(x *ssa.Select, chans []*chanV, vals []Val) (k int, v Val, ok bool) {
	m.point()
	ready := func() (out []int) {
		for i, st := range x.States {
			c := chans[i]
			if c == nil {
				continue
			}
			if st.Dir == 2 && c.canRecv() || st.Dir == 1 && c.canSend() {
				out = append(out, i)
			}
		}
		return
	}
	r := ready()
	if len(r) == 0 {
		if !x.Blocking {
			return -1, Val{}, false
		}
		for i, st := range x.States {
			if st.Dir == 2 && chans[i] != nil {
				chans[i].recvw++
			}
		}
		func() {
			defer func() {
				for i, st := range x.States {
					if st.Dir == 2 && chans[i] != nil {
						chans[i].recvw--
					}
				}
			}()
			m.block(func() bool { return len(ready()) > 0 })
		}()
		r = ready()
	}
	k = r[m.choose(len(r))]
	c := chans[k]
	if x.States[k].Dir == 2 {
		v, ok = m.take(c)
		return
	}
	if c.closed {
		m.goPanicStr("send on closed channel")
	}
	m.release(c)
	m.chanLog(c)
	if len(c.buf) < c.size {
		c.buf = append(c.buf[:len(c.buf):len(c.buf)], vals[k])
	} else {
		c.sendq = append(c.sendq[:len(c.sendq):len(c.sendq)], &sending{v: vals[k]})
	}
	return
}

// ---- package sync ----

func schedIntrinsics(I map[string]intrinsicFn) {
	fatal := func(m *Machine, s string) {
		panic(crash{s, m.stack(6)})
	}
	lock := func(m *Machine, fr *frame, a []Val) Val {
		if m.initing > 0 {
			return Val{}
		}
		p := ptrOrNil(m, a[0])
		m.point()
		l := m.lockOf(p)
		m.block(func() bool { return !l.w && l.r == 0 })
		l.w = true
		m.acquire(p)
		return Val{}
	}
	unlock := func(m *Machine, fr *frame, a []Val) Val {
		if m.initing > 0 {
			return Val{}
		}
		p := ptrOrNil(m, a[0])
		l := m.lockOf(p)
		if !l.w {
			fatal(m, "sync: unlock of unlocked mutex")
		}
		l.w = false
		m.release(p)
		m.point()
		return Val{}
	}
	rlock := func(m *Machine, fr *frame, a []Val) Val {
		if m.initing > 0 {
			return Val{}
		}
		p := ptrOrNil(m, a[0])
		m.point()
		l := m.lockOf(p)
		m.block(func() bool { return !l.w })
		l.r++
		m.acquire(p)
		return Val{}
	}
	runlock := func(m *Machine, fr *frame, a []Val) Val {
		if m.initing > 0 {
			return Val{}
		}
		p := ptrOrNil(m, a[0])
		l := m.lockOf(p)
		if l.r == 0 {
			fatal(m, "sync: RUnlock of unlocked RWMutex")
		}
		l.r--
		m.release(rkey{p})
		m.point()
		return Val{}
	}
	wlock := func(m *Machine, fr *frame, a []Val) Val {
		lock(m, fr, a)
		if m.initing == 0 {
			m.acquire(rkey{ptrOrNil(m, a[0])})
		}
		return Val{}
	}
	I["(*sync.Mutex).Lock"] = lock
	I["(*sync.Mutex).Unlock"] = unlock
	I["(*sync.RWMutex).Lock"] = wlock
	I["(*sync.RWMutex).Unlock"] = unlock
	I["(*sync.RWMutex).RLock"] = rlock
	I["(*sync.RWMutex).RUnlock"] = runlock
	try := func(w bool) intrinsicFn {
		return func(m *Machine, fr *frame, a []Val) Val {
			if m.initing > 0 {
				return boolV(true)
			}
			p := ptrOrNil(m, a[0])
			m.point()
			l := m.lockOf(p)
			if l.w || w && l.r > 0 {
				return boolV(false)
			}
			if w {
				l.w = true
				m.acquire(rkey{p})
			} else {
				l.r++
			}
			m.acquire(p)
			return boolV(true)
		}
	}
	I["(*sync.Mutex).TryLock"] = try(true)
	I["(*sync.RWMutex).TryLock"] = try(true)
	I["(*sync.RWMutex).TryRLock"] = try(false)

	group := func(m *Machine, p *Val) *int {
		l, _ := m.ext["groups"].(map[*Val]*int)
		if l == nil {
			l = map[*Val]*int{}
			m.ext["groups"] = l
		}
		if l[p] == nil {
			l[p] = new(int)
		}
		return l[p]
	}
	add := func(m *Machine, p *Val, d int) {
		if m.initing > 0 {
			return
		}
		n := group(m, p)
		*n += d
		if *n < 0 {
			m.goPanicStr("sync: negative WaitGroup counter")
		}
		m.release(p)
		m.point()
	}
	I["(*sync.WaitGroup).Add"] = func(m *Machine, fr *frame, a []Val) Val {
		add(m, ptrOrNil(m, a[0]), int(m.concInt(a[1])))
		return Val{}
	}
	I["(*sync.WaitGroup).Done"] = func(m *Machine, fr *frame, a []Val) Val {
		add(m, ptrOrNil(m, a[0]), -1)
		return Val{}
	}
	I["(*sync.WaitGroup).Wait"] = func(m *Machine, fr *frame, a []Val) Val {
		if m.initing > 0 {
			return Val{}
		}
		p := ptrOrNil(m, a[0])
		m.point()
		n := group(m, p)
		m.block(func() bool { return *n == 0 })
		m.acquire(p)
		return Val{}
	}
	I["(*sync.WaitGroup).Go"] = func(m *Machine, fr *frame, a []Val) Val {
		p, f := ptrOrNil(m, a[0]), a[1]
		add(m, p, 1)
		m.spawn(func() {
			m.callVal(f, nil)
			add(m, p, -1)
		})
		m.point()
		return Val{}
	}
	I["(*sync.Once).Do"] = func(m *Machine, fr *frame, a []Val) Val {
		p := ptrOrNil(m, a[0])
		m.point()
		if m.initing == 0 {
			m.block(func() bool { return m.onces[p] != 1 })
		}
		if m.onces[p] == 2 {
			m.acquire(p)
			return Val{}
		}
		old := m.onces[p]
		m.onces[p] = 1
		if m.initing == 0 {
			m.logFn(func() { m.onces[p] = old })
		}
		defer func() {
			m.onces[p] = 2
			m.release(p)
		}()
		m.callVal(a[1], nil)
		return Val{}
	}
	// accesses inside atomic operations order instead of racing
	for _, n := range []string{"Load", "Store", "Swap", "Add", "And", "Or", "CompareAndSwap"} {
		for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			atomically(I, "sync/atomic."+n+ty)
		}
	}
	for _, n := range []string{"(*sync/atomic.Value).Load", "(*sync/atomic.Value).Store", "(*sync.Map).Load", "(*sync.Map).Store", "(*sync.Map).Delete", "(*sync.Map).LoadOrStore"} {
		atomically(I, n)
	}
	I[ndPath+".Schedules"] = func(m *Machine, fr *frame, a []Val) Val {
		m.races = true
		m.schedBound = int(m.concInt(a[0]))
		return Val{}
	}
	I[ndPath+".Parallel"] = func(m *Machine, fr *frame, a []Val) Val {
		fs, _ := a[0].x.(Slice)
		left := len(fs)
		key := new(int)
		for _, f := range fs {
			f := f
			m.spawn(func() {
				m.callVal(f, nil)
				left--
				m.release(key)
			})
		}
		m.block(func() bool { return left == 0 })
		m.acquire(key)
		return Val{}
	}
}

type rkey struct{ p *Val }

func atomically(I map[string]intrinsicFn, n string) {
	f := I[n]
	if f == nil {
		return
	}
	I[n] = func(m *Machine, fr *frame, a []Val) Val {
		if m.sch == nil {
			return f(m, fr, a)
		}
		s := m.sch
		m.point()
		s.quiet++
		defer func() { s.quiet-- }()
		if len(a) > 0 {
			if p, ok := a[0].x.(*Val); ok {
				m.acquire(p)
				defer m.release(p)
			}
		}
		return f(m, fr, a)
	}
}

func ptrOrNil(m *Machine, v Val) *Val {
	if v.x == nil {
		m.nilDeref()
	}
	return ptrTo(v, "sync")
}
