package logging

import (
	"github.com/buypal/oapi-go/internal/logging"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
)

var levels = []struct {
	name  string
	level logging.Level
}{{"panic", 0}, {"fatal", 1}, {"error", 2}, {"warn", 3}, {"warning", 3}, {"info", 4}, {"debug", 5}, {"trace", 6}}

// Every text of 0..4 (quick) / 0..5 (thorough) ASCII characters: it is a level exactly when it is the name of one in any letter case, and that one.
func C26_short_names() { level(nd.String("name", 0, nd.Bound(4, 5), "")) }

// The name of every level with each letter in either case, and a symbolic byte in place of one of its letters, before or after it, or none.
func C26_level_names() {
	name := levels[nd.Choose("level", len(levels))].name
	b := []byte(name)
	for i := range b {
		if nd.Bool("upper") {
			b[i] -= 'a' - 'A'
		}
	}
	x := nd.Byte("byte")
	switch k := nd.Choose("where", len(b)+3); {
	case k < len(b):
		b[k] = x
	case k == len(b):
		b = append(b, x)
	case k == len(b)+1:
		b = append([]byte{x}, b...)
	}
	level(string(b))
}

func level(s string) {
	low := make([]byte, len(s))
	for i := range low {
		c := s[i]
		nd.Assume(c < 0x80)
		if c >= 'A' && c <= 'Z' {
			c += 'a' - 'A'
		}
		low[i] = c
	}
	l, err := logging.ParseLevel(s)
	for _, x := range levels {
		if string(low) == x.name {
			nd.Assert(err == nil && l == x.level, "the name of a level is not that level")
			nd.Cover("ok")
			return
		}
	}
	nd.Assert(err != nil, "a text that is no level is accepted")
	nd.Cover("ok")
}

// Every level and any message: what is logged through the logger reaches its function with that level, message and arguments, exactly once; the void logger accepts everything and does nothing.
func C26_messages() {
	msg := nd.String("msg", 0, 3, "")
	arg := nd.Int("arg", 0, 1000)
	var n int
	var lvl logging.Level
	var text string
	var args []interface{}
	p := logging.NewLogger(func(l logging.Level, m string, a ...interface{}) {
		n++
		lvl, text, args = l, m, a
	})
	want := logging.Level(nd.Choose("level", 7))
	run := func(p logging.Printer) {
		switch nd.Choose("how", 2) {
		case 0:
			logging.Log(p, want, msg, arg)
		case 1:
			switch want {
			case logging.FatalLevel:
				logging.Fatal(p, msg, arg)
			case logging.WarnLevel:
				logging.Warn(p, msg, arg)
			case logging.InfoLevel:
				logging.Info(p, msg, arg)
			case logging.DebugLevel:
				logging.Debug(p, msg, arg)
			default:
				p.Printf(want, msg, arg)
			}
		}
	}
	run(logging.Void())
	run(p)
	nd.Assert(n == 1, "a message is lost or repeated")
	nd.Assert(lvl == want && text == msg, "a message is logged with another level or text")
	nd.Assert(len(args) == 1 && args[0] == interface{}(arg), "arguments of a message are lost")
	nd.Cover("ok")
}

// Messages of 0..300 bytes with any byte at either end, and 0..20 arguments: they reach the function as they are.
func C26_long_messages() {
	b := nd.String("byte", 1, 1, "")
	long := ""
	for i := []int{0, 1, 79, 80, 255, 256, 298}[nd.Choose("length", 7)]; i > 0; i-- {
		long += "m"
	}
	msg := []string{b + long, long + b, b + long + b}[nd.Choose("at", 3)]
	var want []interface{}
	for i := []int{0, 1, 2, 5, 10, 20}[nd.Choose("args", 6)]; i > 0; i-- {
		want = append(want, i)
	}
	n := 0
	p := logging.NewLogger(func(l logging.Level, m string, a ...interface{}) {
		n++
		nd.Assert(l == logging.WarnLevel && m == msg, "a message is logged with another level or text")
		nd.Assert(len(a) == len(want), "arguments of a message are lost")
		for i := range a {
			nd.Assert(a[i] == want[i], "arguments of a message are lost")
		}
	})
	logging.Warn(p, msg, want...)
	logging.Log(p, logging.WarnLevel, msg, want...)
	nd.Assert(n == 2, "a message is lost or repeated")
	nd.Cover("ok")
}
