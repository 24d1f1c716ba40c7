// Package nd is the nondeterminism interface of the verification harnesses.
//
// Under the symbolic engine every function here is intercepted: the returned
// values become solver variables. Compiled natively the same functions read the
// values of a recorded model (ND_INPUTS), which is how counterexamples are
// replayed against the real build.
package nd

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

var (
	inputs []uint64
	pos    int
	tmp    string
)

func next() uint64 {
	if pos >= len(inputs) {
		pos++
		return 0
	}
	v := inputs[pos]
	pos++
	return v
}

// Byte is an arbitrary byte.
func Byte(label string) byte { return byte(next()) }

// Bool is an arbitrary boolean.
func Bool(label string) bool { return next() != 0 }

// Int is an arbitrary integer in [lo, hi]; it stays symbolic.
func Int(label string, lo, hi int) int { return int(next()) }

// Int64 is an arbitrary 64-bit integer; it stays symbolic.
func Int64(label string) int64 { return int64(next()) }

// Choose is an arbitrary integer in [0, n); the engine forks on it.
func Choose(label string, n int) int { return int(next()) }

// String is an arbitrary string of length [min, max] over charset ("" = any byte).
func String(label string, min, max int, charset string) string {
	n := min
	if max > min {
		n = int(next())
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next())
	}
	return string(b)
}

// OneOf is one of the given strings; the engine forks on it.
func OneOf(label string, ss ...string) string { return ss[Choose(label, len(ss))] }

type assumeFailed struct{}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}

type pointless struct{}

type failed struct{ msg string }

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(failed{msg})
	}
}

// AssertKnown is Assert for an assertion whose failures are the listed known finding id.
func AssertKnown(c bool, msg, id string) { Assert(c, msg) }

// Cover marks a point that has to be reachable (vacuity guard).
func Cover(label string) {}

// MapOrder selects how map iteration order is explored (engine only).
func MapOrder(mode int) {}

// Bound returns q in the quick tier and t in the thorough tier.
func Bound(q, t int) int {
	if os.Getenv("ND_TIER") == "thorough" {
		return t
	}
	return q
}

// Native reports whether the code runs natively (replay) rather than symbolically.
func Native() bool { return true }

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case failed, assumeFailed:
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

var quiet bool

// Observe records a value that native replays must reproduce.
func Observe(label string, v interface{}) {
	if quiet || os.Getenv("ND_CHILD") != "" {
		return
	}
	fmt.Printf("ND-OBS %s=%s\n", label, render(v))
}

func render(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case error:
		return "err"
	case string:
		return fmt.Sprintf("%x", x)
	case []byte:
		return fmt.Sprintf("%x", x)
	case bool:
		return fmt.Sprintf("%v", x)
	case int:
		return fmt.Sprintf("%d", x)
	case []string:
		s := "["
		for i, e := range x {
			if i > 0 {
				s += " "
			}
			s += fmt.Sprintf("%x", e)
		}
		return s + "]"
	}
	return fmt.Sprintf("?%T", v)
}

// TempDir is an empty directory (virtual under the engine).
func TempDir() string {
	if d := os.Getenv("ND_CHILD"); d != "" {
		return d
	}
	if tmp == "" {
		d, err := ioutil.TempDir("", "nd")
		if err != nil {
			panic(err)
		}
		tmp = d
	}
	return tmp
}

// Chdir makes dir, below TempDir, the working directory until the end of the path.
func Chdir(dir string) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
}

// WriteFile creates a file below TempDir.
func WriteFile(path string, data string) {
	if os.Getenv("ND_CHILD") != "" {
		return
	}
	os.MkdirAll(filepath.Dir(path), 0o777)
	if err := ioutil.WriteFile(path, []byte(data), 0o666); err != nil {
		panic(err)
	}
}

// ReadFile reads a file back ("" and false when it does not exist).
func ReadFile(path string) (string, bool) {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		return "", false
	}
	return string(b), true
}

// Symlink creates a symbolic link below TempDir.
func Symlink(target, name string) {
	if os.Getenv("ND_CHILD") != "" {
		return
	}
	os.MkdirAll(filepath.Dir(name), 0o777)
	if err := os.Symlink(target, name); err != nil {
		panic(err)
	}
}

// List is the names of all entries of a directory.
func List(dir string) (names []string) {
	fi, _ := ioutil.ReadDir(dir)
	for _, f := range fi {
		names = append(names, f.Name())
	}
	return
}

// Link is where the symbolic link name leads to, "" if it is none.
func Link(name string) string {
	s, _ := os.Readlink(name)
	return s
}

// SetMode sets the permissions of a file.
func SetMode(name string, mode int) {
	if os.Getenv("ND_CHILD") != "" {
		return
	}
	if err := os.Chmod(name, os.FileMode(mode)); err != nil {
		panic(err)
	}
}

// Mode is the permissions of a file, -1 if there is none.
func Mode(name string) int {
	fi, err := os.Stat(name)
	if err != nil {
		return -1
	}
	return int(fi.Mode().Perm())
}

var (
	limit      = -1
	interrupts bool
	watched    string
	moments    []moment
)

type moment struct {
	text  string
	there bool
}

// Watch keeps track of what a file holds while the program that Exits runs works on files, see Moments.
func Watch(name string) { watched = name }

// Moments is what the watched file held, and whether it was there, after each operation on files of the program that Exits ran.
// Natively these are what the system tells of the directory of the file (a write in place gives a text that is no content).
func Moments() (text []string, there []bool) {
	for _, x := range moments {
		text, there = append(text, x.text), append(there, x.there)
	}
	return
}

// watcher starts to watch the file, the function it gives takes down what happened.
func watcher() func() {
	if watched == "" {
		return func() {}
	}
	file := watched
	for i := 0; i < 40; i++ {
		l, err := os.Readlink(file)
		if err != nil {
			break
		}
		if !filepath.IsAbs(l) {
			l = filepath.Join(filepath.Dir(file), l)
		}
		file = l
	}
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		return func() {}
	}
	syscall.InotifyAddWatch(fd, filepath.Dir(file), syscall.IN_CREATE|syscall.IN_DELETE|syscall.IN_MOVED_FROM|syscall.IN_MOVED_TO|syscall.IN_MODIFY)
	return func() {
		defer syscall.Close(fd)
		buf := make([]byte, 1<<16)
		for {
			n, err := syscall.Read(fd, buf)
			if err != nil || n <= 0 {
				return
			}
			for i := 0; i+syscall.SizeofInotifyEvent <= n; {
				mask := *(*uint32)(unsafe.Pointer(&buf[i+4]))
				l := int(*(*uint32)(unsafe.Pointer(&buf[i+12])))
				i += syscall.SizeofInotifyEvent
				name := strings.TrimRight(string(buf[i:i+l]), "\x00")
				i += l
				switch {
				case name != filepath.Base(file):
				case mask&syscall.IN_CREATE != 0:
					moments = append(moments, moment{"", true})
				case mask&(syscall.IN_DELETE|syscall.IN_MOVED_FROM) != 0:
					moments = append(moments, moment{"", false})
				case mask&syscall.IN_MODIFY != 0:
					moments = append(moments, moment{"\x00written in place", true})
				case mask&syscall.IN_MOVED_TO != 0:
					b, err := ioutil.ReadFile(file)
					moments = append(moments, moment{string(b), err == nil})
				}
			}
		}
	}
}

// FileLimit makes the program that Exits runs fail to write more than n bytes to a file.
func FileLimit(n int) { limit = n }

// Interrupts lets an interrupt reach the program that Exits runs at any time after it asked for interrupts, or not at all.
func Interrupts() { interrupts = true }

// Exits runs main as a program with the given arguments (the first is its name) in a directory and gives its exit code and what
// it wrote to the standard streams. It is used once in a harness. Natively the harness is run again in a process of its own up
// to this point.
func Exits(dir string, args []string, main func()) (code int, stdout, stderr string) {
	if os.Getenv("ND_CHILD") != "" {
		os.Args = args
		if limit >= 0 {
			signal.Ignore(syscall.SIGXFSZ)
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(limit), Max: uint64(limit)})
		}
		if interrupts {
			signal.Ignore(os.Interrupt) // until the program wants to know
		}
		go func() {
			main()
			os.Exit(0)
		}()
		select {}
	}
	cmd := exec.Command(os.Args[0])
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "ND_CHILD="+TempDir(), "ND_REPEAT=1", "PWD="+dir)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	run := func() error {
		if !interrupts || os.Getenv("ND_REPEAT") == "1" {
			return cmd.Run()
		}
		if err := cmd.Start(); err != nil {
			return err
		}
		time.Sleep(time.Duration(rand.Intn(30000)) * time.Microsecond)
		cmd.Process.Signal(os.Interrupt)
		return cmd.Wait()
	}
	done := watcher()
	err := run()
	done()
	if err != nil {
		x, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		if code = x.ExitCode(); code == -1 && interrupts { // the interrupt came before the program asked for it, or after it was done
			panic(pointless{})
		}
	}
	if i := bytes.Index(e.Bytes(), []byte("\n\ngoroutine ")); code == 2 && i >= 0 { // the stacks of a panic
		e.Truncate(i + 1)
	}
	return code, o.String(), e.String()
}

// Schedules lets the schedules of goroutines be explored in which at most n switches happen at synchronisation operations
// where the running goroutine could have gone on, and makes data races failures. Natively it does nothing.
func Schedules(n int) {}

// Parallel runs functions at the same time and waits for all of them.
func Parallel(fs ...func()) {
	var wg sync.WaitGroup
	start := make(chan bool)
	fail := make([]interface{}, len(fs))
	for i, f := range fs {
		i, f := i, f
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { fail[i] = recover() }()
			<-start
			f()
		}()
	}
	close(start)
	wg.Wait()
	for _, x := range fail {
		if x != nil {
			panic(x)
		}
	}
}

// SortStrings sorts in place (helper outside the code under test).
func SortStrings(s []string) { sort.Strings(s) }

// Main is the native replay entry point.
func Main(funcs map[string]func()) {
	f := funcs[os.Getenv("ND_FUNC")]
	if f == nil {
		fmt.Println("ND-NOFUNC")
		os.Exit(9)
	}
	b, err := ioutil.ReadFile(os.Getenv("ND_INPUTS"))
	if err != nil {
		fmt.Println("ND-NOINPUT")
		os.Exit(9)
	}
	if err := json.Unmarshal(b, &inputs); err != nil {
		fmt.Println("ND-NOINPUT")
		os.Exit(9)
	}
	n := 1
	fmt.Sscan(os.Getenv("ND_REPEAT"), &n)
	code := 0
	for i := 0; i < n && code == 0; i++ {
		pos, limit, interrupts = 0, -1, false
		quiet = i > 0
		code = once(f)
		if tmp != "" {
			os.Chdir("/")
			os.RemoveAll(tmp)
			tmp = ""
		}
	}
	os.Exit(code)
}

func once(f func()) (code int) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case failed:
				fmt.Printf("ND-FAIL %s\n", x.msg)
				code = 3
			case pointless:
				code = 0
			case assumeFailed:
				fmt.Println("ND-ASSUME")
				code = 4
			default:
				fmt.Printf("ND-PANIC %v\n", r)
				code = 5
			}
		}
	}()
	f()
	fmt.Println("ND-DONE")
	return 0
}
