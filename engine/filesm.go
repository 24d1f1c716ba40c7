package main

import (
	"go/types"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Programs: nd.Exits runs a main function with arguments in a directory of the virtual file system and gives what a
// process leaves behind: its exit code and what it wrote to the standard streams and files.

type exitSignal struct{ code int }

// openFile is what an *os.File stands for.
type openFile struct {
	name   string
	stream int // 1, 2: standard streams
	pos    int
	append bool
	write  bool
	closed bool
	dir    bool
	seen   int // entries of the directory given so far
}

const (
	eNOENT = 2
	eBADF  = 9
	eEXIST = 17
	eISDIR = 21
	eINVAL = 22
)

func (m *Machine) errnoError(op, name string, no uint64) Val {
	t := m.eng.lookupType("io/fs", "PathError")
	en := m.eng.lookupType("syscall", "Errno")
	p := Val{x: Struct{strV(op), strV(name), ifaceV(m.canon(en), Val{n: no})}}
	return ifaceV(m.canon(types.NewPointer(t)), Val{x: &p})
}

// abs is where the file of that name is, with links followed.
func (m *Machine) abs(name string) string { return m.follow(m.rawName(name), true) }

// absLink is like abs for names of links themselves.
func (m *Machine) absLink(name string) string {
	return m.follow(m.rawName(name), false)
}

// follow resolves links of p, that p itself is one only if last is set. As
// the kernel does, ".." is the parent of what the names before it lead to.
func (m *Machine) follow(p string, last bool) string {
	if m.ext["links"] == nil || p == "" {
		return path.Clean(p)
	}
	cur, hops := "/", 0
	for todo := strings.Split(p, "/"); len(todo) > 0; {
		c := todo[0]
		todo = todo[1:]
		switch c {
		case "", ".":
			continue
		case "..":
			cur = path.Dir(cur)
			continue
		}
		n := path.Join(cur, c)
		t, ok := m.ext["link:"+n].(string)
		if !ok || !last && len(todo) == 0 {
			cur = n
			continue
		}
		if hops++; hops > 40 {
			return "/too many links"
		}
		if path.IsAbs(t) {
			cur = "/"
		}
		todo = append(strings.Split(t, "/"), todo...)
	}
	return cur
}

// fullName is the absolute name of a file, rawName the same as it is written.
func (m *Machine) fullName(name string) string { return path.Clean(m.rawName(name)) }

func (m *Machine) rawName(name string) string {
	if path.IsAbs(name) || name == "" {
		return name
	}
	wd, _ := m.ext["cwd"].(string)
	if wd == "" {
		wd = "/ndwd"
	}
	return wd + "/" + name
}

func (m *Machine) dirExists(name string) bool {
	name = path.Clean(name)
	if name == "/" || name == "/tmp" || name == "/ndwd" || m.visDir(name) {
		return true
	}
	_, ok := m.ext["dir:"+name]
	return ok
}

func (m *Machine) files() map[*Val]*openFile {
	f, _ := m.ext["files"].(map[*Val]*openFile)
	if f == nil {
		f = map[*Val]*openFile{}
		m.ext["files"] = f
	}
	return f
}

// watch records what the watched file holds after each operation on files.
func (m *Machine) watch() {
	n, ok := m.ext["watched"].(string)
	if !ok || m.ext["program"] == nil {
		return
	}
	old, _ := m.ext["moments"].([]Val)
	v, there := m.vget(m.follow(n, true))
	if !there {
		v = strV("")
	}
	m.ext["moments"] = append(old[:len(old):len(old)], tuple(v, boolV(there)))
}

func (m *Machine) newFile(f *openFile) Val {
	v := m.zero(m.eng.lookupType("os", "File"))
	m.files()[&v] = f
	return Val{x: &v}
}

// fileOf gives the file behind an *os.File, including the standard streams.
func (m *Machine) fileOf(v Val) *openFile {
	p, ok := v.x.(*Val)
	if !ok {
		return nil
	}
	if f := m.files()[p]; f != nil {
		return f
	}
	if os := m.prog.ImportedPackage("os"); os != nil {
		for i, n := range []string{"Stdin", "Stdout", "Stderr"} {
			if g := os.Var(n); g != nil {
				if q, ok := m.globalAddr(g).x.(*Val); ok && q == p {
					return &openFile{name: "/dev/" + strings.ToLower(n), stream: i, write: i > 0}
				}
			}
		}
	}
	return nil
}

func (m *Machine) openFile(name string, flag, perm int) (Val, Val) {
	const (
		wronly, rdwr, create, excl, trunc, app = 1, 2, 0x40, 0x80, 0x200, 0x400
	)
	m.point()
	n := m.abs(name)
	if name == "" {
		return Val{}, m.errnoError("open", name, eNOENT)
	}
	if m.dirExists(n) {
		if flag&(wronly|rdwr|create) == 0 {
			return m.newFile(&openFile{name: n, dir: true}), Val{}
		}
		return Val{}, m.errnoError("open", name, eISDIR)
	}
	_, ok := m.vget(n)
	switch {
	case !ok && flag&create == 0, !ok && !m.dirExists(path.Dir(n)):
		return Val{}, m.errnoError("open", name, eNOENT)
	case ok && flag&(create|excl) == create|excl:
		return Val{}, m.errnoError("open", name, eEXIST)
	case !ok, flag&trunc != 0:
		m.vput(n, strV(""))
		if !ok {
			m.ext["mode:"+n] = perm &^ 0o022
		}
		m.watch()
	}
	return m.newFile(&openFile{name: n, append: flag&app != 0, write: flag&(wronly|rdwr) != 0}), Val{}
}

func (m *Machine) writeFile(v Val, data Val) Val {
	f := m.fileOf(v)
	n := strLen(data)
	if f == nil {
		return tuple(intV(0), m.errNew("invalid argument"))
	}
	if f.closed || !f.write {
		return tuple(intV(0), m.errnoError("write", f.name, eBADF))
	}
	switch f.stream {
	case 1, 2:
		k := []string{1: "stdout", 2: "stderr"}[f.stream]
		o, _ := m.ext[k].(Val)
		if o.x == nil {
			o = strV("")
		}
		m.ext[k] = strCat(o, data)
		return tuple(intV(int64(n)), Val{})
	}
	m.point()
	old, ok := m.vget(f.name)
	l := strLen(old)
	if f.append {
		f.pos = l
	}
	if lim, in := m.ext["filelimit"].(int); in && m.ext["program"] != nil && f.pos+n > lim {
		if n = lim - f.pos; n < 0 {
			n = 0
		}
		if n > 0 && ok {
			m.writeFile(v, strSub(data, 0, n))
		}
		return tuple(intV(int64(n)), m.errnoError("write", f.name, 27))
	}
	if !ok { // removed in the meantime: nobody sees what is written
		f.pos += n
		return tuple(intV(int64(n)), Val{})
	}
	out := old
	if f.pos < l {
		out = strSub(old, 0, f.pos)
	}
	out = strCat(out, data)
	f.pos += n
	if f.pos < l {
		out = strCat(out, strSub(old, f.pos, l))
	}
	m.vput(f.name, out)
	m.watch()
	return tuple(intV(int64(n)), Val{})
}

func fileIntrinsics(I map[string]intrinsicFn) {
	str := func(m *Machine, v Val) string { return m.conc(v, "file name") }
	I["os.OpenFile"] = func(m *Machine, fr *frame, a []Val) Val {
		f, err := m.openFile(str(m, a[0]), int(m.concInt(a[1])), int(m.concInt(a[2])))
		return tuple(f, err)
	}
	I["os.Create"] = func(m *Machine, fr *frame, a []Val) Val {
		f, err := m.openFile(str(m, a[0]), 2|0x40|0x200, 0o666)
		return tuple(f, err)
	}
	I["os.Open"] = func(m *Machine, fr *frame, a []Val) Val {
		f, err := m.openFile(str(m, a[0]), 0, 0)
		return tuple(f, err)
	}
	I["os.WriteFile"] = func(m *Machine, fr *frame, a []Val) Val {
		f, err := m.openFile(str(m, a[0]), 1|0x40|0x200, int(m.concInt(a[2])))
		if err.x != nil {
			return err
		}
		return m.writeFile(f, sliceStr(a[1])).x.(Tuple)[1]
	}
	I["io/ioutil.WriteFile"] = I["os.WriteFile"]
	I["os.Remove"] = func(m *Machine, fr *frame, a []Val) Val {
		m.point()
		n := m.absLink(str(m, a[0]))
		if _, ok := m.ext["link:"+n]; ok {
			delete(m.ext, "link:"+n)
			m.ext["dir:"+path.Dir(n)] = true
			m.watch()
			return Val{}
		}
		if _, ok := m.vget(n); ok {
			delete(m.vfs, n)
			m.ext["dir:"+path.Dir(n)] = true
			m.watch()
			return Val{}
		}
		if _, ok := m.ext["dir:"+n]; ok && !m.visDir(n) {
			delete(m.ext, "dir:"+n)
			return Val{}
		}
		if m.dirExists(n) {
			return m.errnoError("remove", str(m, a[0]), 39)
		}
		return m.errnoError("remove", str(m, a[0]), eNOENT)
	}
	I["os.RemoveAll"] = func(m *Machine, fr *frame, a []Val) Val {
		n := m.absLink(str(m, a[0]))
		m.ext["dir:"+path.Dir(n)] = true
		delete(m.ext, "link:"+n)
		for k := range m.ext {
			if strings.HasPrefix(k, "link:"+n+"/") || k == "dir:"+n || strings.HasPrefix(k, "dir:"+n+"/") {
				delete(m.ext, k)
			}
		}
		for _, k := range sortedKeys(m.vfs) {
			if k == n || strings.HasPrefix(k, n+"/") {
				delete(m.vfs, k)
			}
		}
		m.watch()
		return Val{}
	}
	I["os.Rename"] = func(m *Machine, fr *frame, a []Val) Val {
		o, n := m.absLink(str(m, a[0])), m.absLink(str(m, a[1]))
		m.point()
		if _, ok := m.ext["link:"+o]; ok {
			panic(unsupported("renaming a link"))
		}
		v, ok := m.vget(o)
		if m.dirExists(n) {
			return m.errnoError("rename", o+" "+n, eEXIST)
		}
		if !ok || !m.dirExists(path.Dir(n)) {
			return m.errnoError("rename", o, eNOENT)
		}
		m.ext["dir:"+path.Dir(o)] = true
		delete(m.vfs, o)
		delete(m.ext, "link:"+n)
		m.vput(n, v)
		m.ext["mode:"+n] = m.ext["mode:"+o]
		for _, f := range m.files() {
			if f.name == o {
				f.name = n
			}
		}
		m.watch()
		return Val{}
	}
	I["os.MkdirAll"] = func(m *Machine, fr *frame, a []Val) Val {
		for n := m.abs(str(m, a[0])); n != "/"; n = path.Dir(n) {
			m.ext["dir:"+n] = true
		}
		return Val{}
	}
	I["os.Mkdir"] = func(m *Machine, fr *frame, a []Val) Val {
		n := m.abs(str(m, a[0]))
		if m.dirExists(n) {
			return m.errnoError("mkdir", n, eEXIST)
		}
		if !m.dirExists(path.Dir(n)) {
			return m.errnoError("mkdir", n, eNOENT)
		}
		m.ext["dir:"+n] = true
		return Val{}
	}
	temp := func(m *Machine, fr *frame, a []Val) Val {
		d, p := str(m, a[0]), str(m, a[1])
		if d == "" {
			d = "/tmp"
		}
		if strings.Contains(p, "*") {
			p = strings.Replace(p, "*", "123456", 1)
		} else {
			p += "123456"
		}
		f, err := m.openFile(path.Join(d, p), 2|0x40|0x80, 0o600)
		return tuple(f, err)
	}
	I["os.CreateTemp"] = temp
	I["io/ioutil.TempFile"] = temp
	I["(*os.File).Write"] = func(m *Machine, fr *frame, a []Val) Val { return m.writeFile(a[0], sliceStr(a[1])) }
	I["(*os.File).WriteString"] = func(m *Machine, fr *frame, a []Val) Val { return m.writeFile(a[0], a[1]) }
	I["(*os.File).Close"] = func(m *Machine, fr *frame, a []Val) Val {
		f := m.fileOf(a[0])
		if f == nil || f.closed {
			return m.errNew("file already closed")
		}
		f.closed = true
		return Val{}
	}
	I["(*os.File).Name"] = func(m *Machine, fr *frame, a []Val) Val {
		if f := m.fileOf(a[0]); f != nil {
			return strV(f.name)
		}
		return strV("")
	}
	I["(*os.File).Fd"] = func(m *Machine, fr *frame, a []Val) Val {
		f := m.fileOf(a[0])
		if f == nil {
			panic(unsupported("os.File.Fd"))
		}
		if f.stream == 0 {
			return Val{n: 3}
		}
		return Val{n: uint64(f.stream)}
	}
	// the streams are no terminals, neither here nor in replays
	I["github.com/sirupsen/logrus.isTerminal"] = func(m *Machine, fr *frame, a []Val) Val { return Val{n: 0} }
	ok := func(m *Machine, fr *frame, a []Val) Val { return Val{} }
	I["(*os.File).Sync"] = ok
	I["(*os.File).Chmod"] = func(m *Machine, fr *frame, a []Val) Val {
		f := m.fileOf(a[0])
		if f == nil || f.closed {
			return m.errNew("invalid argument")
		}
		m.ext["mode:"+f.name] = int(m.concInt(a[1])) & 0o777
		return Val{}
	}
	I["os.Chmod"] = func(m *Machine, fr *frame, a []Val) Val {
		n := m.abs(str(m, a[0]))
		if _, ok := m.vget(n); !ok {
			if m.dirExists(n) {
				return Val{}
			}
			return m.errnoError("chmod", str(m, a[0]), eNOENT)
		}
		m.ext["mode:"+n] = int(m.concInt(a[1])) & 0o777
		return Val{}
	}
	I["os.Readlink"] = func(m *Machine, fr *frame, a []Val) Val {
		n := m.absLink(str(m, a[0]))
		if t, ok := m.ext["link:"+n].(string); ok {
			return tuple(strV(t), Val{})
		}
		no := uint64(eINVAL)
		if _, ok := m.vget(n); !ok && !m.dirExists(n) {
			no = m.missing(n)
		}
		return tuple(strV(""), m.errnoError("readlink", str(m, a[0]), no))
	}
	symlink := func(m *Machine, old, name string) Val {
		n := m.absLink(name)
		_, link := m.ext["link:"+n]
		if _, ok := m.vget(n); ok || link || m.dirExists(n) {
			return m.errnoError("symlink", name, eEXIST)
		}
		if !m.dirExists(path.Dir(n)) {
			return m.errnoError("symlink", name, eNOENT)
		}
		m.ext["link:"+n], m.ext["links"] = old, true
		m.watch()
		return Val{}
	}
	I["os.Symlink"] = func(m *Machine, fr *frame, a []Val) Val { return symlink(m, str(m, a[0]), str(m, a[1])) }
	I[ndPath+".Symlink"] = func(m *Machine, fr *frame, a []Val) Val {
		n := str(m, a[1])
		m.ext["dir:"+path.Dir(m.fullName(n))] = true
		if symlink(m, str(m, a[0]), n).x != nil {
			panic(engineErr("nd.Symlink " + n))
		}
		return Val{}
	}
	I[ndPath+".List"] = func(m *Machine, fr *frame, a []Val) Val {
		names, _ := m.entries(m.abs(str(m, a[0])))
		return strSliceV(names)
	}
	I[ndPath+".Link"] = func(m *Machine, fr *frame, a []Val) Val {
		t, _ := m.ext["link:"+m.absLink(str(m, a[0]))].(string)
		return strV(t)
	}
	I[ndPath+".SetMode"] = I["os.Chmod"]
	I[ndPath+".Mode"] = func(m *Machine, fr *frame, a []Val) Val {
		n := m.abs(str(m, a[0]))
		if _, ok := m.vget(n); !ok {
			return intV(-1)
		}
		return intV(int64(m.mode(n)))
	}
	I["(*os.File).Truncate"] = func(m *Machine, fr *frame, a []Val) Val {
		f := m.fileOf(a[0])
		if f == nil || f.stream > 0 {
			return m.errNew("invalid argument")
		}
		n := int(m.concInt(a[1]))
		old, _ := m.vget(f.name)
		if strLen(old) < n {
			panic(unsupported("growing a file"))
		}
		m.vput(f.name, strSub(old, 0, n))
		m.watch()
		return Val{}
	}
	readIntrinsics(I)
	I["os/signal.Notify"] = func(m *Machine, fr *frame, a []Val) Val {
		c := chanOf(m, a[0])
		if m.ext["interrupts"] == nil || c == nil {
			return Val{}
		}
		wanted := false
		sigs, _ := a[1].x.(Slice)
		var sig Val
		for _, s := range sigs {
			if i, ok := s.x.(*Iface); ok && i.v.n == 2 {
				wanted, sig = true, s
			}
		}
		if len(sigs) == 0 || !wanted {
			panic(unsupported("signals other than interrupts"))
		}
		m.ext["signalled"] = c
		m.spawn(func() { // the user, at any time
			if len(c.buf) < c.size && m.ext["signalled"] == c {
				m.release(c)
				m.chanLog(c)
				c.buf = append(c.buf[:len(c.buf):len(c.buf)], sig)
			}
		})
		return Val{}
	}
	I[ndPath+".Interrupts"] = func(m *Machine, fr *frame, a []Val) Val {
		m.ext["interrupts"] = true
		m.schedBound, m.races = 1, true
		return Val{}
	}
	I[ndPath+".Chdir"] = func(m *Machine, fr *frame, a []Val) Val {
		dir := m.conc(a[0], "directory")
		m.ext["cwd"] = dir
		m.ext["dir:"+dir] = true
		return Val{}
	}
	I[ndPath+".FileLimit"] = func(m *Machine, fr *frame, a []Val) Val {
		m.ext["filelimit"] = int(m.concInt(a[0]))
		return Val{}
	}
	I[ndPath+".Watch"] = func(m *Machine, fr *frame, a []Val) Val {
		m.ext["watched"] = m.fullName(m.conc(a[0], "file name"))
		return Val{}
	}
	I[ndPath+".Moments"] = func(m *Machine, fr *frame, a []Val) Val {
		ms, _ := m.ext["moments"].([]Val)
		var text, there Slice
		for _, x := range ms {
			t := x.x.(Tuple)
			text, there = append(text, t[0]), append(there, t[1])
		}
		return tuple(Val{x: text}, Val{x: there})
	}
	I["os/signal.Stop"] = func(m *Machine, fr *frame, a []Val) Val { delete(m.ext, "signalled"); return Val{} }
	I["os.Exit"] = func(m *Machine, fr *frame, a []Val) Val {
		if _, in := m.ext["program"]; !in {
			panic(pathEnd("exit"))
		}
		panic(exitSignal{int(m.concInt(a[0]))})
	}
	I["syscall.Exit"] = I["os.Exit"]
	I[ndPath+".Exits"] = func(m *Machine, fr *frame, a []Val) Val {
		dir := m.conc(a[0], "directory")
		if os := m.prog.ImportedPackage("os"); os != nil {
			g := os.Var("Args")
			m.set(m.globalAddr(g), a[1])
		}
		m.ext["cwd"], m.ext["program"] = dir, true
		m.ext["dir:"+dir] = true
		delete(m.ext, "stdout")
		delete(m.ext, "stderr")
		depth, cur := m.depth, m.cur
		code := 0
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch e := r.(type) {
					case exitSignal:
						code = e.code
					case goPanic:
						code = 2
						o, _ := m.ext["stderr"].(Val)
						if o.x == nil {
							o = strV("")
						}
						m.ext["stderr"] = strCat(o, strV("panic: "+m.panicText(e.v)+"\n"))
					case crash:
						code = 2
						o, _ := m.ext["stderr"].(Val)
						if o.x == nil {
							o = strV("")
						}
						m.ext["stderr"] = strCat(o, strV("panic: "+e.msg+"\n"))
					default:
						panic(r)
					}
				}
				m.endThreads()
				m.depth, m.cur = depth, cur
			}()
			m.callVal(a[2], nil)
		}()
		delete(m.ext, "program")
		delete(m.ext, "cwd")
		get := func(k string) Val {
			if v, ok := m.ext[k].(Val); ok && v.x != nil {
				return v
			}
			return strV("")
		}
		return tuple(intV(int64(code)), get("stdout"), get("stderr"))
	}
}

// osGlobals gives the standard streams an identity (the initialiser of os is not run).
func (m *Machine) osGlobals(p *ssa.Package) {
	ft := p.Type("File").Type()
	for _, n := range []string{"Stdin", "Stdout", "Stderr"} {
		if g := p.Var(n); g != nil {
			v := m.zero(ft)
			*m.globals[g] = Val{x: &v}
		}
	}
	for n, no := range map[string]uint64{"Interrupt": 2, "Kill": 9} {
		if g := p.Var(n); g != nil {
			*m.globals[g] = ifaceV(m.canon(m.eng.lookupType("syscall", "Signal")), Val{n: no})
		}
	}
	if fs := m.prog.ImportedPackage("io/fs"); fs != nil {
		for _, n := range []string{"ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed"} {
			if g, h := p.Var(n), fs.Var(n); g != nil && h != nil {
				*m.globals[g] = *m.globalAddr(h)
			}
		}
	}
}

// entries lists the directory n: names in order, and which are directories.
func (m *Machine) entries(n string) ([]string, map[string]bool) {
	dirs, names := map[string]bool{}, map[string]bool{}
	pre := n + "/"
	if n == "/" {
		pre = "/"
	}
	add := func(k string, dir bool) {
		if k == n || !strings.HasPrefix(k, pre) {
			return
		}
		k = k[len(pre):]
		if i := strings.IndexByte(k, '/'); i >= 0 {
			k, dir = k[:i], true
		}
		names[k] = true
		if dir {
			dirs[k] = true
		}
	}
	for k := range m.vfs {
		add(k, false)
	}
	for k := range m.ext {
		if strings.HasPrefix(k, "link:") {
			add(k[5:], false)
		}
		if strings.HasPrefix(k, "dir:") {
			add(k[4:], true)
		}
	}
	return sortedKeys(names), dirs
}

// mode is the permissions of a file.
func (m *Machine) mode(n string) int {
	if p, ok := m.ext["mode:"+n].(int); ok {
		return p
	}
	return 0o644
}

// stat gives the os.FileInfo of n, or nothing.
func (m *Machine) stat(n string) (Val, bool) {
	t, link := m.ext["link:"+n].(string)
	v, ok := m.vget(n)
	dir := !ok && !link && m.dirExists(n)
	if !ok && !dir && !link {
		return Val{}, false
	}
	ft := m.eng.lookupType("os", "fileStat")
	p := m.zero(ft)
	*fieldOf(&p, ft, "name") = strV(path.Base(n))
	if link {
		*fieldOf(&p, ft, "mode") = Val{n: 1<<27 | 0o777}
		*fieldOf(&p, ft, "size") = intV(int64(len(t)))
	} else if dir {
		*fieldOf(&p, ft, "mode") = Val{n: 1<<31 | 0o755}
		*fieldOf(&p, ft, "size") = intV(4096)
	} else {
		*fieldOf(&p, ft, "mode") = Val{n: uint64(m.mode(n))}
		*fieldOf(&p, ft, "size") = intV(int64(strLen(v)))
	}
	return ifaceV(m.canon(types.NewPointer(ft)), Val{x: &p}), true
}

func (m *Machine) ioEOF() Val {
	return copyVal(*m.globalAddr(m.prog.ImportedPackage("io").Var("EOF")))
}

func readIntrinsics(I map[string]intrinsicFn) {
	// readable gives the contents behind a file opened for reading
	readable := func(m *Machine, op string, v Val) (*openFile, Val, Val) {
		f := m.fileOf(v)
		switch {
		case f == nil:
			return nil, Val{}, m.errNew("invalid argument")
		case f.closed:
			t := m.eng.lookupType("io/fs", "PathError")
			e := copyVal(*m.globalAddr(m.prog.ImportedPackage("io/fs").Var("ErrClosed")))
			p := Val{x: Struct{strV(op), strV(f.name), e}}
			return nil, Val{}, ifaceV(m.canon(types.NewPointer(t)), Val{x: &p})
		case f.dir:
			return nil, Val{}, m.errnoError(op, f.name, eISDIR)
		case f.stream == 0 && strings.HasPrefix(f.name, "/dev/"):
			return f, strV(""), Val{}
		case f.stream > 0:
			return nil, Val{}, m.errnoError(op, f.name, eBADF)
		}
		s, _ := m.vget(f.name)
		if s.x == nil {
			s = strV("")
		}
		return f, s, Val{}
	}
	readAt := func(m *Machine, s Val, off int, dst Val) int {
		b, d := strBytes(s), sliceOf(dst)
		if off > len(b) {
			off = len(b)
		}
		n := len(b) - off
		if n > len(d) {
			n = len(d)
		}
		for i := 0; i < n; i++ {
			m.set(&d[i], b[off+i])
		}
		return n
	}
	I["(*os.File).Read"] = func(m *Machine, fr *frame, a []Val) Val {
		f, s, err := readable(m, "read", a[0])
		if err.x != nil {
			return tuple(intV(0), err)
		}
		n := readAt(m, s, f.pos, a[1])
		f.pos += n
		if n == 0 && len(sliceOf(a[1])) > 0 {
			return tuple(intV(0), m.ioEOF())
		}
		return tuple(intV(int64(n)), Val{})
	}
	I["(*os.File).ReadAt"] = func(m *Machine, fr *frame, a []Val) Val {
		_, s, err := readable(m, "read", a[0])
		if err.x != nil {
			return tuple(intV(0), err)
		}
		n := readAt(m, s, int(m.concInt(a[2])), a[1])
		if n < len(sliceOf(a[1])) {
			err = m.ioEOF()
		}
		return tuple(intV(int64(n)), err)
	}
	I["(*os.File).Seek"] = func(m *Machine, fr *frame, a []Val) Val {
		f := m.fileOf(a[0])
		if f == nil || f.closed || f.stream > 0 || f.dir {
			return tuple(intV(0), m.errNew("invalid argument"))
		}
		off := int(m.concInt(a[1]))
		switch m.concInt(a[2]) {
		case 1:
			off += f.pos
		case 2:
			s, _ := m.vget(f.name)
			off += strLen(s)
		}
		if off < 0 {
			return tuple(intV(0), m.errnoError("seek", f.name, eINVAL))
		}
		f.pos = off
		return tuple(intV(int64(off)), Val{})
	}
	I["(*os.File).WriteTo"] = func(m *Machine, fr *frame, a []Val) Val {
		f, s, err := readable(m, "read", a[0])
		if err.x != nil {
			return tuple(intV(0), err)
		}
		l := strLen(s)
		if f.pos >= l {
			return tuple(intV(0), Val{})
		}
		b := strBytes(strSub(s, f.pos, l))
		d := make(Slice, len(b))
		copy(d, b)
		f.pos = l
		r := m.callIfaceMethod(a[1], "Write", Val{x: d}).x.(Tuple)
		return tuple(r[0], r[1])
	}
	I["(*os.File).ReadFrom"] = func(m *Machine, fr *frame, a []Val) Val {
		r := m.call(m.prog.ImportedPackage("io").Func("ReadAll"), []Val{a[1]}, nil).x.(Tuple)
		w := m.writeFile(a[0], sliceStr(r[0])).x.(Tuple)
		if w[1].x != nil {
			return Val{x: w}
		}
		return tuple(w[0], r[1])
	}
	I["(*os.File).Stat"] = func(m *Machine, fr *frame, a []Val) Val {
		f := m.fileOf(a[0])
		if f == nil || f.closed {
			return tuple(Val{}, m.errNew("invalid argument"))
		}
		if strings.HasPrefix(f.name, "/dev/") {
			panic(unsupported("os.File.Stat of a stream"))
		}
		v, ok := m.stat(f.name)
		if !ok {
			panic(unsupported("os.File.Stat of a removed file"))
		}
		return tuple(v, Val{})
	}
	list := func(m *Machine, v Val, n Val, each func(dir, name string, isDir bool) Val) Val {
		f := m.fileOf(v)
		if f == nil || f.closed || !f.dir {
			return tuple(Val{}, m.errNew("not a directory"))
		}
		lim := int(m.concInt(n))
		names, dirs := m.entries(f.name)
		if f.seen > len(names) {
			f.seen = len(names)
		}
		rest := names[f.seen:]
		if lim > 0 && len(rest) == 0 {
			return tuple(Val{}, m.ioEOF())
		}
		if lim > 0 && len(rest) > lim {
			rest = rest[:lim]
		}
		f.seen += len(rest)
		s := make(Slice, 0, len(rest))
		for _, k := range rest {
			s = append(s, each(f.name, k, dirs[k]))
		}
		return tuple(Val{x: s}, Val{})
	}
	info := func(m *Machine, dir, name string) Val {
		v, _ := m.stat(path.Join(dir, name))
		return v
	}
	entry := func(m *Machine, dir, name string) Val {
		t := m.eng.lookupType("io/fs", "dirInfo")
		return ifaceV(m.canon(t), Val{x: Struct{info(m, dir, name)}})
	}
	I["(*os.File).Readdirnames"] = func(m *Machine, fr *frame, a []Val) Val {
		return list(m, a[0], a[1], func(d, n string, _ bool) Val { return strV(n) })
	}
	I["(*os.File).Readdir"] = func(m *Machine, fr *frame, a []Val) Val {
		return list(m, a[0], a[1], func(d, n string, _ bool) Val { return info(m, d, n) })
	}
	I["(*os.File).ReadDir"] = func(m *Machine, fr *frame, a []Val) Val {
		return list(m, a[0], a[1], func(d, n string, _ bool) Val { return entry(m, d, n) })
	}
	readDir := func(each func(m *Machine, dir, name string) Val) intrinsicFn {
		return func(m *Machine, fr *frame, a []Val) Val {
			name := m.conc(a[0], "directory")
			n := m.abs(name)
			if _, ok := m.vget(n); ok {
				return tuple(Val{}, m.errnoError("fdopendir", name, 20))
			}
			if !m.dirExists(n) {
				return tuple(Val{}, m.errnoError("open", name, eNOENT))
			}
			names, _ := m.entries(n)
			s := make(Slice, 0, len(names))
			for _, k := range names {
				s = append(s, each(m, n, k))
			}
			return tuple(Val{x: s}, Val{})
		}
	}
	I["os.ReadDir"] = readDir(entry)
	I["io/ioutil.ReadDir"] = readDir(info)
	I["os.Stat"] = func(m *Machine, fr *frame, a []Val) Val {
		n := m.conc(a[0], "file name")
		if n == "" {
			return tuple(Val{}, m.errnoError("stat", n, eNOENT))
		}
		if v, ok := m.stat(m.abs(n)); ok {
			return tuple(v, Val{})
		}
		return tuple(Val{}, m.errnoError("stat", n, m.missing(m.abs(n))))
	}
	I["os.Lstat"] = func(m *Machine, fr *frame, a []Val) Val {
		n := m.conc(a[0], "file name")
		if n == "" {
			return tuple(Val{}, m.errnoError("lstat", n, eNOENT))
		}
		if v, ok := m.stat(m.absLink(n)); ok {
			return tuple(v, Val{})
		}
		return tuple(Val{}, m.errnoError("lstat", n, m.missing(m.absLink(n))))
	}
	readFile := func(m *Machine, fr *frame, a []Val) Val {
		n := m.conc(a[0], "file name")
		v, ok := m.vget(m.abs(n))
		if !ok || n == "" {
			if n != "" && m.dirExists(m.abs(n)) {
				return tuple(Val{}, m.errnoError("read", n, eISDIR))
			}
			return tuple(Val{}, m.errnoError("open", n, m.missing(m.abs(n))))
		}
		b := strBytes(v)
		s := make(Slice, len(b))
		copy(s, b)
		return tuple(Val{x: s}, Val{})
	}
	I["os.ReadFile"] = readFile
	I["io/ioutil.ReadFile"] = readFile
	I["path/filepath.Glob"] = func(m *Machine, fr *frame, a []Val) Val { return m.glob(m.conc(a[0], "glob")) }
}

// missing is why n does not exist: one of its parents may be a file.
func (m *Machine) missing(n string) uint64 {
	for n = path.Dir(n); n != "/"; n = path.Dir(n) {
		if _, ok := m.vget(n); ok {
			return 20
		}
	}
	return eNOENT
}

// glob works like filepath.Glob: component by component, directories and files alike.
func (m *Machine) glob(pat string) Val {
	if _, err := path.Match(pat, ""); err != nil {
		return tuple(Val{}, copyVal(*m.globalAddr(m.prog.ImportedPackage("path/filepath").Var("ErrBadPattern"))))
	}
	cur := []string{""}
	if path.IsAbs(pat) {
		cur = []string{"/"}
	}
	for _, c := range strings.Split(pat, "/") {
		if c == "" {
			continue
		}
		var next []string
		for _, d := range cur {
			at := d
			if at == "" {
				at = "."
			}
			if !strings.ContainsAny(c, "*?[\\") {
				n := path.Join(m.abs(at), c)
				if _, ok := m.vget(n); ok || m.dirExists(n) {
					next = append(next, joinKeep(d, c))
				}
				continue
			}
			names, _ := m.entries(m.abs(at))
			for _, n := range names {
				if ok, _ := path.Match(c, n); ok {
					next = append(next, joinKeep(d, n))
				}
			}
		}
		cur = next
	}
	sort.Strings(cur)
	return tuple(strSliceV(cur), Val{})
}

func joinKeep(d, c string) string {
	if d == "" {
		return c
	}
	if strings.HasSuffix(d, "/") {
		return d + c
	}
	return d + "/" + c
}
