package simrt

import (
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// FileFault makes file system operations fail.
type FileFault struct {
	Op    string `json:"op"`              // open create read write close stat rename remove sync seek mkdir chmod *
	Nth   int    `json:"nth"`             // the nth matching operation, from 1
	Times int    `json:"times,omitempty"` // how many operations fail from there on; 0: all
	Err   string `json:"err"`             // EIO ENOSPC EACCES EINTR EMFILE
	Short int    `json:"short,omitempty"` // writes, reads: this many bytes get through first
	Path  string `json:"path,omitempty"`  // only paths containing this
}

// Node is a file or directory.
type Node struct {
	Dir  bool
	Data []byte
	Mode fs.FileMode
	Mod  time.Time
	Ino  int
}

// FSOp is one recorded file system operation.
type FSOp struct {
	Op   string
	Path string
	N    int
	Err  error
}

// FS is the simulated file system.
type FS struct {
	Nodes   map[string]*Node
	Cwd     string
	Faults  []FileFault
	cnt     []int
	Ops     int
	Log     []FSOp
	KillOp  int // kill the process right before this operation (from 1)
	KillMid int // and after this many bytes if it is a write
	Room    int // bytes left on the disk; <0 unlimited
	Chunk   int // largest read; 0 unlimited; <0 random up to -Chunk
	ino     int
	Open    int
	tmp     int
}

// NewFS makes a file system with an empty working directory.
func NewFS() *FS {
	f := &FS{Nodes: map[string]*Node{}, Cwd: "/work", Room: -1}
	for _, d := range []string{"/", "/work", "/tmp"} {
		f.Nodes[d] = &Node{Dir: true, Mode: fs.ModeDir | 0755}
	}
	return f
}

// Abs makes a path absolute.
func (f *FS) Abs(p string) string {
	if p == "" {
		return ""
	}
	if !strings.HasPrefix(p, "/") {
		p = f.Cwd + "/" + p
	}
	return path.Clean(p)
}

// Put stores a file, from the harness.
func (f *FS) Put(p string, data []byte) {
	f.ino++
	f.Nodes[f.Abs(p)] = &Node{Data: data, Mode: 0644, Ino: f.ino}
}

// Get returns a file's bytes, from the harness.
func (f *FS) Get(p string) ([]byte, bool) {
	n, ok := f.Nodes[f.Abs(p)]
	if !ok || n.Dir {
		return nil, false
	}
	return n.Data, true
}

// List lists the files below a directory.
func (f *FS) List(dir string) []string {
	dir = f.Abs(dir)
	var r []string
	for p := range f.Nodes {
		if p != dir && strings.HasPrefix(p, strings.TrimSuffix(dir, "/")+"/") {
			r = append(r, p)
		}
	}
	sort.Strings(r)
	return r
}

// Errno names an error.
func Errno(s string) error {
	switch s {
	case "ENOSPC":
		return syscall.ENOSPC
	case "EACCES":
		return syscall.EACCES
	case "EINTR":
		return syscall.EINTR
	case "EMFILE":
		return syscall.EMFILE
	case "EROFS":
		return syscall.EROFS
	case "ENAMETOOLONG":
		return syscall.ENAMETOOLONG
	case "ENOENT":
		return syscall.ENOENT
	case "EAGAIN":
		return syscall.EAGAIN
	case "EPIPE":
		return syscall.EPIPE
	case "ESTALE":
		return syscall.ESTALE
	case "EDQUOT":
		return syscall.EDQUOT
	case "EFBIG":
		return syscall.EFBIG
	}
	return syscall.EIO
}

// enter is called at the start of every operation. It returns an injected
// error and, for reads and writes, how many bytes get through before it.
func (f *FS) enter(op, p string) (error, int) {
	w := W
	if w != nil {
		w.sp(40)
	}
	f.Ops++
	if f.KillOp > 0 && f.Ops == f.KillOp && w != nil && !(op == "write" && f.KillMid > 0) {
		w.Probes["fault:kill"]++
		w.KillNow()
	}
	for len(f.cnt) < len(f.Faults) {
		f.cnt = append(f.cnt, 0)
	}
	for i, ft := range f.Faults {
		if ft.Op != "*" && ft.Op != op {
			continue
		}
		if ft.Path != "" && !strings.Contains(p, ft.Path) {
			continue
		}
		f.cnt[i]++
		if f.cnt[i] < ft.Nth || (ft.Times > 0 && f.cnt[i] >= ft.Nth+ft.Times) {
			continue
		}
		Probe("fault:fs-" + op + "-" + ft.Err)
		return Errno(ft.Err), ft.Short
	}
	return nil, 0
}

// stdout is a write of n bytes to the standard output.
func (f *FS) stdout(n int) (int, error) {
	err, k := f.enter("stdout", "/dev/stdout")
	if err == nil {
		return n, nil
	}
	return min(k, n), err
}

func (f *FS) log(op, p string, n int, err error) {
	if len(f.Log) < 100000 {
		f.Log = append(f.Log, FSOp{op, p, n, err})
	}
}

func perr(op, p string, err error) error {
	return &fs.PathError{Op: op, Path: p, Err: err}
}

// FileDesc is an open file.
type FileDesc struct {
	Name   string
	P      string
	N      *Node
	Flag   int
	Off    int64
	Closed bool
	Std    int // 1 stdout, 2 stderr, 3 stdin
}

// OpenFile opens a file.
func (f *FS) OpenFile(name string, flag int, perm fs.FileMode) (*FileDesc, error) {
	p := f.Abs(name)
	op := "open"
	if flag&(syscall.O_CREAT) != 0 {
		op = "create"
	}
	if err, _ := f.enter(op, p); err != nil {
		f.log(op, p, 0, err)
		return nil, perr("open", name, err)
	}
	n, ok := f.Nodes[p]
	var err error
	write := flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0
	switch {
	case p == "":
		err = syscall.ENOENT
	case ok && flag&syscall.O_CREAT != 0 && flag&syscall.O_EXCL != 0:
		err = syscall.EEXIST
	case ok && n.Dir && (write || flag&syscall.O_CREAT != 0):
		err = syscall.EISDIR
	case !ok && flag&syscall.O_CREAT == 0:
		err = syscall.ENOENT
	case !ok:
		d, dok := f.Nodes[path.Dir(p)]
		if !dok {
			err = syscall.ENOENT
		} else if !d.Dir {
			err = syscall.ENOTDIR
		} else if d.Mode.Perm()&0200 == 0 {
			err = syscall.EACCES
		} else {
			f.ino++
			n = &Node{Mode: perm.Perm() &^ 022, Ino: f.ino, Mod: NowTime()}
			f.Nodes[p] = n
		}
	case write && n.Mode.Perm()&0200 == 0:
		err = syscall.EACCES
	}
	f.log(op, p, flag, err)
	if err != nil {
		return nil, perr("open", name, err)
	}
	if flag&syscall.O_TRUNC != 0 && !n.Dir {
		f.truncate(n, 0)
	}
	f.Open++
	return &FileDesc{Name: name, P: p, N: n, Flag: flag}, nil
}

func (f *FS) truncate(n *Node, size int) {
	if f.Room >= 0 {
		f.Room += len(n.Data) - size
	}
	for len(n.Data) < size {
		n.Data = append(n.Data, 0)
	}
	n.Data = n.Data[:size:size]
	n.Mod = NowTime()
}

// Write writes at off, or at the end if off<0.
func (f *FS) Write(d *FileDesc, b []byte, off int64) (int, error) {
	if d.Flag&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
		return 0, syscall.EBADF
	}
	err, short := f.enter("write", d.P)
	n := len(b)
	if err != nil && n > short {
		n = short
	} else if err != nil {
		n = 0
	}
	if f.KillOp > 0 && f.Ops == f.KillOp && f.KillMid > 0 && n > f.KillMid {
		n = f.KillMid
	}
	if off < 0 || d.Flag&syscall.O_APPEND != 0 {
		off = int64(len(d.N.Data))
	}
	grow := int(off) + n - len(d.N.Data)
	if grow > 0 && f.Room >= 0 {
		if grow > f.Room {
			n -= grow - f.Room
			if n < 0 {
				n = 0
			}
			Probe("fault:disk-full")
			if err == nil {
				err = syscall.ENOSPC
			}
			grow = int(off) + n - len(d.N.Data)
		}
		if grow > 0 {
			f.Room -= grow
		}
	}
	for len(d.N.Data) < int(off) {
		d.N.Data = append(d.N.Data, 0)
	}
	k := copy(d.N.Data[off:], b[:n])
	d.N.Data = append(d.N.Data, b[k:n]...)
	d.N.Mod = NowTime()
	f.log("write", d.P, n, err)
	if f.KillOp > 0 && f.Ops == f.KillOp && f.KillMid > 0 && W != nil {
		Probe("fault:kill")
		Probe("fault:kill-mid-write")
		W.KillNow()
	}
	return n, err
}

// Read reads at off.
func (f *FS) Read(d *FileDesc, b []byte, off int64) (int, error) {
	if d.Flag&syscall.O_WRONLY != 0 {
		return 0, syscall.EBADF
	}
	if d.N.Dir {
		return 0, syscall.EISDIR
	}
	err, short := f.enter("read", d.P)
	n := len(b)
	if f.Chunk > 0 && n > f.Chunk {
		n = f.Chunk
	} else if f.Chunk < 0 && W != nil {
		if m := 1 + W.Choice(-f.Chunk); n > m {
			n = m
		}
	}
	if err != nil && n > short {
		n = short
	}
	if off > int64(len(d.N.Data)) {
		n = 0
	} else if r := len(d.N.Data) - int(off); n > r {
		n = r
	}
	copy(b[:n], d.N.Data[off:])
	f.log("read", d.P, n, err)
	return n, err
}

// Simple runs an operation with no data.
func (f *FS) Simple(op, p string, fn func() error) error {
	a := f.Abs(p)
	err, _ := f.enter(op, a)
	if err == nil {
		err = fn()
	}
	f.log(op, a, 0, err)
	return err
}

// CloseFile closes a file. If that fails the last bytes written may be lost.
func (f *FS) CloseFile(d *FileDesc) error {
	err, lost := f.enter("close", d.P)
	if err != nil && lost > 0 && d.Flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
		n := len(d.N.Data) - lost
		if n < 0 {
			n = 0
		}
		f.truncate(d.N, n)
		Probe("fault:close-loses-data")
	}
	f.log("close", d.P, 0, err)
	return err
}

// Rename renames a file or an empty or non-empty directory.
func (f *FS) Rename(from, to string) error {
	return f.Simple("rename", to, func() error {
		a, b := f.Abs(from), f.Abs(to)
		n, ok := f.Nodes[a]
		if !ok {
			return syscall.ENOENT
		}
		if d, ok := f.Nodes[path.Dir(b)]; !ok {
			return syscall.ENOENT
		} else if d.Mode.Perm()&0200 == 0 {
			return syscall.EACCES
		}
		if t, ok := f.Nodes[b]; ok && t.Dir != n.Dir {
			if t.Dir {
				return syscall.EISDIR
			}
			return syscall.ENOTDIR
		}
		if a == b {
			return nil
		}
		if o, ok := f.Nodes[b]; ok && f.Room >= 0 && !o.Dir {
			f.Room += len(o.Data)
		}
		f.Nodes[b] = n
		delete(f.Nodes, a)
		if n.Dir {
			for p, x := range f.Nodes {
				if strings.HasPrefix(p, a+"/") {
					f.Nodes[b+p[len(a):]] = x
					delete(f.Nodes, p)
				}
			}
		}
		return nil
	})
}

// Link makes a hard link.
func (f *FS) Link(from, to string) error {
	return f.Simple("link", to, func() error {
		n, ok := f.Nodes[f.Abs(from)]
		if !ok {
			return syscall.ENOENT
		}
		if _, ok := f.Nodes[f.Abs(to)]; ok {
			return syscall.EEXIST
		}
		switch d := f.Nodes[path.Dir(f.Abs(to))]; {
		case d == nil:
			return syscall.ENOENT
		case !d.Dir:
			return syscall.ENOTDIR
		case d.Mode.Perm()&0200 == 0:
			return syscall.EACCES
		case n.Dir:
			return syscall.EPERM
		}
		f.Nodes[f.Abs(to)] = n
		return nil
	})
}

// Remove removes a file or empty directory.
func (f *FS) Remove(p string) error {
	return f.Simple("remove", p, func() error {
		a := f.Abs(p)
		n, ok := f.Nodes[a]
		if !ok {
			return syscall.ENOENT
		}
		if n.Dir && len(f.List(a)) > 0 {
			return syscall.ENOTEMPTY
		}
		if d := f.Nodes[path.Dir(a)]; d != nil && d.Mode.Perm()&0200 == 0 {
			return syscall.EACCES
		}
		if f.Room >= 0 {
			f.Room += len(n.Data)
		}
		delete(f.Nodes, a)
		return nil
	})
}

// TempName makes a fresh name from a pattern.
func (f *FS) TempName(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	for {
		f.tmp++
		mid := itoa(100000 + f.tmp)
		var name string
		if i := strings.LastIndex(pattern, "*"); i >= 0 {
			name = pattern[:i] + mid + pattern[i+1:]
		} else {
			name = pattern + mid
		}
		if _, ok := f.Nodes[f.Abs(dir+"/"+name)]; !ok {
			return path.Clean(dir + "/" + name)
		}
	}
}

func itoa(n int) string {
	s := ""
	for {
		s = string(rune('0'+n%10)) + s
		n /= 10
		if n == 0 {
			return s
		}
	}
}

// Terminal scripts the interactive prompt.
type Terminal struct {
	Lines   []TermLine
	Pos     int
	Prompts int
	Past    int // prompts after the script ended
	EndErr  error
	OnLine  func(i int)
	NewErr  error
}

// TermLine is one answer of the prompt.
type TermLine struct {
	Text string `json:"text"`
	Err  string `json:"err,omitempty"` // eof, abort, io
}

// ReadLine answers a prompt.
func (t *Terminal) ReadLine(mk func(kind string) error) (string, error) {
	if W != nil {
		W.sp(45)
	}
	t.Prompts++
	if t.Pos >= len(t.Lines) {
		if t.OnLine != nil && t.Past == 0 {
			t.OnLine(t.Pos)
		}
		t.Past++
		if t.Past > 50 && W != nil {
			W.failHere("livelock", "the prompt was asked again 50 times after its input had ended")
		}
		return "", mk("eof")
	}
	if t.OnLine != nil {
		t.OnLine(t.Pos)
	}
	l := t.Lines[t.Pos]
	t.Pos++
	if l.Err != "" {
		Probe("fault:terminal-" + l.Err)
		return l.Text, mk(l.Err)
	}
	return l.Text, nil
}
