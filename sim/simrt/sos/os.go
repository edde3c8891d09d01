// Package sos holds the simulated parts of package os: files live in the
// world's file system.
package sos

import (
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"simrt"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Args are the program arguments.
var Args = []string{"wego"}

// Signal and process values pass through.
type FileInfo = os.FileInfo

// File is a simulated file.
type File struct {
	d   *simrt.FileDesc
	dir []os.DirEntry
}

// Standard streams.
var (
	Stdin  = &File{d: &simrt.FileDesc{Name: "/dev/stdin", Std: 3}}
	Stdout = &File{d: &simrt.FileDesc{Name: "/dev/stdout", Std: 1}}
	Stderr = &File{d: &simrt.FileDesc{Name: "/dev/stderr", Std: 2}}
)

func sys() *simrt.FS {
	simrt.Alive()
	if simrt.W == nil || simrt.W.FS == nil {
		panic("sos: no simulated file system")
	}
	return simrt.W.FS
}

func pe(op, p string, err error) error {
	if err == nil {
		return nil
	}
	return &os.PathError{Op: op, Path: p, Err: err}
}

// Exit ends the process.
func Exit(code int) { simrt.Exit(code) }

// Open opens for reading.
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// Create creates or truncates.
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

// OpenFile opens.
func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	switch name {
	case "/dev/stdout":
		return Stdout, nil
	case "/dev/stderr":
		return Stderr, nil
	case "/dev/stdin":
		return Stdin, nil
	}
	d, err := sys().OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	return &File{d: d}, nil
}

// CreateTemp makes a temporary file.
func CreateTemp(dir, pattern string) (*File, error) {
	if strings.ContainsRune(pattern, '/') {
		return nil, pe("createtemp", pattern, os.ErrInvalid)
	}
	return OpenFile(sys().TempName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

// MkdirTemp makes a temporary directory.
func MkdirTemp(dir, pattern string) (string, error) {
	n := sys().TempName(dir, pattern)
	return n, Mkdir(n, 0700)
}

// Mkdir makes a directory.
func Mkdir(name string, perm os.FileMode) error {
	f := sys()
	return pe("mkdir", name, f.Simple("mkdir", name, func() error {
		a := f.Abs(name)
		if _, ok := f.Nodes[a]; ok {
			return syscall.EEXIST
		}
		if d, ok := f.Nodes[path.Dir(a)]; !ok {
			return syscall.ENOENT
		} else if !d.Dir {
			return syscall.ENOTDIR
		} else if d.Mode.Perm()&0200 == 0 {
			return syscall.EACCES
		}
		f.Nodes[a] = &simrt.Node{Dir: true, Mode: fs.ModeDir | perm.Perm(), Mod: simrt.NowTime()}
		return nil
	}))
}

// MkdirAll makes directories.
func MkdirAll(name string, perm os.FileMode) error {
	f := sys()
	a := f.Abs(name)
	if n, ok := f.Nodes[a]; ok {
		if n.Dir {
			return nil
		}
		return pe("mkdir", name, syscall.ENOTDIR)
	}
	if err := MkdirAll(path.Dir(a), perm); err != nil {
		return err
	}
	err := Mkdir(a, perm)
	if n, ok := f.Nodes[a]; err != nil && ok && n.Dir {
		return nil // somebody else made it
	}
	return err
}

// Remove removes.
func Remove(name string) error { return pe("remove", name, sys().Remove(name)) }

// RemoveAll removes a tree.
func RemoveAll(name string) error {
	f := sys()
	a := f.Abs(name)
	l := f.List(a)
	for i := len(l) - 1; i >= 0; i-- {
		if err := f.Remove(l[i]); err != nil {
			return pe("remove", l[i], err)
		}
	}
	if _, ok := f.Nodes[a]; !ok {
		return nil
	}
	return pe("remove", name, f.Remove(a))
}

// Rename renames.
func Rename(a, b string) error {
	if err := sys().Rename(a, b); err != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	return nil
}

// Link makes a hard link.
func Link(a, b string) error {
	if err := sys().Link(a, b); err != nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: err}
	}
	return nil
}

type info struct {
	name string
	n    *simrt.Node
	size int64
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() os.FileMode  { return i.n.Mode }
func (i info) ModTime() time.Time { return i.n.Mod }
func (i info) IsDir() bool        { return i.n.Dir }
func (i info) Sys() any           { return nil }
func (i info) Type() fs.FileMode  { return i.n.Mode.Type() }
func (i info) Info() (fs.FileInfo, error) {
	return i, nil
}

// Stat describes a file.
func Stat(name string) (os.FileInfo, error) {
	f := sys()
	var r info
	err := f.Simple("stat", name, func() error {
		n, ok := f.Nodes[f.Abs(name)]
		if !ok || name == "" {
			return syscall.ENOENT
		}
		r = info{path.Base(f.Abs(name)), n, int64(len(n.Data))}
		return nil
	})
	if err != nil {
		return nil, pe("stat", name, err)
	}
	return r, nil
}

// Lstat is Stat: there are no symbolic links.
func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

// SameFile compares.
func SameFile(a, b os.FileInfo) bool {
	x, ok := a.(info)
	y, ok2 := b.(info)
	return ok && ok2 && x.n == y.n
}

// ReadFile reads a whole file.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

// WriteFile writes a whole file.
func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

// ReadDir lists a directory.
func ReadDir(name string) ([]os.DirEntry, error) {
	f := sys()
	var r []os.DirEntry
	err := f.Simple("readdir", name, func() error {
		a := f.Abs(name)
		n, ok := f.Nodes[a]
		if !ok {
			return syscall.ENOENT
		}
		if !n.Dir {
			return syscall.ENOTDIR
		}
		for _, p := range f.List(a) {
			if path.Dir(p) == a {
				x := f.Nodes[p]
				r = append(r, info{path.Base(p), x, int64(len(x.Data))})
			}
		}
		return nil
	})
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r, pe("open", name, err)
}

// Chmod changes the mode.
func Chmod(name string, m os.FileMode) error {
	f := sys()
	return pe("chmod", name, f.Simple("chmod", name, func() error {
		n, ok := f.Nodes[f.Abs(name)]
		if !ok {
			return syscall.ENOENT
		}
		n.Mode = n.Mode.Type() | m.Perm()
		return nil
	}))
}

// Chtimes, Chown do nothing.
func Chtimes(name string, a, m time.Time) error { _, err := Stat(name); return err }

// Chown does nothing.
func Chown(name string, u, g int) error { _, err := Stat(name); return err }

// Truncate truncates.
func Truncate(name string, size int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

// Getwd is the working directory.
func Getwd() (string, error) { return sys().Cwd, nil }

// Chdir changes it.
func Chdir(d string) error {
	i, err := Stat(d)
	if err != nil {
		return err
	}
	if !i.IsDir() {
		return pe("chdir", d, syscall.ENOTDIR)
	}
	sys().Cwd = sys().Abs(d)
	return nil
}

// TempDir is /tmp.
func TempDir() string { return "/tmp" }

// Getpid is 1234 unless there are several processes.
func Getpid() int {
	if p := simrt.CurrentProc(); p != nil {
		return p.ID
	}
	return 1234
}

// Abs is filepath.Abs.
func Abs(p string) (string, error) { return sys().Abs(p), nil }

// EvalSymlinks is filepath.EvalSymlinks.
func EvalSymlinks(p string) (string, error) {
	if _, err := Stat(p); err != nil {
		return "", err
	}
	return filepath.Clean(p), nil
}

// Readlink: there are no symbolic links.
func Readlink(p string) (string, error) {
	if _, err := Stat(p); err != nil {
		return "", err
	}
	return "", pe("readlink", p, syscall.EINVAL)
}

// Symlink is refused.
func Symlink(a, b string) error { return pe("symlink", b, syscall.EPERM) }

// Hostname is "sim".
func Hostname() (string, error) { return "sim", nil }

// Getppid is 1.
func Getppid() int { return 1 }

// Glob is filepath.Glob.
func Glob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	f := sys()
	var r []string
	for _, p := range f.List("/") {
		q := p
		if !filepath.IsAbs(pattern) {
			rel, err := filepath.Rel(f.Cwd, p)
			if err != nil {
				continue
			}
			q = rel
		}
		if ok, _ := filepath.Match(filepath.Clean(pattern), q); ok {
			r = append(r, q)
		}
	}
	return r, nil
}

// Walk is filepath.Walk.
func Walk(root string, fn filepath.WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if d == nil {
			return fn(p, nil, err)
		}
		i, _ := d.Info()
		return fn(p, i, err)
	})
}

// WalkDir is filepath.WalkDir.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	i, err := Stat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, i.(info), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(p string, d os.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			return err
		}
	}
	for _, e := range es {
		if err := walk(filepath.Join(p, e.Name()), e, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// Name is the name it was opened with.
func (f *File) Name() string { return f.d.Name }

// Fd is a number.
func (f *File) Fd() uintptr { return uintptr(3 + f.d.Std) }

func (f *File) chk(op string) error {
	simrt.Alive()
	if f == nil || f.d == nil {
		return os.ErrInvalid
	}
	if f.d.Closed {
		return pe(op, f.d.Name, os.ErrClosed)
	}
	return nil
}

// Read reads.
func (f *File) Read(b []byte) (int, error) {
	if err := f.chk("read"); err != nil {
		return 0, err
	}
	if f.d.Std != 0 {
		return 0, io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	n, err := sys().Read(f.d, b, f.d.Off)
	f.d.Off += int64(n)
	if err != nil {
		return n, pe("read", f.d.Name, err)
	}
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

// ReadAt reads at an offset.
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.chk("read"); err != nil {
		return 0, err
	}
	got := 0
	for got < len(b) {
		n, err := sys().Read(f.d, b[got:], off+int64(got))
		got += n
		if err != nil {
			return got, pe("read", f.d.Name, err)
		}
		if n == 0 {
			return got, io.EOF
		}
	}
	return got, nil
}

// Write writes.
func (f *File) Write(b []byte) (int, error) {
	if err := f.chk("write"); err != nil {
		return 0, err
	}
	switch f.d.Std {
	case 1:
		n, err := simrt.PrintTo(string(b))
		simrt.SP()
		return n, pe("write", f.d.Name, err)
	case 2, 3:
		return len(b), nil
	}
	n, err := sys().Write(f.d, b, f.d.Off)
	if f.d.Flag&os.O_APPEND != 0 {
		f.d.Off = int64(len(f.d.N.Data))
	} else {
		f.d.Off += int64(n)
	}
	return n, pe("write", f.d.Name, err)
}

// WriteAt writes at an offset.
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.chk("write"); err != nil {
		return 0, err
	}
	n, err := sys().Write(f.d, b, off)
	return n, pe("write", f.d.Name, err)
}

// WriteString writes a string.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// Seek seeks.
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.chk("seek"); err != nil {
		return 0, err
	}
	if f.d.Std != 0 {
		return 0, pe("seek", f.d.Name, syscall.ESPIPE)
	}
	err := sys().Simple("seek", f.d.P, func() error {
		n := off
		switch whence {
		case io.SeekCurrent:
			n += f.d.Off
		case io.SeekEnd:
			n += int64(len(f.d.N.Data))
		}
		if n < 0 {
			return syscall.EINVAL
		}
		f.d.Off = n
		return nil
	})
	if err != nil {
		return 0, pe("seek", f.d.Name, err)
	}
	return f.d.Off, nil
}

// Close closes; the descriptor is gone even if it reports an error.
func (f *File) Close() error {
	if err := f.chk("close"); err != nil {
		return err
	}
	if f.d.Std != 0 {
		f.d.Closed = false
		return nil
	}
	f.d.Closed = true
	sys().Open--
	return pe("close", f.d.Name, sys().CloseFile(f.d))
}

// Sync flushes.
func (f *File) Sync() error {
	if err := f.chk("sync"); err != nil {
		return err
	}
	return pe("sync", f.d.Name, sys().Simple("sync", f.d.P, func() error { return nil }))
}

// Stat describes the file.
func (f *File) Stat() (os.FileInfo, error) {
	if err := f.chk("stat"); err != nil {
		return nil, err
	}
	if f.d.Std != 0 {
		return info{f.d.Name, &simrt.Node{Mode: fs.ModeCharDevice | fs.ModeDevice}, 0}, nil
	}
	if err := sys().Simple("stat", f.d.P, func() error { return nil }); err != nil {
		return nil, pe("stat", f.d.Name, err)
	}
	return info{path.Base(f.d.P), f.d.N, int64(len(f.d.N.Data))}, nil
}

// Truncate truncates.
func (f *File) Truncate(size int64) error {
	if err := f.chk("truncate"); err != nil {
		return err
	}
	return pe("truncate", f.d.Name, sys().Simple("truncate", f.d.P, func() error {
		d := f.d.N
		for len(d.Data) < int(size) {
			d.Data = append(d.Data, 0)
		}
		d.Data = d.Data[:size:size]
		return nil
	}))
}

// Chmod changes the mode.
func (f *File) Chmod(m os.FileMode) error {
	if err := f.chk("chmod"); err != nil {
		return err
	}
	return Chmod(f.d.P, m)
}

// ReadFrom copies from r.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

// SetDeadline and friends are not supported by files.
func (f *File) SetDeadline(t time.Time) error { return os.ErrNoDeadline }

// ReadDir lists a directory.
func (f *File) ReadDir(n int) ([]os.DirEntry, error) { return ReadDir(f.d.P) }

// Readdirnames lists names.
func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := ReadDir(f.d.P)
	var r []string
	for _, e := range es {
		r = append(r, e.Name())
	}
	return r, err
}
