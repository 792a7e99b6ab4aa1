// Package simos puts the program's file, standard-stream and exit calls
// behind the simulator. Files are real files in the world's scratch
// directory; every operation can be made to fail, to be cut short, or to be
// the last thing the process does.
package simos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"log"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"toaqsim/plan"
	"toaqsim/simrt"
)

// Fault strikes the At-th file operation (from 0).
type Fault = plan.FSFault

var (
	Faults   []Fault
	Ops      int
	OpLog    []string
	Injected = map[string]int{}
	Killed   bool
	// Root, when set, confines writes: outside it every mutation is refused and recorded.
	Root    string
	Escapes []string
)

func Errno(name string) error {
	switch name {
	case "ENOSPC":
		return syscall.ENOSPC
	case "EIO":
		return syscall.EIO
	case "EACCES":
		return syscall.EACCES
	case "EMFILE":
		return syscall.EMFILE
	case "ENOENT":
		return syscall.ENOENT
	case "EROFS":
		return syscall.EROFS
	case "EPIPE":
		return syscall.EPIPE
	case "EDQUOT":
		return syscall.EDQUOT
	case "EISDIR":
		return syscall.EISDIR
	case "EBADF":
		return syscall.EBADF
	}
	return errors.New(name)
}

func kill() {
	Killed = true
	simrt.Log("killed")
	simrt.Exit(137)
}

// op announces an operation and returns the fault that strikes it.
func op(kind, path string) *Fault {
	if !simrt.Active() {
		return nil
	}
	i := Ops
	Ops++
	OpLog = append(OpLog, kind+" "+filepath.Base(path))
	simrt.Log("fs %d %s %s", i, kind, base(path))
	for k := range Faults {
		f := &Faults[k]
		if f.At == i {
			Injected[kind+":"+f.Kind]++
			if f.Kind == "kill" {
				kill()
			}
			return f
		}
	}
	return nil
}

// base hides random temporary names from the log.
func base(p string) string {
	b := filepath.Base(p)
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return '#'
		}
		return r
	}, b)
}

func after(f *Fault) {
	if f != nil && f.Kind == "kill-after" {
		kill()
	}
}

func fails(f *Fault) bool {
	if f == nil {
		return false
	}
	switch f.Kind {
	case "kill-after", "torn", "short", "kill":
		return false
	}
	return true
}

func confine(name string) error {
	if Root == "" {
		return nil
	}
	p := name
	if !filepath.IsAbs(p) {
		wd, _ := os.Getwd()
		p = filepath.Join(wd, p)
	}
	p = filepath.Clean(p)
	if p == Root || strings.HasPrefix(p, Root+"/") {
		return nil
	}
	Escapes = append(Escapes, p)
	return &fs.PathError{Op: "open", Path: name, Err: syscall.EROFS}
}

// VIn is a simulated input stream.
type VIn struct {
	Data   []byte
	Chunks []int // sizes of successive reads; 0: as much as asked
	Err    error // instead of EOF
	i, pos int
	Reads  int
}

// VOut is a simulated output stream.
type VOut struct {
	Buf    []byte
	FailAt int // <0: never; fail when this many bytes have been written
	Err    error
	Once   bool // only the first failing write fails; the rest of it is lost
	failed bool
	Lost   int
	Closed bool
}

func (o *VOut) Write(b []byte) (int, error) {
	if o.Closed {
		return 0, os.ErrClosed
	}
	if o.FailAt >= 0 && !(o.Once && o.failed) && len(o.Buf)+len(b) > o.FailAt {
		n := o.FailAt - len(o.Buf)
		if n < 0 {
			n = 0
		}
		if n > len(b) {
			n = len(b)
		}
		o.Buf = append(o.Buf, b[:n]...)
		o.failed = true
		o.Lost += len(b) - n
		Injected["stdout:"+fmt.Sprint(o.Err)]++
		return n, &fs.PathError{Op: "write", Path: "/dev/stdout", Err: o.Err}
	}
	o.Buf = append(o.Buf, b...)
	return len(b), nil
}

func (in *VIn) Read(b []byte) (int, error) {
	in.Reads++
	if len(b) == 0 {
		return 0, nil
	}
	if in.pos >= len(in.Data) {
		if in.Err != nil {
			Injected["stdin:"+fmt.Sprint(in.Err)]++
			return 0, &fs.PathError{Op: "read", Path: "/dev/stdin", Err: in.Err}
		}
		return 0, io.EOF
	}
	n := len(b)
	if len(in.Chunks) > 0 {
		if c := in.Chunks[in.i%len(in.Chunks)]; c > 0 && c < n {
			n = c
		}
		in.i++
	}
	if n > len(in.Data)-in.pos {
		n = len(in.Data) - in.pos
	}
	copy(b, in.Data[in.pos:in.pos+n])
	in.pos += n
	return n, nil
}

// File replaces os.File.
type File struct {
	f    *os.File
	name string
	in   *VIn
	out  *VOut
}

var (
	StdinV  = &VIn{}
	StdoutV = &VOut{FailAt: -1}
	StderrV = &VOut{FailAt: -1}
	Stdin   = &File{name: "/dev/stdin", in: StdinV}
	Stdout  = &File{name: "/dev/stdout", out: StdoutV}
	Stderr  = &File{name: "/dev/stderr", out: StderrV}
)

// ReadChunks limits the sizes of successive reads of real files.
var ReadChunks []int
var readN int

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.in != nil {
		return f.in.Read(b)
	}
	if f.f == nil {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: syscall.EBADF}
	}
	x := op("read", f.name)
	if fails(x) {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: Errno(x.Kind)}
	}
	if len(ReadChunks) > 0 && len(b) > 0 {
		if c := ReadChunks[readN%len(ReadChunks)]; c > 0 && c < len(b) {
			b = b[:c]
		}
		readN++
	}
	n, err := f.f.Read(b)
	after(x)
	return n, err
}

func (f *File) ReadAt(b []byte, off int64) (int, error) { return f.f.ReadAt(b, off) }

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.out != nil {
		return f.out.Write(b)
	}
	if f.f == nil {
		return 0, &fs.PathError{Op: "write", Path: f.name, Err: syscall.EBADF}
	}
	x := op("write", f.name)
	if fails(x) {
		return 0, &fs.PathError{Op: "write", Path: f.name, Err: Errno(x.Kind)}
	}
	if x != nil && (x.Kind == "torn" || x.Kind == "short") {
		n := len(b) * (x.Arg % 100) / 100
		f.f.Write(b[:n])
		if x.Kind == "torn" {
			kill()
		}
		return n, &fs.PathError{Op: "write", Path: f.name, Err: syscall.ENOSPC}
	}
	n, err := f.f.Write(b)
	after(x)
	return n, err
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	x := op("write", f.name)
	if fails(x) {
		return 0, &fs.PathError{Op: "write", Path: f.name, Err: Errno(x.Kind)}
	}
	n, err := f.f.WriteAt(b, off)
	after(x)
	return n, err
}
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}
func (f *File) Seek(o int64, w int) (int64, error) {
	if f.f == nil {
		return 0, &fs.PathError{Op: "seek", Path: f.name, Err: syscall.ESPIPE}
	}
	return f.f.Seek(o, w)
}
func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.out != nil {
		f.out.Closed = true
		return nil
	}
	if f.f == nil {
		return nil
	}
	x := op("close", f.name)
	if fails(x) {
		f.lose()
		f.f.Close()
		return &fs.PathError{Op: "close", Path: f.name, Err: Errno(x.Kind)}
	}
	err := f.f.Close()
	after(x)
	return err
}

// lose: the kernel could not write back what it had accepted.
func (f *File) lose() {
	if fi, err := f.f.Stat(); err == nil && fi.Mode().IsRegular() {
		f.f.Truncate(fi.Size() / 2)
	}
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr {
	if f.f == nil {
		return 1
	}
	return f.f.Fd()
}
func (f *File) Stat() (os.FileInfo, error) {
	if f.f == nil {
		if f.in != nil {
			return vinfo{f.name}, nil
		}
		return vinfo{f.name}, nil
	}
	return f.f.Stat()
}
func (f *File) Sync() error {
	if f.f == nil {
		return nil
	}
	x := op("sync", f.name)
	if fails(x) {
		f.lose()
		return &fs.PathError{Op: "sync", Path: f.name, Err: Errno(x.Kind)}
	}
	err := f.f.Sync()
	after(x)
	return err
}
func (f *File) Chmod(m os.FileMode) error {
	return fsop("chmod", f.name, func() error { return f.f.Chmod(m) })
}
func (f *File) Truncate(n int64) error {
	return fsop("truncate", f.name, func() error { return f.f.Truncate(n) })
}
func (f *File) Readdir(n int) ([]os.FileInfo, error) { return f.f.Readdir(n) }
func (f *File) Readdirnames(n int) ([]string, error) { return f.f.Readdirnames(n) }
func (f *File) ReadDir(n int) ([]os.DirEntry, error) { return f.f.ReadDir(n) }
func (f *File) SetDeadline(t time.Time) error        { return nil }

type vinfo struct{ name string }

func (v vinfo) Name() string       { return filepath.Base(v.name) }
func (v vinfo) Size() int64        { return 0 }
func (v vinfo) Mode() os.FileMode  { return os.ModeNamedPipe | 0600 }
func (v vinfo) ModTime() time.Time { return time.Time{} }
func (v vinfo) IsDir() bool        { return false }
func (v vinfo) Sys() interface{}   { return nil }

func fsop(kind, path string, f func() error) error {
	x := op(kind, path)
	if fails(x) {
		return &fs.PathError{Op: kind, Path: path, Err: Errno(x.Kind)}
	}
	err := f()
	after(x)
	return err
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) != 0 {
		if err := confine(name); err != nil {
			return nil, err
		}
	}
	var f *os.File
	err := fsop("open", name, func() (err error) { f, err = os.OpenFile(name, flag, perm); return err })
	if err != nil {
		return nil, err
	}
	return &File{f: f, name: name}, nil
}
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

var tmpN int

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = os.TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for {
		tmpN++
		f, err := OpenFile(filepath.Join(dir, fmt.Sprintf("%s%d%s", pre, 100000+tmpN, suf)), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if os.IsExist(err) {
			continue
		}
		return f, err
	}
}
func TempFile(dir, pattern string) (*File, error) { return CreateTemp(dir, pattern) }
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = os.TempDir()
	}
	if err := confine(dir); err != nil {
		return "", err
	}
	var s string
	err := fsop("mkdir", dir, func() (err error) { s, err = os.MkdirTemp(dir, pattern); return err })
	return s, err
}
func TempDir(dir, pattern string) (string, error) { return MkdirTemp(dir, pattern) }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}
func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func mut(kind, name string, f func() error) error {
	if err := confine(name); err != nil {
		return err
	}
	return fsop(kind, name, f)
}
func Rename(a, b string) error {
	if err := confine(a); err != nil {
		return err
	}
	if err := confine(b); err != nil {
		return err
	}
	x := op("rename", b)
	if fails(x) {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: Errno(x.Kind)}
	}
	err := os.Rename(a, b)
	after(x)
	return err
}
func Link(a, b string) error    { return mut("link", b, func() error { return os.Link(a, b) }) }
func Symlink(a, b string) error { return mut("symlink", b, func() error { return os.Symlink(a, b) }) }
func Remove(n string) error     { return mut("remove", n, func() error { return os.Remove(n) }) }
func RemoveAll(n string) error  { return mut("remove", n, func() error { return os.RemoveAll(n) }) }
func Mkdir(n string, p os.FileMode) error {
	return mut("mkdir", n, func() error { return os.Mkdir(n, p) })
}
func MkdirAll(n string, p os.FileMode) error {
	return mut("mkdir", n, func() error { return os.MkdirAll(n, p) })
}
func Chmod(n string, p os.FileMode) error {
	return mut("chmod", n, func() error { return os.Chmod(n, p) })
}
func Truncate(n string, s int64) error {
	return mut("truncate", n, func() error { return os.Truncate(n, s) })
}
func Chtimes(n string, a, m time.Time) error {
	return mut("chtimes", n, func() error { return os.Chtimes(n, a, m) })
}

// Exit replaces os.Exit.
func Exit(code int) { simrt.Exit(code) }

// fmt and log.

func Print(a ...interface{}) (int, error)            { return fmt.Fprint(Stdout, a...) }
func Println(a ...interface{}) (int, error)          { return fmt.Fprintln(Stdout, a...) }
func Printf(f string, a ...interface{}) (int, error) { return fmt.Fprintf(Stdout, f, a...) }

var stdlog = log.New(StderrV, "", 0)

func LogPrint(a ...interface{})            { stdlog.Output(2, fmt.Sprint(a...)) }
func LogPrintln(a ...interface{})          { stdlog.Output(2, fmt.Sprintln(a...)) }
func LogPrintf(f string, a ...interface{}) { stdlog.Output(2, fmt.Sprintf(f, a...)) }
func LogFatal(a ...interface{})            { LogPrint(a...); Exit(1) }
func LogFatalln(a ...interface{})          { LogPrintln(a...); Exit(1) }
func LogFatalf(f string, a ...interface{}) { LogPrintf(f, a...); Exit(1) }
func LogPanic(a ...interface{})            { s := fmt.Sprint(a...); LogPrint(s); panic(s) }
func LogPanicln(a ...interface{})          { s := fmt.Sprintln(a...); LogPrint(s); panic(s) }
func LogPanicf(f string, a ...interface{}) { s := fmt.Sprintf(f, a...); LogPrint(s); panic(s) }

// LoggerFatal replaces the Fatal methods of a *log.Logger.
func LoggerFatal(l *log.Logger) func(...interface{}) {
	return func(a ...interface{}) { l.Output(2, fmt.Sprint(a...)); Exit(1) }
}
func LoggerFatalln(l *log.Logger) func(...interface{}) {
	return func(a ...interface{}) { l.Output(2, fmt.Sprintln(a...)); Exit(1) }
}
func LoggerFatalf(l *log.Logger) func(string, ...interface{}) {
	return func(f string, a ...interface{}) { l.Output(2, fmt.Sprintf(f, a...)); Exit(1) }
}
