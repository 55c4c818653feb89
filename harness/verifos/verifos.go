// Package verifos stands in for the file system calls of ferryd in the builds
// that /verif makes of it (it never is part of ferryd itself). Each call
// reports to Hook before and after it takes effect, where a run can be
// stopped as by a crash, made to fail, or suspended.
package verifos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Scaled down units of time, for the pollers
const (
	Second      = 2 * time.Millisecond
	Millisecond = 2 * time.Microsecond
)

// Phases of a call
const (
	Before = "before" // nothing has happened yet
	Middle = "middle" // a part of it has happened (calls that are not atomic)
	After  = "after"  // all of it has happened
)

// Point is one moment of a run
type Point struct {
	Phase string
	Op    string
	Args  []string
}

// Hook is told of each point. An error returned before a call makes the call
// fail; it may also panic, or block.
var Hook func(p Point) error

// Dead is set once the run has "crashed": nothing may take effect any longer
var Dead atomic.Bool

// ErrDead is what everything returns then
var ErrDead = errors.New("verif: crashed")

// Crash is thrown to crash a run
type Crash struct{}

// At reports a point
func At(phase, op string, args ...string) error {
	if Dead.Load() {
		return ErrDead
	}
	if h := Hook; h != nil {
		return h(Point{phase, op, args})
	}
	return nil
}

// Jail is the directory that everything has to happen in, if set. What would
// change something elsewhere is recorded, and not done.
var Jail string

var (
	escMut  sync.Mutex
	escapes []string
)

// Escapes returns what was tried outside of the Jail since it was last called
func Escapes() []string {
	escMut.Lock()
	defer escMut.Unlock()
	e := escapes
	escapes = nil
	return e
}

func confined(op string, args []string) error {
	if Jail == "" || op == "open" || op == "flock" {
		return nil
	}
	if op == "link" || op == "symlink" {
		args = args[1:]
	}
	if op == "exec" || op == "mkdirtemp" || op == "createtemp" {
		if args = args[:1]; args[0] == "" {
			return nil
		}
	}
	for _, a := range args {
		p, err := filepath.Abs(a)
		if p == "/dev/full" {
			return syscall.EPERM
		}
		if err != nil || p == Jail || !strings.HasPrefix(p, Jail+"/") {
			escMut.Lock()
			escapes = append(escapes, op+" "+p)
			escMut.Unlock()
			return syscall.EPERM
		}
	}
	return nil
}

func do(op string, args []string, f func() error) error {
	if err := confined(op, args); err != nil {
		return &os.PathError{Op: op, Path: args[0], Err: err}
	}
	if err := At(Before, op, args...); err != nil {
		return &os.PathError{Op: op, Path: args[0], Err: err}
	}
	err := f()
	if e := At(After, op, args...); e != nil && err == nil {
		err = e
	}
	return err
}

// Wants tells whether somebody wants to know about the middle of the calls
// that have one; they are only then done in two parts
var Wants func(op string, args []string) bool

func wants(op string, args ...string) bool {
	return Wants != nil && !Dead.Load() && Wants(op, args)
}

// ErrFull makes a file be created, to which nothing can be written
var ErrFull = errors.New("verif: no space left")

func Create(name string) (f *os.File, err error) {
	if err := confined("create", []string{name}); err != nil {
		return nil, &os.PathError{Op: "create", Path: name, Err: err}
	}
	e := At(Before, "create", name)
	if e != nil && e != ErrFull {
		return nil, &os.PathError{Op: "create", Path: name, Err: e}
	}
	if f, err = os.Create(name); err == nil && e == ErrFull {
		f.Close()
		f, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
	}
	if e := At(After, "create", name); e != nil && err == nil {
		f.Close()
		return nil, &os.PathError{Op: "create", Path: name, Err: e}
	}
	return
}

func OpenFile(name string, flag int, perm os.FileMode) (f *os.File, err error) {
	if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC) == 0 {
		return os.OpenFile(name, flag, perm)
	}
	err = do("openfile", []string{name}, func() (e error) { f, e = os.OpenFile(name, flag, perm); return })
	return
}

func Remove(name string) error {
	return do("remove", []string{name}, func() error { return os.Remove(name) })
}

func RemoveAll(name string) error {
	return do("removeall", []string{name}, func() error {
		if wants("removeall", name) {
			if es, err := os.ReadDir(name); err == nil {
				for i, e := range es {
					if i < (len(es)+1)/2 {
						os.RemoveAll(name + "/" + e.Name())
					}
				}
			}
			if err := At(Middle, "removeall", name); err != nil {
				return err
			}
		}
		return os.RemoveAll(name)
	})
}

func Rename(a, b string) error {
	return do("rename", []string{a, b}, func() error { return os.Rename(a, b) })
}

func Link(a, b string) error {
	return do("link", []string{a, b}, func() error { return os.Link(a, b) })
}

func Symlink(a, b string) error {
	return do("symlink", []string{a, b}, func() error { return os.Symlink(a, b) })
}

func Truncate(a string, n int64) error {
	return do("truncate", []string{a}, func() error { return os.Truncate(a, n) })
}

func Mkdir(name string, perm os.FileMode) error {
	return do("mkdir", []string{name}, func() error { return os.Mkdir(name, perm) })
}

func MkdirAll(name string, perm os.FileMode) error {
	return do("mkdirall", []string{name}, func() error { return os.MkdirAll(name, perm) })
}

func MkdirTemp(dir, pattern string) (n string, err error) {
	err = do("mkdirtemp", []string{dir}, func() (e error) { n, e = os.MkdirTemp(dir, pattern); return })
	return
}

func CreateTemp(dir, pattern string) (f *os.File, err error) {
	err = do("createtemp", []string{dir}, func() (e error) { f, e = os.CreateTemp(dir, pattern); return })
	return
}

func Chmod(name string, mode os.FileMode) error {
	return do("chmod", []string{name}, func() error { return os.Chmod(name, mode) })
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return do("writefile", []string{name}, func() error {
		if wants("writefile", name) {
			if err := os.WriteFile(name, data[:len(data)/2], perm); err != nil {
				return err
			}
			if err := At(Middle, "writefile", name); err != nil {
				return err
			}
		}
		return os.WriteFile(name, data, perm)
	})
}

// Open is reported only: reading cannot go wrong half way
func Open(name string) (f *os.File, err error) {
	err = do("open", []string{name}, func() (e error) { f, e = os.Open(name); return })
	return
}

// Copy is io.Copy
func Copy(dst io.Writer, src io.Reader) (n int64, err error) {
	f, ok := dst.(*os.File)
	if !ok {
		return io.Copy(dst, src)
	}
	err = do("copy", []string{f.Name()}, func() (e error) {
		if wants("copy", f.Name()) {
			data, e := io.ReadAll(src)
			if e != nil {
				return e
			}
			if _, e = dst.Write(data[:len(data)/2]); e != nil {
				return e
			}
			if e := At(Middle, "copy", f.Name()); e != nil {
				return e
			}
			m, e := dst.Write(data[len(data)/2:])
			n = int64(len(data)/2 + m)
			return e
		}
		n, e = io.Copy(dst, src)
		return
	})
	return
}

// Cmd is exec.Cmd
type Cmd struct {
	*exec.Cmd
}

// Command is exec.Command
func Command(name string, arg ...string) *Cmd {
	return &Cmd{exec.Command(name, arg...)}
}

// Halve cuts the output of a (de)compressor in the middle, as seen by somebody
// who looks while it is still running
var outputs = map[string]string{"xz": ".xz", "zstd": ".zst", "unxz": "-.xz", "unzstd": "-.zst"}

func (c *Cmd) input() string {
	in := ""
	for _, a := range c.Args[1:] {
		if len(a) > 0 && a[0] == '/' {
			in = a
		}
	}
	return in
}

// Run is exec.Cmd.Run
func (c *Cmd) Run() error {
	tool, in := c.Args[0], c.input()
	return do("exec", []string{in, tool}, func() error {
		if suffix, ok := outputs[tool]; ok && suffix[0] != '-' && wants("exec", in, tool) {
			// Run it, but have its output seen half written first
			if err := c.Cmd.Run(); err != nil {
				return err
			}
			out := in + suffix
			whole, err := os.ReadFile(out)
			if err != nil {
				return nil
			}
			if err := os.WriteFile(out, whole[:len(whole)/2], 0644); err != nil {
				return err
			}
			if err := At(Middle, "exec", in, tool); err != nil {
				return err
			}
			return os.WriteFile(out, whole, 0644)
		}
		return c.Cmd.Run()
	})
}

// Flock is syscall.Flock
func Flock(fd int, how int) error {
	return do("flock", []string{""}, func() error { return syscall.Flock(fd, how) })
}
