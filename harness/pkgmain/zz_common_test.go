package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sync"
	"syscall"
	"testing"

	"github.com/getsolus/ferryd/src/verifos"
	log "github.com/sirupsen/logrus"
)

// TestVerif runs what VERIF_MODE says, reading VERIF_IN and writing VERIF_OUT
func TestVerif(t *testing.T) {
	mode := os.Getenv("VERIF_MODE")
	if mode == "" {
		t.Skip("not run by /verif")
	}
	if os.Getenv("VERIF_LOG") == "" {
		log.SetOutput(io.Discard)
	}
	jail, err := filepath.Abs(os.Getenv("VERIF_SCRATCH"))
	must(err)
	verifos.Jail = jail
	must(os.MkdirAll(filepath.Join(jail, "tmp"), 0755))
	must(os.Setenv("TMPDIR", filepath.Join(jail, "tmp")))
	f, ok := modes[mode]
	if !ok {
		t.Fatalf("no mode %s", mode)
	}
	f(t)
}

var modes = map[string]func(t *testing.T){}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func scratch() string {
	d, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "run-")
	must(err)
	return d
}

func env(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

// Lines of JSON
type out struct {
	mu sync.Mutex
	f  *os.File
	w  *bufio.Writer
}

func newOut(path string) *out {
	f, err := os.Create(path)
	must(err)
	return &out{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func (o *out) put(v interface{}) {
	b, err := json.Marshal(v)
	must(err)
	o.mu.Lock()
	o.w.Write(b)
	o.w.WriteByte('\n')
	o.mu.Unlock()
}

func (o *out) flush() {
	o.mu.Lock()
	o.w.Flush()
	o.mu.Unlock()
}

func (o *out) close() {
	o.w.Flush()
	o.f.Close()
}

func readJSON(path string, v interface{}) {
	b, err := os.ReadFile(path)
	must(err)
	if err := json.Unmarshal(b, v); err != nil {
		panic(fmt.Sprintf("%s: %v", path, err))
	}
}

func eachLine(path string, f func(b []byte)) {
	fi, err := os.Open(path)
	must(err)
	defer fi.Close()
	sc := bufio.NewScanner(fi)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		f(sc.Bytes())
	}
	must(sc.Err())
}

func exists(p string) bool {
	_, err := os.Lstat(p)
	return err == nil
}

// copyTree copies a directory, keeping the hard links within it
func copyTree(src, dst string) {
	seen := map[uint64]string{}
	must(filepath.Walk(src, func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		to := filepath.Join(dst, rel)
		switch {
		case st.IsDir():
			return os.MkdirAll(to, 0755)
		case st.Mode()&os.ModeSymlink != 0:
			l, err := os.Readlink(p)
			if err != nil {
				return err
			}
			return os.Symlink(l, to)
		case st.Mode()&os.ModeNamedPipe != 0:
			return syscall.Mkfifo(to, 0644)
		case !st.Mode().IsRegular():
			return nil
		}
		ino, n := inode(st)
		if n > 1 {
			if first, ok := seen[ino]; ok {
				return os.Link(first, to)
			}
			seen[ino] = to
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if err := os.WriteFile(to, b, st.Mode().Perm()); err != nil {
			return err
		}
		return os.Chtimes(to, st.ModTime(), st.ModTime())
	}))
}
