package main

import (
	"encoding/json"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/verifos"
)

func init() {
	modes["crash"] = modeCrash
}

// What has been changed on disk at these points
var mutations = map[string]bool{
	"create": true, "openfile": true, "remove": true, "removeall": true, "rename": true, "link": true, "symlink": true,
	"mkdir": true, "mkdirall": true, "mkdirtemp": true, "createtemp": true, "writefile": true, "copy": true, "exec": true,
	"chmod": true, "truncate": true, "db.put": true, "db.delete": true, "db.commit": true,
}

// What a full or failing disk makes fail
var writes = map[string]bool{
	"create": true, "openfile": true, "link": true, "symlink": true, "mkdir": true, "mkdirall": true, "mkdirtemp": true,
	"createtemp": true, "writefile": true, "copy": true, "exec": true, "db.update": true, "db.put": true, "db.delete": true, "db.commit": true,
}

type crashScript struct {
	Run    int
	Link   string
	Seed   int64
	Kinds  []string // jobs to be crashed
	Points int      // how many times each, at most
	Fails  int      // how many writes are to fail
	From   int      // the first operation that may be
	Ops    []json.RawMessage
}

type crashLine struct {
	line
	At    string  `json:"at"`    // where it was cut off
	Crash int     `json:"crash"` // how many times
	Cut   *oState `json:"cut"`   // the state that was left
	Done  bool    `json:"done"`  // the job claims to have succeeded nevertheless
}

type point struct {
	n     int
	at    string
	index bool
}

// sweepHook calls f at each point where something has changed
func sweepHook(link string, f func(k int, at string, index bool)) func(p verifos.Point) error {
	var l func(p verifos.Point) error
	if link != "" {
		l = linkHook(link)
	}
	k := 0
	return func(p verifos.Point) error {
		if mutations[p.Op] && p.Phase != verifos.Before {
			name := ""
			if len(p.Args) > 0 {
				name = filepath.Base(p.Args[0])
			}
			k++
			f(k, p.Phase+" "+p.Op+" "+name, strings.HasPrefix(name, "eopkg-index"))
		}
		if l != nil {
			return l(p)
		}
		return nil
	}
}

// failHook makes the k-th write fail, or all from there on, and calls f at each
func failHook(link string, k int, full bool, f func(k int, at string, index bool)) func(p verifos.Point) error {
	var l func(p verifos.Point) error
	if link != "" {
		l = linkHook(link)
	}
	n := 0
	return func(p verifos.Point) error {
		if writes[p.Op] && p.Phase == verifos.Before {
			name := ""
			if len(p.Args) > 0 {
				name = filepath.Base(p.Args[0])
			}
			n++
			f(n, p.Op+" "+name, strings.HasPrefix(name, "eopkg-index"))
			if n == k || (full && k > 0 && n > k) {
				return &os.PathError{Op: p.Op, Path: name, Err: syscall.ENOSPC}
			}
		}
		if l != nil {
			return l(p)
		}
		return nil
	}
}

// attempt executes the job with the hook set; true if it was cut off
func (i *instance) attempt(o op, j *jobs.JobEntry, hook func(p verifos.Point) error) (err error, crash string, cut bool) {
	verifos.Wants = func(op string, args []string) bool { return true }
	verifos.Hook = hook
	defer func() { verifos.Hook, verifos.Wants = nil, nil }()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(verifos.Crash); !ok {
					panic(r)
				}
				cut = true
			}
		}()
		err, crash = i.execute(o, j)
	}()
	if cut {
		i.close()
		verifos.Dead.Store(false)
		verifos.Hook = nil
		must(i.open())
	}
	return
}

func (i *instance) restore(from string, deltas map[string]string) {
	i.close()
	es, err := os.ReadDir(i.dir)
	must(err)
	for _, e := range es {
		must(os.RemoveAll(filepath.Join(i.dir, e.Name())))
	}
	copyTree(from, i.dir)
	i.u.deltas = map[string]string{}
	for k, v := range deltas {
		i.u.deltas[k] = v
	}
	must(i.open())
}

func copyMap(m map[string]string) map[string]string {
	ret := map[string]string{}
	for k, v := range m {
		ret[k] = v
	}
	return ret
}

// sweep runs a job, and does so again with crashes
func (i *instance) sweep(s *crashScript, o op, rng *rand.Rand, put func(v interface{})) {
	j := i.prepare(o)
	i.close()
	snap, after := scratch(), scratch()
	defer os.RemoveAll(snap)
	defer os.RemoveAll(after)
	copyTree(i.dir, snap)
	deltas := copyMap(i.u.deltas)
	must(i.open())

	finish := func(l *line, err error, crash string) {
		l.Op, l.Run, l.Ok, l.Flags = o.raw, s.Run, err == nil, []flag{}
		if err != nil {
			l.Err = err.Error()
		}
		if crash != "" {
			l.Flags = append(l.Flags, flag{"C22", "the job crashed the daemon: " + firstLine(crash)})
			i.close()
			must(i.open())
		}
		if err == errStuck {
			l.Flags = append(l.Flags, flag{"C18", "a job of kind " + o.Op + " does not finish"})
		}
		l.In0, l.In1 = map[string]string{}, map[string]string{}
		if o.Op == "upload" {
			l.In0, l.In1 = i.in0, listDir(i.incoming())
		}
		st, fl := i.u.observe(i.base)
		l.St = st
		l.Flags = append(l.Flags, fl...)
		l.Flags = append(l.Flags, i.outside()...)
	}

	var points, index []point
	err, crash, _ := i.attempt(o, j, sweepHook(s.Link, func(k int, at string, idx bool) {
		p := point{k, at, idx}
		if idx {
			index = append(index, p)
		} else {
			points = append(points, p)
		}
	}))
	l := line{Kind: "step"}
	finish(&l, err, crash)
	put(l)
	total := len(points) + len(index)
	if err == errStuck || total == 0 {
		return
	}
	i.close()
	copyTree(i.dir, after)
	deltasAfter := copyMap(i.u.deltas)

	rng.Shuffle(len(points), func(a, b int) { points[a], points[b] = points[b], points[a] })
	rng.Shuffle(len(index), func(a, b int) { index[a], index[b] = index[b], index[a] })
	if len(points) > s.Points {
		points = points[:s.Points]
	}
	if n := (s.Points + 5) / 6; len(index) > n {
		index = index[:n]
	}
	points = append(points, index...)

	// The writes that might fail
	var fails, findex []point
	if s.Fails > 0 {
		i.restore(snap, deltas)
		i.attempt(o, j, failHook(s.Link, 0, false, func(k int, at string, idx bool) {
			if idx {
				findex = append(findex, point{k, at, idx})
			} else {
				fails = append(fails, point{k, at, idx})
			}
		}))
	}
	rng.Shuffle(len(fails), func(a, b int) { fails[a], fails[b] = fails[b], fails[a] })
	rng.Shuffle(len(findex), func(a, b int) { findex[a], findex[b] = findex[b], findex[a] })
	if len(fails) > s.Fails {
		fails = fails[:s.Fails]
	}
	if n := (s.Fails + 5) / 6; len(findex) > n {
		findex = findex[:n]
	}
	for _, p := range append(fails, findex...) {
		i.restore(snap, deltas)
		full := rng.Intn(2) == 0
		l := crashLine{line: line{Kind: "fail"}, At: p.at, Crash: 1}
		if full {
			l.At += " and all that follows"
		}
		hit := false
		err, crash, _ := i.attempt(o, j, failHook(s.Link, p.n, full, func(k int, _ string, _ bool) { hit = hit || k == p.n }))
		if !hit {
			continue
		}
		l.Cut, _ = i.u.observe(i.base)
		l.Done = err == nil
		if crash == "" && err != nil && err != errStuck {
			err, crash, _ = i.attempt(o, j, nil)
		}
		finish(&l.line, err, crash)
		put(l)
		if err == errStuck {
			return
		}
	}

	for _, p := range points {
		i.restore(snap, deltas)
		l := crashLine{line: line{Kind: "crash"}, At: p.at}
		at := p.n
		again := rng.Intn(4) == 0
		var err error
		var crash string
		for {
			var cut bool
			err, crash, cut = i.attempt(o, j, sweepHook(s.Link, func(k int, name string, _ bool) {
				if k == at {
					if l.Crash > 0 {
						l.At += ", then " + name
					}
					verifos.Dead.Store(true)
					panic(verifos.Crash{})
				}
			}))
			if !cut {
				break
			}
			l.Crash++
			l.Cut, _ = i.u.observe(i.base)
			if again {
				again, at = false, 1+rng.Intn(total)
			} else {
				at = -1
			}
		}
		if l.Crash == 0 {
			continue
		}
		finish(&l.line, err, crash)
		put(l)
		if err == errStuck {
			return
		}
	}
	i.restore(after, deltasAfter)
}

func modeCrash(t *testing.T) {
	u := loadUniverse(os.Getenv("VERIF_UNI"))
	o := newOut(os.Getenv("VERIF_OUT"))
	defer o.close()
	eachLine(os.Getenv("VERIF_IN"), func(b []byte) {
		s := crashScript{}
		must(json.Unmarshal(b, &s))
		rng := rand.New(rand.NewSource(s.Seed))
		u.deltas = map[string]string{}
		i := newInstance(u)
		defer i.remove()
		must(i.open())
		verifos.Hook, verifos.Wants = nil, nil
		kinds := map[string]bool{}
		for _, k := range s.Kinds {
			kinds[k] = true
		}
		st, flags := u.observe(i.base)
		o.put(line{Kind: "init", Run: s.Run, Op: json.RawMessage("{}"), Ok: true, St: st, Flags: flags, In0: map[string]string{}, In1: map[string]string{}})
		stuck := false
		put := func(v interface{}) {
			if l, ok := v.(line); ok && l.Err == errStuck.Error() {
				stuck = true
			}
			if l, ok := v.(crashLine); ok && l.Err == errStuck.Error() {
				stuck = true
			}
			o.put(v)
		}
		for k, raw := range s.Ops {
			x := parseOp(raw)
			if k >= s.From && kinds[x.Op] {
				i.sweep(&s, x, rng, put)
			} else {
				if s.Link != "" {
					verifos.Hook = linkHook(s.Link)
				}
				put(i.step(s.Run, x))
				verifos.Hook = nil
			}
			if stuck {
				o.close()
				os.Exit(0)
			}
		}
	})
}
