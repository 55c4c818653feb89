package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/verifos"
)

func init() {
	modes["queue"] = modeQueue
	modes["workers"] = modeWorkers
}

type qOp struct {
	Op    string `json:"op"`
	Kind  string `json:"kind,omitempty"`
	W     string `json:"w,omitempty"`
	H     string `json:"h,omitempty"`
	N     int    `json:"n"`
	Fail  bool   `json:"fail"`
	Hold  bool   `json:"-"`
	A     *qOp   `json:"-"`
	Bs    []qOp  `json:"-"`
	At    int    `json:"-"`
	Count int    `json:"-"`
	J     int    `json:"-"`
	Mod   int    `json:"-"`
}

func parseQ(b []byte) qOp {
	var x struct {
		Op, Kind, W, H  string
		N, At, Count, J int
		Fail            json.RawMessage
		Hold            bool
		A               json.RawMessage
		Bs              []json.RawMessage
	}
	must(json.Unmarshal(b, &x))
	o := qOp{Op: x.Op, Kind: x.Kind, W: x.W, H: x.H, N: x.N, Hold: x.Hold, At: x.At, Count: x.Count, J: x.J}
	if x.Op == "drain" {
		must(json.Unmarshal(x.Fail, &o.Mod))
	} else if len(x.Fail) > 0 {
		must(json.Unmarshal(x.Fail, &o.Fail))
	}
	if len(x.A) > 0 {
		a := parseQ(x.A)
		o.A = &a
	}
	for _, r := range x.Bs {
		o.Bs = append(o.Bs, parseQ(r))
	}
	return o
}

type qLine struct {
	Ev      string   `json:"ev"`
	Run     int      `json:"run"`
	ID      int      `json:"id"`
	O       *qOp     `json:"o,omitempty"`
	Res     [][]int  `json:"res"`
	N       int      `json:"n"`
	Held    []int    `json:"held"`
	Block   bool     `json:"block"`
	Auto    []string `json:"auto"`
	Workers []string `json:"workers"`
	Err     string   `json:"err,omitempty"`
}

// qJob is the n-th job: its kind, its arguments, and what it is called
func qJob(n int) *jobs.JobEntry {
	r := fmt.Sprintf("repo%d", n)
	switch n % 15 {
	case 0:
		return jobs.NewBulkAddJob(r, []string{"/a b", "", "ü\x00\xff", strings.Repeat("x", n%400)})
	case 1:
		return jobs.NewCopySourceJob(r, "to", "src", n, n%2 == 0)
	case 2:
		return jobs.NewCloneRepoJob(r, "new", n%2 == 0)
	case 3:
		return jobs.NewCreateRepoJob(r)
	case 4:
		return jobs.NewDeleteRepoJob(r + " '%s'")
	case 5:
		return jobs.NewDeltaRepoJob(r)
	case 6:
		return jobs.NewIndexRepoJob(r + "\n")
	case 7:
		return jobs.NewPullRepoJob(r, "")
	case 8:
		return jobs.NewRemoveSourceJob(r, "src-é", -1)
	case 9:
		return jobs.NewTransitJob("/incoming/" + r + core.TransitManifestSuffix)
	case 10:
		return jobs.NewTrimObsoleteJob(r)
	case 11:
		return jobs.NewTrimPackagesJob(r, n)
	case 12:
		return &jobs.JobEntry{Type: jobs.JobType("Bogus" + r)}
	case 13:
		return &jobs.JobEntry{Type: jobs.JobType("Bogus" + r), Params: []string{}}
	}
	return &jobs.JobEntry{Type: jobs.JobType("Bogus" + r), Params: []string{r, "é", ""}}
}

func describe(j *jobs.JobEntry) string {
	if h, err := jobs.NewJobHandler(j); err == nil {
		return h.Describe()
	}
	return ""
}

type qRun struct {
	run   int
	o     *out
	dir   string
	store *jobs.JobStore
	proc  *jobs.Processor // has workers of its own, or nil

	mu      sync.Mutex
	job     func(n int) *jobs.JobEntry
	names   map[string]int // by description
	jobs    int
	id      int
	work    map[string]*jobs.JobEntry
	num     map[string]int // what each worker works on
	queued  map[int]time.Time
	began   map[int]time.Time
	failing map[int]bool
	kinds   map[int]string
	lmu     sync.Mutex // held to be sure not to be dead
	sawErr  map[int]string
	began0  time.Time
	err     string
}

const strange = -8 // something is wrong with the entry

func (r *qRun) line(l qLine) {
	l.Run = r.run
	if l.Res == nil {
		l.Res = [][]int{}
	}
	if l.Held == nil {
		l.Held = []int{}
	}
	if l.Auto == nil {
		l.Auto = []string{}
	}
	if l.Workers == nil {
		l.Workers = []string{}
	}
	r.o.put(l)
}

func (r *qRun) number(j *libferry.Job) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	if n, ok := r.names[j.Description]; ok {
		return n
	}
	// What cannot be described is still told apart by its type
	for d, n := range r.names {
		if strings.HasPrefix(d, "\x00") && strings.Contains(j.Description, d[1:]+"'") {
			return n
		}
	}
	return -1
}

func (r *qRun) next(o *qOp) *jobs.JobEntry {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.jobs++
	o.N = r.jobs
	r.failing[o.N] = o.Fail
	r.kinds[o.N] = o.Kind
	j := r.job(o.N)
	d := describe(j)
	if d == "" {
		d = "\x00" + string(j.Type)
	}
	r.names[d] = o.N
	return j
}

// setOutcome does what a worker does to a job that it is done with. The fields
// are private, and known by their types alone.
func setOutcome(j *jobs.JobEntry, description string, failure error) {
	v := reflect.ValueOf(j).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.PkgPath == "" {
			continue
		}
		p := unsafe.Pointer(v.Field(i).UnsafeAddr())
		switch f.Type {
		case reflect.TypeOf((*error)(nil)).Elem():
			*(*error)(p) = failure
		case reflect.TypeOf(""):
			*(*string)(p) = description
		}
	}
}

func near(a, b time.Time) bool { return a.Equal(b) }

// do carries out an operation and gives its outcome
func (r *qRun) do(o qOp, j *jobs.JobEntry) (res [][]int, err error) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(verifos.Crash); ok {
				panic(x)
			}
			err = fmt.Errorf("panic: %v", x)
		}
	}()
	switch o.Op {
	case "close":
		r.proc.Close()
		return nil, nil
	case "push":
		if o.Kind == "seq" && r.proc != nil {
			r.proc.PushJob(j)
			return nil, nil
		}
		if o.Kind == "seq" {
			return nil, r.store.PushSequentialJob(j)
		}
		return nil, r.store.PushAsyncJob(j)
	case "claim":
		var e *jobs.JobEntry
		if o.Kind == "seq" {
			e, err = r.store.ClaimSequentialJob()
		} else {
			e, err = r.store.ClaimAsyncJob()
		}
		if err == jobs.ErrEmptyQueue {
			return [][]int{{0}}, nil
		}
		if err != nil {
			return nil, err
		}
		n := 0
		r.mu.Lock()
		for k := 1; k <= r.jobs; k++ {
			w := r.job(k)
			if e.Type == w.Type && len(e.Params) == len(w.Params) && (len(e.Params) == 0 || reflect.DeepEqual(e.Params, w.Params)) {
				n = k
			}
		}
		if n != 0 {
			if !e.Claimed || e.Timing.Queued.Before(r.began0) || e.Timing.Begin.Before(e.Timing.Queued) || !e.Timing.End.IsZero() {
				n = strange
			} else if q, ok := r.queued[n]; ok && !near(q, e.Timing.Queued) {
				n = strange
			} else {
				r.queued[n] = e.Timing.Queued
				r.began[n] = e.Timing.Begin
			}
		}
		r.work[o.W] = e
		r.num[o.W] = n
		r.mu.Unlock()
		if n == 0 {
			n = -1
		}
		return [][]int{{n}}, nil
	case "retire":
		r.mu.Lock()
		e, n := r.work[o.W], r.num[o.W]
		r.failing[n] = o.Fail
		delete(r.work, o.W)
		r.mu.Unlock()
		d := describe(e)
		if d == "" {
			d = "Bogusrepo" + fmt.Sprint(n) + "'"
		}
		var failure error
		if o.Fail {
			failure = fmt.Errorf("failure of %d", n)
		}
		setOutcome(e, d, failure)
		e.Timing.End = time.Now().UTC()
		if strings.HasPrefix(e.GetID(), "-") {
			return nil, errors.New("a negative id")
		}
		if o.Kind == "seq" {
			return nil, r.store.RetireSequentialJob(e)
		}
		return nil, r.store.RetireAsyncJob(e)
	case "status":
		l, err := r.store.ActiveJobs()
		if err != nil {
			return nil, err
		}
		for _, j := range l {
			n, c := r.number(j), 0
			if !j.Timing.Begin.IsZero() {
				c = 1
			}
			r.mu.Lock()
			if j.Failed || j.Error != "" || !j.Timing.End.IsZero() || j.Timing.Queued.Before(r.began0) {
				n = strange
			} else if q, ok := r.queued[n]; ok && !near(q, j.Timing.Queued) {
				n = strange
			} else {
				r.queued[n] = j.Timing.Queued
			}
			r.mu.Unlock()
			res = append(res, []int{n, c})
		}
		return res, nil
	case "completed", "failed":
		var l []*libferry.Job
		if o.Op == "completed" {
			l, err = r.store.CompletedJobs()
		} else {
			l, err = r.store.FailedJobs()
		}
		if err != nil {
			return nil, err
		}
		res = r.outcomes(l, o.Op == "failed")
		return res, nil
	case "reset":
		if o.H == "ok" {
			return nil, r.store.ResetCompleted()
		}
		return nil, r.store.ResetFailed()
	}
	panic(o.Op)
}

func (r *qRun) outcomes(l []*libferry.Job, failed bool) (res [][]int) {
	for _, j := range l {
		n := r.number(j)
		r.mu.Lock()
		wrong := j.Failed != failed || (j.Error != "") != failed || j.Timing.Queued.Before(r.began0) || j.Timing.Begin.Before(j.Timing.Queued) || j.Timing.End.Before(j.Timing.Begin)
		if q, ok := r.queued[n]; ok && !near(q, j.Timing.Queued) {
			wrong = true
		}
		if b, ok := r.began[n]; ok && !near(b, j.Timing.Begin) {
			wrong = true
		}
		if e, ok := r.sawErr[n]; ok && e != j.Error {
			wrong = true
		}
		if len(r.work) != 0 || len(r.began) != 0 { // the jobs have been carried out by this test
			if failed && j.Error != fmt.Sprintf("failure of %d", n) {
				wrong = true
			}
		}
		r.sawErr[n] = j.Error
		r.mu.Unlock()
		if wrong {
			n = strange
		}
		res = append(res, []int{n})
	}
	sort.Slice(res, func(a, b int) bool { return res[a][0] < res[b][0] })
	return res
}

// possible leaves out what makes no sense for the worker, and tells what else
// has to be known
func (r *qRun) possible(o *qOp) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	switch o.Op {
	case "claim":
		_, busy := r.work[o.W]
		return !busy
	case "retire":
		e, busy := r.work[o.W]
		o.Kind = "async"
		if o.W == "s" {
			o.Kind = "seq"
		}
		return busy && e != nil
	}
	return true
}

func (r *qRun) whole(o qOp) {
	if !r.possible(&o) {
		return
	}
	var j *jobs.JobEntry
	if o.Op == "push" {
		j = r.next(&o)
	}
	res, err := r.do(o, j)
	r.line(qLine{Ev: "op", O: &o, Res: r.result(o, res, err)})
}

func (r *qRun) result(o qOp, res [][]int, err error) [][]int {
	if err != nil {
		r.mu.Lock()
		r.err = err.Error()
		r.mu.Unlock()
		return [][]int{{-9}}
	}
	return res
}

// spanning carries out an operation that others may overlap with
func (r *qRun) spanning(o qOp) (done chan bool) {
	done = make(chan bool, 1)
	if !r.possible(&o) {
		done <- false
		return
	}
	var j *jobs.JobEntry
	if o.Op == "push" {
		j = r.next(&o)
	}
	r.mu.Lock()
	r.id++
	id := r.id
	r.mu.Unlock()
	r.line(qLine{Ev: "call", ID: id, O: &o})
	go func() {
		defer func() {
			if x := recover(); x != nil {
				done <- true // crashed
			}
		}()
		res, err := r.do(o, j)
		r.lmu.Lock()
		defer r.lmu.Unlock()
		if verifos.Dead.Load() {
			done <- true
			return
		}
		r.line(qLine{Ev: "ret", ID: id, O: &o, Res: r.result(o, res, err)})
		done <- true
	}()
	return
}

func (r *qRun) reopen() bool {
	r.store.Close()
	verifos.Dead.Store(false)
	verifos.Hook = nil
	s, err := jobs.NewStore(r.dir)
	if err != nil {
		r.line(qLine{Ev: "stuck", Err: "cannot open the store: " + err.Error()})
		return false
	}
	r.store = s
	r.work = map[string]*jobs.JobEntry{}
	r.line(qLine{Ev: "start"})
	return true
}

const long = 10 * time.Second

func wait(c chan bool, d time.Duration) bool {
	select {
	case <-c:
		return true
	case <-time.After(d):
		return false
	}
}

// par holds a up at a point while the others go on
func (r *qRun) par(o qOp) bool {
	held, release := make(chan bool, 1), make(chan bool)
	var mu sync.Mutex
	count, armed := 0, true
	verifos.Hook = func(p verifos.Point) error {
		mu.Lock()
		if !armed || !strings.HasPrefix(p.Op, "db.") {
			mu.Unlock()
			return nil
		}
		count++
		if count < o.At {
			mu.Unlock()
			return nil
		}
		armed = false
		mu.Unlock()
		held <- true
		<-release
		return nil
	}
	a := r.spanning(*o.A)
	finished := false
	select {
	case <-held:
	case <-a:
		finished = true
	case <-time.After(long):
		r.line(qLine{Ev: "stuck", Err: "an operation does not end"})
		return false
	}
	mu.Lock()
	armed = false
	mu.Unlock()
	var rest []chan bool
	for _, b := range o.Bs {
		c := r.spanning(b)
		if !wait(c, 2*time.Millisecond) {
			rest = append(rest, c)
		}
	}
	close(release)
	if !finished {
		rest = append(rest, a)
	}
	for _, c := range rest {
		if !wait(c, long) {
			r.line(qLine{Ev: "stuck", Err: "operations do not end"})
			return false
		}
	}
	verifos.Hook = nil
	return true
}

func newQRun(run int, o *out, dir string) *qRun {
	return &qRun{run: run, o: o, dir: dir, job: qJob, names: map[string]int{}, work: map[string]*jobs.JobEntry{}, num: map[string]int{},
		queued: map[int]time.Time{}, began: map[int]time.Time{}, failing: map[int]bool{}, kinds: map[int]string{}, sawErr: map[int]string{}, began0: time.Now().UTC()}
}

func (r *qRun) script(ops []json.RawMessage) {
	for _, raw := range ops {
		o := parseQ(raw)
		switch o.Op {
		case "par":
			if !r.par(o) {
				return
			}
		case "burst":
			for i := 0; i < o.Count; i++ {
				r.whole(qOp{Op: "push", Kind: o.Kind})
			}
		case "drain":
			kind := "async"
			if o.W == "s" {
				kind = "seq"
			}
			for i := 0; i < o.Count; i++ {
				r.whole(qOp{Op: "claim", Kind: kind, W: o.W})
				if r.work[o.W] == nil {
					break
				}
				r.whole(qOp{Op: "retire", W: o.W, Fail: o.Mod == 1 || o.Mod > 1 && i%o.Mod == 0})
			}
		case "restart":
			if !r.reopen() {
				return
			}
		case "crash":
			n := 0
			verifos.Hook = func(p verifos.Point) error {
				if n++; n == o.At && strings.HasPrefix(p.Op, "db.") {
					verifos.Dead.Store(true)
					return verifos.ErrDead
				}
				return nil
			}
			if o.At > 0 && !wait(r.spanning(*o.A), long) {
				r.line(qLine{Ev: "stuck", Err: "an operation does not end"})
				return
			}
			r.line(qLine{Ev: "crash"})
			if !r.reopen() {
				return
			}
		default:
			r.whole(o)
		}
	}
	for _, k := range []string{"status", "completed", "failed"} {
		r.whole(qOp{Op: k})
	}
}

func modeQueue(t *testing.T) {
	o := newOut(os.Getenv("VERIF_OUT"))
	defer o.close()
	eachLine(os.Getenv("VERIF_IN"), func(b []byte) {
		s := script{}
		must(json.Unmarshal(b, &s))
		dir := scratch()
		r := newQRun(s.Run, o, dir)
		st, err := jobs.NewStore(dir)
		must(err)
		r.store = st
		r.line(qLine{Ev: "init", Workers: []string{"s", "a", "b"}})
		r.script(s.Ops)
		verifos.Hook = nil
		r.store.Close()
		os.RemoveAll(dir)
	})
}

// --- with the processor's own workers

const repositories = 60

// wRun has jobs that succeed (r<n> is a repository without packages) and jobs
// that fail (x<n> does not exist)
type wRun struct {
	*qRun
	manager *core.Manager
	gmu     sync.Mutex
	hold    map[string]chan bool // by the name of the repository
	blocked map[string]bool
	last    string
	points  int
	crashAt int
	dead    chan bool
}

func (r *wRun) hook(p verifos.Point) error {
	r.gmu.Lock()
	if r.crashAt > 0 {
		if r.points++; r.points >= r.crashAt {
			r.crashAt = 0
			r.die()
			r.gmu.Unlock()
			return verifos.ErrDead
		}
	}
	if len(p.Args) > 1 && strings.HasPrefix(p.Op, "db.") {
		name := p.Args[1]
		n := 0
		if len(name) > 1 && (name[0] == 'r' || name[0] == 'x') {
			fmt.Sscanf(name[1:], "%d", &n)
		}
		if n > 0 && fmt.Sprint(n) == name[1:] {
			c, ok := r.hold[name]
			r.alive(qLine{Ev: "touch", N: n, Block: ok})
			if ok {
				r.blocked[name] = true
				r.gmu.Unlock()
				<-c
				r.gmu.Lock()
				delete(r.blocked, name)
				r.alive(qLine{Ev: "unblock", N: n})
				r.gmu.Unlock()
				if verifos.Dead.Load() {
					return verifos.ErrDead
				}
				return nil
			}
		}
	}
	r.gmu.Unlock()
	return nil
}

// alive logs what cannot come after a crash
func (r *qRun) alive(l qLine) {
	r.lmu.Lock()
	defer r.lmu.Unlock()
	if !verifos.Dead.Load() {
		r.line(l)
	}
}

func (r *wRun) die() {
	r.lmu.Lock()
	defer r.lmu.Unlock()
	if !verifos.Dead.Load() {
		verifos.Dead.Store(true)
		r.line(qLine{Ev: "crash"})
		r.dead <- true
	}
}

func (r *wRun) release(j int) {
	r.gmu.Lock()
	defer r.gmu.Unlock()
	var names []string
	for n := range r.hold {
		names = append(names, n)
	}
	sort.Strings(names)
	if len(names) == 0 {
		return
	}
	n := names[j%len(names)]
	close(r.hold[n])
	delete(r.hold, n)
}

func (r *wRun) releaseAll() {
	r.gmu.Lock()
	defer r.gmu.Unlock()
	for n, c := range r.hold {
		close(c)
		delete(r.hold, n)
	}
}

func (r *wRun) start() bool {
	var err error
	verifos.Hook = nil
	r.manager, err = core.NewManager(r.dir)
	if err != nil {
		r.line(qLine{Ev: "stuck", Err: "cannot open: " + err.Error()})
		return false
	}
	r.store, err = jobs.NewStore(r.dir)
	if err != nil {
		r.line(qLine{Ev: "stuck", Err: "cannot open the store: " + err.Error()})
		return false
	}
	r.proc = jobs.NewProcessor(r.manager, r.store, 2)
	r.line(qLine{Ev: "start"})
	verifos.Hook = r.hook
	r.proc.Begin()
	return true
}

func (r *wRun) repoOf(n int) string {
	if r.failing[n] {
		return fmt.Sprint("x", n)
	}
	return fmt.Sprint("r", n)
}

// idle waits until the workers can do no more
func (r *wRun) idle() bool {
	until := time.Now().Add(3 * long)
	for {
		verifos.Hook = r.hook
		l, err := r.store.ActiveJobs()
		r.gmu.Lock()
		var held []int
		blocked := map[string]bool{}
		for n := range r.blocked {
			k := 0
			fmt.Sscanf(n[1:], "%d", &k)
			held = append(held, k)
			blocked[n] = true
		}
		r.gmu.Unlock()
		if err == nil {
			idle := true
			seqHeld, asyncHeld := false, 0
			for _, j := range l {
				n := r.number(j)
				if !j.Timing.Begin.IsZero() {
					if !blocked[r.repoOf(n)] {
						idle = false
					} else if r.kinds[n] == "seq" {
						seqHeld = true
					} else {
						asyncHeld++
					}
				}
			}
			for _, j := range l {
				if j.Timing.Begin.IsZero() {
					if k := r.kinds[r.number(j)]; k == "seq" && !seqHeld || k != "seq" && asyncHeld < 2 {
						idle = false
					}
				}
			}
			if idle {
				r.line(qLine{Ev: "idle", Held: held})
				return true
			}
		}
		if time.Now().After(until) {
			s := ""
			for _, j := range l {
				s += j.Description + "; "
			}
			r.line(qLine{Ev: "stuck", Err: "jobs are not carried out: " + s})
			return false
		}
		time.Sleep(time.Millisecond)
	}
}

func (r *wRun) end(o qOp, patience time.Duration) bool {
	c := r.spanning(o)
	if !wait(c, patience) {
		r.releaseAll()
		if !wait(c, 3*long) {
			r.line(qLine{Ev: "stuck", Err: "an operation does not end: " + o.Op})
			return false
		}
	}
	return true
}

// shut ends what is left of a processor
func (r *wRun) shut() bool {
	r.releaseAll()
	c := make(chan bool, 1)
	go func() {
		r.proc.Close()
		r.store.Close()
		r.manager.Close()
		c <- true
	}()
	return wait(c, 3*long)
}

func (r *wRun) script(ops []json.RawMessage) {
	pushed := 0
	for _, raw := range ops {
		o := parseQ(raw)
		good := true
		switch o.Op {
		case "push":
			if pushed++; pushed > repositories {
				continue
			}
			if o.Hold {
				r.gmu.Lock()
				r.mu.Lock()
				name := fmt.Sprint("r", r.jobs+1)
				if o.Fail {
					name = fmt.Sprint("x", r.jobs+1)
				}
				r.mu.Unlock()
				if len(r.hold) < 3 {
					r.hold[name] = make(chan bool)
				}
				r.gmu.Unlock()
			}
			good = r.end(o, long)
		case "release":
			r.release(o.J)
		case "pause":
			time.Sleep(time.Duration(o.J) * time.Millisecond)
		case "idle":
			good = r.idle()
		case "restart":
			good = r.end(qOp{Op: "close"}, 20*time.Millisecond)
			good = good && r.shut() && r.start()
		case "crash":
			r.gmu.Lock()
			r.points, r.crashAt = 0, o.At
			r.gmu.Unlock()
			if !wait(r.dead, 30*time.Millisecond) {
				r.die()
				<-r.dead
			}
			r.gmu.Lock()
			r.crashAt = 0
			r.gmu.Unlock()
			good = r.shut()
			verifos.Dead.Store(false)
			good = good && r.start()
		default:
			good = r.end(o, long)
		}
		if !good {
			return
		}
	}
	r.releaseAll()
	if !r.idle() {
		return
	}
	for _, k := range []string{"status", "completed", "failed"} {
		r.end(qOp{Op: k}, long)
	}
	r.end(qOp{Op: "close"}, long)
}

func modeWorkers(t *testing.T) {
	o := newOut(os.Getenv("VERIF_OUT"))
	defer o.close()
	template := scratch()
	m, err := core.NewManager(template)
	must(err)
	for i := 1; i <= repositories; i++ {
		must(m.CreateRepo(fmt.Sprint("r", i)))
	}
	m.Close()
	eachLine(os.Getenv("VERIF_IN"), func(b []byte) {
		s := script{}
		must(json.Unmarshal(b, &s))
		dir := filepath.Join(scratch(), "base")
		copyTree(template, dir)
		r := &wRun{qRun: newQRun(s.Run, o, dir), hold: map[string]chan bool{}, blocked: map[string]bool{}, dead: make(chan bool, 1)}
		r.job = func(n int) *jobs.JobEntry { return jobs.NewDeltaRepoJob(r.repoOf(n)) }
		r.line(qLine{Ev: "init", Auto: []string{"seq", "a1", "a2"}})
		if r.start() {
			r.script(s.Ops)
			verifos.Hook = nil
			r.shut()
		}
		verifos.Hook = nil
		os.RemoveAll(filepath.Dir(dir))
	})
}
