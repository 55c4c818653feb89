package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/verifos"
)

func init() {
	modes["daemon"] = modeDaemon
}

// Something that clients do
type act struct {
	A     string
	Op    json.RawMessage
	Ops   []json.RawMessage
	K     int
	Quiet bool // do not look at what came of it
}

type session struct {
	Run  int
	Link string
	Acts []json.RawMessage
	// Leave what is queued at the end
	Leave bool
}

type expected struct {
	Op   json.RawMessage `json:"op"`
	Desc string          `json:"desc"`
	Grp  int             `json:"grp"`
}

type outcome struct {
	Desc  string `json:"desc"`
	Ok    bool   `json:"ok"`
	Delta bool   `json:"delta"`
}

type listed struct {
	Desc  string `json:"desc"`
	Delta bool   `json:"delta"`
}

type pooled struct {
	ID string `json:"id"`
	N  int    `json:"n"`
}

type dline struct {
	Kind    string          `json:"kind"`
	Run     int             `json:"run"`
	Act     json.RawMessage `json:"act"`
	Es      []expected      `json:"es"`
	Acc     []bool          `json:"acc"`
	Errs    []string        `json:"errs"`
	Snap    bool            `json:"snap"`
	Drained bool            `json:"drained"`
	Fin     []outcome       `json:"fin"`
	Cur     []listed        `json:"cur"`
	Done    []string        `json:"done"`
	Failed  []string        `json:"failed"`
	St      *oState         `json:"st"`
	Repos   []string        `json:"repos"`
	Pool    []pooled        `json:"pool"`
	Flags   []flag          `json:"flags"`
}

// What is stored next waits
type stall struct {
	once    sync.Once
	reached chan struct{}
	gate    chan struct{}
}

// A daemon, and its clients
type served struct {
	*instance
	srv    *Server
	ended  chan error
	client *libferry.Client
	sock   string

	known map[string]bool // descriptions of what was asked for
	seen  map[string]bool // outcomes
	tram  string          // the manifest last uploaded
	grp   int

	held    atomic.Bool
	blocked atomic.Bool
	faulty  atomic.Bool // nothing can be stored
	stall   atomic.Pointer[stall]
	mu      sync.Mutex
	gate    chan struct{}

	up     sync.RWMutex // held for writing while there is no daemon
	flagMu sync.Mutex
	flags  []flag
}

func (s *served) flag(prop, what string) {
	s.flagMu.Lock()
	defer s.flagMu.Unlock()
	for _, f := range s.flags {
		if f.What == what {
			return
		}
	}
	s.flags = append(s.flags, flag{prop, what})
}

func (s *served) start() {
	baseDir, socketPath = s.base, s.sock
	srv, err := NewServer()
	must(err)
	must(srv.Bind())
	s.srv = srv
	s.mgr = srv.manager
	s.ended = make(chan error, 1)
	go func() { s.ended <- srv.Serve() }()
	s.client = libferry.NewClient(s.sock)
	for n := 0; ; n++ {
		if _, err := s.client.GetStatus(); err == nil {
			return
		} else if n > 1000 {
			panic(err)
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func (s *served) stop() {
	s.client.Close()
	s.srv.Close()
	s.srv.watcher.Close() // as the process does not end here
	select {
	case err := <-s.ended:
		if err != nil {
			s.flag("C23", "the daemon did not serve until it was stopped: "+err.Error())
		}
	case <-time.After(stuckAfter):
		s.flag("C23", "the daemon does not stop serving")
	}
}

func (s *served) hold() {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.held.Load() {
		s.gate = make(chan struct{})
		s.held.Store(true)
	}
}

func (s *served) release() {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.held.Load() {
		s.held.Store(false)
		close(s.gate)
	}
}

// hook holds jobs up, where they are about to change a file
func (s *served) hook(link func(p verifos.Point) error) func(p verifos.Point) error {
	return func(p verifos.Point) error {
		if s.held.Load() && p.Phase == verifos.Before && !strings.HasPrefix(p.Op, "db.") && p.Op != "open" && p.Op != "flock" {
			s.mu.Lock()
			gate, held := s.gate, s.held.Load()
			s.mu.Unlock()
			if held {
				s.blocked.Store(true)
				<-gate
				s.blocked.Store(false)
			}
		}
		if p.Phase == verifos.Before && p.Op == "db.update" {
			if s.faulty.Load() {
				return verifos.ErrFull
			}
			if st := s.stall.Load(); st != nil {
				st.once.Do(func() { close(st.reached) })
				<-st.gate
			}
		}
		// storing something takes a while now and then, so that an answer
		// given before it is stored comes before it
		if p.Phase == verifos.Before && p.Op == "db.update" && rand.Intn(4) == 0 {
			time.Sleep(time.Duration(rand.Intn(3000)) * time.Microsecond)
		}
		if link != nil {
			return link(p)
		}
		return nil
	}
}

// flood has more happen in the upload directory, while an upload waits to be
// stored, than the kernel remembers. Some of it is lost, but nothing after it.
func (s *served) flood(upload func()) {
	limit := 16384
	if b, err := os.ReadFile("/proc/sys/fs/inotify/max_queued_events"); err == nil {
		fmt.Sscan(string(b), &limit)
	}
	if limit > 50000 {
		upload()
		return
	}
	st := &stall{reached: make(chan struct{}), gate: make(chan struct{})}
	s.stall.Store(st)
	upload()
	select {
	case <-st.reached:
	case <-time.After(stuckAfter):
	}
	name := filepath.Join(s.mgr.IncomingPath, "part")
	for n := 0; n < limit; n++ {
		f, err := os.OpenFile(name+fmt.Sprint(n%2), os.O_CREATE|os.O_WRONLY, 0644)
		must(err)
		f.Close()
	}
	os.Remove(name + "0")
	os.Remove(name + "1")
	s.stall.Store(nil)
	close(st.gate)
	// until all that was remembered has been read
	fd := reflect.ValueOf(s.srv.watcher).Elem().FieldByName("fd")
	for start := time.Now(); time.Since(start) < 3*time.Second; time.Sleep(10 * time.Millisecond) {
		if !fd.IsValid() || fd.Kind() != reflect.Int {
			continue
		}
		pending := int32(1)
		syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd.Int()), syscall.TIOCINQ, uintptr(unsafe.Pointer(&pending)))
		if pending == 0 {
			break
		}
	}
}

// reference is the description of a job made as it was asked for
func (s *served) reference(o op, j *jobs.JobEntry) string {
	if o.Op == "upload" {
		return "upload of " + s.tram
	}
	if h, err := handlerOf(o, j); err == nil {
		return h.Describe()
	}
	// Whatever it is called, until it fails
	st, err := jobs.NewStore(scratch())
	must(err)
	defer st.Close()
	must(st.PushSequentialJob(j))
	js, err := st.ActiveJobs()
	must(err)
	return js[0].Description
}

func (s *served) request(o op) error {
	c := s.client
	switch o.Op {
	case "create":
		return c.CreateRepo(o.Repo)
	case "delete":
		return c.DeleteRepo(o.Repo)
	case "import":
		return c.ImportPackages(o.Repo, s.paths)
	case "clone":
		return c.CloneRepo(o.Repo, o.Target, o.Full)
	case "pull":
		return c.PullRepo(o.Repo, o.Target)
	case "copy":
		return c.CopySource(o.Repo, o.Target, o.Source, o.Rel, o.Skip)
	case "remove":
		return c.RemoveSource(o.Repo, o.Source, o.Rel)
	case "trim":
		return c.TrimPackages(o.Repo, o.Keep)
	case "trimobs":
		return c.TrimObsolete(o.Repo)
	case "index":
		return c.IndexRepo(o.Repo)
	case "deltarepo":
		return c.DeltaRepo(o.Repo)
	}
	panic("no such request: " + o.Op)
}

// Requests that are not for anything
var raws = []struct{ method, path, body string }{
	{"GET", "/api/v1/nothing", ""},
	{"GET", "/", ""},
	{"GET", "/api/v1/create/repo", ""},
	{"GET", "/api/v1/create/repo/a/b", ""},
	{"POST", "/api/v1/create/repo/main", "{}"},
	{"DELETE", "/api/v1/remove/repo/main", ""},
	{"PUT", "/api/v1/index/repo/main", ""},
	{"GET", "/api/v1/import/main", ""},
	{"GET", "/api/v1/clone/main", ""},
	{"GET", "/api/v1/trim/packages/main", ""},
	{"POST", "/api/v1/import/main", ""},
	{"POST", "/api/v1/import/main", "not json"},
	{"POST", "/api/v1/import/main", `{"path":`},
	{"POST", "/api/v1/import/main", `{"path":["/x"`},
	{"POST", "/api/v1/import/main", `{"path":"/x"}`},
	{"POST", "/api/v1/import/main", `{"path":[1]}`},
	{"POST", "/api/v1/import/main", `[]`},
	{"POST", "/api/v1/clone/main", ""},
	{"POST", "/api/v1/clone/main", `{"cloneName":1}`},
	{"POST", "/api/v1/clone/main", `{"cloneName":"x","copyAll":"yes"}`},
	{"POST", "/api/v1/clone/main", `{"cloneName":"x","copyAll":`},
	{"POST", "/api/v1/pull/main", ""},
	{"POST", "/api/v1/pull/main", `{"source":["main"]}`},
	{"POST", "/api/v1/pull/main", `"main"`},
	{"POST", "/api/v1/copy/source/main", ""},
	{"POST", "/api/v1/copy/source/main", `{"source":"foo","relno":"1"}`},
	{"POST", "/api/v1/copy/source/main", `{"source":"foo","relno":1.5}`},
	{"POST", "/api/v1/copy/source/main", `{"source":"foo","relno":99999999999999999999}`},
	{"POST", "/api/v1/copy/source/main", `{"source":"foo","skipIndex":1}`},
	{"POST", "/api/v1/remove/source/main", ""},
	{"POST", "/api/v1/remove/source/main", `{"source":"foo","relno":"-1"}`},
	{"POST", "/api/v1/remove/source/main", `{"source":"foo","relno":-1`},
	{"POST", "/api/v1/remove/source/main", `x{"source":"foo","relno":-1}`},
	{"POST", "/api/v1/trim/packages/main", ""},
	{"POST", "/api/v1/trim/packages/main", `{"maxPackages":"1"}`},
	{"POST", "/api/v1/trim/packages/main", `{"maxPackages":"x"}`},
	{"POST", "/api/v1/trim/obsoletes/main", ""},
	{"POST", "/api/v1/reset/completed", ""},
	{"", "", "this is not HTTP at all\r\n\r\n"},
	{"", "", "POST /api/v1/import/main HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\n{\"path\":["},
	{"", "", "GET /api/v1/create/repo/%zz HTTP/1.1\r\nHost: x\r\n\r\n"},
}

func (s *served) raw(k int) {
	r := raws[k%len(raws)]
	if r.method == "" {
		c, err := net.Dial("unix", s.sock)
		must(err)
		c.Write([]byte(r.body))
		c.(*net.UnixConn).CloseWrite()
		c.SetReadDeadline(time.Now().Add(stuckAfter))
		b, _ := io.ReadAll(c)
		c.Close()
		if len(b) > 12 && bytes.HasPrefix(b, []byte("HTTP/1.1 2")) {
			s.flag("C22", "nonsense was accepted: "+firstLine(r.body))
		}
		return
	}
	tr := &http.Transport{Dial: func(string, string) (net.Conn, error) { return net.Dial("unix", s.sock) }}
	defer tr.CloseIdleConnections()
	req, err := http.NewRequest(r.method, "http://x"+r.path, strings.NewReader(r.body))
	must(err)
	resp, err := tr.RoundTrip(req)
	if err != nil {
		s.flag("C22", "no answer to a malformed request: "+r.method+" "+r.path)
		return
	}
	defer resp.Body.Close()
	io.Copy(io.Discard, resp.Body)
	if resp.StatusCode < 300 {
		s.flag("C22", "a malformed request was accepted: "+r.method+" "+r.path+" "+r.body)
	}
}

// expect notes what should come of an operation
func (s *served) expect(raw json.RawMessage) (op, expected) {
	o := parseOp(raw)
	if o.Op == "upload" {
		s.tram = o.Man.Name
	}
	j := s.prepare(o)
	d := s.reference(o, j)
	s.known[d] = true
	return o, expected{raw, d, s.grp}
}

// desc makes the description of a job comparable
func (s *served) desc(d string) string {
	if s.tram != "" && strings.Contains(d, s.tram) {
		return "upload of " + s.tram
	}
	for k := range s.known {
		if n, ok := strings.CutPrefix(k, "upload of "); ok && strings.Contains(d, n) {
			return k
		}
	}
	return d
}

func key(j *libferry.Job, desc string) string {
	return fmt.Sprintf("%d/%d/%d/%s", j.Timing.Queued.UnixNano(), j.Timing.Begin.UnixNano(), j.Timing.End.UnixNano(), desc)
}

// settle waits until there is nothing to be done, or it is held up
func (s *served) settle(until func(st *libferry.StatusRequest) bool) (*libferry.StatusRequest, bool) {
	start := time.Now()
	for {
		// In this order: who is blocked stays so
		b := s.blocked.Load() && s.held.Load()
		st, err := s.client.GetStatus()
		if err != nil {
			s.flag("C23", "status failed: "+err.Error())
		} else if (until == nil || until(st)) && (b || len(st.CurrentJobs) == 0) {
			return st, true
		}
		if time.Since(start) > stuckAfter {
			return st, false
		}
		time.Sleep(time.Millisecond)
	}
}

func (s *served) snapshot(l *dline, until func(st *libferry.StatusRequest) bool) bool {
	st, ok := s.settle(until)
	if st == nil {
		return false
	}
	if !ok {
		s.flag("C23", "jobs are not being done")
	}
	l.Snap = true
	sort.SliceStable(st.CurrentJobs, func(a, b int) bool {
		return st.CurrentJobs[a].Timing.Queued.Before(st.CurrentJobs[b].Timing.Queued)
	})
	for _, j := range st.CurrentJobs {
		d := s.desc(j.Description)
		l.Cur = append(l.Cur, listed{d, !s.known[d]})
		if j.Timing.Queued.IsZero() {
			s.flag("C23", "a job was never queued")
		}
	}
	type ended struct {
		end time.Time
		o   outcome
	}
	var fin []ended
	take := func(js libferry.JobSet, ok bool) (ret []string) {
		sort.SliceStable(js, func(a, b int) bool { return js[a].Timing.End.Before(js[b].Timing.End) })
		for _, j := range js {
			d := s.desc(j.Description)
			ret = append(ret, d)
			if j.Failed == ok || (j.Error == "") != ok {
				s.flag("C15", "an outcome is not told truly")
			}
			if t := j.Timing; t.Queued.IsZero() || t.Begin.Before(t.Queued) || t.End.Before(t.Begin) {
				s.flag("C15", "the times of an outcome make no sense")
			}
			if k := key(j, d); !s.seen[k] {
				s.seen[k] = true
				fin = append(fin, ended{j.Timing.End, outcome{d, ok, !s.known[d]}})
			}
		}
		return
	}
	l.Done, l.Failed = take(st.CompletedJobs, true), take(st.FailedJobs, false)
	sort.SliceStable(fin, func(a, b int) bool { return fin[a].end.Before(fin[b].end) })
	for _, f := range fin {
		l.Fin = append(l.Fin, f.o)
	}
	l.Drained = ok && len(st.CurrentJobs) == 0
	if l.Drained {
		var fl []flag
		l.St, fl = s.u.observe(s.base)
		for _, f := range append(fl, s.outside()...) {
			s.flag(f.Prop, f.What)
		}
		repos, err := s.client.GetRepos()
		if err != nil {
			s.flag("C23", "the repositories are not listed: "+err.Error())
		}
		l.Repos = repos
		pool, err := s.client.GetPoolItems()
		if err != nil {
			s.flag("C23", "the pool is not listed: "+err.Error())
		}
		for _, p := range pool {
			l.Pool = append(l.Pool, pooled{p.ID, p.RefCount})
		}
	}
	return ok
}

func (l *dline) full() *dline {
	if l.Es == nil {
		l.Es = []expected{}
	}
	if l.Acc == nil {
		l.Acc, l.Errs = []bool{}, []string{}
	}
	if l.Fin == nil {
		l.Fin = []outcome{}
	}
	if l.Cur == nil {
		l.Cur = []listed{}
	}
	for _, p := range []*[]string{&l.Done, &l.Failed, &l.Repos} {
		if *p == nil {
			*p = []string{}
		}
	}
	if l.Pool == nil {
		l.Pool = []pooled{}
	}
	if l.Flags == nil {
		l.Flags = []flag{}
	}
	if l.St == nil {
		l.St = emptyState()
	}
	return l
}

func (s *served) act(run int, raw json.RawMessage) (*dline, bool) {
	var a act
	must(json.Unmarshal(raw, &a))
	l := &dline{Kind: "act", Run: run, Act: raw}
	s.grp++
	var until func(st *libferry.StatusRequest) bool
	told := func(err error) {
		l.Acc = append(l.Acc, err == nil)
		m := ""
		if err != nil {
			m = err.Error()
		}
		l.Errs = append(l.Errs, m)
	}
	switch a.A {
	case "req":
		o, e := s.expect(a.Op)
		l.Es = append(l.Es, e)
		told(s.request(o))
	case "fault":
		o, e := s.expect(a.Op)
		l.Es = append(l.Es, e)
		s.faulty.Store(true)
		err := s.request(o)
		s.faulty.Store(false)
		told(err)
	case "upload", "flood":
		var e expected
		if a.A == "flood" {
			s.flood(func() { _, e = s.expect(a.Op) })
		} else {
			_, e = s.expect(a.Op)
		}
		l.Es = append(l.Es, e)
		told(nil)
		start := time.Now()
		until = func(st *libferry.StatusRequest) bool {
			if time.Since(start) > 10*time.Second {
				return true
			}
			for _, js := range []libferry.JobSet{st.CurrentJobs, st.FailedJobs, st.CompletedJobs} {
				for _, j := range js {
					if s.desc(j.Description) == e.Desc {
						return true
					}
				}
			}
			return false
		}
	case "burst":
		var ops []op
		for _, b := range a.Ops {
			o, e := s.expect(b)
			ops = append(ops, o)
			l.Es = append(l.Es, e)
		}
		errs := make([]error, len(ops))
		wg := sync.WaitGroup{}
		for k := range ops {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				errs[k] = s.request(ops[k])
			}(k)
		}
		wg.Wait()
		for _, err := range errs {
			told(err)
		}
	case "direct":
		o := parseOp(a.Op)
		s.n++
		func() {
			// Where there is no such repository, that will be noticed
			defer func() { recover() }()
			s.direct(o)
		}()
	case "hold":
		s.hold()
	case "go":
		s.release()
	case "restart":
		// Whoever closes it waits for the job that is running
		go func() {
			time.Sleep(20 * time.Millisecond)
			s.release()
		}()
		s.up.Lock()
		s.stop()
		s.release()
		s.start()
		s.up.Unlock()
	case "raw":
		s.raw(a.K)
	case "resetdone":
		if err := s.client.ResetCompleted(); err != nil {
			s.flag("C15", "the completed jobs are not reset: "+err.Error())
		}
	case "resetfailed":
		if err := s.client.ResetFailed(); err != nil {
			s.flag("C15", "the failed jobs are not reset: "+err.Error())
		}
	case "status":
	default:
		panic("no such act: " + a.A)
	}
	ok := true
	if !a.Quiet {
		ok = s.snapshot(l, until)
	}
	s.flagMu.Lock()
	l.Flags, s.flags = s.flags, nil
	s.flagMu.Unlock()
	return l.full(), ok
}

// poll keeps asking
func (s *served) poll(stop chan struct{}, wg *sync.WaitGroup) {
	defer wg.Done()
	for n := 0; ; n++ {
		select {
		case <-stop:
			return
		case <-time.After(2 * time.Millisecond):
		}
		s.up.RLock()
		c := libferry.NewClient(s.sock)
		var err error
		switch {
		case n%3 == 0 || s.held.Load():
			_, err = c.GetStatus()
		case n%3 == 1:
			_, err = c.GetRepos()
		default:
			_, err = c.GetPoolItems()
		}
		c.Close()
		s.up.RUnlock()
		if err != nil {
			s.flag("C23", "a client was not told what it asked for: "+err.Error())
		}
	}
}

func modeDaemon(t *testing.T) {
	u := loadUniverse(os.Getenv("VERIF_UNI"))
	o := newOut(os.Getenv("VERIF_OUT"))
	defer o.close()
	backgroundJobCount = 2
	eachLine(os.Getenv("VERIF_IN"), func(b []byte) {
		var x session
		must(json.Unmarshal(b, &x))
		i := newInstance(u)
		i.watched = true
		must(os.MkdirAll(filepath.Join(i.dir, "in"), 0755))
		s := &served{instance: i, sock: filepath.Join(i.dir, "in", "sock"), known: map[string]bool{}, seen: map[string]bool{}}
		var link func(p verifos.Point) error
		if x.Link != "" {
			link = linkHook(x.Link)
		}
		verifos.Hook = s.hook(link)
		s.start()
		stop := make(chan struct{})
		wg := &sync.WaitGroup{}
		wg.Add(1)
		go s.poll(stop, wg)
		l := &dline{Kind: "init", Run: x.Run, Act: json.RawMessage(`{"a":"init"}`)}
		s.snapshot(l, nil)
		l.Flags, s.flags = s.flags, nil
		o.put(l.full())
		for _, a := range x.Acts {
			l, ok := s.act(x.Run, a)
			o.put(l)
			o.flush()
			if !ok {
				o.close()
				os.Exit(0)
			}
		}
		s.release()
		if !x.Leave {
			l, ok := s.act(x.Run, json.RawMessage(`{"a":"go"}`))
			o.put(l)
			if !ok {
				o.close()
				os.Exit(0)
			}
		}
		close(stop)
		wg.Wait()
		s.stop()
		s.mgr = nil
		s.remove()
		verifos.Hook = nil
	})
}
