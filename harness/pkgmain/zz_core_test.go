package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libeopkg"
	"github.com/getsolus/ferryd/src/verifos"
)

func init() {
	modes["core"] = modeCore
}

type manFile struct {
	F                         string
	Sum, Suffix, Local, There bool
	Name, Form                string
}

type manifest struct {
	Valid   bool
	Variant int
	Target  string
	Name    string
	Form    string
	Files   []manFile
}

type op struct {
	raw    json.RawMessage
	Op     string
	Repo   string
	Target string
	Source string
	Name   string
	Rel    int
	Keep   int
	Full   bool
	Skip   bool
	Index  bool
	Files  []string
	Man    *manifest
	Assets assetMap

	From, To, D string
	Form        string
}

// An empty function is an empty sequence to TLC
type assetMap map[string]string

func (m *assetMap) UnmarshalJSON(b []byte) error {
	*m = assetMap{}
	if string(b) == "[]" {
		return nil
	}
	return json.Unmarshal(b, (*map[string]string)(m))
}

func parseOp(b json.RawMessage) op {
	o := op{raw: b}
	must(json.Unmarshal(b, &o))
	return o
}

type script struct {
	Run  int
	Link string // "": hard links work; "copy": they never do; "mixed": some do
	Ops  []json.RawMessage
}

// One ferryd, in a directory of its own
type instance struct {
	u        *universe
	dir      string // everything the run may touch
	base     string
	mgr      *core.Manager
	store    *jobs.JobStore
	proc     *jobs.Processor
	n        int
	edits    int
	racing   bool // delta jobs may find that the delta they produced has been pooled meanwhile
	deltas   int
	in0      map[string]string
	in1      map[string]string
	shrink   map[string]*os.File // to be truncated when they are read
	shrunk   sync.WaitGroup
	produced map[string]string // deltas that are not included yet
	given    map[string]string // files outside of base, and their content

	paths   []string // the last that were to be imported
	watched bool     // by a daemon, which takes every manifest for an upload
}

func newInstance(u *universe) *instance {
	dir := scratch()
	i := &instance{u: u, dir: dir, base: filepath.Join(dir, "a/b/c/d/base"), given: map[string]string{}, shrink: map[string]*os.File{}}
	must(os.MkdirAll(i.base, 0755))
	return i
}

func (i *instance) open() error {
	m, err := core.NewManager(i.base)
	if err != nil {
		return err
	}
	s, err := jobs.NewStore(i.base)
	if err != nil {
		m.Close()
		return err
	}
	i.mgr, i.store, i.proc = m, s, jobs.NewProcessor(m, s, 2)
	return nil
}

func (i *instance) close() {
	if i.store != nil {
		i.store.Close()
		i.store = nil
	}
	if i.mgr != nil {
		i.mgr.Close()
		i.mgr = nil
	}
}

func (i *instance) remove() {
	i.close()
	os.RemoveAll(i.dir)
}

// give puts a fresh copy of a file of the universe somewhere
// give puts a copy of file f at path, in the form that is asked for
func (i *instance) give(f, path, form string) {
	must(os.MkdirAll(filepath.Dir(path), 0755))
	src := filepath.Join(i.u.dir, i.u.Files[f].Path)
	st, err := os.Stat(src)
	if err != nil {
		return
	}
	if st.IsDir() {
		must(os.MkdirAll(path, 0755))
		return
	}
	os.Remove(path)
	if st.Mode()&os.ModeNamedPipe != 0 {
		must(syscall.Mkfifo(path, 0644))
		return
	}
	b, err := os.ReadFile(src)
	must(err)
	i.place(b, path, form)
}

// place puts a file at path
func (i *instance) place(b []byte, path, form string) {
	switch form {
	case "link":
		// The other way round than ferryd may look at it
		at := filepath.Join(filepath.Dir(path), "of."+filepath.Base(path)+".file")
		must(os.WriteFile(at, b, 0644))
		if !strings.HasPrefix(at, i.base) {
			i.given[at] = sha256File(at)
		}
		must(os.Symlink(filepath.Base(at), path))
	case "outside":
		at := filepath.Join(i.dir, "a/b/c/elsewhere", fmt.Sprintf("%d.file", len(i.given)))
		must(os.MkdirAll(filepath.Dir(at), 0755))
		must(os.WriteFile(at, b, 0644))
		i.given[at] = sha256File(at)
		must(os.Symlink(at, path))
	case "fifo":
		must(syscall.Mkfifo(path, 0644))
	case "shrinks":
		f, err := os.Create(path)
		must(err)
		must(f.Truncate(shrinkFrom))
		_, err = f.WriteAt(b, shrinkFrom)
		must(err)
		i.shrink[path] = f
	default:
		must(os.WriteFile(path, b, 0644))
	}
}

// A file that somebody truncates while it is read
const shrinkFrom, shrinkTo = 64 << 20, 2 << 20

// shrinking wraps a hook
func (i *instance) shrinking(hook func(p verifos.Point) error) func(p verifos.Point) error {
	return func(p verifos.Point) error {
		if p.Op == "open" && p.Phase == verifos.After {
			if f := i.shrink[p.Args[0]]; f != nil {
				delete(i.shrink, p.Args[0])
				i.shrunk.Add(1)
				go func() {
					time.Sleep(3 * time.Millisecond)
					f.Truncate(shrinkTo)
					f.Close()
					i.shrunk.Done()
				}()
			}
		}
		if hook == nil {
			return nil
		}
		return hook(p)
	}
}

// readRegular reads what certainly ends, and is not too long
func readRegular(path string) []byte {
	st, err := os.Stat(path)
	if err != nil || !st.Mode().IsRegular() {
		return []byte("nothing")
	}
	if st.Size() >= shrinkTo {
		return []byte("big")
	}
	b, err := os.ReadFile(path)
	if err != nil {
		b = []byte("nothing")
	}
	return b
}

func sha256File(path string) string {
	s := sha256.Sum256(readRegular(path))
	return hex.EncodeToString(s[:])
}

func listDir(dir string) map[string]string {
	ret := map[string]string{}
	for rel, p := range walkFiles(dir) {
		ret[rel] = hexsha1(readRegular(p))
	}
	return ret
}

func writeManifest(path string, m *manifest, k int, shaOf func(x manFile) (listed, sha string)) {
	b := &bytes.Buffer{}
	version, target := "1.0", m.Target
	variant := -1
	if !m.Valid {
		variant = m.Variant
	}
	switch variant {
	case 0:
		if k%2 == 0 {
			b.WriteString("[manifest\nversion = ")
		}
	case 1:
		version = []string{"2.0", "1.1", "1", "", "1.0.0", "0.9", "1.0b"}[k%7]
	case 2:
		target = []string{"  ", "", "\t"}[k%3]
	case 5:
		must(os.WriteFile(path, nil, 0644))
		return
	}
	if variant != 3 {
		fmt.Fprintf(b, "[manifest]\nversion = %q\ntarget = %s\n\n", version, tomlString(target))
	}
	for n, x := range m.Files {
		listed, sha := shaOf(x)
		if variant == 4 && n == len(m.Files)-1 {
			switch k % 4 {
			case 0:
				sha = ""
			case 1:
				sha = "  "
			case 2:
				listed = ""
			case 3:
				listed = " "
			}
		}
		fmt.Fprintf(b, "[[file]]\npath = %s\nsha256 = %q\n\n", tomlString(listed), sha)
	}
	if variant == 4 && len(m.Files) == 0 {
		b.WriteString("[[file]]\npath = \"x.eopkg\"\n")
	}
	if variant == 0 && k%2 == 1 {
		// All there, and then some
		b.WriteString("[[file]\n")
	}
	must(os.WriteFile(path, b.Bytes(), 0644))
}

// wrongSum makes a checksum that isn't the file's
func wrongSum(k int, path, sha, last string) string {
	wrong := ""
	switch k % 8 {
	case 0:
		// Of the file listed before
		wrong = last
	case 1:
		if len(sha) > 8 {
			wrong = sha[:8]
		}
	case 2:
		wrong = sha + "0"
	case 3:
		wrong = hexsha1(readRegular(path))
	case 4:
		wrong = fmt.Sprintf("%x", sha256.Sum256(nil))
	case 5:
		if len(sha) > 1 {
			wrong = sha[1:] + sha[:1]
		}
	case 6:
		if len(sha) > 1 {
			wrong = sha[:len(sha)-1] + map[bool]string{true: "0", false: "1"}[sha[len(sha)-1] != '0']
		}
	}
	if wrong == "" || wrong == sha {
		return strings.Map(func(r rune) rune {
			if r == 'a' {
				return 'b'
			}
			return 'a'
		}, sha)
	}
	return wrong
}

func tomlString(s string) string {
	b := strings.Builder{}
	b.WriteByte('"')
	for _, r := range s {
		if r == '"' || r == '\\' {
			b.WriteByte('\\')
		}
		b.WriteRune(r)
	}
	b.WriteByte('"')
	return b.String()
}

func (i *instance) incoming() string { return filepath.Join(i.base, core.IncomingPathComponent) }

// prepare makes of an operation the job to be run. Nil: it is not a job.
func (i *instance) prepare(o op) *jobs.JobEntry {
	i.n++
	switch o.Op {
	case "create":
		return jobs.NewCreateRepoJob(o.Repo)
	case "delete":
		return jobs.NewDeleteRepoJob(o.Repo)
	case "import":
		var paths []string
		for _, f := range o.Files {
			p := filepath.Join(i.dir, "in", fmt.Sprintf("%d", i.n), strings.NewReplacer("/", "_").Replace(f), i.u.Files[f].ID)
			i.give(f, p, o.Form)
			if st, err := os.Stat(p); err == nil && st.Mode().IsRegular() {
				i.given[p] = sha256File(p)
			}
			paths = append(paths, p)
		}
		i.paths = paths
		return jobs.NewBulkAddJob(o.Repo, paths)
	case "upload":
		inc := i.incoming()
		for _, n := range lsNames(inc) {
			os.RemoveAll(filepath.Join(inc, n))
		}
		must(os.WriteFile(filepath.Join(inc, "stray.eopkg"), []byte("stray"), 0644))
		if !i.watched {
			must(os.WriteFile(filepath.Join(inc, "other.tram"), []byte("other"), 0644))
		}
		tram := filepath.Join(inc, o.Man.Name)
		last := ""
		writeManifest(tram, o.Man, i.n, func(x manFile) (string, string) {
			id := i.u.Files[x.F].ID
			listed := id
			if !x.Suffix {
				listed += ".txt"
			}
			if !x.Local {
				listed = "../../elsewhere/" + listed
			}
			p := filepath.Join(inc, listed)
			if x.There {
				i.give(x.F, p, x.Form)
			}
			sha := sha256File(p)
			right := sha
			if !x.Sum {
				sha = wrongSum(i.n, p, sha, last)
			}
			last = right
			if !x.Local {
				if st, err := os.Stat(p); err == nil && st.Mode().IsRegular() {
					i.given[p] = sha256File(p)
				}
			}
			return listed, sha
		})
		if o.Man.Form != "" && o.Man.Form != "file" {
			b, err := os.ReadFile(tram)
			must(err)
			os.Remove(tram)
			i.place(b, tram, o.Man.Form)
		}
		i.in0 = listDir(inc)
		return jobs.NewTransitJob(tram)
	case "clone":
		return jobs.NewCloneRepoJob(o.Repo, o.Target, o.Full)
	case "pull":
		return jobs.NewPullRepoJob(o.Repo, o.Target)
	case "copy":
		return jobs.NewCopySourceJob(o.Repo, o.Target, o.Source, o.Rel, o.Skip)
	case "remove":
		return jobs.NewRemoveSourceJob(o.Repo, o.Source, o.Rel)
	case "trim":
		return jobs.NewTrimPackagesJob(o.Repo, o.Keep)
	case "trimobs":
		return jobs.NewTrimObsoleteJob(o.Repo)
	case "index":
		return jobs.NewIndexRepoJob(o.Repo)
	case "deltarepo":
		return jobs.NewDeltaRepoJob(o.Repo)
	case "delta":
		if o.Index {
			return jobs.NewDeltaIndexJob(o.Repo, o.Name)
		}
		return jobs.NewDeltaJob(o.Repo, o.Name)
	}
	return nil
}

// handlerOf makes the job's handler, from what would have been stored of it
func handlerOf(o op, j *jobs.JobEntry) (jobs.JobHandler, error) {
	b, err := j.Serialize()
	if err != nil {
		return nil, err
	}
	k, err := jobs.Deserialize(b)
	if err != nil {
		return nil, err
	}
	if o.Op == "delta" {
		return jobs.NewDeltaJobHandler(k, o.Index)
	}
	return jobs.NewJobHandler(k)
}

// execute runs a job. What comes second is a panic.
func (i *instance) execute(o op, j *jobs.JobEntry) (err error, crash string) {
	type result struct {
		err     error
		crash   string
		crashed bool
	}
	ch := make(chan result, 1)
	go func() {
		r := result{crashed: true}
		defer func() { ch <- r }()
		defer func() { recover() }()
		r.err, r.crash = i.execute1(o, j)
		r.crashed = false
	}()
	select {
	case r := <-ch:
		if r.crashed {
			panic(verifos.Crash{})
		}
		return r.err, r.crash
	case <-time.After(stuckAfter):
		return errStuck, ""
	}
}

// No job takes nearly that long
const stuckAfter = 60 * time.Second

var errStuck = errors.New("the job does not finish")

func (i *instance) execute1(o op, j *jobs.JobEntry) (err error, crash string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(verifos.Crash); ok {
				panic(r)
			}
			err = fmt.Errorf("panic: %v", r)
			crash = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	h, err := handlerOf(o, j)
	if err != nil {
		return err, ""
	}
	h.Describe()
	if o.Op == "delta" && i.racing {
		i.deltas++
		if i.deltas%2 == 0 {
			i.addPooled(o)
		}
	}
	err = h.Execute(i.proc, i.mgr)
	h.Describe()
	return err, ""
}

// addPooled produces the deltas which another repository has already, and adds
// them, as a job does that began before they were pooled.
func (i *instance) addPooled(o op) {
	ps, err := i.mgr.GetPackages(o.Repo, o.Name)
	if err != nil || len(ps) < 2 {
		return
	}
	pool := map[string]*core.PoolEntry{}
	es, err := i.mgr.GetPoolItems()
	must(err)
	for _, e := range es {
		pool[e.Name] = e
	}
	sort.Sort(libeopkg.PackageSet(ps))
	tip := ps[len(ps)-1]
	for _, old := range ps[:len(ps)-1] {
		id := libeopkg.ComputeDeltaName(old, tip)
		e := pool[id]
		has, err := i.mgr.HasDelta(o.Repo, o.Name, id)
		if has || err != nil || i.mgr.GetDeltaFailed(id) {
			continue
		}
		pooled := e != nil && e.Delta != nil && e.Delta.FromID == old.GetID() && e.Delta.ToID == tip.GetID()
		if e != nil && !pooled {
			continue
		}
		path, err := i.mgr.CreateDelta(o.Repo, old, tip)
		if err == libeopkg.ErrDeltaPointless || err == libeopkg.ErrMismatchedDelta {
			continue
		}
		if err != nil {
			// As the job does not get any further
			return
		}
		if !pooled {
			os.Remove(path)
			continue
		}
		i.mgr.AddDelta(o.Repo, path, &core.DeltaInformation{FromID: old.GetID(), ToID: tip.GetID(), FromRelease: old.GetRelease(), ToRelease: tip.GetRelease()})
		os.Remove(path)
	}
}

// produce does the first half of the work of a delta job, up to where the delta
// has been made
func (i *instance) produce(o op) error {
	ps, err := i.mgr.GetPackages(o.Repo, o.Name)
	if err != nil {
		return err
	}
	var from, to *libeopkg.MetaPackage
	for _, p := range ps {
		if p.GetID() == o.From {
			from = p
		}
		if p.GetID() == o.To {
			to = p
		}
	}
	if from == nil || to == nil {
		return errors.New("not there")
	}
	path, err := i.mgr.CreateDelta(o.Repo, from, to)
	if err != nil {
		return err
	}
	i.n++
	f := filepath.Join(i.dir, "in", fmt.Sprint("delta", i.n), filepath.Base(path))
	must(os.MkdirAll(filepath.Dir(f), 0755))
	must(os.Rename(path, f))
	if i.produced == nil {
		i.produced = map[string]string{}
	}
	if old := i.produced[o.Repo+"\x00"+o.From+"\x00"+o.To]; old != "" {
		os.Remove(old)
	}
	i.produced[o.Repo+"\x00"+o.From+"\x00"+o.To] = f
	return nil
}

// direct does what is not a job
func (i *instance) direct(o op) error {
	switch o.Op {
	case "assets":
		dir := filepath.Join(i.base, core.AssetPathComponent, o.Repo)
		for _, n := range lsNames(dir) {
			// Edited in place, more often than not, whoever else has it
			i.edits++
			if _, ok := o.Assets[n]; !ok || i.edits%4 == 0 {
				os.RemoveAll(filepath.Join(dir, n))
			}
		}
		for f, t := range o.Assets {
			b, err := os.ReadFile(filepath.Join(i.u.dir, "assets", t))
			must(err)
			must(os.WriteFile(filepath.Join(dir, f), b, 0644))
		}
		return nil
	case "mess":
		return os.MkdirAll(filepath.Join(i.base, core.RepoPathComponent, o.Repo), 0755)
	case "restart":
		i.close()
		return i.open()
	case "produce":
		return i.produce(o)
	case "include":
		f := i.produced[o.Repo+"\x00"+o.From+"\x00"+o.To]
		if f == "" {
			return errors.New("not produced")
		}
		delete(i.produced, o.Repo+"\x00"+o.From+"\x00"+o.To)
		defer os.Remove(f)
		return i.mgr.AddDelta(o.Repo, f, &core.DeltaInformation{FromID: o.From, ToID: o.To})
	}
	panic("no such operation: " + o.Op)
}

// outside finds what should not have been touched
func (i *instance) outside() []flag {
	var ret []flag
	for _, e := range verifos.Escapes() {
		ret = append(ret, flag{"C22", "tried outside of the base directory: " + e})
	}
	for p, sha := range i.given {
		if sha256File(p) != sha {
			ret = append(ret, flag{"C22", "a file outside of the base directory was changed: " + filepath.Base(p)})
			delete(i.given, p)
		}
	}
	filepath.Walk(i.dir, func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if p == i.base || p == filepath.Join(i.dir, "in") {
			return filepath.SkipDir
		}
		if st.IsDir() {
			rel, _ := filepath.Rel(i.dir, p)
			if rel == "." || strings.HasPrefix("a/b/c/d", rel) || rel == "a/b/c/elsewhere" || rel == "a/b/c/d/elsewhere" {
				return nil
			}
		}
		if _, ok := i.given[p]; ok {
			return nil
		}
		if strings.Contains(p, "/elsewhere/") {
			return nil
		}
		rel, _ := filepath.Rel(i.dir, p)
		ret = append(ret, flag{"C22", "written outside of the base directory: " + rel})
		return nil
	})
	return ret
}

// Of whatever a job does, nothing comes if it hangs
var allProps = []string{"C01", "C02", "C03", "C04", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C16", "C17", "C18", "C22", "C24"}

type line struct {
	Kind  string            `json:"kind"`
	Run   int               `json:"run"`
	Op    json.RawMessage   `json:"op"`
	Ok    bool              `json:"ok"`
	Err   string            `json:"err"`
	St    *oState           `json:"st"`
	Flags []flag            `json:"flags"`
	In0   map[string]string `json:"in0"`
	In1   map[string]string `json:"in1"`
}

// step runs one operation and observes what came of it
func (i *instance) step(run int, o op) line {
	l := line{Kind: "step", Run: run, Op: o.raw, In0: map[string]string{}, In1: map[string]string{}}
	var flags []flag
	var err error
	if j := i.prepare(o); j != nil {
		var crash string
		err, crash = i.execute(o, j)
		if crash != "" {
			flags = append(flags, flag{"C22", "the job crashed the daemon: " + firstLine(crash)})
			// Whatever locks it held are lost
			hook := verifos.Hook
			verifos.Hook = nil
			i.close()
			must(i.open())
			verifos.Hook = hook
		}
	} else {
		if o.Op == "include" {
			var m map[string]interface{}
			must(json.Unmarshal(o.raw, &m))
			m["staged"] = i.produced[o.Repo+"\x00"+o.From+"\x00"+o.To] != ""
			l.Op, err = json.Marshal(m)
			must(err)
		}
		err = i.direct(o)
	}
	l.Ok = err == nil
	if err != nil {
		l.Err = err.Error()
	}
	if err == errStuck {
		for _, p := range allProps {
			flags = append(flags, flag{p, "a job of kind " + o.Op + " does not finish"})
		}
	}
	i.shrunk.Wait()
	for p, f := range i.shrink {
		f.Close()
		delete(i.shrink, p)
	}
	if o.Op == "upload" {
		l.In0, l.In1 = i.in0, listDir(i.incoming())
	}
	st, fl := i.u.observe(i.base)
	l.St = st
	flags = append(flags, fl...)
	flags = append(flags, i.outside()...)
	l.Flags = flags
	if l.Flags == nil {
		l.Flags = []flag{}
	}
	return l
}

func firstLine(s string) string {
	if n := strings.IndexByte(s, '\n'); n >= 0 {
		return s[:n]
	}
	return s
}

// linkHook makes hard links fail, as between file systems
func linkHook(mode string) func(p verifos.Point) error {
	n := 0
	return func(p verifos.Point) error {
		if p.Op != "link" || p.Phase != verifos.Before {
			return nil
		}
		n++
		if mode == "copy" || n%3 == 0 {
			return &os.LinkError{Op: "link", Old: p.Args[0], New: p.Args[1], Err: syscall.EXDEV}
		}
		return nil
	}
}

func modeCore(t *testing.T) {
	u := loadUniverse(os.Getenv("VERIF_UNI"))
	o := newOut(os.Getenv("VERIF_OUT"))
	defer o.close()
	eachLine(os.Getenv("VERIF_IN"), func(b []byte) {
		s := script{}
		must(json.Unmarshal(b, &s))
		i := newInstance(u)
		defer i.remove()
		i.racing = true
		must(i.open())
		verifos.Hook = i.shrinking(nil)
		if s.Link != "" {
			verifos.Hook = i.shrinking(linkHook(s.Link))
		}
		st, flags := u.observe(i.base)
		o.put(line{Kind: "init", Run: s.Run, Op: json.RawMessage("{}"), Ok: true, St: st, Flags: flags, In0: map[string]string{}, In1: map[string]string{}})
		for _, raw := range s.Ops {
			l := i.step(s.Run, parseOp(raw))
			o.put(l)
			o.flush()
			if l.Err == errStuck.Error() {
				o.close()
				os.Exit(0)
			}
		}
		verifos.Hook = nil
	})
}

func sortedKeys(m map[string]string) []string {
	var ret []string
	for k := range m {
		ret = append(ret, k)
	}
	sort.Strings(ret)
	return ret
}
