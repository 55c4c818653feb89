package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/verifos"
)

func init() {
	modes["ctl"] = modeCtl
}

type node struct {
	Name, Kind string
	Parent, To int
}

type invocation struct {
	Path, Rest []string
	Tree       []node
}

type wanted struct {
	Op, Repo, Target, Source string
	Rel, Keep                int
	Full, Skip               bool
	Groups                   [][]string
}

type cmdLine struct {
	Inv   json.RawMessage
	Want  json.RawMessage
	Spell int
}

type ctlSession struct {
	Run   int
	Size  []int // done, failed, waiting
	Lines []cmdLine
}

type known struct {
	Completed []string `json:"completed"`
	Failed    []string `json:"failed"`
	Current   []string `json:"current"`
}

type shown struct {
	known
	Counts []int    `json:"counts"`
	Repos  []string `json:"repos"`
	Pool   []string `json:"pool"`
}

type ctlLine struct {
	Run    int             `json:"run"`
	Inv    json.RawMessage `json:"inv"`
	Argv   []string        `json:"argv"`
	Up     bool            `json:"up"`
	Jobs   []interface{}   `json:"jobs"`
	Out    string          `json:"out"`
	Err    string          `json:"err"`
	Before known           `json:"before"`
	After  known           `json:"after"`
	Shown  shown           `json:"shown"`
	Repos  []string        `json:"repos"`
	Pool   []string        `json:"pool"`
}

func squeeze(s string) string { return strings.Join(strings.Fields(s), "") }

// what is known of the jobs, in the order in which they were queued
func (s *served) knownJobs() known {
	st, err := s.client.GetStatus()
	must(err)
	f := func(js libferry.JobSet) []string {
		sort.SliceStable(js, func(a, b int) bool { return js[a].Timing.Queued.Before(js[b].Timing.Queued) })
		ret := []string{}
		for _, j := range js {
			ret = append(ret, squeeze(j.Description))
		}
		return ret
	}
	return known{f(st.CompletedJobs), f(st.FailedJobs), f(st.CurrentJobs)}
}

// queued reads the jobs that wait from a copy of the store
func (s *served) queued() []*jobs.JobEntry {
	d := scratch()
	defer os.RemoveAll(d)
	copyTree(filepath.Join(s.base, core.JobDbPathComponent), filepath.Join(d, core.JobDbPathComponent))
	st, err := jobs.NewStore(d)
	must(err)
	defer st.Close()
	var ret []*jobs.JobEntry
	for {
		j, err := st.ClaimSequentialJob()
		if err != nil {
			break
		}
		ret = append(ret, j)
	}
	for {
		j, err := st.ClaimAsyncJob()
		if err != nil {
			break
		}
		ret = append(ret, j)
	}
	return ret
}

// asOp tells whether a job is what was wanted
func asOp(raw json.RawMessage, dir string, j *jobs.JobEntry) interface{} {
	var w wanted
	must(json.Unmarshal(raw, &w))
	var ref *jobs.JobEntry
	switch w.Op {
	case "create":
		ref = jobs.NewCreateRepoJob(w.Repo)
	case "delete":
		ref = jobs.NewDeleteRepoJob(w.Repo)
	case "deltarepo":
		ref = jobs.NewDeltaRepoJob(w.Repo)
	case "index":
		ref = jobs.NewIndexRepoJob(w.Repo)
	case "trimobs":
		ref = jobs.NewTrimObsoleteJob(w.Repo)
	case "clone":
		ref = jobs.NewCloneRepoJob(w.Repo, w.Target, w.Full)
	case "pull":
		ref = jobs.NewPullRepoJob(w.Repo, w.Target)
	case "trim":
		ref = jobs.NewTrimPackagesJob(w.Repo, w.Keep)
	case "remove":
		ref = jobs.NewRemoveSourceJob(w.Repo, w.Source, w.Rel)
	case "copy":
		ref = jobs.NewCopySourceJob(w.Repo, w.Target, w.Source, w.Rel, w.Skip)
	case "import":
		// The files of a directory come in no particular order
		at := map[string][]int{}
		for k, p := range j.Params {
			at[p] = append(at[p], k)
		}
		var files []string
		for _, g := range w.Groups {
			first := map[string]int{}
			for _, f := range g {
				p := filepath.Join(dir, f)
				first[f] = len(j.Params)
				if ks := at[p]; len(ks) > 0 {
					first[f], at[p] = ks[0], ks[1:]
				}
			}
			sort.SliceStable(g, func(a, b int) bool { return first[g[a]] < first[g[b]] })
			for _, f := range g {
				files = append(files, filepath.Join(dir, f))
			}
		}
		ref = jobs.NewBulkAddJob(w.Repo, files)
		if ref.Type == j.Type && len(ref.Params)+len(j.Params) > 0 && reflect.DeepEqual(ref.Params, j.Params) {
			gs := [][]string{}
			for _, g := range w.Groups {
				gs = append(gs, append([]string{}, g...))
			}
			return map[string]interface{}{"op": "import", "repo": w.Repo, "groups": gs}
		}
		return map[string]interface{}{"op": "other", "params": append([]string{}, j.Params...)}
	}
	if ref != nil && ref.Type == j.Type && reflect.DeepEqual(append([]string{}, ref.Params...), append([]string{}, j.Params...)) {
		return raw
	}
	return map[string]interface{}{"op": "other", "params": append([]string{fmt.Sprint(j.Type)}, j.Params...)}
}

// plant makes the nodes of a directory
func plant(dir string, tree []node) []string {
	paths := make([]string, len(tree))
	for k, n := range tree {
		in := dir
		if n.Parent > 0 {
			in = paths[n.Parent-1]
		}
		p := filepath.Join(in, n.Name)
		paths[k] = p
		switch n.Kind {
		case "dir":
			must(os.Mkdir(p, 0755))
		case "file":
			must(os.WriteFile(p, []byte(n.Name), 0644))
		case "link":
			must(os.Symlink(paths[n.To-1], p))
		case "dangling":
			must(os.Symlink(filepath.Join(in, "nowhere"), p))
		}
	}
	return paths
}

// spell writes a path below dir in one way or another
func spell(dir, p string, how int) string {
	rel, err := filepath.Rel(dir, p)
	must(err)
	switch how {
	case 0:
		return p
	case 1:
		return "./" + rel
	case 2:
		return "../" + filepath.Base(dir) + "/" + rel
	case 3:
		return filepath.Dir(p) + "//./" + filepath.Base(p)
	case 4:
		if st, err := os.Stat(p); err == nil && st.IsDir() {
			return "./" + rel + "/"
		}
		return "./" + rel
	}
	if strings.HasPrefix(rel, "-") {
		return "./" + rel
	}
	return rel
}

var tracked = regexp.MustCompile(`^(Failed|Current|Completed)\b.*\((\d+) tracked\)`)

// parse reads what ferryctl showed
func parse(out string) shown {
	s := shown{known: known{[]string{}, []string{}, []string{}}, Counts: []int{0, 0, 0}, Repos: []string{}, Pool: []string{}}
	section, col := -1, -1
	var rows *[]string
	for _, l := range strings.Split(out, "\n") {
		if m := tracked.FindStringSubmatch(l); m != nil {
			section = map[string]int{"Failed": 0, "Current": 1, "Completed": 2}[m[1]]
			rows = []*[]string{&s.Failed, &s.Current, &s.Completed}[section]
			s.Counts[section], _ = strconv.Atoi(m[2])
			col = -1
			continue
		}
		if rows != nil {
			cells := strings.Split(l, "|")
			if col < 0 {
				for k, c := range cells {
					if strings.EqualFold(strings.TrimSpace(c), "description") {
						col = k
					}
				}
				continue
			}
			if len(cells) <= col {
				continue
			}
			switch first := strings.TrimSpace(cells[0]); {
			case first == "":
				if n := len(*rows); n > 0 {
					(*rows)[n-1] += squeeze(cells[col])
				}
			case first == [3]string{"failed", "queued", "success"}[section] || (section == 1 && first == "running"):
				if section == 1 && (first == "running") != (len(*rows) == 0) {
					first = "wrong state: "
				} else {
					first = ""
				}
				*rows = append(*rows, first+squeeze(cells[col]))
			default:
				*rows = append(*rows, "wrong status: "+first)
			}
			continue
		}
		if strings.HasPrefix(l, " * ") {
			s.Repos = append(s.Repos, l[3:])
		}
		if n, id, ok := strings.Cut(strings.TrimPrefix(l, " - RefCount: "), " | "); ok && strings.HasPrefix(l, " - RefCount: ") {
			s.Pool = append(s.Pool, n+" "+id)
		}
	}
	return s
}

func (s *served) ctl(run, k int, c cmdLine, up bool) *ctlLine {
	var inv invocation
	must(json.Unmarshal(c.Inv, &inv))
	dir := filepath.Join(s.dir, "in", fmt.Sprintf("at%d", k))
	must(os.MkdirAll(dir, 0755))
	paths := plant(dir, inv.Tree)
	l := &ctlLine{Run: run, Inv: c.Inv, Up: up, Jobs: []interface{}{}, Repos: []string{}, Pool: []string{}}
	l.Before, l.After = known{[]string{}, []string{}, []string{}}, known{[]string{}, []string{}, []string{}}
	var before []*jobs.JobEntry
	if up {
		l.Before = s.knownJobs()
		before = s.queued()
		repos, err := s.client.GetRepos()
		must(err)
		sort.Strings(repos)
		l.Repos = append(l.Repos, repos...)
		pool, err := s.client.GetPoolItems()
		must(err)
		for _, p := range pool {
			l.Pool = append(l.Pool, fmt.Sprintf("%d %s", p.RefCount, p.ID))
		}
	}
	l.Argv = append([]string{}, inv.Path...)
	args, ended := 0, false
	for n, w := range inv.Rest {
		if w == "--" && !ended {
			ended = true
		} else if ended || w == "-" || !strings.HasPrefix(w, "-") {
			args++
		}
		// The first argument is a repository
		if args > 1 && len(w) == 2 && w[0] == '#' && w[1] >= '0' && w[1] <= '9' && int(w[1]-'0') <= len(paths) && len(paths) > 0 {
			p := dir
			if w[1] > '0' {
				p = paths[w[1]-'1']
			}
			w = spell(dir, p, (c.Spell+n)%6)
		}
		l.Argv = append(l.Argv, w)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_CTL"), append([]string{"-s", s.sock}, l.Argv...)...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "PWD="+dir)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Run(); err != nil {
		se.WriteString("\n" + err.Error())
	}
	l.Out, l.Err = so.String(), se.String()
	l.Shown = parse(l.Out)
	if up {
		l.After = s.knownJobs()
		after := s.queued()
		if len(after) < len(before) {
			panic("jobs are gone")
		}
		for _, j := range after[len(before):] {
			l.Jobs = append(l.Jobs, asOp(c.Want, dir, j))
		}
	}
	os.RemoveAll(dir)
	return l
}

func (s *served) await(n int) {
	for start := time.Now(); ; time.Sleep(2 * time.Millisecond) {
		st, err := s.client.GetStatus()
		must(err)
		if len(st.CurrentJobs) == n && (n == 0 || s.blocked.Load()) {
			return
		}
		if time.Since(start) > stuckAfter {
			panic("the jobs prepared are not done")
		}
	}
}

func modeCtl(t *testing.T) {
	u := loadUniverse(os.Getenv("VERIF_UNI"))
	o := newOut(os.Getenv("VERIF_OUT"))
	defer o.close()
	backgroundJobCount = 2
	var files []string
	for f := range u.Files {
		files = append(files, f)
	}
	sort.Strings(files)
	eachLine(os.Getenv("VERIF_IN"), func(b []byte) {
		var x ctlSession
		must(json.Unmarshal(b, &x))
		i := newInstance(u)
		i.watched = true
		must(os.MkdirAll(filepath.Join(i.dir, "in"), 0755))
		s := &served{instance: i, sock: filepath.Join(i.dir, "in", "sock"), known: map[string]bool{}, seen: map[string]bool{}}
		verifos.Hook = s.hook(nil)
		s.start()
		for _, r := range []string{"unstable", "stable"} {
			must(s.client.CreateRepo(r))
			for n, f := range files {
				if n%3 == x.Run%3 || r == "stable" && n%2 == 0 {
					p := filepath.Join(i.dir, "in", r, f, i.u.Files[f].ID)
					i.give(f, p, "")
					must(s.client.ImportPackages(r, []string{p}))
				}
			}
		}
		if x.Run%4 != 0 {
			s.await(0)
		} else {
			// Nothing to be listed
			s.await(0)
			must(s.client.DeleteRepo("unstable"))
			must(s.client.DeleteRepo("stable"))
			s.await(0)
		}
		must(s.client.ResetCompleted())
		must(s.client.ResetFailed())
		for n := 0; n < x.Size[0]; n++ {
			must(s.client.CreateRepo(fmt.Sprintf("%c-%d", "zmaZ"[n%4], n)))
		}
		for n := 0; n < x.Size[1]; n++ {
			must(s.client.IndexRepo(fmt.Sprintf("missing %d", n)))
		}
		s.await(0)
		s.hold()
		for n := 0; n < x.Size[2]; n++ {
			must(s.client.CreateRepo(fmt.Sprintf("later %d", n)))
		}
		s.await(x.Size[2])
		for k, c := range x.Lines {
			o.put(s.ctl(x.Run, k, c, true))
		}
		go func() {
			time.Sleep(20 * time.Millisecond)
			s.release()
		}()
		s.stop()
		for k, c := range x.Lines {
			if k%3 == x.Run%3 {
				o.put(s.ctl(x.Run, k, c, false))
			}
		}
		o.flush()
		s.mgr = nil
		s.remove()
		verifos.Hook = nil
	})
}
