package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/verifos"
)

func init() {
	modes["index"] = modeIndex
}

var errInjected = errors.New("verif: made to fail")

type idxOp struct {
	Op    string
	N     int
	Fault string
	At    int
}

type idxLine struct {
	Run   int            `json:"run"`
	Ev    string         `json:"ev"`
	D     int            `json:"d"`
	Ok    bool           `json:"ok"`
	Err   string         `json:"err"`
	Fault string         `json:"fault"`
	At    string         `json:"at"`
	Agree bool           `json:"agree"`
	N     int            `json:"n"`
	Vis   map[string]int `json:"vis"`

	raw map[string]string
}

const idxPrefix = "eopkg-index."

// Follows what is visible of one repository's index
type idxWatch struct {
	run      int
	dir      string
	lines    []*idxLine
	last     map[string]string
	contents map[string][]byte // by sha1
	states   map[string]int
}

func idxBase(name string) string {
	return strings.TrimSuffix(strings.TrimSuffix(name, ".sha1sum"), ".sha256sum")
}

func (w *idxWatch) look() map[string]string {
	vis := map[string]string{}
	es, _ := os.ReadDir(w.dir)
	for _, e := range es {
		if !e.Type().IsRegular() {
			continue
		}
		b, err := os.ReadFile(filepath.Join(w.dir, e.Name()))
		if err != nil || len(b) > 1<<20 {
			continue
		}
		s := hexsha1(b)
		if _, ok := w.contents[s]; !ok {
			w.contents[s] = b
		}
		if indexNames[e.Name()] {
			vis[strings.TrimPrefix(e.Name(), idxPrefix)] = s
		}
	}
	return vis
}

func same(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

func (w *idxWatch) put(l idxLine) *idxLine {
	l.Run = w.run
	l.raw = w.look()
	w.last = l.raw
	w.lines = append(w.lines, &l)
	return &l
}

// point tells of a change of what is visible
func (w *idxWatch) point(at string) {
	if v := w.look(); !same(v, w.last) {
		w.put(idxLine{Ev: "show", At: at})
	}
}

func whole(b []byte) bool {
	x := struct {
		XMLName xml.Name
	}{}
	d := xml.NewDecoder(bytes.NewReader(b))
	if d.Decode(&x) != nil || x.XMLName.Local != "PISI" {
		return false
	}
	return len(bytes.TrimSpace(b[d.InputOffset():])) == 0
}

func unpack(kind string, b []byte) ([]byte, bool) {
	tool := map[string]string{"xml.xz": "xz", "xml.zst": "zstd"}[kind]
	c := exec.Command(tool, "-d", "-c", "-q")
	c.Stdin = bytes.NewReader(b)
	got, err := c.Output()
	return got, err == nil
}

// classify replaces the contents by the versions that they are of
func (w *idxWatch) classify() {
	tok := map[string]int{}
	number := func(b []byte) int {
		s := hexsha1(b)
		if tok[s] == 0 {
			tok[s] = len(tok) + 1
		}
		return tok[s]
	}
	memo := map[string]int{}
	var version func(kind, s string) int
	version = func(kind, s string) int {
		k := kind + " " + s
		if v, ok := memo[k]; ok {
			return v
		}
		b, v := w.contents[s], -1
		switch kind {
		case "xml":
			if whole(b) {
				v = number(b)
			}
		case "xml.xz", "xml.zst":
			if x, ok := unpack(kind, b); ok && whole(x) {
				v = number(x)
			}
		}
		memo[k] = v
		return v
	}
	// Versions are numbered as they come
	for _, l := range w.lines {
		if s, ok := l.raw["xml"]; ok {
			version("xml", s)
		}
	}
	sums := map[string]string{} // sum -> content
	for s, b := range w.contents {
		t := sha256.Sum256(b)
		sums[s] = s
		sums[hex.EncodeToString(t[:])] = s
	}
	for _, l := range w.lines {
		l.Vis = map[string]int{}
		for n := range indexNames {
			l.Vis[strings.TrimPrefix(n, idxPrefix)] = 0
		}
		for n, s := range l.raw {
			if b := idxBase(n); b == n {
				l.Vis[n] = version(n, s)
			} else {
				l.Vis[n] = -1
				sum := strings.TrimSpace(string(w.contents[s]))
				if c, ok := sums[sum]; ok && (len(sum) == 40) == strings.HasSuffix(n, ".sha1sum") {
					l.Vis[n] = version(b, c)
				}
			}
		}
	}
}

func modeIndex(t *testing.T) {
	u := loadUniverse(os.Getenv("VERIF_UNI"))
	o := newOut(os.Getenv("VERIF_OUT"))
	defer o.close()
	var pkgs []string
	for f, x := range u.Files {
		if x.Kind == "pkg" && u.Bysha[x.Sha].Broken == "" {
			pkgs = append(pkgs, f)
		}
	}
	sort.Strings(pkgs)
	goodOf := func(m map[string]*uAsset) []string {
		var r []string
		for k, a := range m {
			if !a.Bad {
				r = append(r, k)
			}
		}
		sort.Strings(r)
		return r
	}
	dists, comps, groups := goodOf(u.Dist), goodOf(u.Comps), goodOf(u.Groups)

	eachLine(os.Getenv("VERIF_IN"), func(b []byte) {
		s := struct {
			Run int
			Ops []idxOp
		}{}
		must(json.Unmarshal(b, &s))
		verifos.Hook, verifos.Wants = nil, nil
		i := newInstance(u)
		defer i.remove()
		must(i.open())
		do := func(o op) error {
			raw, _ := json.Marshal(o)
			o.raw = raw
			j := i.prepare(o)
			if j == nil {
				return i.direct(o)
			}
			err, crash := i.execute(o, j)
			if crash != "" {
				err = errors.New(crash)
			}
			return err
		}
		must(do(op{Op: "create", Repo: "main"}))
		w := &idxWatch{run: s.Run, dir: filepath.Join(i.base, core.RepoPathComponent, "main"), contents: map[string][]byte{}, states: map[string]int{}}
		var assets, imported string
		state := func() int {
			k := assets + "|" + imported
			if w.states[k] == 0 {
				w.states[k] = len(w.states) + 1
			}
			return w.states[k]
		}
		have := map[string]bool{}
		w.put(idxLine{Ev: "init"})
		for _, x := range s.Ops {
			switch x.Op {
			case "assets":
				as := assetMap{}
				pick := func(file string, from []string, n int) {
					if k := n % (len(from) + 1); k < len(from) {
						as[file] = from[k]
					}
				}
				pick("distribution.xml", dists, x.N)
				pick("components.xml", comps, x.N/4)
				pick("groups.xml", groups, x.N/16)
				must(do(op{Op: "assets", Repo: "main", Assets: as}))
				assets = fmt.Sprint(as)
				w.put(idxLine{Ev: "change"})
			case "restart":
				must(do(op{Op: "restart"}))
				w.put(idxLine{Ev: "restart"})
			case "import", "index":
				j := op{Op: "index", Repo: "main"}
				if x.Op == "import" {
					f := pkgs[x.N%len(pkgs)]
					if have[u.Files[f].ID] {
						continue
					}
					have[u.Files[f].ID] = true
					j = op{Op: "import", Repo: "main", Files: []string{f}}
					imported += f + " "
				}
				n, fault, at := 0, "", ""
				w.put(idxLine{Ev: "begin", D: state()})
				verifos.Wants = func(op string, args []string) bool { return true }
				verifos.Hook = func(p verifos.Point) error {
					name := ""
					if len(p.Args) > 0 {
						name = filepath.Base(p.Args[0])
					}
					w.point(p.Phase + " " + p.Op + " " + name)
					n++
					if x.Fault == "" || fault != "" || n <= x.At {
						return nil
					}
					here := p.Phase + " " + p.Op + " " + name
					switch x.Fault {
					case "crash":
						fault, at = "crash", here
						verifos.Dead.Store(true)
						panic(verifos.Crash{})
					case "fail":
						if p.Phase == verifos.After && (p.Op == "rename" || p.Op == "remove" || p.Op == "open") {
							return nil
						}
						fault, at = p.Op, here
						return errInjected
					case "full":
						if p.Op == "create" && p.Phase == verifos.Before {
							fault, at = p.Op, here
							return verifos.ErrFull
						}
						if p.Op == "writefile" && p.Phase == verifos.Middle {
							fault, at = p.Op, here
							return errInjected
						}
					}
					return nil
				}
				var err error
				crashed := false
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(verifos.Crash); !ok {
								panic(r)
							}
							crashed = true
						}
					}()
					err = do(j)
				}()
				verifos.Hook, verifos.Wants = nil, nil
				verifos.Dead.Store(false)
				if crashed {
					i.close()
					w.put(idxLine{Ev: "crash", At: at, N: n})
					must(i.open())
					continue
				}
				w.point("end")
				l := w.put(idxLine{Ev: "end", D: state(), Ok: err == nil, Fault: fault, At: at, N: n})
				if err != nil {
					l.Err = err.Error()
				} else {
					l.Agree = true
					info := u.readIndex(w.dir)
					for _, f := range info.flags {
						if f.Prop == "C05" {
							l.Agree = false
							l.Err = f.What
						}
					}
				}
			}
		}
		w.classify()
		for _, l := range w.lines {
			o.put(l)
		}
	})
}
