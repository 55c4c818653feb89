package main

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/libdb"
)

func inode(st os.FileInfo) (uint64, int) {
	s := st.Sys().(*syscall.Stat_t)
	return s.Ino, int(s.Nlink)
}

// ---- the universe ----

type uFile struct {
	Kind, ID, Name, Src, Srcl, Ver, Dist, Arch, Sha, Path string
	Rel                                                   int
}

type uContent struct {
	Meta   string
	Broken string
	Files  map[string]string
}

type uAsset struct {
	Bad bool
	Tok string
}

type universe struct {
	dir    string
	Files  map[string]*uFile
	Bysha  map[string]*uContent
	Dist   map[string]*uAsset
	Comps  map[string]*uAsset
	Groups map[string]*uAsset

	tokens map[string]string // sha1 -> content token
	sizes  map[string]int64  // content token -> size
	paths  map[string]string // content token -> file
	metas  map[string]string // canonical metadata -> token
	canon  map[string]string // canonical distribution, components, groups -> token
	deltas map[string]string // delta id -> sha1, while it is in the pool
	packed map[string]bool   // (compressed, plain) pairs known to agree
	seen   map[string]*idxInfo
	fcache map[string]string
}

func loadUniverse(dir string) *universe {
	u := &universe{dir: dir}
	readJSON(filepath.Join(dir, "uni.json"), u)
	u.tokens, u.sizes, u.paths = map[string]string{}, map[string]int64{}, map[string]string{}
	u.metas, u.canon, u.deltas, u.packed = map[string]string{}, map[string]string{}, map[string]string{}, map[string]bool{}
	u.seen, u.fcache = map[string]*idxInfo{}, map[string]string{}
	for _, f := range u.Files {
		p := filepath.Join(dir, f.Path)
		if st, err := os.Stat(p); err != nil || !st.Mode().IsRegular() {
			continue
		}
		b, err := os.ReadFile(p)
		if err != nil {
			continue
		}
		u.tokens[hexsha1(b)] = f.Sha
		u.sizes[f.Sha] = int64(len(b))
		u.paths[f.Sha] = p
		if c := u.Bysha[f.Sha]; c != nil {
			m := packageMeta(p)
			if old, ok := u.metas[m]; ok && old != c.Meta {
				panic("the universe has different packages of the same metadata: " + f.ID)
			}
			u.metas[m] = c.Meta
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "PACKAGE", f.ID, m)
			}
		}
	}
	for k, m := range map[string]map[string]*uAsset{"dist": u.Dist, "comps": u.Comps, "groups": u.Groups} {
		for t, a := range m {
			b, err := os.ReadFile(filepath.Join(dir, "assets", t))
			must(err)
			u.tokens["asset:"+hexsha1(b)+k] = t
			if a.Bad {
				continue
			}
			u.canon[canonAsset(k, b)] = a.Tok
		}
	}
	return u
}

func hexsha1(b []byte) string {
	s := sha1.Sum(b)
	return hex.EncodeToString(s[:])
}

// ---- the metadata of packages and of indexes, as a client of them reads it ----

type xText struct {
	Value string `xml:",chardata"`
	Lang  string `xml:"lang,attr"`
}

type xDep struct {
	Name        string `xml:",chardata"`
	ReleaseFrom string `xml:"releaseFrom,attr"`
	ReleaseTo   string `xml:"releaseTo,attr"`
	Release     string `xml:"release,attr"`
	VersionFrom string `xml:"versionFrom,attr"`
	VersionTo   string `xml:"versionTo,attr"`
	Version     string `xml:"version,attr"`
}

type xUpdate struct {
	Release  string `xml:"release,attr"`
	Type     string `xml:"type,attr"`
	Date     string
	Version  string
	Comment  string
	Name     string
	Email    string
	Requires []struct {
		Value   string `xml:",chardata"`
		Package string `xml:"package,attr"`
	} `xml:"Requires>Action"`
}

type xSource struct {
	Name, Homepage string
	Packager       struct{ Name, Email string }
}

type xDelta struct {
	ReleaseFrom string `xml:"releaseFrom,attr"`
	PackageURI  string
	PackageSize string
	PackageHash string
}

type xPackage struct {
	Name                string
	Summary             []xText
	Description         []xText
	IsA, PartOf         string
	License             []string
	RuntimeDependencies []xDep   `xml:"RuntimeDependencies>Dependency"`
	Conflicts           []string `xml:"Conflicts>Package"`
	Replaces            []string `xml:"Replaces>Package"`
	COMAR               []struct {
		Value  string `xml:",chardata"`
		Script string `xml:"script,attr"`
	} `xml:"Provides>COMAR"`
	PkgConfig           []string  `xml:"Provides>PkgConfig"`
	PkgConfig32         []string  `xml:"Provides>PkgConfig32"`
	History             []xUpdate `xml:"History>Update"`
	BuildHost           string
	Distribution        string
	DistributionRelease string
	Architecture        string
	InstalledSize       string
	PackageFormat       string
	Source              xSource
	PackageSize         string
	PackageHash         string
	PackageURI          string
	DeltaPackages       []xDelta `xml:"DeltaPackages>Delta"`
}

type xDist struct {
	SourceName  string
	Description []xText
	Version     string
	Type        string
	BinaryName  string
	Obsoletes   []string `xml:"Obsoletes>Package"`
}

type xComp struct {
	Name                            string
	LocalName, Summary, Description []xText
	Group                           string
	Maintainer                      struct{ Name, Email string }
}

type xGroup struct {
	Name      string
	LocalName []xText
	Icon      string
}

type xIndex struct {
	XMLName      xml.Name
	Distribution []xDist
	Package      []xPackage
	Component    []xComp
	Group        []xGroup
}

func english(f []xText) {
	if len(f) > 0 && f[0].Lang == "" {
		f[0].Lang = "en"
	}
}

func canonPackage(p xPackage) string {
	p.PackageSize, p.PackageHash, p.PackageURI, p.DeltaPackages = "", "", "", nil
	for _, f := range [][]xText{p.Summary, p.Description} {
		for i := range f {
			f[i].Value = strings.TrimSpace(f[i].Value)
		}
		english(f)
	}
	// "From release 0" is any release, as is no bound at all
	for i := range p.RuntimeDependencies {
		d := &p.RuntimeDependencies[i]
		for _, r := range []*string{&d.ReleaseFrom, &d.ReleaseTo, &d.Release} {
			if *r == "0" {
				*r = ""
			}
		}
	}
	b, _ := json.Marshal(p)
	return string(b)
}

func packageMeta(path string) string {
	z, err := zip.OpenReader(path)
	must(err)
	defer z.Close()
	f, err := z.Open("metadata.xml")
	must(err)
	defer f.Close()
	var m struct{ Package xPackage }
	must(xml.NewDecoder(f).Decode(&m))
	return canonPackage(m.Package)
}

func canonDist(d xDist) string {
	b, _ := json.Marshal(d)
	return "dist " + string(b)
}

func canonComps(cs []xComp) string {
	for i := range cs {
		english(cs[i].LocalName)
		english(cs[i].Summary)
		english(cs[i].Description)
	}
	if cs == nil {
		cs = []xComp{}
	}
	b, _ := json.Marshal(cs)
	return "comps " + string(b)
}

func canonGroups(gs []xGroup) string {
	for i := range gs {
		english(gs[i].LocalName)
	}
	if gs == nil {
		gs = []xGroup{}
	}
	b, _ := json.Marshal(gs)
	return "groups " + string(b)
}

func canonAsset(kind string, b []byte) string {
	switch kind {
	case "dist":
		var d xDist
		must(xml.Unmarshal(b, &d))
		return canonDist(d)
	case "comps":
		var c struct {
			C []xComp `xml:"Components>Component"`
		}
		must(xml.Unmarshal(b, &c))
		sort.Slice(c.C, func(i, j int) bool { return c.C[i].Name < c.C[j].Name })
		return canonComps(c.C)
	}
	var g struct {
		G []xGroup `xml:"Groups>Group"`
	}
	must(xml.Unmarshal(b, &g))
	sort.Slice(g.G, func(i, j int) bool { return g.G[i].Name < g.G[j].Name })
	return canonGroups(g.G)
}

// ---- what is observed ----

type flag struct {
	Prop string `json:"prop"`
	What string `json:"what"`
}

type oEnt struct {
	Avail  []string `json:"avail"`
	Pub    string   `json:"pub"`
	Deltas []string `json:"deltas"`
}

type oIdxDelta struct {
	Frel int    `json:"frel"`
	Sha  string `json:"sha"`
	Size string `json:"size"`
	URI  string `json:"uri"`
}

type oIdxEnt struct {
	ID     string      `json:"id"`
	Sha    string      `json:"sha"`
	Size   string      `json:"size"`
	URI    string      `json:"uri"`
	Meta   string      `json:"meta"`
	Deltas []oIdxDelta `json:"deltas"`
}

type oIdx struct {
	Ents   []oIdxEnt `json:"ents"`
	Dist   string    `json:"dist"`
	Comps  string    `json:"comps"`
	Groups string    `json:"groups"`
}

type oRepo struct {
	Ents   map[string]oEnt   `json:"ents"`
	Files  map[string]string `json:"files"`
	Assets map[string]string `json:"assets"`
	Idx    interface{}       `json:"idx"`
}

type oPool struct {
	Ref  uint64 `json:"ref"`
	Name string `json:"name"`
	Src  string `json:"src"`
	Srcl string `json:"srcl"`
	Rel  int    `json:"rel"`
	Ver  string `json:"ver"`
	Dist string `json:"dist"`
	Arch string `json:"arch"`
	Sha  string `json:"sha"`
	Size string `json:"size"`
	URI  string `json:"uri"`
	From string `json:"from"`
	To   string `json:"to"`
	Frel int    `json:"frel"`
	Trel int    `json:"trel"`
}

type oState struct {
	Repos  map[string]*oRepo `json:"repos"`
	Pool   map[string]oPool  `json:"pool"`
	Pfiles map[string]string `json:"pfiles"`
	Skips  []string          `json:"skips"`
	Left   []string          `json:"left"`
}

func emptyState() *oState {
	return &oState{Repos: map[string]*oRepo{}, Pool: map[string]oPool{}, Pfiles: map[string]string{}, Skips: []string{}, Left: []string{}}
}

type idxInfo struct {
	idx   interface{}
	flags []flag
}

var indexNames = func() map[string]bool {
	m := map[string]bool{}
	for _, f := range []string{"eopkg-index.xml", "eopkg-index.xml.xz", "eopkg-index.xml.zst"} {
		m[f], m[f+".sha1sum"], m[f+".sha256sum"] = true, true, true
	}
	return m
}()

// A delta is known by its name as well: different ones may have the same content
func (u *universe) contentOf(name string, b []byte) string {
	return u.shaToken(name, hexsha1(b))
}

func (u *universe) shaToken(name, sha string) string {
	if u.deltas[name] == sha {
		return "delta:" + name
	}
	if t, ok := u.tokens[sha]; ok {
		return t
	}
	return "sha1:" + sha
}

func (u *universe) sizeToken(content string, n int64) string {
	if k, ok := u.sizes[content]; ok && k == n {
		return "size:" + content
	}
	return strconv.FormatInt(n, 10)
}

// files lists the regular files below dir, by location
func walkFiles(dir string) map[string]string {
	ret := map[string]string{}
	filepath.Walk(dir, func(p string, st os.FileInfo, err error) error {
		if err != nil || st.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		ret[rel] = p
		return nil
	})
	return ret
}

// contents of a file of ferryd's own; nothing that is no file itself has any
func contents(p string) []byte {
	if st, err := os.Lstat(p); err != nil || !st.Mode().IsRegular() {
		return []byte("no file")
	}
	b, _ := os.ReadFile(p)
	return b
}

func lsNames(dir string) []string {
	var ret []string
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		ret = append(ret, e.Name())
	}
	return ret
}

// TLC has no integers beyond 32 bits
func clamp(n uint64) uint64 {
	if n > 999999 {
		return 999999
	}
	return n
}

// observe reads everything there is to see of a ferryd below base
func (u *universe) observe(base string) (*oState, []flag) {
	db := libdb.VerifDB(filepath.Join(base, core.DatabasePathComponent))
	s := emptyState()
	flags := []flag{}
	bad := func(prop, what string, args ...interface{}) {
		flags = append(flags, flag{prop, fmt.Sprintf(what, args...)})
	}

	// the pool: files first, as deltas have to be known by their content
	entries := map[string]*core.PoolEntry{}
	err := db.Bucket([]byte(core.DatabaseBucketPool)).ForEach(func(k, v []byte) error {
		e := &core.PoolEntry{}
		if err := db.Decode(v, e); err != nil {
			return err
		}
		if e.Name != string(k) || e.Meta == nil {
			bad("C01", "pool entry %q is named %q", string(k), e.Name)
			return nil
		}
		entries[e.Name] = e
		return nil
	})
	if err != nil {
		bad("C01", "the pool does not read: %v", err)
	}
	for id := range u.deltas {
		if _, ok := entries[id]; !ok {
			delete(u.deltas, id)
		}
	}
	pdir := filepath.Join(base, core.PoolPathComponent)
	for id, e := range entries {
		if e.Delta == nil {
			continue
		}
		b, err := os.ReadFile(filepath.Join(pdir, e.Meta.PackageURI))
		if err != nil {
			continue
		}
		sha := hexsha1(b)
		if u.deltas[id] == "" {
			from, to := entries[e.Delta.FromID], entries[e.Delta.ToID]
			if from == nil || to == nil {
				bad("C17", "delta %s is between packages that are gone", id)
				continue
			}
			if err := u.checkDelta(b, u.shaToken("", from.Meta.PackageHash), u.shaToken("", to.Meta.PackageHash)); err != nil {
				bad("C16", "delta %s: %v", id, err)
				continue
			}
			u.deltas[id] = sha
			u.sizes["delta:"+id] = int64(len(b))
		} else if u.deltas[id] != sha {
			bad("C02", "delta %s has changed", id)
		}
	}
	for rel, p := range walkFiles(pdir) {
		b := contents(p)
		s.Pfiles[rel] = u.contentOf(filepath.Base(rel), b)
	}
	for id, e := range entries {
		p := oPool{Ref: clamp(e.RefCount), Name: e.Meta.Name, Src: e.Meta.Source.Name, Srcl: strings.ToLower(e.Meta.Source.Name), Dist: e.Meta.DistributionRelease,
			Arch: e.Meta.Architecture, URI: e.Meta.PackageURI}
		if len(e.Meta.History) > 0 {
			p.Rel, p.Ver = e.Meta.GetRelease(), e.Meta.GetVersion()
		}
		p.Sha = u.shaToken(id, e.Meta.PackageHash)
		p.Size = u.sizeToken(p.Sha, e.Meta.PackageSize)
		if e.Delta != nil {
			p.From, p.To, p.Frel, p.Trel = e.Delta.FromID, e.Delta.ToID, e.Delta.FromRelease, e.Delta.ToRelease
		}
		s.Pool[id] = p
	}
	err = db.Bucket([]byte(core.DatabaseBucketDeltaSkip)).ForEach(func(k, v []byte) error {
		s.Skips = append(s.Skips, string(k))
		return nil
	})
	if err != nil {
		bad("C17", "the skipped deltas do not read: %v", err)
	}

	// the repositories
	err = db.Bucket([]byte(core.DatabaseBucketRepo)).ForEach(func(k, v []byte) error {
		r := core.Repository{}
		if err := db.Decode(v, &r); err != nil {
			return err
		}
		if r.ID != string(k) {
			bad("C24", "repository %q is named %q", string(k), r.ID)
		}
		s.Repos[string(k)] = nil
		return nil
	})
	if err != nil {
		bad("C24", "the repositories do not read: %v", err)
	}
	for id := range s.Repos {
		r := &oRepo{Ents: map[string]oEnt{}, Files: map[string]string{}, Assets: map[string]string{}}
		s.Repos[id] = r
		err = db.Bucket([]byte(core.DatabaseBucketRepo)).Bucket([]byte(id)).Bucket([]byte(core.DatabaseBucketPackage)).ForEach(func(k, v []byte) error {
			e := core.RepoEntry{}
			if err := db.Decode(v, &e); err != nil {
				return err
			}
			if e.Name != string(k) {
				bad("C03", "entry %q of %s is named %q", string(k), id, e.Name)
			}
			for _, l := range [][]string{e.Available, e.Deltas} {
				for i := range l {
					for j := 0; j < i; j++ {
						if l[i] == l[j] {
							bad("C01", "%s lists %s twice", id, l[i])
						}
					}
				}
			}
			r.Ents[string(k)] = oEnt{append([]string{}, e.Available...), e.Published, append([]string{}, e.Deltas...)}
			return nil
		})
		if err != nil {
			bad("C03", "the entries of %s do not read: %v", id, err)
		}
		rdir := filepath.Join(base, core.RepoPathComponent, id)
		for rel, p := range walkFiles(rdir) {
			if strings.HasPrefix(rel, "eopkg-index.xml") {
				continue
			}
			b := contents(p)
			r.Files[rel] = u.contentOf(filepath.Base(rel), b)
		}
		adir := filepath.Join(base, core.AssetPathComponent, id)
		for rel, p := range walkFiles(adir) {
			b, _ := os.ReadFile(p)
			kind := map[string]string{"distribution.xml": "dist", "components.xml": "comps", "groups.xml": "groups"}[rel]
			if t, ok := u.tokens["asset:"+hexsha1(b)+kind]; ok {
				r.Assets[rel] = t
			} else {
				r.Assets[rel] = "sha1:" + hexsha1(b)
			}
		}
		info := u.readIndex(rdir)
		r.Idx = info.idx
		for _, f := range info.flags {
			bad(f.Prop, "index of %s: %s", id, f.What)
		}
	}

	// what should not be there
	known := map[string]bool{core.DatabasePathComponent: true, core.JobDbPathComponent: true, core.IncomingPathComponent: true, core.PoolPathComponent: true,
		core.RepoPathComponent: true, core.AssetPathComponent: true, core.DeltaPathComponent: true, core.DeltaStagePathComponent: true,
		"ferryd.lock": true, "ferryd.log": true, "ferryd.sock": true}
	for _, n := range lsNames(base) {
		if !known[n] {
			s.Left = append(s.Left, n)
		}
	}
	for _, top := range []string{core.RepoPathComponent, core.AssetPathComponent, core.DeltaPathComponent, core.DeltaStagePathComponent} {
		for _, n := range lsNames(filepath.Join(base, top)) {
			if _, ok := s.Repos[n]; !ok {
				s.Left = append(s.Left, top+"/"+n)
				continue
			}
			if top == core.DeltaPathComponent || top == core.DeltaStagePathComponent {
				for _, m := range lsNames(filepath.Join(base, top, n)) {
					s.Left = append(s.Left, top+"/"+n+"/"+m)
				}
			}
		}
	}
	sort.Strings(s.Left)
	sort.Slice(flags, func(i, j int) bool { return flags[i].What < flags[j].What })
	return s, flags
}

// readIndex reads the nine published files of a repository, which have to agree
func (u *universe) readIndex(dir string) *idxInfo {
	contents := map[string][]byte{}
	h := sha1.New()
	var names []string
	for n := range indexNames {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if b, err := os.ReadFile(filepath.Join(dir, n)); err == nil {
			contents[n] = b
			fmt.Fprintf(h, "%s %d ", n, len(b))
			h.Write(b)
		}
	}
	key := hex.EncodeToString(h.Sum(nil))
	if i, ok := u.seen[key]; ok {
		return i
	}
	info := u.parseIndexes(contents, dir)
	u.seen[key] = info
	return info
}

func (u *universe) parseIndexes(contents map[string][]byte, dir string) *idxInfo {
	info := &idxInfo{idx: map[string]bool{"none": true}}
	bad := func(prop, what string, args ...interface{}) {
		info.flags = append(info.flags, flag{prop, fmt.Sprintf(what, args...)})
	}
	if len(contents) == 0 {
		return info
	}
	for n := range indexNames {
		if _, ok := contents[n]; !ok {
			bad("C05", "%s is missing", n)
		}
	}
	plain := contents["eopkg-index.xml"]
	for _, n := range []string{"eopkg-index.xml", "eopkg-index.xml.xz", "eopkg-index.xml.zst"} {
		b, ok := contents[n]
		if !ok {
			continue
		}
		s256 := sha256.Sum256(b)
		if g, ok := contents[n+".sha1sum"]; ok && strings.TrimSpace(string(g)) != hexsha1(b) {
			bad("C05", "%s.sha1sum does not match", n)
		}
		if g, ok := contents[n+".sha256sum"]; ok && strings.TrimSpace(string(g)) != hex.EncodeToString(s256[:]) {
			bad("C05", "%s.sha256sum does not match", n)
		}
	}
	for n, tool := range map[string]string{"eopkg-index.xml.xz": "xz", "eopkg-index.xml.zst": "zstd"} {
		b, ok := contents[n]
		if !ok {
			continue
		}
		c := exec.Command(tool, "-d", "-c", "-q")
		c.Stdin = bytes.NewReader(b)
		got, err := c.Output()
		if err != nil || !bytes.Equal(got, plain) {
			bad("C05", "%s is not the index, compressed", n)
		}
	}
	x := xIndex{}
	if err := xml.Unmarshal(plain, &x); err != nil {
		bad("C04", "does not parse: %v", err)
		bad("C05", "does not parse: %v", err)
		return info
	}
	if x.XMLName.Local != "PISI" {
		bad("C04", "is of type %s", x.XMLName.Local)
	}
	idx := &oIdx{Ents: []oIdxEnt{}}
	seen := map[string]bool{}
	last := ""
	for _, p := range x.Package {
		e := oIdxEnt{ID: filepath.Base(p.PackageURI), URI: p.PackageURI, Deltas: []oIdxDelta{}}
		e.Sha = u.shaToken("", p.PackageHash)
		n, _ := strconv.ParseInt(p.PackageSize, 10, 64)
		e.Size = u.sizeToken(e.Sha, n)
		ds := map[oIdxDelta]bool{}
		for _, d := range p.DeltaPackages {
			sha := u.shaToken(filepath.Base(d.PackageURI), d.PackageHash)
			n, _ := strconv.ParseInt(d.PackageSize, 10, 64)
			rel, _ := strconv.Atoi(d.ReleaseFrom)
			o := oIdxDelta{rel, sha, u.sizeToken(sha, n), d.PackageURI}
			if ds[o] {
				bad("C04", "lists delta %s of %s twice", d.PackageURI, p.Name)
			}
			ds[o] = true
			e.Deltas = append(e.Deltas, o)
		}
		c := canonPackage(p)
		if m, ok := u.metas[c]; ok {
			e.Meta = m
		} else {
			e.Meta = "other " + hexsha1([]byte(c))
			bad("C21", "%s is not described as in the package", p.Name)
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "INDEX", c)
			}
		}
		if seen[p.Name] {
			bad("C04", "lists %s twice", p.Name)
		}
		seen[p.Name] = true
		if e.ID < last {
			bad("C04", "%s comes after %s", e.ID, last)
		}
		last = e.ID
		idx.Ents = append(idx.Ents, e)
	}
	if len(x.Distribution) > 1 {
		bad("C04", "has %d distributions", len(x.Distribution))
	} else if len(x.Distribution) == 1 {
		idx.Dist = u.asset(canonDist(x.Distribution[0]))
	}
	idx.Comps = u.assetOrNone(canonComps(x.Component), len(x.Component))
	idx.Groups = u.assetOrNone(canonGroups(x.Group), len(x.Group))
	info.idx = idx
	return info
}

func (u *universe) asset(canon string) string {
	if t, ok := u.canon[canon]; ok {
		return t
	}
	return "other " + hexsha1([]byte(canon))
}

// An index without any component may come from a file without any, or from none
func (u *universe) assetOrNone(canon string, n int) string {
	if n == 0 {
		return ""
	}
	return u.asset(canon)
}

// ---- deltas ----

type tarEntry struct {
	name   string
	header string
	data   string
}

func readTarXz(b []byte) ([]tarEntry, error) {
	c := exec.Command("xz", "-d", "-c", "-q")
	c.Stdin = bytes.NewReader(b)
	plain, err := c.Output()
	if err != nil {
		return nil, fmt.Errorf("install.tar.xz does not decompress: %v", err)
	}
	var ret []tarEntry
	t := tar.NewReader(bytes.NewReader(plain))
	for {
		h, err := t.Next()
		if err == io.EOF {
			return ret, nil
		}
		if err != nil {
			return nil, err
		}
		data, err := io.ReadAll(t)
		if err != nil {
			return nil, err
		}
		ret = append(ret, tarEntry{strings.TrimSuffix(h.Name, "/"), fmt.Sprintf("%s %c %o %d %d %s %s %d", strings.TrimSuffix(h.Name, "/"), h.Typeflag, h.Mode, h.Uid, h.Gid, h.Linkname, h.ModTime.UTC(), h.Size), string(data)})
	}
}

type member struct {
	name string
	data []byte
}

func readZip(b []byte) ([]member, error) {
	z, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil, err
	}
	var ret []member
	for _, f := range z.File {
		r, err := f.Open()
		if err != nil {
			return nil, err
		}
		data, err := io.ReadAll(r)
		r.Close()
		if err != nil {
			return nil, err
		}
		ret = append(ret, member{f.Name, data})
	}
	return ret, nil
}

type xFiles struct {
	File []struct {
		Path, Type, Hash string
	}
}

// compareDelta decides whether delta is what has to be produced from old to new
func compareDelta(delta, old, new []byte) error {
	dm, err := readZip(delta)
	if err != nil {
		return fmt.Errorf("does not open: %v", err)
	}
	om, err := readZip(old)
	must(err)
	nm, err := readZip(new)
	must(err)
	var of, nf xFiles
	var ntar, dtar []byte
	for _, m := range om {
		if m.name == "files.xml" {
			must(xml.Unmarshal(m.data, &of))
		}
	}
	var want []member
	for _, m := range nm {
		if m.name == "files.xml" {
			must(xml.Unmarshal(m.data, &nf))
		}
		if strings.HasPrefix(m.name, "install.tar") {
			if m.name == "install.tar.xz" {
				ntar = m.data
			}
			continue
		}
		want = append(want, m)
	}
	var got []member
	for _, m := range dm {
		if m.name == "install.tar.xz" && dtar == nil {
			dtar = m.data
			continue
		}
		got = append(got, m)
	}
	if len(got) != len(want) {
		return fmt.Errorf("has %d members beside the archive, not %d", len(got), len(want))
	}
	for i := range want {
		if got[i].name != want[i].name || !bytes.Equal(got[i].data, want[i].data) {
			return fmt.Errorf("member %s differs from %s of the new package", got[i].name, want[i].name)
		}
	}
	have := map[string]bool{}
	for _, f := range of.File {
		have[f.Hash] = true
	}
	needed := map[string]bool{}
	for _, f := range nf.File {
		if f.Hash == "" || !have[f.Hash] {
			needed[strings.TrimSuffix(f.Path, "/")] = true
		}
	}
	if len(needed) == 0 {
		if dtar != nil {
			return fmt.Errorf("has an archive, but needs none")
		}
		return nil
	}
	if dtar == nil {
		return fmt.Errorf("has no archive")
	}
	nt, err := readTarXz(ntar)
	if err != nil {
		return fmt.Errorf("is made of an archive that is damaged: %v", err)
	}
	dt, err := readTarXz(dtar)
	if err != nil {
		return err
	}
	var wt []tarEntry
	for _, e := range nt {
		if needed[e.name] {
			wt = append(wt, e)
		}
	}
	if len(wt) != len(dt) {
		return fmt.Errorf("archive has %d entries, not %d", len(dt), len(wt))
	}
	for i := range wt {
		if wt[i] != dt[i] {
			return fmt.Errorf("entry %q is not %q of the new package", dt[i].header, wt[i].header)
		}
	}
	return nil
}

func (u *universe) checkDelta(delta []byte, from, to string) error {
	if u.paths[from] == "" || u.paths[to] == "" {
		return fmt.Errorf("made of unknown packages %s, %s", from, to)
	}
	old, err := os.ReadFile(u.paths[from])
	must(err)
	new, err := os.ReadFile(u.paths[to])
	must(err)
	return compareDelta(delta, old, new)
}
