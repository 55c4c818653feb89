package main

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"crypto/sha1"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/libeopkg"
	"github.com/getsolus/ferryd/src/verifos"
)

func init() {
	modes["delta"] = modeDelta
}

type dEntry struct {
	K    string
	C, M int
}

type dMeta struct {
	Rel, Name, Dist, Arch, Ver, Comar, Shuffle int
	Slash                                      bool
}

type dPkg struct {
	Meta dMeta
	Tree []dEntry
	Dirs []dEntry
}

type dPair struct {
	Old, New dPkg
	Twice    bool
	Fault    string
	At       int
}

var dPaths = []string{
	"usr/bin/foo", "usr/bin/foo.bar", "usr/bin/foo-2", "usr/share/a b/ü ünï", "etc/x", "usr/lib64/libx.so.1", "usr/lib64/libx.so",
	"usr/share/" + strings.Repeat("long/", 25) + "name", "usr/share/doc/" + strings.Repeat("n", 120), "usr", "a&<b>\"'c", "usr/bin", "x", "usr/share/install.tar",
}
var dDirs = []string{"usr/share/dirs", "var/lib/empty", "etc/d", "usr/lib64", "home/ö"}
var dNames = []string{"", "foo", "foo-devel"}

func dContent(c int) []byte {
	switch c {
	case 0:
		return nil
	case 1:
		return []byte("short")
	case 2, 3:
		b := &bytes.Buffer{}
		h := sha1.Sum([]byte(fmt.Sprint(c)))
		for b.Len() < 70000*c {
			h = sha1.Sum(h[:])
			b.Write(h[:])
		}
		return b.Bytes()
	case 4:
		return make([]byte, 5000)
	}
	return []byte(fmt.Sprintf("content number %d\n", c))
}

// A package, as DeltaPackage has it
type dDesc struct {
	Name    string    `json:"name"`
	Rel     int       `json:"rel"`
	Dist    string    `json:"dist"`
	Arch    string    `json:"arch"`
	Files   []dFile   `json:"files"`
	Tar     []dTar    `json:"tar"`
	Has     bool      `json:"has"`
	Members []dMember `json:"members"`
}

type dFile struct {
	P string `json:"p"`
	H string `json:"h"`
}

type dTar struct {
	P string `json:"p"`
	E string `json:"e"`
	D string `json:"d"`
}

type dMember struct {
	N string `json:"n"`
	D string `json:"d"`
}

func short(b []byte) string { return hexsha1(b)[:12] }

func xmlEsc(s string) string {
	b := &bytes.Buffer{}
	must(xml.EscapeText(b, []byte(s)))
	return b.String()
}

func buildDeltaPackage(path string, p dPkg) {
	m := p.Meta
	type item struct {
		path string
		e    dEntry
	}
	var items []item
	for k, e := range p.Dirs {
		if e.K != "-" {
			items = append(items, item{dDirs[k], e})
		}
	}
	for k, e := range p.Tree {
		if e.K != "-" {
			items = append(items, item{dPaths[k], e})
		}
	}
	switch m.Shuffle {
	case 1:
		sort.Slice(items, func(a, b int) bool { return items[a].path < items[b].path })
	case 2:
		sort.Slice(items, func(a, b int) bool { return items[a].path > items[b].path })
	case 3:
		sort.Slice(items, func(a, b int) bool { return hexsha1([]byte(items[a].path)) < hexsha1([]byte(items[b].path)) })
	}
	modes := []int64{0644, 0755, 04755, 0600}
	first := map[int]string{}
	plain := &bytes.Buffer{}
	t := tar.NewWriter(plain)
	files := &bytes.Buffer{}
	files.WriteString("<Files>")
	for _, x := range items {
		h := &tar.Header{Name: x.path, Mode: modes[x.e.M], Uid: x.e.M, Gid: 2 * x.e.M, Uname: "root", ModTime: time.Unix(1500000000+int64(x.e.M), 0), Format: tar.FormatPAX}
		var data []byte
		hash := ""
		switch {
		case x.e.K == "d":
			h.Typeflag, h.Name = tar.TypeDir, x.path+"/"
			if m.Slash {
				x.path += "/"
			}
		case x.e.K == "s":
			h.Typeflag, h.Linkname = tar.TypeSymlink, fmt.Sprintf("../target-%d", x.e.C)
			hash = hexsha1([]byte(h.Linkname))
		case x.e.K == "h" && first[x.e.C] != "":
			h.Typeflag, h.Linkname = tar.TypeLink, first[x.e.C]
			hash = hexsha1(dContent(x.e.C))
		default:
			data = dContent(x.e.C)
			h.Typeflag, h.Size = tar.TypeReg, int64(len(data))
			hash = hexsha1(data)
			if first[x.e.C] == "" {
				first[x.e.C] = x.path
			}
			if x.e.M == 3 {
				h.PAXRecords = map[string]string{"SCHILY.xattr.user.x": "y"}
			}
		}
		must(t.WriteHeader(h))
		_, err := t.Write(data)
		must(err)
		fmt.Fprintf(files, "<File><Path>%s</Path><Type>data</Type><Uid>%d</Uid><Gid>0</Gid><Mode>%o</Mode>", xmlEsc(x.path), x.e.M, modes[x.e.M])
		if hash != "" {
			fmt.Fprintf(files, "<Size>%d</Size><Hash>%s</Hash>", len(data), hash)
		}
		files.WriteString("</File>")
	}
	must(t.Close())
	files.WriteString("</Files>")
	c := exec.Command("xz", "-0", "-c")
	c.Stdin = plain
	xz, err := c.Output()
	must(err)
	meta := fmt.Sprintf(`<PISI><Source><Name>%s</Name></Source><Package><Name>%s</Name><Summary xml:lang="en">s</Summary><Description xml:lang="en">d %d</Description>`+
		`<History><Update release="%d"><Date>2018-01-01</Date><Version>%d.0</Version></Update></History><DistributionRelease>%d</DistributionRelease><Architecture>%s</Architecture>`+
		`<Source><Name>foo</Name></Source></Package></PISI>`, "foo", dNames[m.Name], m.Comar, m.Rel, m.Ver, m.Dist, []string{"", "x86_64", "i686"}[m.Arch])

	f, err := os.Create(path)
	must(err)
	z := zip.NewWriter(f)
	add := func(name string, b []byte, method uint16) {
		w, err := z.CreateHeader(&zip.FileHeader{Name: name, Method: method})
		must(err)
		_, err = w.Write(b)
		must(err)
	}
	if m.Comar == 2 {
		add("install.tar.xz", xz, zip.Store)
	}
	add("metadata.xml", []byte(meta), zip.Deflate)
	if m.Comar > 0 {
		add("comar/package.py", []byte(fmt.Sprintf("# %d", m.Comar)), zip.Deflate)
	}
	add("files.xml", files.Bytes(), zip.Deflate)
	if m.Comar == 2 {
		add("comar/install.tar.py", dContent(2), zip.Deflate)
		add("xinstall.tar.xz", nil, zip.Store)
	} else {
		add("install.tar.xz", xz, zip.Store)
	}
	must(z.Close())
	must(f.Close())
}

// describePackage reads a package (or a delta) back
func describePackage(b []byte) (d dDesc, err error) {
	d = dDesc{Files: []dFile{}, Tar: []dTar{}, Members: []dMember{}}
	ms, err := readZip(b)
	if err != nil {
		return d, err
	}
	for _, m := range ms {
		switch {
		case m.name == "install.tar.xz":
			if d.Has {
				return d, fmt.Errorf("has two archives")
			}
			d.Has = true
			c := exec.Command("xz", "-d", "-c", "-q")
			c.Stdin = bytes.NewReader(m.data)
			plain, err := c.Output()
			if err != nil {
				return d, fmt.Errorf("archive does not decompress: %v", err)
			}
			t := tar.NewReader(bytes.NewReader(plain))
			for {
				h, err := t.Next()
				if err == io.EOF {
					break
				}
				if err != nil {
					return d, err
				}
				data, err := io.ReadAll(t)
				if err != nil {
					return d, err
				}
				e := fmt.Sprintf("%c %o %d %d %s %s %s %d %d", h.Typeflag, h.Mode, h.Uid, h.Gid, h.Uname, h.Gname, h.Linkname, h.ModTime.Unix(), h.Size)
				if x := h.PAXRecords["SCHILY.xattr.user.x"]; x != "" {
					e += " x=" + x
				}
				// The content of a hard link is that of what it links to
				content := short(data) + h.Linkname
				if h.Typeflag == tar.TypeLink {
					content = "nothing"
					for _, x := range d.Tar {
						if x.P == h.Linkname {
							content = x.D
						}
					}
				}
				d.Tar = append(d.Tar, dTar{strings.TrimSuffix(h.Name, "/"), e, content})
			}
			continue
		case m.name == "metadata.xml":
			x := &libeopkg.Metadata{}
			if err := xml.Unmarshal(m.data, x); err != nil {
				return d, err
			}
			d.Name, d.Dist, d.Arch, d.Rel = x.Package.Name, x.Package.DistributionRelease, x.Package.Architecture, x.Package.GetRelease()
		case m.name == "files.xml":
			x := xFiles{}
			if err := xml.Unmarshal(m.data, &x); err != nil {
				return d, err
			}
			for _, f := range x.File {
				d.Files = append(d.Files, dFile{strings.TrimSuffix(f.Path, "/"), f.Hash})
			}
		}
		d.Members = append(d.Members, dMember{m.name, short(m.data)})
	}
	return d, nil
}

type deltaLine struct {
	K      int      `json:"k"`
	Old    dDesc    `json:"old"`
	New    dDesc    `json:"new"`
	Fault  string   `json:"fault"`
	At     string   `json:"at"`
	Res    string   `json:"res"`
	Err    string   `json:"err"`
	Panic  string   `json:"panic"`
	Target bool     `json:"target"`
	Opens  bool     `json:"opens"`
	Delta  dDesc    `json:"delta"`
	Left   []string `json:"left"`
	Kept   bool     `json:"kept"`
}

func modeDelta(t *testing.T) {
	o := newOut(os.Getenv("VERIF_OUT"))
	defer o.close()
	k := -1
	eachLine(os.Getenv("VERIF_IN"), func(b []byte) {
		k++
		var p dPair
		must(json.Unmarshal(b, &p))
		dir := scratch()
		defer os.RemoveAll(dir)
		work, in := filepath.Join(dir, "work"), filepath.Join(dir, "in")
		must(os.MkdirAll(work, 0755))
		must(os.MkdirAll(in, 0755))
		must(os.MkdirAll(filepath.Join(dir, "stage"), 0755))
		old, new, target := filepath.Join(in, "old.eopkg"), filepath.Join(in, "new.eopkg"), filepath.Join(dir, "stage", "it.delta.eopkg")
		buildDeltaPackage(old, p.Old)
		buildDeltaPackage(new, p.New)
		read := func(f string) []byte {
			b, err := os.ReadFile(f)
			must(err)
			return b
		}
		ob, nb := read(old), read(new)
		var err error
		l := deltaLine{K: k}
		l.Old, err = describePackage(ob)
		must(err)
		l.New, err = describePackage(nb)
		must(err)
		times := 1
		if p.Twice && p.Fault == "" {
			times = 2
		}
		for ; times > 0; times-- {
			n, fault, at := 0, "", ""
			verifos.Wants = func(op string, args []string) bool { return true }
			verifos.Hook = func(q verifos.Point) error {
				n++
				if p.Fault == "" || q.Op == "remove" || q.Op == "removeall" {
					return nil
				}
				here := q.Phase + " " + q.Op
				if p.Fault == "link" || p.Fault == "failedlink" {
					if q.Op == "link" && q.Phase == verifos.Before {
						return &os.LinkError{Op: "link", Old: q.Args[0], New: q.Args[1], Err: syscall.EXDEV}
					}
					if p.Fault == "failedlink" && q.Op == "copy" && q.Phase == verifos.Middle && strings.HasPrefix(q.Args[0], filepath.Join(dir, "stage")) {
						fault, at = "copy", here
						return errInjected
					}
					return nil
				}
				if fault != "" || n <= p.At || (q.Phase == verifos.After && q.Op == "open") {
					return nil
				}
				if p.Fault == "full" {
					if q.Op == "create" && q.Phase == verifos.Before {
						fault, at = q.Op, here
						return verifos.ErrFull
					}
					return nil
				}
				fault, at = q.Op, here
				return errInjected
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						l.Panic = firstLine(fmt.Sprintf("%v %s", r, debug.Stack()))
					}
				}()
				err = core.ProduceDelta(work, old, new, target)
			}()
			verifos.Hook, verifos.Wants = nil, nil
			l.Fault, l.At, l.Err = fault, at, ""
			switch err {
			case nil:
				l.Res = "ok"
			case libeopkg.ErrDeltaPointless:
				l.Res = "pointless"
			case libeopkg.ErrMismatchedDelta:
				l.Res = "mismatch"
			default:
				l.Res = "error"
				l.Err = err.Error()
			}
			l.Target, l.Opens, l.Delta = exists(target), false, dDesc{Files: []dFile{}, Tar: []dTar{}, Members: []dMember{}}
			if l.Target {
				d, err := describePackage(read(target))
				l.Opens = err == nil
				l.Delta = d
				if err != nil {
					l.Err = err.Error()
				}
			}
			l.Kept = bytes.Equal(read(old), ob) && bytes.Equal(read(new), nb)
			l.Left = []string{}
			for _, d := range []string{dir, work, in, filepath.Join(dir, "stage")} {
				for _, f := range lsNames(d) {
					p := filepath.Join(d, f)
					if p != work && p != in && p != old && p != new && p != target && p != filepath.Dir(target) {
						l.Left = append(l.Left, f)
					}
				}
			}
			for _, e := range verifos.Escapes() {
				l.Left = append(l.Left, e)
			}
			o.put(l)
		}
	})
}
