package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/verifos"
)

func init() {
	modes["meta"] = modeMeta
}

type metaIndex struct {
	Repo   string            `json:"repo"`
	File   string            `json:"file"`
	Assets map[string]string `json:"assets"`
}

type metaLine struct {
	Op      int         `json:"op"`
	Ok      bool        `json:"ok"`
	Err     string      `json:"err"`
	Indexes []metaIndex `json:"indexes"`
}

// Keeps each index that comes to be, for others to read
func modeMeta(t *testing.T) {
	u := loadUniverse(os.Getenv("VERIF_UNI"))
	o := newOut(os.Getenv("VERIF_OUT"))
	defer o.close()
	keep := scratch()
	n := 0
	eachLine(os.Getenv("VERIF_IN"), func(b []byte) {
		s := script{}
		must(json.Unmarshal(b, &s))
		i := newInstance(u)
		defer i.remove()
		must(i.open())
		verifos.Hook = nil
		if s.Link != "" {
			verifos.Hook = linkHook(s.Link)
		}
		seen := map[string]string{}
		for k, raw := range s.Ops {
			x := parseOp(raw)
			l := metaLine{Op: k, Indexes: []metaIndex{}}
			var err error
			if j := i.prepare(x); j != nil {
				var crash string
				if err, crash = i.execute(x, j); crash != "" {
					err = fmt.Errorf("%v %s", err, firstLine(crash))
				}
			} else {
				err = i.direct(x)
			}
			l.Ok = err == nil
			if err != nil {
				l.Err = err.Error()
			}
			repos := filepath.Join(i.base, core.RepoPathComponent)
			for _, r := range lsNames(repos) {
				p := filepath.Join(repos, r, "eopkg-index.xml")
				st, err := os.Stat(p)
				if err != nil {
					continue
				}
				ino, _ := inode(st)
				id := fmt.Sprint(ino, " ", st.ModTime().UnixNano())
				if seen[r] == id {
					continue
				}
				seen[r] = id
				b, err := os.ReadFile(p)
				must(err)
				n++
				f := filepath.Join(keep, fmt.Sprintf("%d.xml", n))
				must(os.WriteFile(f, b, 0644))
				m := metaIndex{Repo: r, File: f, Assets: map[string]string{}}
				assets := filepath.Join(i.base, core.AssetPathComponent, r)
				for name, kind := range map[string]string{"distribution.xml": "dist", "components.xml": "comps", "groups.xml": "groups"} {
					if b, err := os.ReadFile(filepath.Join(assets, name)); err == nil {
						m.Assets[name] = u.tokens["asset:"+hexsha1(b)+kind]
					}
				}
				l.Indexes = append(l.Indexes, m)
			}
			o.put(l)
		}
		verifos.Hook = nil
	})
}
