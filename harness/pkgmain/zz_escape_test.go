package main

import (
	"bytes"
	"encoding/json"
	"math/rand"
	"os"
	"testing"

	"github.com/getsolus/ferryd/src/ferryd/core"
)

func init() {
	modes["escape"] = modeEscape
}

type escLine struct {
	B    []int   `json:"b"`
	Esc  []int   `json:"esc"`
	Outs [][]int `json:"outs"`
	Took bool    `json:"took"` // each write said that it took everything
	N    int     `json:"n"`
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, c := range b {
		r[i] = int(c)
	}
	return r
}

// modeEscape writes each text in one write and in many
func modeEscape(t *testing.T) {
	o := newOut(os.Getenv("VERIF_OUT"))
	defer o.close()
	rng := rand.New(rand.NewSource(1))
	eachLine(os.Getenv("VERIF_IN"), func(line []byte) {
		l := escLine{}
		must(json.Unmarshal(line, &l))
		all := make([]byte, len(l.B))
		for i, c := range l.B {
			all[i] = byte(c)
		}
		l.Took = true
		seen := map[string]bool{}
		// cuts: where a write ends
		run := func(cut func(i int) bool) {
			l.N++
			w := &bytes.Buffer{}
			e := core.NewEscapedWriter(w)
			var buf []byte
			write := func() {
				n, err := e.Write(buf)
				l.Took = l.Took && err == nil && n == len(buf)
				// The buffer is the caller's again
				for i := range buf {
					buf[i] = 'X'
				}
				buf = buf[:0]
			}
			for i, c := range all {
				buf = append(buf, c)
				if cut(i) {
					write()
					if i%5 == 2 {
						write()
					}
				}
			}
			write()
			if s := w.String(); !seen[s] {
				seen[s] = true
				l.Outs = append(l.Outs, ints([]byte(s)))
			}
		}
		if n := len(all); n <= 6 {
			for m := 0; m < 1<<uint(max(n-1, 0)); m++ {
				run(func(i int) bool { return m>>uint(i)&1 == 1 })
			}
		} else {
			run(func(i int) bool { return false })
			run(func(i int) bool { return true })
			for k := 2; k < 6; k++ {
				run(func(i int) bool { return i%k == 0 })
			}
			for k := 0; k < 6; k++ {
				run(func(i int) bool { return rng.Intn(k+2) == 0 })
			}
		}
		o.put(l)
	})
}
