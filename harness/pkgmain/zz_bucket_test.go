package main

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/libdb"
)

func init() {
	modes["bucket"] = modeBucket
}

type bUni struct {
	Paths map[string]struct {
		Seq   bool
		Names []string
	}
	Keys []struct {
		Hex      string
		Reserved bool
	}
}

type bOp struct {
	Op, P string
	K, V  int
	Subs  []bOp
	Fail  bool
	Crash bool
}

type bLine struct {
	Kind string          `json:"kind"`
	Run  int             `json:"run"`
	Op   json.RawMessage `json:"op"`
	Ok   bool            `json:"ok"`
	Err  string          `json:"err"`
	Res  []interface{}   `json:"res"`
	St   [][]interface{} `json:"st"`
}

// What is stored: value n is always the same
type bValue struct {
	N    int
	S    string
	B    []byte
	M    map[string]int
	L    []string
	T    time.Time
	Big  uint64
	Neg  int64
	Flag bool
}

func bMake(n int) bValue {
	v := bValue{N: n, S: fmt.Sprintf("value %d é\x00", n), Big: uint64(n) << 40, Neg: -int64(n), Flag: n%2 == 0, T: time.Unix(int64(n)*1000, 5).UTC()}
	for i := 0; i < n%5; i++ {
		v.L = append(v.L, fmt.Sprint(i))
		v.B = append(v.B, byte(i*n))
	}
	if n%3 == 0 {
		v.M = map[string]int{"x": n, "": 1}
	}
	if n == 20 {
		v.B = make([]byte, 100000)
		v.B[99999] = 1
	}
	return v
}

const garbled = 1000

func bNumber(v bValue) int {
	if v.N < 1 || v.N > 20 || !reflect.DeepEqual(v, bMake(v.N)) {
		return garbled
	}
	return v.N
}

type bRun struct {
	u    *bUni
	keys map[string]int
	dir  string
	n    int
	db   libdb.Database
}

func (r *bRun) path() string { return filepath.Join(r.dir, fmt.Sprintf("db%d", r.n)) }

func (r *bRun) bucket(db libdb.Database, p string) libdb.Database {
	for _, n := range r.u.Paths[p].Names {
		b, err := hex.DecodeString(n)
		must(err)
		db = db.Bucket(b)
	}
	return db
}

func (r *bRun) key(p string, k int) []byte {
	if r.u.Paths[p].Seq {
		b := make([]byte, 8)
		binary.BigEndian.PutUint64(b, uint64(k))
		return b
	}
	b, err := hex.DecodeString(r.u.Keys[k-1].Hex)
	must(err)
	return b
}

// number is the reverse; unknown keys are negative
func (r *bRun) number(p string, key []byte) int {
	if r.u.Paths[p].Seq {
		if len(key) != 8 || binary.BigEndian.Uint64(key) > 2100000000 {
			return -5
		}
		return int(binary.BigEndian.Uint64(key))
	}
	if n, ok := r.keys[string(key)]; ok {
		return n
	}
	return -6
}

func (r *bRun) each(p string, del bool) ([]interface{}, error) {
	b := r.bucket(r.db, p)
	ret := []interface{}{}
	err := b.ForEach(func(k, v []byte) error {
		o := bValue{}
		n := garbled
		if err := b.Decode(v, &o); err == nil {
			n = bNumber(o)
		}
		ret = append(ret, []int{r.number(p, k), n})
		if del {
			b.DeleteObject(append([]byte{}, k...))
		}
		return nil
	})
	return ret, err
}

var errWanted = errors.New("wanted")

func (r *bRun) one(db libdb.Database, o bOp) ([]interface{}, error) {
	b := r.bucket(db, o.P)
	if o.Op == "inner" {
		res := []interface{}{}
		err := b.Update(func(in libdb.Database) error {
			for _, s := range o.Subs {
				x, err := r.in(in, s)
				res = append(res, x...)
				if err != nil {
					return err
				}
			}
			if o.Fail {
				return errWanted
			}
			return nil
		})
		if err != nil {
			return append(res, 0), nil
		}
		return append(res, 1), nil
	}
	return r.in(b, o)
}

func (r *bRun) in(b libdb.Database, o bOp) ([]interface{}, error) {
	k := r.key(o.P, o.K)
	switch o.Op {
	case "put":
		return nil, b.PutObject(k, bMake(o.V))
	case "del":
		return nil, b.DeleteObject(k)
	case "get":
		v := bValue{}
		if err := b.GetObject(k, &v); err != nil {
			return []interface{}{-1}, nil
		}
		return []interface{}{bNumber(v)}, nil
	case "has":
		h, err := b.HasObject(k)
		if err != nil {
			return nil, err
		}
		if h {
			return []interface{}{1}, nil
		}
		return []interface{}{0}, nil
	}
	panic(o.Op)
}

func (r *bRun) do(o bOp) (res []interface{}, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("panic: %v", x)
		}
	}()
	switch o.Op {
	case "put", "del", "get", "has":
		return r.one(r.db, o)
	case "each", "eachdel":
		return r.each(o.P, o.Op == "eachdel")
	case "next", "append":
		b := r.bucket(r.db, o.P)
		k := append([]byte{}, b.NextSequence()...)
		res = []interface{}{r.number(o.P, k)}
		if o.Op == "append" {
			err = b.PutObject(k, bMake(o.V))
		}
		return res, err
	case "update":
		old := r.path()
		err = r.db.Update(func(db libdb.Database) error {
			for _, s := range o.Subs {
				x, err := r.one(db, s)
				res = append(res, x...)
				if err != nil {
					return err
				}
			}
			if o.Crash {
				r.n++
				copyStore(old, r.path())
			}
			if o.Fail || o.Crash {
				return errWanted
			}
			return nil
		})
		if r.path() != old {
			prev := r.db
			prev.Close()
			os.RemoveAll(old)
			var e error
			r.db, e = libdb.Open(r.path())
			must(e)
		}
		return res, err
	case "reopen":
		r.db.Close()
		r.db.Close()
		r.db, err = libdb.Open(r.path())
		return nil, err
	case "crash": // what is on disk is all that is left
		old := r.path()
		prev := r.db
		r.n++
		copyStore(old, r.path())
		prev.Close()
		os.RemoveAll(old)
		r.db, err = libdb.Open(r.path())
		return nil, err
	}
	panic(o.Op)
}

// copyStore copies a directory that others may be at work in: what comes of
// it was there at one instant
func copyStore(src, dst string) {
	listing := func() string {
		s := ""
		l, err := os.ReadDir(src)
		must(err)
		for _, e := range l {
			if st, err := e.Info(); err == nil {
				s += fmt.Sprintf("%s %d %d\n", e.Name(), st.Size(), st.ModTime().UnixNano())
			}
		}
		return s
	}
	for i := 0; ; i++ {
		before := listing()
		err := func() (err error) {
			defer func() {
				if x := recover(); x != nil {
					err = fmt.Errorf("%v", x)
				}
			}()
			copyTree(src, dst)
			return nil
		}()
		if err == nil && listing() == before {
			return
		}
		if i > 1000 {
			panic("the store does not come to rest")
		}
		must(os.RemoveAll(dst))
		time.Sleep(5 * time.Millisecond)
	}
}

func (r *bRun) observe() [][]interface{} {
	st := [][]interface{}{}
	for p := range r.u.Paths {
		l, err := r.each(p, false)
		if err != nil {
			st = append(st, []interface{}{p, -7, 0})
		}
		for _, x := range l {
			y := x.([]int)
			st = append(st, []interface{}{p, y[0], y[1]})
		}
	}
	return st
}

func modeBucket(t *testing.T) {
	u := &bUni{}
	readJSON(os.Getenv("VERIF_UNI"), u)
	keys := map[string]int{}
	for k := range u.Keys {
		b, err := hex.DecodeString(u.Keys[k].Hex)
		must(err)
		keys[string(b)] = k + 1
	}
	o := newOut(os.Getenv("VERIF_OUT"))
	defer o.close()
	eachLine(os.Getenv("VERIF_IN"), func(b []byte) {
		s := script{}
		must(json.Unmarshal(b, &s))
		r := &bRun{u: u, keys: keys, dir: scratch()}
		var err error
		r.db, err = libdb.Open(r.path())
		must(err)
		o.put(bLine{Kind: "init", Run: s.Run, Op: json.RawMessage("{}"), Ok: true, Res: []interface{}{}, St: r.observe()})
		for _, raw := range s.Ops {
			op := bOp{}
			must(json.Unmarshal(raw, &op))
			res, err := r.do(op)
			l := bLine{Kind: "step", Run: s.Run, Op: raw, Ok: err == nil, Res: res}
			if err != nil {
				l.Err = err.Error()
			}
			if l.Res == nil {
				l.Res = []interface{}{}
			}
			l.St = r.observe()
			o.put(l)
		}
		r.db.Close()
		os.RemoveAll(r.dir)
	})
}
