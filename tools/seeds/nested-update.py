PROPERTY = "C19"
NEEDS = "an update within an update that reports an error which its caller copes with"
BREAKS = "the inner update joins the outer one, so what it wrote before it failed is applied"
PKG = "src/libdb"
EDITS = [("src/libdb/leveldb.go", '''func (l *levelDbHandle) Update(f WriterFunc) error {
''', '''func (l *levelDbHandle) Update(f WriterFunc) error {
	// Already within an update, which will take care of writing
	if l.batch != nil {
		return f(l)
	}

''')]
DEMO = {"demo.go": '''package libdb

import (
	"errors"
	"path/filepath"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	d, err := Open(filepath.Join(t.TempDir(), "db"))
	if err != nil {
		t.Fatal(err)
	}
	defer d.Close()
	err = d.Update(func(db Database) error {
		if db.Update(func(db Database) error {
			if err := db.PutObject([]byte("inner"), "x"); err != nil {
				return err
			}
			return errors.New("no")
		}) == nil {
			t.Fatal("no error")
		}
		return db.PutObject([]byte("outer"), "x")
	})
	if err != nil {
		t.Fatal(err)
	}
	var s string
	if err := d.GetObject([]byte("outer"), &s); err != nil {
		t.Fatal(err)
	}
	if err := d.GetObject([]byte("inner"), &s); err == nil {
		t.Fatal("a failed update was applied")
	}
}
'''}
