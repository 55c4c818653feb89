package libdb

import (
	"sync"

	"github.com/getsolus/ferryd/src/verifos"
)

// The databases opened in this process, by path (builds made by /verif only)
var (
	verifMut  sync.Mutex
	verifOpen = map[string]Database{}
)

// VerifDB returns the database last opened at path, not subject to any hook
func VerifDB(path string) Database {
	verifMut.Lock()
	defer verifMut.Unlock()
	return verifOpen[path]
}

// Open opens a database whose operations report to the hooks
func Open(path string) (Database, error) {
	if verifos.Dead.Load() {
		return nil, verifos.ErrDead
	}
	d, err := verifRealOpen(path)
	if err != nil {
		return nil, err
	}
	verifMut.Lock()
	verifOpen[path] = d
	verifMut.Unlock()
	verifos.At(verifos.After, "db.open", path)
	return &verifDB{verifView{d, path}, d}, nil
}

type verifView struct {
	v    ReadOnlyView
	path string
}

func (v *verifView) GetObject(id []byte, o interface{}) error {
	if err := verifos.At(verifos.Before, "db.get", v.path, string(id)); err != nil {
		return err
	}
	return v.v.GetObject(id, o)
}

func (v *verifView) HasObject(id []byte) (bool, error) {
	if err := verifos.At(verifos.Before, "db.has", v.path, string(id)); err != nil {
		return false, err
	}
	return v.v.HasObject(id)
}

func (v *verifView) Decode(input []byte, o interface{}) error {
	return v.v.Decode(input, o)
}

func (v *verifView) ForEach(f DbForeachFunc) error {
	if err := verifos.At(verifos.Before, "db.foreach", v.path); err != nil {
		return err
	}
	return v.v.ForEach(f)
}

type verifDB struct {
	verifView
	d Database
}

func (v *verifDB) DeleteObject(id []byte) error {
	if err := verifos.At(verifos.Before, "db.delete", v.path, string(id)); err != nil {
		return err
	}
	if err := v.d.DeleteObject(id); err != nil {
		return err
	}
	return verifos.At(verifos.After, "db.delete", v.path, string(id))
}

func (v *verifDB) PutObject(id []byte, o interface{}) error {
	if err := verifos.At(verifos.Before, "db.put", v.path, string(id)); err != nil {
		return err
	}
	if err := v.d.PutObject(id, o); err != nil {
		return err
	}
	return verifos.At(verifos.After, "db.put", v.path, string(id))
}

func (v *verifDB) Bucket(id []byte) Database {
	b := v.d.Bucket(id)
	return &verifDB{verifView{b, v.path}, b}
}

func (v *verifDB) NextSequence() []byte {
	if err := verifos.At(verifos.Before, "db.next", v.path); err != nil {
		return nil
	}
	return v.d.NextSequence()
}

func (v *verifDB) View(f ReadOnlyFunc) error {
	if err := verifos.At(verifos.Before, "db.view", v.path); err != nil {
		return err
	}
	return v.d.View(func(r ReadOnlyView) error {
		return f(&verifView{r, v.path})
	})
}

func (v *verifDB) Update(f WriterFunc) error {
	if err := verifos.At(verifos.Before, "db.update", v.path); err != nil {
		return err
	}
	err := v.d.Update(func(d Database) error {
		if err := f(&verifDB{verifView{d, v.path}, d}); err != nil {
			return err
		}
		return verifos.At(verifos.Before, "db.commit", v.path)
	})
	if err != nil {
		return err
	}
	return verifos.At(verifos.After, "db.commit", v.path)
}

func (v *verifDB) Close() {
	verifos.At(verifos.Before, "db.close", v.path)
	v.d.Close()
	verifos.At(verifos.After, "db.close", v.path)
}
