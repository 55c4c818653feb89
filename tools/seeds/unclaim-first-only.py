PROPERTY = "C14"
NEEDS = "two or more jobs of a queue being worked on when the daemon goes down"
BREAKS = "only the first claimed job of each queue is made available again at the start, the others stay claimed for ever"
PKG = "src/ferryd/jobs"
EDITS = [("src/ferryd/jobs/store.go", '''	return s.db.Update(func(db libdb.Database) error {
		bucket := db.Bucket(bucketID)

		// Loop all claimed jobs, unclaim them
		return bucket.ForEach(func(id, value []byte) error {''', '''	return s.db.Update(func(db libdb.Database) error {
		bucket := db.Bucket(bucketID)

		// Loop all claimed jobs, unclaim them
		err := bucket.ForEach(func(id, value []byte) error {'''), ("src/ferryd/jobs/store.go", '''			j.Claimed = false

			return bucket.PutObject(id, j)
		})
	})''', '''			j.Claimed = false

			if err := bucket.PutObject(id, j); err != nil {
				return err
			}
			return ErrBreakLoop
		})
		if err == ErrBreakLoop {
			return nil
		}
		return err
	})''')]
DEMO = {"demo.go": '''package jobs

import "testing"

func TestSeededDemo(t *testing.T) {
	dir := t.TempDir()
	s, err := NewStore(dir)
	if err != nil {
		t.Fatal(err)
	}
	for _, r := range []string{"a", "b", "c"} {
		if err := s.PushAsyncJob(NewIndexRepoJob(r)); err != nil {
			t.Fatal(err)
		}
	}
	for i := 0; i < 2; i++ {
		if _, err := s.ClaimAsyncJob(); err != nil {
			t.Fatal(err)
		}
	}
	s.Close()
	if s, err = NewStore(dir); err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	for _, r := range []string{"a", "b", "c"} {
		j, err := s.ClaimAsyncJob()
		if err != nil || j.Params[0] != r {
			t.Fatalf("wanted %s, got %v %v", r, j, err)
		}
	}
}
'''}
