PROPERTY = "C13"
NEEDS = "two workers claiming at the same time: the second one scans before the first has marked its job"
BREAKS = "the queue is scanned for an unclaimed job before the lock is taken, so two workers can both be given the same job"
PKG = "src/ferryd/jobs"
EDITS = [("src/ferryd/jobs/store.go", '''	s.modMut.Lock()
	defer s.modMut.Unlock()

	var job *JobEntry

	err := s.db.Update(func(db libdb.Database) error {
		bucket := db.Bucket(bucketID)

		// Attempt to find relevant job, break when we have it + id
		err := bucket.ForEach(func(id, value []byte) error {''', '''	var job *JobEntry

	// Attempt to find relevant job, break when we have it + id
	err := s.db.View(func(db libdb.ReadOnlyView) error {
		bucket := s.db.Bucket(bucketID)
		return bucket.ForEach(func(id, value []byte) error {'''), ("src/ferryd/jobs/store.go", '''			return nil
		})

		if err != ErrBreakLoop {
			return err
		}

		// Serialise the new guy
		return bucket.PutObject(job.id, job)
	})
''', '''			return nil
		})
	})
	if err == ErrBreakLoop {
		// Serialise the new guy
		s.modMut.Lock()
		defer s.modMut.Unlock()
		err = s.db.Update(func(db libdb.Database) error {
			return db.Bucket(bucketID).PutObject(job.id, job)
		})
	}
''')]
DEMO = {"demo.go": '''package jobs

import (
	"sync"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	for round := 0; round < 20; round++ {
		s, err := NewStore(t.TempDir())
		if err != nil {
			t.Fatal(err)
		}
		const n = 100
		for i := 0; i < n; i++ {
			if err := s.PushAsyncJob(NewIndexRepoJob("r")); err != nil {
				t.Fatal(err)
			}
		}
		var mu sync.Mutex
		seen := map[string]int{}
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					j, err := s.ClaimAsyncJob()
					if err != nil {
						return
					}
					mu.Lock()
					seen[j.GetID()]++
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		s.Close()
		for id, c := range seen {
			if c != 1 {
				t.Fatalf("job %s was claimed %d times", id, c)
			}
		}
	}
}
'''}
