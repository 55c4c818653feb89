PROPERTY = "C15"
NEEDS = "a failure recorded after exactly a hundred of them, or a restart of the count by a reset"
BREAKS = "the history of failures keeps a hundred and one outcomes"
PKG = "src/ferryd/jobs"
EDITS = [("src/ferryd/jobs/store.go", '''	if record.Index >= MaxJobsStored {
		record.Index = 0
	}
''', '''	limit := uint64(MaxJobsStored)
	if j.failure != nil {
		limit++
	}
	if record.Index >= limit {
		record.Index = 0
	}
''')]
DEMO = {"demo.go": '''package jobs

import (
	"errors"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	s, err := NewStore(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	for i := 0; i < 105; i++ {
		if err := s.PushSequentialJob(NewIndexRepoJob("r")); err != nil {
			t.Fatal(err)
		}
		j, err := s.ClaimSequentialJob()
		if err != nil {
			t.Fatal(err)
		}
		j.failure = errors.New("failed")
		if err := s.RetireSequentialJob(j); err != nil {
			t.Fatal(err)
		}
	}
	l, err := s.FailedJobs()
	if err != nil || len(l) != 100 {
		t.Fatalf("%d failures are listed, %v", len(l), err)
	}
}
'''}
