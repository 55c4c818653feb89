PROPERTY = "C14"
NEEDS = "the daemon being stopped while a job is running, or right after it ended"
BREAKS = "a worker leaves recording the outcome to a goroutine that a normal stop does not wait for, so the finished job may be executed again"
PKG = "src/ferryd/jobs"
EDITS = [("src/ferryd/jobs/worker.go", '''			// Mark the job as dealt with
			err = w.reaper(job)

			// Report failure in retiring the job
			if err != nil {
				log.WithFields(log.Fields{
					"error": err,
					"id":    job.GetID(),
					"type":  job.Type,
					"async": !w.sequential,
				}).Error("Error in retiring job")
			}
''', '''			// Mark the job as dealt with
			go w.retire(job)
'''), ("src/ferryd/jobs/worker.go", '''// setTime will update''', '''// retire reports failure in retiring the job
func (w *Worker) retire(job *JobEntry) {
	if err := w.reaper(job); err != nil {
		log.WithFields(log.Fields{
			"error": err,
			"id":    job.GetID(),
			"type":  job.Type,
			"async": !w.sequential,
		}).Error("Error in retiring job")
	}
}

// setTime will update''')]
DEMO = {"demo.go": '''package jobs

import (
	"sync"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
)

func TestSeededDemo(t *testing.T) {
	dir := t.TempDir()
	m, err := core.NewManager(dir)
	if err != nil {
		t.Fatal(err)
	}
	defer m.Close()
	s, err := NewStore(dir)
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	if err := s.PushSequentialJob(NewTrimObsoleteJob("nothing")); err != nil {
		t.Fatal(err)
	}
	p := NewProcessor(m, s, 2)
	// Recording the outcome takes a while
	w := p.workers[0]
	var mu sync.Mutex
	recorded := false
	reaper := w.reaper
	w.reaper = func(j *JobEntry) error {
		time.Sleep(500 * time.Millisecond)
		mu.Lock()
		defer mu.Unlock()
		recorded = true
		return reaper(j)
	}
	p.Begin()
	for i := 0; i < 100; i++ {
		time.Sleep(100 * time.Millisecond)
		l, err := s.ActiveJobs()
		if err != nil {
			t.Fatal(err)
		}
		if len(l) == 0 || !l[0].Timing.Begin.IsZero() {
			break
		}
	}
	p.Close()
	mu.Lock()
	defer mu.Unlock()
	if !recorded {
		t.Fatal("the processor was closed before the outcome of its job was recorded")
	}
}
'''}
