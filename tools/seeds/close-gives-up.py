PROPERTY = "C20"
NEEDS = "the daemon being told to stop while a job is running that takes longer than ten more seconds"
BREAKS = "closing the processor stops waiting for the running job after a while, so the stores are closed and the lock is dropped under it"
PKG = "src/ferryd/jobs"
EDITS = [("src/ferryd/jobs/processor.go", '''	j.wg.Wait()
''', '''	// Nobody wants to wait forever on shutdown
	done := make(chan struct{})
	go func() {
		j.wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		log.Warning("Jobs still running on shutdown")
	}
'''), ("src/ferryd/jobs/processor.go", '''	"runtime"
	"sync"
''', '''	"runtime"
	"sync"
	"time"
''')]
DEMO = {"demo.go": '''package jobs

import (
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
)

func TestSeededDemo(t *testing.T) {
	dir := t.TempDir()
	m, err := core.NewManager(dir)
	if err != nil {
		t.Fatal(err)
	}
	defer m.Close()
	s, err := NewStore(dir)
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	if err := s.PushSequentialJob(NewTrimObsoleteJob("nothing")); err != nil {
		t.Fatal(err)
	}
	p := NewProcessor(m, s, 2)
	w := p.workers[0]
	started, finish := make(chan bool), make(chan bool)
	reaper := w.reaper
	w.reaper = func(j *JobEntry) error {
		close(started)
		<-finish
		return reaper(j)
	}
	p.Begin()
	<-started
	closed := make(chan bool)
	go func() {
		p.Close()
		close(closed)
	}()
	early := false
	select {
	case <-closed:
		early = true
	case <-time.After(25 * time.Second):
	}
	close(finish)
	<-closed
	time.Sleep(100 * time.Millisecond)
	if early {
		t.Fatal("closed while a job was running")
	}
}
'''}
