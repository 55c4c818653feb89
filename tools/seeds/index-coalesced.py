PROPERTY = "C23"
NEEDS = "a request to index a repository while an earlier one for the same repository is still queued or running"
BREAKS = "a request to index is answered as accepted but no job is made of it if one with the same description is already listed"
PKG = "src/ferryd"
EDITS = [("src/ferryd/handlers.go", '''	}).Info("Repository indexing requested")
''', '''	}).Info("Repository indexing requested")
	// Once is enough
	active, err := s.store.ActiveJobs()
	if err != nil {
		http.Error(w, err.Error(), http.StatusInternalServerError)
		return
	}
	for _, job := range active {
		if job.Description == fmt.Sprintf("Index repository '%s'", id) {
			return
		}
	}
'''), ("src/ferryd/handlers.go", '''	"encoding/json"
''', '''	"encoding/json"
	"fmt"
''')]
DEMO = {"demo.go": '''package main

import (
	"net/http/httptest"
	"testing"

	"github.com/julienschmidt/httprouter"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
)

func TestSeededDemo(t *testing.T) {
	dir := t.TempDir()
	m, err := core.NewManager(dir)
	if err != nil {
		t.Fatal(err)
	}
	defer m.Close()
	st, err := jobs.NewStore(dir)
	if err != nil {
		t.Fatal(err)
	}
	defer st.Close()
	s := &Server{manager: m, store: st, jproc: jobs.NewProcessor(m, st, 2)}
	for n := 0; n < 2; n++ {
		w := httptest.NewRecorder()
		s.IndexRepo(w, httptest.NewRequest("GET", "/api/v1/index/repo/main", nil), httprouter.Params{{Key: "id", Value: "main"}})
		if w.Code != 200 {
			t.Fatal("refused", w.Code)
		}
	}
	l, err := st.ActiveJobs()
	if err != nil {
		t.Fatal(err)
	}
	if len(l) != 2 {
		t.Fatalf("%d jobs for two requests", len(l))
	}
}
'''}
