PROPERTY = "C13"
NEEDS = "a queue that does not run empty for 257 jobs"
BREAKS = "sequence numbers are stored with their bytes the other way round, so job 256 sorts before job 1"
PKG = "src/ferryd/jobs"
EDITS = [("src/libdb/leveldb.go", "retKey = binary.BigEndian.Uint64(newKey) + 1", "retKey = binary.LittleEndian.Uint64(newKey) + 1"),
         ("src/libdb/leveldb.go", "binary.BigEndian.PutUint64(byt, retKey)", "binary.LittleEndian.PutUint64(byt, retKey)")]
DEMO = {"demo.go": '''package jobs

import (
	"fmt"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	s, err := NewStore(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	for i := 0; i < 300; i++ {
		if err := s.PushSequentialJob(NewIndexRepoJob(fmt.Sprint(i))); err != nil {
			t.Fatal(err)
		}
	}
	for i := 0; i < 300; i++ {
		j, err := s.ClaimSequentialJob()
		if err != nil || j.Params[0] != fmt.Sprint(i) {
			t.Fatalf("job %d: %v %v", i, j, err)
		}
	}
}
'''}
