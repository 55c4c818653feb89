PROPERTY = "C03"
NEEDS = "the published package being removed while both a release below ten and one of ten or more remain"
BREAKS = "the package that takes over is the last by name rather than the one with the highest release (9 sorts after 10)"
PKG = "src/ferryd/core"
EDITS = [("src/ferryd/core/repo.go", '''		newHighest = curRel
			newHighestID = id
		}
		remainAvailable = append(remainAvailable, id)
	}

	entry.Available = remainAvailable
	sort.Strings(entry.Available)
	// Assign the new Published link
	entry.Published = newHighestID
''', '''		newHighest = curRel
		}
		remainAvailable = append(remainAvailable, id)
	}

	entry.Available = remainAvailable
	sort.Strings(entry.Available)
	// Assign the new Published link
	if n := len(entry.Available); n > 0 {
		newHighestID = entry.Available[n-1]
	}
	entry.Published = newHighestID
''')]
EDITS[0] = (EDITS[0][0], "	" + EDITS[0][1].replace("		newHighest = curRel\n", "		newHighest = curRel\n", 1), "	" + EDITS[0][2])
DEMO = {"demo.go": '''package core

import "testing"

func TestSeededDemo(t *testing.T) {
	m, base := demoFerry(t)
	demoMust(t, m.CreateRepo("main"))
	nine, ten, eleven := demoPkg{Name: "nano", Release: 9}, demoPkg{Name: "nano", Release: 10}, demoPkg{Name: "nano", Release: 11}
	demoAdd(t, m, base, "main", nine, ten, eleven)
	demoMust(t, m.RemoveSource("main", "nano", 11))
	if e := demoEntry(t, m, "main", "nano"); e == nil || e.Published != ten.id() {
		t.Fatal("published:", e)
	}
}
'''}
