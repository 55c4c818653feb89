PROPERTY = "C08"
NEEDS = "a pull that is refused because one package is newer in the target, while another one is newer in the source"
BREAKS = "a refused pull still brings in whatever else was newer"
PKG = "src/ferryd/core"
EDITS = [("src/ferryd/core/repo.go", '''	var copyIDs []string
	var changedNames []string
''', '''	var copyIDs []string
	var changedNames []string
	var inconsistent error
'''), ("src/ferryd/core/repo.go", '''			return fmt.Errorf("inconsistent target repository, %v is NEWER in target not SOURCE", localEntry.Name)
''', '''			inconsistent = fmt.Errorf("inconsistent target repository, %v is NEWER in target not SOURCE", localEntry.Name)
'''), ("src/ferryd/core/repo.go", '''			return nil, err
		}
	}

	return changedNames, nil
''', '''			return nil, err
		}
	}

	return changedNames, inconsistent
''')]
DEMO = {"demo.go": '''package core

import "testing"

func TestSeededDemo(t *testing.T) {
	m, base := demoFerry(t)
	demoMust(t, m.CreateRepo("main"))
	demoMust(t, m.CreateRepo("stable"))
	demoAdd(t, m, base, "main", demoPkg{Name: "nano", Release: 2}, demoPkg{Name: "zip", Release: 1})
	demoAdd(t, m, base, "stable", demoPkg{Name: "nano", Release: 1}, demoPkg{Name: "zip", Release: 2})
	if _, err := m.PullRepo("main", "stable"); err == nil {
		t.Fatal("pulled")
	}
	if e := demoEntry(t, m, "stable", "nano"); e == nil || len(e.Available) != 1 {
		t.Fatal("the refused pull brought in nano:", e)
	}
}
'''}
