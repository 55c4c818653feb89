PROPERTY = "C21"
NEEDS = "text with U+FFFD-like or invalid bytes right before a character beyond ASCII, or a symbol of three bytes and more"
BREAKS = "characters beyond the basic plane pass through unescaped"
PKG = "src/ferryd/core"
EDITS = [("src/ferryd/core/escape.go", '''	return r > unicode.MaxASCII && unicode.In(r, unicode.Symbol, unicode.C, unicode.Space)
''', '''	return r > unicode.MaxASCII && r <= 0x1FFFF && unicode.In(r, unicode.Symbol, unicode.C, unicode.Space)
''')]
NEEDS = "text with a private use or tag character from beyond the first two planes"
BREAKS = "control characters beyond the second plane pass through unescaped"
DEMO = {"demo.go": '''package core

import (
	"bytes"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	b := &bytes.Buffer{}
	NewEscapedWriter(b).Write([]byte("a\\U000E0041b"))
	if b.String() != "a&#xE0041;b" {
		t.Fatal(b.String())
	}
}
'''}
COMMON = False
