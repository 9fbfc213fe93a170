package main

import (
	"encoding/json"
	"fmt"
	"go/scanner"
	"go/token"
	"path"
	"sort"
	"strconv"
	"strings"
)

var places14 = map[string][]string{}

// places are the literals of a file that tell its version, with the line the
// compiler takes them to be at.
func places(content string) []string {
	if l, ok := places14[content]; ok {
		return l
	}
	var l []string
	var s scanner.Scanner
	fset := token.NewFileSet()
	f := fset.AddFile("self.go", -1, len(content))
	s.Init(f, []byte(content), nil, scanner.ScanComments)
	for {
		pos, tok, lit := s.Scan()
		if tok == token.EOF {
			break
		}
		if tok == token.STRING && strings.HasPrefix(lit, `"L.`) {
			p := fset.Position(pos)
			l = append(l, fmt.Sprintf("%s@%s:%d", lit, path.Base(p.Filename), p.Line))
		}
	}
	if len(places14) > 4000 {
		places14 = map[string][]string{}
	}
	places14[content] = l
	return l
}

// moved tells of a literal that is reported at another line than it has.
func moved(got, plain, file string) string {
	g, w := places(got), places(plain)
	for i := range w {
		want := strings.Replace(w[i], "@self.go:", "@"+file+":", 1)
		if i < len(g) && g[i] != want && strings.Replace(g[i], "@self.go:", "@"+file+":", 1) != want {
			return fmt.Sprintf("%s is reported as %s", want, g[i])
		}
	}
	return ""
}

// uncovered tells why the cover tool cannot see the original of an
// instrumented file.
func uncovered(got, plain string) string {
	if strings.HasPrefix(got, "//line ") {
		got = got[strings.Index(got, "\n")+1:]
	}
	i := strings.LastIndex(got, "// __xgo_file: ")
	if i < 0 {
		return "it has no notes for coverage"
	}
	l := strings.Split(strings.TrimSuffix(got[i:], "\n"), "\n")
	got = got[:i]
	if len(l) != 3 || !strings.HasPrefix(l[1], "// __xgo_edits: ") || !strings.HasPrefix(l[2], "// __xgo_original: ") {
		return "its notes for coverage are not valid"
	}
	var edits []struct {
		Start, End int
		New        string
	}
	if err := json.Unmarshal([]byte(strings.TrimPrefix(l[1], "// __xgo_edits: ")), &edits); err != nil || len(edits) == 0 {
		return "its edits for coverage are not valid"
	}
	o, err := strconv.Unquote(strings.TrimPrefix(l[2], "// __xgo_original: "))
	if err != nil {
		return "its original for coverage is not valid"
	}
	if m := moved(o, plain, "self.go"); m != "" || len(places(o)) != len(places(plain)) {
		return "its original for coverage is not that: " + m
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].Start < edits[j].Start })
	r, at := "", 0
	for _, e := range edits {
		if e.Start < at || e.End < e.Start || e.End > len(o) {
			return "its edits for coverage overlap"
		}
		r += o[at:e.Start] + e.New
		at = e.End
	}
	r += o[at:]
	if strings.TrimSuffix(r, "\n") != strings.TrimSuffix(got, "\n") {
		return "it is not the original with the edits for coverage"
	}
	return ""
}
