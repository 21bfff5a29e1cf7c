package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// The checks whose harness imports the packages fakenet and fakeos see the repository with these in
// place of net and os: the import declarations of its files are replaced, and nothing else, both for
// the executor and for the native replay.
var stands = map[string]string{"net": harnessPath + "/fakenet", "os": harnessPath + "/fakeos"}

// wantsShim tells if the harness of a property uses the stand-ins.
func wantsShim(harnessDir, prop string) bool {
	b, _ := os.ReadFile(filepath.Join(harnessDir, strings.ToLower(prop)+".go"))
	return bytes.Contains(b, []byte(strconv.Quote(stands["net"])))
}

// shim returns the sources of the repository that need to be replaced.
func shim(repo string) (map[string][]byte, error) {
	out := map[string][]byte{}
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() && p != repo && (strings.HasPrefix(fi.Name(), ".") || fi.Name() == "vendor" || fi.Name() == "testdata") {
			return filepath.SkipDir
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ImportsOnly)
		if err != nil || f.Name.Name == "main" {
			return nil // the build reports it
		}
		changed := false
		imports := f.Imports
		sort.Slice(imports, func(i, j int) bool { return imports[i].Pos() > imports[j].Pos() })
		for _, im := range imports {
			path, _ := strconv.Unquote(im.Path.Value)
			to, ok := stands[path]
			if !ok {
				continue
			}
			text := strconv.Quote(to)
			if im.Name == nil {
				text = path + " " + text
			}
			a, b := fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset
			src = append(append(append([]byte{}, src[:a]...), text...), src[b:]...)
			changed = true
		}
		if changed {
			out[p] = src
		}
		return nil
	})
	return out, err
}

// writeOverlay writes the sources into dir, and the overlay that puts them in place.
func writeOverlay(srcs map[string][]byte, dir, name string) (string, error) {
	if len(srcs) == 0 {
		return "", nil
	}
	replace := map[string]string{}
	n := 0
	for p, b := range srcs {
		n++
		replace[p] = filepath.Join(dir, fmt.Sprintf("%s%d.go", name, n))
		if err := os.WriteFile(replace[p], b, 0o644); err != nil {
			return "", err
		}
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	out := filepath.Join(dir, name+".json")
	return out, os.WriteFile(out, b, 0o644)
}
