// Command rewrite copies the non-test Go sources of a repository, replacing
// the references to time.Now, time.Since and time.Until by those of a virtual
// clock and sync.Mutex and sync.RWMutex by locks that can be scheduled, and writes the overlay file that makes the Go toolchain build the
// repository with the copies and with additional packages.
//
//	rewrite -repo DIR -out DIR -clock IMPORTPATH [-keep PREFIX,...] [-add DIR=SRC,...] -overlay FILE
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"log"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "directory for the copies")
	clock := flag.String("clock", "", "import path of the virtual clock (empty: no rewriting)")
	skip := flag.String("skip", "docs/,examples/,cmd/", "prefixes of paths that are left alone")
	add := flag.String("add", "", "additional directories: REL=SRC,...")
	overlay := flag.String("overlay", "", "overlay file to write")
	flag.Parse()

	replace := map[string]string{}
	if *clock != "" {
		err := filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(*repo, p)
			if fi.IsDir() {
				if strings.HasPrefix(fi.Name(), ".") && rel != "." || fi.Name() == "testdata" || fi.Name() == "vendor" {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			for _, s := range strings.Split(*skip, ",") {
				if s != "" && strings.HasPrefix(rel, s) {
					return nil
				}
			}
			b, changed, err := rewrite(p, *clock)
			if err != nil {
				return err
			}
			if !changed {
				return nil
			}
			q := filepath.Join(*out, strings.ReplaceAll(rel, "/", "__"))
			if err := os.WriteFile(q, b, 0o644); err != nil {
				return err
			}
			replace[p] = q
			return nil
		})
		if err != nil {
			log.Fatal(err)
		}
	}
	for _, a := range strings.Split(*add, ",") {
		if a == "" {
			continue
		}
		rel, src, _ := strings.Cut(a, "=")
		es, err := os.ReadDir(src)
		if err != nil {
			log.Fatal(err)
		}
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") {
				replace[filepath.Join(*repo, rel, e.Name())] = filepath.Join(src, e.Name())
			}
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(*overlay, b, 0o644); err != nil {
		log.Fatal(err)
	}
}

// A package some of whose names are taken from another one.
type subst struct {
	from, to, alias, keep string
	names                 map[string]bool
}

func rewrite(path, clock string) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, nil, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	imports, keeps := "", ""
	for _, u := range []subst{
		{"time", clock, "zzvtime", "Nanosecond", map[string]bool{"Now": true, "Since": true, "Until": true}},
		{"sync", strings.TrimSuffix(clock, "vtime") + "vsync", "zzvsync", "NewCond", map[string]bool{"Mutex": true, "RWMutex": true}},
	} {
		name := ""
		for _, i := range f.Imports {
			if p, _ := strconv.Unquote(i.Path.Value); p == u.from {
				name = u.from
				if i.Name != nil {
					name = i.Name.Name
				}
			}
		}
		if name == "" || name == "_" || name == "." {
			continue
		}
		changed := false
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if x, ok := s.X.(*ast.Ident); ok && x.Name == name && x.Obj == nil && u.names[s.Sel.Name] {
					x.Name = u.alias
					changed = true
				}
			}
			return true
		})
		if changed {
			imports += "\nimport " + u.alias + " " + strconv.Quote(u.to) + "\n"
			keeps += "\nvar _ = " + name + "." + u.keep + "\n"
		}
	}
	if imports == "" {
		return nil, false, nil
	}
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		return nil, false, err
	}
	// Insert the imports in front of the first one and keep the packages in use.
	src := b.String()
	i := strings.Index(src, "\nimport")
	return []byte(src[:i] + imports + src[i:] + keeps), true, nil
}
