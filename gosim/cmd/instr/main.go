// instr inserts a yield point before every statement of the functions of
// generated Go files.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
)

func main() {
	call := flag.String("call", "", "statement to insert instead of the numbered yield point")
	imp := flag.String("import", `"pgvsim/simrt"`, "")
	keep := flag.String("keep", "simrt.Y", "")
	flag.Parse()
	n := 0
	for _, f := range flag.Args() {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		var at []int
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.CaseClause); ok {
					continue
				}
				if _, ok := s.(*ast.CommClause); ok {
					continue
				}
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
		ast.Inspect(af, func(x ast.Node) bool {
			switch b := x.(type) {
			case *ast.BlockStmt:
				list(b.List)
			case *ast.CaseClause:
				list(b.Body)
			case *ast.CommClause:
				list(b.Body)
			}
			return true
		})
		sort.Ints(at)
		var out bytes.Buffer
		prev := 0
		h := fnv.New32a()
		h.Write([]byte(filepath.Base(f)))
		base := int(h.Sum32()) & 0x7fff
		for i, o := range at {
			if i > 0 && at[i-1] == o {
				continue
			}
			out.Write(src[prev:o])
			if *call != "" {
				out.WriteString(*call + "; ")
			} else {
				fmt.Fprintf(&out, "simrt.Y(%d); ", 100+((base+n)&0xffff))
			}
			n++
			prev = o
		}
		out.Write(src[prev:])
		res := out.Bytes()
		end := fset.Position(af.Name.End()).Offset
		res = append(append(append([]byte{}, res[:end]...), []byte("\n\nimport "+*imp+"\n")...), res[end:]...)
		res = append(res, []byte("\nvar _ = "+*keep+"\n")...)
		if err := os.WriteFile(f, res, 0o644); err != nil {
			panic(err)
		}
	}
	fmt.Println(n)
}
