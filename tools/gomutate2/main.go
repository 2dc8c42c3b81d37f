// gomutate2 lists changes of one Go file that show only for long, large or rare arguments: each inserts a statement at
// the start of a function. Same JSON as gomutate.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

type mut struct {
	Off, End, Line int
	New, Old, Op   string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	big := ""
	for _, i := range f.Imports {
		if i.Path.Value == `"math/big"` {
			big = "big"
		}
	}
	text := func(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }
	var out []mut
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		at := fs.Position(fd.Body.Lbrace).Offset + 1
		add := func(s, op string) {
			out = append(out, mut{at, at, fs.Position(fd.Body.Lbrace).Line, "\n" + s + "\n", fd.Name.Name, op})
		}
		for _, p := range fd.Type.Params.List {
			for _, n := range p.Names {
				v := n.Name
				if v == "_" {
					continue
				}
				t := text(p.Type)
				switch x := p.Type.(type) {
				case *ast.Ellipsis:
					t = "[]" + text(x.Elt)
				}
				isSlice := len(t) > 2 && t[:2] == "[]"
				if isSlice || t == "string" {
					for _, k := range []int{80, 255, 4095, 65535} {
						add(fmt.Sprintf("if len(%s) > %d { %s = %s[:%d] }", v, k, v, v, k), "long")
					}
				}
				if t == "[]byte" {
					add(fmt.Sprintf("if len(%s) > 1 && %s[0] == 0xff && %s[1] == 0xff { %s = append([]byte{0xff, 0xfe}, %s[2:]...) }", v, v, v, v, v), "ffff")
					add(fmt.Sprintf("if len(%s) > 1 && %s[len(%s)-1] == 0 && %s[len(%s)-2] == 0 { %s = %s[:len(%s)-1] }", v, v, v, v, v, v, v, v), "tail0")
					add(fmt.Sprintf("if len(%s) > 2 && %s[0] == 0 && %s[1] == 0 { %s = %s[1:] }", v, v, v, v, v), "lead0")
				}
				if isSlice && t != "[]byte" {
					add(fmt.Sprintf("if len(%s) == 17 { %s = %s[:16] }", v, v, v), "len17")
				}
				switch t {
				case "int", "uint32", "uint64", "int64", "int32", "uint", "float64":
					add(fmt.Sprintf("if %s == 65536 { %s-- }", v, v), "n65536")
					add(fmt.Sprintf("if %s == 256 { %s-- }", v, v), "n256")
					add(fmt.Sprintf("if %s > 1<<20 && %s < 1<<30 { %s-- }", v, v, v), "mid")
					if t == "uint32" || t == "uint64" || t == "int64" {
						add(fmt.Sprintf("if %s == 1<<31 { %s-- }", v, v), "n31")
					}
					if t == "uint64" || t == "int64" {
						add(fmt.Sprintf("if %s == 1<<32 { %s-- }", v, v), "n32")
						add(fmt.Sprintf("if %s > 1<<40 && %s < 1<<50 { %s-- }", v, v, v), "mid40")
					}
				case "byte", "uint8":
					add(fmt.Sprintf("if %s == 0xfe { %s-- }", v, v), "fe")
				case "*big.Int":
					if big != "" {
						add(fmt.Sprintf("if %s != nil && %s.BitLen() > 64 && %s.BitLen() < 128 { %s = new(big.Int).Add(%s, big.NewInt(1)) }", v, v, v, v, v), "midbig")
						add(fmt.Sprintf("if %s != nil && %s.BitLen() > 200 && new(big.Int).Rsh(%s, 128).TrailingZeroBits() > 8 { %s = new(big.Int).Add(%s, big.NewInt(1)) }", v, v, v, v, v), "holes")
					}
				}
			}
		}
	}
	_ = token.NoPos
	json.NewEncoder(os.Stdout).Encode(out)
}
