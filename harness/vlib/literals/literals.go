// Package literals collects the literals of the Go code in a directory tree.
package literals

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Limits that are commonly named instead of written.
var named = map[string]int64{
	"math.MaxInt8": math.MaxInt8, "math.MinInt8": math.MinInt8, "math.MaxUint8": math.MaxUint8,
	"math.MaxInt16": math.MaxInt16, "math.MinInt16": math.MinInt16, "math.MaxUint16": math.MaxUint16,
	"math.MaxInt32": math.MaxInt32, "math.MinInt32": math.MinInt32, "math.MaxUint32": math.MaxUint32,
	"math.MaxInt64": math.MaxInt64, "math.MinInt64": math.MinInt64, "math.MaxInt": math.MaxInt64, "math.MinInt": math.MinInt64,
	"utf8.RuneSelf": utf8.RuneSelf, "utf8.MaxRune": utf8.MaxRune, "bufio.MaxScanTokenSize": 65536,
	"time.Microsecond": 1e3, "time.Millisecond": 1e6, "time.Second": 1e9, "time.Minute": 60e9, "time.Hour": 3600e9,
}

// Collect counts the literals below a directory by package directory, kind and
// value, in the form "count dir kind value". Test files are left out.
func Collect(root string) (map[string]int, error) {
	out := map[string]int{}
	err := filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			if n := info.Name(); path != root && (strings.HasPrefix(n, ".") || n == "testdata" || n == "vendor" || n == "node_modules") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") || !info.Mode().IsRegular() {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil // The build tells.
		}
		dir, err := filepath.Rel(root, filepath.Dir(path))
		if err != nil {
			return err
		}
		add := func(kind, value string) { out[fmt.Sprintf("%s %s %s", strconv.Quote(dir), kind, value)]++ }
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BasicLit:
				switch v := constant.MakeFromLiteral(n.Value, n.Kind, 0); {
				case n.Kind == token.INT:
					if i, exact := constant.Int64Val(v); exact {
						add("int", strconv.FormatInt(i, 10))
					}
				case n.Kind == token.CHAR:
					if i, exact := constant.Int64Val(v); exact {
						add("string", strconv.Quote(string(rune(i))))
						add("int", strconv.FormatInt(i, 10))
					}
				case n.Kind == token.FLOAT:
					x, _ := constant.Float64Val(v)
					add("float", strconv.FormatFloat(x, 'g', -1, 64))
				case n.Kind == token.STRING:
					if s := constant.StringVal(v); len(s) <= 64 {
						add("string", strconv.Quote(s))
					}
				}
			case *ast.BinaryExpr:
				if v := eval(n); v != nil && v.Kind() == constant.Int {
					if i, exact := constant.Int64Val(v); exact {
						add("int", strconv.FormatInt(i, 10))
					}
				}
			case *ast.SelectorExpr:
				if x, ok := n.X.(*ast.Ident); ok {
					if i, found := named[x.Name+"."+n.Sel.Name]; found {
						add("int", strconv.FormatInt(i, 10))
					}
				}
			}
			return true
		})
		return nil
	})
	return out, err
}

// eval gives the value of an expression of literals.
func eval(e ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch e := e.(type) {
	case *ast.ParenExpr:
		return eval(e.X)
	case *ast.BasicLit:
		if e.Kind == token.INT {
			return constant.MakeFromLiteral(e.Value, e.Kind, 0)
		}
	case *ast.BinaryExpr:
		x, y := eval(e.X), eval(e.Y)
		if x == nil || y == nil {
			return nil
		}
		switch e.Op {
		case token.SHL:
			if s, exact := constant.Uint64Val(y); exact && s < 64 {
				return constant.Shift(x, e.Op, uint(s))
			}
		case token.ADD, token.SUB, token.MUL:
			return constant.BinaryOp(x, e.Op, y)
		}
	}
	return nil
}

// Write gives the counts as text.
func Write(m map[string]int) string {
	var lines []string
	for k, n := range m {
		lines = append(lines, fmt.Sprintf("%d %s\n", n, k))
	}
	sort.Strings(lines)
	return strings.Join(lines, "")
}

// Read reads what Write gave.
func Read(text string) map[string]int {
	m := map[string]int{}
	for _, l := range strings.Split(text, "\n") {
		if i := strings.IndexByte(l, ' '); i > 0 {
			n, _ := strconv.Atoi(l[:i])
			m[l[i+1:]] = n
		}
	}
	return m
}
