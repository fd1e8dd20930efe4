// srccmp compares sources with what a plugin build made of them. It reads one
// JSON object per line and writes one line per object: "" or what is wrong.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/scanner"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type job struct {
	Src, Dst string
	Root     bool
	Old, New string
}

type tok struct {
	off int
	tok token.Token
	lit string
}

func tokens(data []byte) ([]tok, error) {
	fset := token.NewFileSet()
	f := fset.AddFile("x", -1, len(data))
	var s scanner.Scanner
	var first error
	s.Init(f, data, func(pos token.Position, msg string) {
		if first == nil {
			first = fmt.Errorf("%d: %s", pos.Offset, msg)
		}
	}, scanner.ScanComments)
	var res []tok
	for {
		p, t, l := s.Scan()
		if t == token.EOF {
			return res, first
		}
		res = append(res, tok{f.Offset(p), t, l})
	}
}

func compare(j job) string {
	a, err := os.ReadFile(j.Src)
	if err != nil {
		return err.Error()
	}
	b, err := os.ReadFile(j.Dst)
	if err != nil {
		return err.Error()
	}
	ta, err := tokens(a)
	if err != nil {
		return "" // not Go: nothing is said about it
	}
	tb, err := tokens(b)
	if err != nil {
		return "does not scan any more: " + err.Error()
	}
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, "x", a, parser.ImportsOnly)
	if err != nil {
		return ""
	}
	imports := map[int]bool{}
	tf := fset.File(file.Package)
	last := tf.Offset(file.Name.End())
	for _, s := range file.Imports {
		imports[tf.Offset(s.Path.Pos())] = true
		last = tf.Offset(s.Path.End())
	}
	name := tf.Offset(file.Name.Pos())
	if len(ta) != len(tb) {
		n := min(len(ta), len(tb))
		for i := 0; i < n; i++ {
			if ta[i].tok != tb[i].tok {
				return fmt.Sprintf("token %d: %s %.80q became %s %.80q", i, ta[i].tok, ta[i].lit, tb[i].tok, tb[i].lit)
			}
		}
		return fmt.Sprintf("%d tokens became %d", len(ta), len(tb))
	}
	end := -1 // where the rest begins in b
	for i, x := range ta {
		y := tb[i]
		want := x.lit
		if x.tok != y.tok {
			return fmt.Sprintf("token %d: %s %.80q became %s %.80q", i, x.tok, x.lit, y.tok, y.lit)
		}
		switch {
		case x.off == name:
			if j.Root {
				want = "main"
			}
			if y.lit != want {
				return fmt.Sprintf("package %s became package %s", x.lit, y.lit)
			}
		case imports[x.off]:
			p, _ := strconv.Unquote(x.lit)
			q, err := strconv.Unquote(y.lit)
			w := p
			if p == j.Old || strings.HasPrefix(p, j.Old+"/") {
				w = j.New + p[len(j.Old):]
			}
			if err != nil || q != w {
				return fmt.Sprintf("import %s became %s, want %q", x.lit, y.lit, w)
			}
		case y.lit != want:
			return fmt.Sprintf("token %d: %.200q became %.200q", i, x.lit, y.lit)
		}
		if x.off < last {
			end = y.off + len(y.lit)
		}
	}
	if end >= 0 && !bytes.Equal(a[last:], b[end:]) {
		return "the text after the imports changed"
	}
	return ""
}

func main() {
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<26)
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	for in.Scan() {
		var j job
		if err := json.Unmarshal(in.Bytes(), &j); err != nil {
			panic(err)
		}
		s, _ := json.Marshal(compare(j))
		fmt.Fprintf(out, "%s\n", s)
	}
}
