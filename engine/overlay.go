package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// The overlay redirects the environment of the code under test (clock, locks, randomness and, for native replays,
// cryptographic primitives) to stand-ins, and puts a scheduling point before every statement. It is generated from
// the current source on every run; line numbers and the code's own behaviour are unchanged.

var selMap = map[string]map[string]string{
	"time":                       {"Now": "vtime_.Now", "Since": "vtime_.Since", "Until": "vtime_.Until"},
	"crypto/aes":                 {"NewCipher": "vmodel_.AesNewCipher"},
	"crypto/cipher":              {"NewGCM": "vmodel_.CipherNewGCM", "NewGCMWithNonceSize": "vmodel_.CipherNewGCMWithNonceSize", "NewGCMWithTagSize": "vmodel_.CipherNewGCMWithTagSize"},
	"golang.org/x/crypto/sha3":   {"NewCShake128": "vmodel_.Sha3NewCShake128", "NewCShake256": "vmodel_.Sha3NewCShake256", "NewShake128": "vmodel_.Sha3NewShake128", "NewShake256": "vmodel_.Sha3NewShake256", "New256": "vmodel_.Sha3New256", "New512": "vmodel_.Sha3New512", "Sum256": "vmodel_.Sha3Sum256"},
	"golang.org/x/crypto/pbkdf2": {"Key": "vmodel_.Pbkdf2Key"},
	"crypto/rand":                {"Read": "vmodel_.RandRead", "Reader": "vmodel_.RandReader"},
	"github.com/gofrs/uuid":      {"NewV4": "vmodel_.UuidNewV4"},
	"go.etcd.io/bbolt":           {"Open": "vmodel_.BoltOpen"},
}

var vsyncNames = map[string]bool{"Map": true, "Mutex": true, "RWMutex": true, "Once": true, "WaitGroup": true, "Pool": true, "Locker": true, "Cond": true, "NewCond": true, "OnceFunc": true, "OnceValue": true, "OnceValues": true}

type edit struct {
	pos  int
	end  int
	text string
}

// repoSources lists the non-test Go files of the module.
func repoSources(root string) ([]string, error) {
	var out []string
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if n := fi.Name(); p != root && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			if p != root {
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			out = append(out, p)
		}
		return nil
	})
	sort.Strings(out)
	return out, err
}

func rewrite(path string) ([]byte, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var eds []edit
	local := map[string]string{} // local name -> path
	spec := map[string]*ast.ImportSpec{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := filepath.Base(p)
		if im.Name != nil {
			n = im.Name.Name
		}
		local[n] = p
		spec[n] = im
	}
	used := map[string]bool{}
	need := map[string]bool{}
	keep := map[string]bool{}
	syncOK := true
	ast.Inspect(f, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := se.X.(*ast.Ident)
		if !ok || id.Obj != nil {
			return true
		}
		p, ok := local[id.Name]
		if !ok {
			return true
		}
		used[id.Name] = true
		if p == "sync" && !vsyncNames[se.Sel.Name] {
			syncOK = false
		}
		if to, ok := selMap[p][se.Sel.Name]; ok {
			eds = append(eds, edit{off(se.Pos()), off(se.End()), to})
			need[to[:strings.Index(to, ".")]] = true
			keep[id.Name+"."+se.Sel.Name] = true
		}
		return true
	})
	for n, p := range local {
		if p == "sync" && used[n] && syncOK {
			im := spec[n]
			eds = append(eds, edit{off(im.Pos()), off(im.End()), n + ` "verif/vsync"`})
		}
	}
	// scheduling points
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.LabeledStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			need["nd_"] = true
			eds = append(eds, edit{off(s.Pos()), off(s.Pos()), "nd_.Fine(); "})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		}
		return true
	})
	if len(eds) == 0 {
		return src, nil
	}
	imp := ""
	for k, p := range map[string]string{"vtime_": "verif/vtime", "vmodel_": "verif/model", "nd_": "verif/nd"} {
		if need[k] {
			imp += fmt.Sprintf("; import %s %q", k, p)
		}
	}
	eds = append(eds, edit{off(f.Name.End()), off(f.Name.End()), imp})
	var ks []string
	for k := range keep {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	tail := ""
	for _, k := range ks {
		tail += "\nvar _ = " + k
	}
	sort.SliceStable(eds, func(i, j int) bool {
		if eds[i].pos != eds[j].pos {
			return eds[i].pos < eds[j].pos
		}
		return eds[i].end < eds[j].end
	})
	var out []byte
	last := 0
	for _, e := range eds {
		if e.pos < last {
			continue
		}
		out = append(out, src[last:e.pos]...)
		out = append(out, e.text...)
		last = e.end
	}
	out = append(out, src[last:]...)
	out = append(out, tail...)
	out = append(out, '\n')
	return out, nil
}

// makeOverlay returns the overlay for the engine and writes the same for the go command.
func makeOverlay(root, dir string) (map[string][]byte, string, error) {
	files, err := repoSources(root)
	if err != nil {
		return nil, "", err
	}
	ov := map[string][]byte{}
	rep := map[string]string{}
	for i, f := range files {
		b, err := rewrite(f)
		if err != nil {
			return nil, "", err
		}
		ov[f] = b
		to := filepath.Join(dir, fmt.Sprintf("f%d_%s", i, filepath.Base(f)))
		if err := os.WriteFile(to, b, 0o600); err != nil {
			return nil, "", err
		}
		rep[f] = to
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	jf := filepath.Join(dir, "overlay.json")
	return ov, jf, os.WriteFile(jf, j, 0o600)
}
