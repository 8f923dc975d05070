package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/jik18001/CTngV2"
const vrtPath = modPath + "/zzverif/vrt"

// rewrites: import path -> selector -> replacement identifier in package vrt.
var rewrites = map[string]map[string]string{
	"sync":     {"Mutex": "Mutex", "RWMutex": "RWMutex"},
	"time":     {"AfterFunc": "AfterFunc", "Sleep": "Sleep", "NewTimer": "NewTimer", "After": "After"},
	"net/http": {"Handle": "Handle", "HandleFunc": "HandleFunc", "ListenAndServe": "ListenAndServe", "DefaultServeMux": "DefaultMux()", "Transport": "Transport", "Server": "Server"},
	"log":      {"Fatal": "LogFatal", "Fatalf": "LogFatalf", "Fatalln": "LogFatalln", "Println": "LogDiscard", "Printf": "LogDiscardf", "Print": "LogDiscard"},
	"os": {"Exit": "OsExit", "File": "File", "Open": "OsOpen", "Create": "OsCreate", "OpenFile": "OsOpenFile", "CreateTemp": "OsCreateTemp", "WriteFile": "OsWriteFile",
		"Rename": "OsRename", "Remove": "OsRemove", "RemoveAll": "OsRemoveAll", "Truncate": "OsTruncate", "Link": "OsLink", "Mkdir": "OsMkdir", "MkdirAll": "OsMkdirAll"},
	"io/ioutil":   {"WriteFile": "OsWriteFile", "TempFile": "OsCreateTemp"},
	"fmt":         {"Println": "Discard", "Printf": "Discardf", "Print": "Discard"},
	"crypto/rsa":  {"GenerateKey": "RSAGenerateKey", "SignPKCS1v15": "RSASignPKCS1v15", "VerifyPKCS1v15": "RSAVerifyPKCS1v15"},
	"crypto/rand": {"Reader": "RandReader"},
}

type edit struct {
	pos, end int
	text     string
}

func instrumentFile(path string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	names := map[string]string{} // local name -> import path
	keep := map[string]string{}  // local name -> selector to keep the import used
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if _, ok := rewrites[p]; !ok {
			continue
		}
		n := p[strings.LastIndex(p, "/")+1:]
		if im.Name != nil {
			n = im.Name.Name
		}
		if n == "_" || n == "." {
			continue
		}
		names[n] = p
	}
	var edits []edit
	used := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok || id.Obj != nil {
				return true
			}
			p, ok := names[id.Name]
			if !ok {
				return true
			}
			if r, ok := rewrites[p][x.Sel.Name]; ok {
				edits = append(edits, edit{off(x.Pos()), off(x.End()), "zzvrt." + r})
				used = true
				keep[id.Name] = p
			}
		case *ast.GoStmt:
			used = true
			if fl, ok := x.Call.Fun.(*ast.FuncLit); ok {
				edits = append(edits, edit{off(fl.Body.Lbrace) + 1, off(fl.Body.Lbrace) + 1, " defer zzvrt.GoStart()();"})
			} else if !x.Call.Ellipsis.IsValid() {
				// go F(a, b) -> zzvrt.GoCall(F, a, b)
				edits = append(edits, edit{off(x.Go), off(x.Call.Fun.Pos()), "zzvrt.GoCall("})
				sep := ", "
				if len(x.Call.Args) == 0 {
					sep = ""
				}
				edits = append(edits, edit{off(x.Call.Lparen), off(x.Call.Lparen) + 1, sep})
			}
		}
		return true
	})
	if !used {
		return src, nil
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].pos < edits[j].pos })
	var out []byte
	last := 0
	// import right after the package clause, on the same line
	pk := off(f.Name.End())
	out = append(out, src[:pk]...)
	out = append(out, []byte("; import zzvrt \""+vrtPath+"\"")...)
	last = pk
	for _, e := range edits {
		if e.pos < last {
			return nil, fmt.Errorf("%s: overlapping edits", path)
		}
		out = append(out, src[last:e.pos]...)
		out = append(out, e.text...)
		last = e.end
	}
	out = append(out, src[last:]...)
	// keep imports used
	keepSel := map[string]string{"sync": "Once", "time": "Duration", "net/http": "Request", "log": "Logger", "os": "File", "fmt": "Stringer", "crypto/rsa": "PublicKey"}
	var ks []string
	for n := range keep {
		ks = append(ks, n)
	}
	sort.Strings(ks)
	for _, n := range ks {
		if keep[n] == "io/ioutil" {
			out = append(out, []byte("\nvar _ = "+n+".Discard\n")...)
		} else if keep[n] == "crypto/rand" {
			out = append(out, []byte("\nvar _ = "+n+".Int\n")...)
		} else {
			out = append(out, []byte("\nvar _ "+n+"."+keepSel[keep[n]]+"\n")...)
		}
	}
	return out, nil
}

// repoPackages lists the library package directories of the repository.
func repoPackages(repo string) ([]string, error) {
	var dirs []string
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := filepath.Base(p)
			rel, _ := filepath.Rel(repo, p)
			if p != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || rel == "tests" || b == "testdata" || b == "zzverif") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			d := filepath.Dir(p)
			if len(dirs) == 0 || dirs[len(dirs)-1] != d {
				dirs = append(dirs, d)
			}
		}
		return nil
	})
	return dirs, err
}

// prepare writes the overlay and modfile into work.
func prepare(repo, verif, work string) error {
	dirs, err := repoPackages(repo)
	if err != nil {
		return err
	}
	replace := map[string]string{}
	for _, d := range dirs {
		ents, err := os.ReadDir(d)
		if err != nil {
			return err
		}
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			p := filepath.Join(d, n)
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			out, err := instrumentFile(p, src)
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(repo, p)
			dst := filepath.Join(work, "src", rel)
			os.MkdirAll(filepath.Dir(dst), 0755)
			if err := os.WriteFile(dst, out, 0644); err != nil {
				return err
			}
			replace[p] = dst
		}
	}
	for _, sub := range []string{"vrt", "harness"} {
		ents, err := os.ReadDir(filepath.Join(verif, sub))
		if err != nil {
			return err
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				replace[filepath.Join(repo, "zzverif", sub, e.Name())] = filepath.Join(verif, sub, e.Name())
			}
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(work, "overlay.json"), b, 0644); err != nil {
		return err
	}
	return prepareBLS(repo, work)
}

// prepareBLS makes a copy of the BLS binding with its pure functions memoised.
func prepareBLS(repo, work string) error {
	gomod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return err
	}
	ver := ""
	for _, l := range strings.Split(string(gomod), "\n") {
		fs := strings.Fields(l)
		for i, x := range fs {
			if x == "github.com/herumi/bls-go-binary" && i+1 < len(fs) {
				ver = fs[i+1]
			}
		}
	}
	mc := os.Getenv("GOMODCACHE")
	if mc == "" {
		mc = "/root/go/pkg/mod"
	}
	src := filepath.Join(mc, "github.com/herumi/bls-go-binary@"+ver)
	dst := filepath.Join(work, "blsmod")
	os.MkdirAll(filepath.Join(dst, "bls/lib/linux"), 0755)
	gm, err := os.ReadFile(filepath.Join(src, "go.mod"))
	if err != nil {
		return err
	}
	os.WriteFile(filepath.Join(dst, "go.mod"), gm, 0644)
	ents, _ := os.ReadDir(filepath.Join(src, "bls"))
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, "bls", n))
		if err != nil {
			return err
		}
		s := string(b)
		if n == "bls.go" {
			ren := func(old, new string) error {
				if !strings.Contains(s, old) {
					return fmt.Errorf("bls.go: %q not found", old)
				}
				s = strings.Replace(s, old, new, 1)
				return nil
			}
			for _, r := range [][2]string{
				{"func (sig *Sign) Verify(pub *PublicKey, m string) bool", "func (sig *Sign) zzVerify(pub *PublicKey, m string) bool"},
				{"func (sig *Sign) FastAggregateVerify(pubVec []PublicKey, msg []byte) bool", "func (sig *Sign) zzFastAggregateVerify(pubVec []PublicKey, msg []byte) bool"},
				{"func (sec *SecretKey) Sign(m string) (sig *Sign)", "func (sec *SecretKey) zzSign(m string) (sig *Sign)"},
				{"func (sig *Sign) Deserialize(buf []byte) error", "func (sig *Sign) zzDeserialize(buf []byte) error"},
				{"func (sig *Sign) Serialize() []byte", "func (sig *Sign) zzSerialize() []byte"},
				{"func (pub *PublicKey) Deserialize(buf []byte) error", "func (pub *PublicKey) zzDeserialize(buf []byte) error"},
				{"func (pub *PublicKey) Serialize() []byte", "func (pub *PublicKey) zzSerialize() []byte"},
				{"func (sig *Sign) Aggregate(sigVec []Sign)", "func (sig *Sign) zzAggregate(sigVec []Sign)"},
			} {
				if err := ren(r[0], r[1]); err != nil {
					return err
				}
			}
		}
		os.WriteFile(filepath.Join(dst, "bls", n), []byte(s), 0644)
	}
	if err := os.WriteFile(filepath.Join(dst, "bls", "zzmemo.go"), []byte(blsMemo), 0644); err != nil {
		return err
	}
	os.WriteFile(filepath.Join(dst, "bls", "zzrace_on.go"), []byte(blsRaceOn), 0644)
	os.WriteFile(filepath.Join(dst, "bls", "zzrace_off.go"), []byte(blsRaceOff), 0644)
	for _, l := range [][2]string{{"bls/include", "bls/include"}, {"bls/lib/linux/amd64", "bls/lib/linux/amd64"}} {
		t := filepath.Join(dst, l[1])
		if _, err := os.Lstat(t); err != nil {
			if err := os.Symlink(filepath.Join(src, l[0]), t); err != nil {
				return err
			}
		}
	}
	gs, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	os.WriteFile(filepath.Join(work, "x.sum"), gs, 0644)
	return os.WriteFile(filepath.Join(work, "x.mod"), []byte(string(gomod)+"\nreplace github.com/herumi/bls-go-binary => "+dst+"\n"), 0644)
}

const blsMemo = `package bls

import (
	"crypto/sha256"
	"sync"
	"unsafe"
)

// Memoised wrappers around the real library: each distinct call is computed by
// the real code exactly once.

type zzRes struct {
	b   []byte
	ok  bool
	err error
	s   Sign
	p   PublicKey
}

var zzMu sync.Mutex
var zzTab = map[[32]byte]zzRes{}

func zzKey(kind byte, parts ...[]byte) (k [32]byte) {
	h := sha256.New()
	h.Write([]byte{kind})
	for _, p := range parts {
		n := len(p)
		h.Write([]byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)})
		h.Write(p)
	}
	h.Sum(k[:0])
	return
}

func zzGet(k [32]byte, f func() zzRes) zzRes {
	if zzRace {
		return f()
	}
	zzRaceOff()
	zzMu.Lock()
	r, ok := zzTab[k]
	zzMu.Unlock()
	zzRaceOn()
	if ok {
		return r
	}
	r = f()
	zzRaceOff()
	zzMu.Lock()
	zzTab[k] = r
	zzMu.Unlock()
	zzRaceOn()
	return r
}

func zzS(s *Sign) []byte {
	if s == nil {
		panic("SIGSEGV: nil Sign passed to the native library")
	}
	return append([]byte{}, (*[unsafe.Sizeof(Sign{})]byte)(unsafe.Pointer(s))[:]...)
}
func zzP(s *PublicKey) []byte {
	if s == nil {
		panic("SIGSEGV: nil PublicKey passed to the native library")
	}
	return append([]byte{}, (*[unsafe.Sizeof(PublicKey{})]byte)(unsafe.Pointer(s))[:]...)
}
func zzK(s *SecretKey) []byte {
	if s == nil {
		panic("SIGSEGV: nil SecretKey passed to the native library")
	}
	return append([]byte{}, (*[unsafe.Sizeof(SecretKey{})]byte)(unsafe.Pointer(s))[:]...)
}

func (sig *Sign) Verify(pub *PublicKey, m string) bool {
	if sig == nil || pub == nil {
		return sig.zzVerify(pub, m)
	}
	return zzGet(zzKey(1, zzS(sig), zzP(pub), []byte(m)), func() zzRes { return zzRes{ok: sig.zzVerify(pub, m)} }).ok
}

func (sig *Sign) FastAggregateVerify(pubVec []PublicKey, msg []byte) bool {
	if sig == nil {
		return sig.zzFastAggregateVerify(pubVec, msg)
	}
	parts := [][]byte{zzS(sig), msg}
	for i := range pubVec {
		parts = append(parts, zzP(&pubVec[i]))
	}
	return zzGet(zzKey(2, parts...), func() zzRes { return zzRes{ok: sig.zzFastAggregateVerify(pubVec, msg)} }).ok
}

func (sec *SecretKey) Sign(m string) *Sign {
	r := zzGet(zzKey(3, zzK(sec), []byte(m)), func() zzRes { return zzRes{s: *sec.zzSign(m)} })
	s := r.s
	return &s
}

func (sig *Sign) Deserialize(buf []byte) error {
	r := zzGet(zzKey(4, buf), func() zzRes { var s Sign; err := s.zzDeserialize(buf); return zzRes{err: err, s: s} })
	if r.err == nil {
		*sig = r.s
	}
	return r.err
}

func (sig *Sign) Serialize() []byte {
	return append([]byte{}, zzGet(zzKey(5, zzS(sig)), func() zzRes { return zzRes{b: sig.zzSerialize()} }).b...)
}

func (pub *PublicKey) Deserialize(buf []byte) error {
	r := zzGet(zzKey(6, buf), func() zzRes { var s PublicKey; err := s.zzDeserialize(buf); return zzRes{err: err, p: s} })
	if r.err == nil {
		*pub = r.p
	}
	return r.err
}

func (pub *PublicKey) Serialize() []byte {
	return append([]byte{}, zzGet(zzKey(7, zzP(pub)), func() zzRes { return zzRes{b: pub.zzSerialize()} }).b...)
}

func (sig *Sign) Aggregate(sigVec []Sign) {
	parts := [][]byte{zzS(sig)}
	for i := range sigVec {
		parts = append(parts, zzS(&sigVec[i]))
	}
	in := *sig
	*sig = zzGet(zzKey(8, parts...), func() zzRes { s := in; s.zzAggregate(sigVec); return zzRes{s: s} }).s
}
`

const blsRaceOn = "//go:build race\n\npackage bls\n\nimport \"runtime\"\n\nconst zzRace = true\n\nfunc zzRaceOff() { runtime.RaceDisable() }\nfunc zzRaceOn()  { runtime.RaceEnable() }\n"
const blsRaceOff = "//go:build !race\n\npackage bls\n\nconst zzRace = false\n\nfunc zzRaceOff() {}\nfunc zzRaceOn()  {}\n"
