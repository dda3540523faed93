// Package build makes the simulated twin of /repo in a scratch directory and
// compiles it together with the harness into one test binary.
package build

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"

	"verif.local/sim/rewrite"
)

const (
	RepoModule = "sigs.k8s.io/instrumentation-tools"
	GoPrompt   = "github.com/c-bata/go-prompt"
	Tcell      = "github.com/gdamore/tcell"
)

type Result struct {
	Bin       string
	Rewritten []string // packages running as rewritten real code
	Dir       string
}

func run(dir string, env []string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = env
	out, err := c.CombinedOutput()
	if err != nil {
		return string(out), fmt.Errorf("%s %s: %v\n%s", name, strings.Join(args, " "), err, out)
	}
	return string(out), nil
}

func copyTree(src, dst string, filter func(rel string, d os.DirEntry) bool) error {
	return filepath.WalkDir(src, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if rel != "." && !filter(rel, d) {
			if d.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		if d.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
}

// Build rewrites repo into scratch and compiles the harness at verif/sim/h.
func Build(repo, simDir, scratch string, env []string) (*Result, error) {
	res := &Result{Dir: scratch}
	ps, err := rewrite.List(repo, env, true, "./...")
	if err != nil {
		return nil, err
	}
	ld := rewrite.NewLoader(ps)
	repoOut := filepath.Join(scratch, "repo")
	var gp, tc *rewrite.Pkg
	goline := "go1.21"
	var wmu sync.Mutex
	_ = &wmu
	for _, p := range ps {
		if p.ImportPath == GoPrompt {
			gp = p
		}
		if p.ImportPath == Tcell {
			tc = p
		}
		inRepo := p.ImportPath == RepoModule || strings.HasPrefix(p.ImportPath, RepoModule+"/")
		if !inRepo && p.ImportPath != GoPrompt {
			continue
		}
		gv := ""
		c, err := ld.Check(p, gv)
		if err != nil {
			return nil, err
		}
		o := rewrite.Options{Race: inRepo, Yields: inRepo, Reset: inRepo, Module: RepoModule, GoLine: goline,
			Observe: map[string]bool{RepoModule + "/promq/prom.NewPeriodicData": true}}
		if strings.Contains(p.ImportPath, "/notstdlib/") {
			o.Race = false
		}
		// the completion parser is only ever used by the one line editor
		o.Light = strings.HasSuffix(p.ImportPath, "/earley")
		outDir := filepath.Join(scratch, "go-prompt")
		if inRepo {
			outDir = filepath.Join(repoOut, strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, RepoModule), "/"))
		} else {
			// the other go-prompt packages run as they are
			if err := copyTree(p.Dir, outDir, func(rel string, d os.DirEntry) bool {
				if d.IsDir() {
					return !strings.HasPrefix(filepath.Base(rel), "_")
				}
				return (strings.HasSuffix(rel, ".go") && strings.Contains(rel, "/") || rel == "go.mod" || rel == "go.sum") && !strings.HasSuffix(rel, "_test.go")
			}); err != nil {
				return nil, err
			}
		}
		files, err := rewrite.Package(c, o)
		if err != nil {
			return nil, err
		}
		if err := os.MkdirAll(outDir, 0o755); err != nil {
			return nil, err
		}
		for n, src := range files {
			if err := os.WriteFile(filepath.Join(outDir, n), src, 0o644); err != nil {
				return nil, err
			}
		}
		for _, e := range p.EmbedFiles {
			b, err := os.ReadFile(filepath.Join(p.Dir, e))
			if err != nil {
				return nil, err
			}
			os.MkdirAll(filepath.Dir(filepath.Join(outDir, e)), 0o755)
			if err := os.WriteFile(filepath.Join(outDir, e), b, 0o644); err != nil {
				return nil, err
			}
		}
		res.Rewritten = append(res.Rewritten, p.ImportPath)
	}
	if gp == nil || tc == nil {
		return nil, fmt.Errorf("go-prompt or tcell is not a dependency any more")
	}
	// go-prompt opens /dev/tty even when it is given another parser
	ip := filepath.Join(scratch, "go-prompt", "input_posix.go")
	b, err := os.ReadFile(ip)
	if err != nil {
		return nil, err
	}
	src := string(b)
	re := regexp.MustCompile(`(?s)func NewStandardInputParser\(\) \*PosixParser \{.*?\n\}\n`)
	if !re.MatchString(src) {
		return nil, fmt.Errorf("go-prompt: NewStandardInputParser not found")
	}
	src = re.ReplaceAllString(src, "func NewStandardInputParser() *PosixParser { return &PosixParser{fd: -1} }\n")
	if err := os.WriteFile(ip, []byte(src), 0o644); err != nil {
		return nil, err
	}
	// what a simulated line editor needs to get at
	if err := os.WriteFile(filepath.Join(scratch, "go-prompt", "dsim_access.go"), []byte(`package prompt

// DsimParser is the prompt's input.
func DsimParser(p *Prompt) ConsoleParser { return p.in }

// DsimWriter is the prompt's output.
func DsimWriter(p *Prompt) ConsoleWriter { return p.renderer.out }
`), 0o644); err != nil {
		return nil, err
	}
	// tcell: the physical screen is the simulator's
	td := filepath.Join(scratch, "tcell")
	if err := copyTree(tc.Dir, td, func(rel string, d os.DirEntry) bool {
		if d.IsDir() {
			return !strings.HasPrefix(filepath.Base(rel), "_") && !strings.HasPrefix(filepath.Base(rel), ".")
		}
		return !strings.HasSuffix(rel, "_test.go") && (strings.HasSuffix(rel, ".go") || rel == "go.mod" || rel == "go.sum")
	}); err != nil {
		return nil, err
	}
	sp := filepath.Join(td, "screen.go")
	b, err = os.ReadFile(sp)
	if err != nil {
		return nil, err
	}
	src = strings.Replace(string(b), "func NewScreen() (Screen, error) {\n", "// DsimScreen is the simulator's screen.\nvar DsimScreen func() (Screen, error)\n\nfunc NewScreen() (Screen, error) {\n\tif DsimScreen != nil {\n\t\treturn DsimScreen()\n\t}\n", 1)
	if src == string(b) {
		return nil, fmt.Errorf("tcell: NewScreen not found")
	}
	if err := os.WriteFile(sp, []byte(src), 0o644); err != nil {
		return nil, err
	}
	// module files
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(repoOut, "go.mod"), gm, 0o644); err != nil {
		return nil, err
	}
	gs, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return nil, err
	}
	h := filepath.Join(scratch, "h")
	if err := copyTree(filepath.Join(simDir, "h"), h, func(rel string, d os.DirEntry) bool { return d.IsDir() || strings.HasSuffix(rel, ".go") }); err != nil {
		return nil, err
	}
	var mod strings.Builder
	mod.WriteString("module verif.local/h\n\ngo 1.25\n\nrequire (\n\tverif.local/sim v0.0.0\n\t" + RepoModule + " v0.0.0\n)\n\n")
	inReq := false
	for _, l := range strings.Split(string(gm), "\n") {
		if strings.HasPrefix(l, "module ") || strings.HasPrefix(l, "go ") || strings.HasPrefix(l, "toolchain ") {
			continue
		}
		_ = inReq
		mod.WriteString(l + "\n")
	}
	fmt.Fprintf(&mod, "\nreplace verif.local/sim => %s\nreplace %s => %s\nreplace %s => %s\nreplace %s => %s\n",
		simDir, RepoModule, repoOut, GoPrompt, filepath.Join(scratch, "go-prompt"), Tcell, td)
	if err := os.WriteFile(filepath.Join(h, "go.mod"), []byte(mod.String()), 0o644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(h, "go.sum"), gs, 0o644); err != nil {
		return nil, err
	}
	res.Bin = filepath.Join(scratch, "h.test")
	if _, err := run(h, env, "go", "test", "-mod=mod", "-vet=off", "-c", "-o", res.Bin, "."); err != nil {
		return nil, err
	}
	return res, nil
}
