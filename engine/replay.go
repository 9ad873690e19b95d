package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

// Native is the harness module compiled against the real code.
type Native struct {
	work    string
	out     string
	bin     string
	raceBin string
	err     error
	done    chan struct{}
	wall    time.Duration
	overlay string
	raceErr error
}

func goEnv(cgo string) []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "CGO_ENABLED=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOPROXY=off", "GOSUMDB=off", "GONOSUMDB=*", "GOFLAGS=-mod=mod", "CGO_ENABLED="+cgo, "GOTOOLCHAIN=local")
}

func copyTree(src, dst string) error {
	return filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		to := filepath.Join(dst, rel)
		if d.IsDir() {
			return os.MkdirAll(to, 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(to, b, 0o644)
	})
}

var harnessRe = regexp.MustCompile(`(?m)^//vh:harness [^\n]*\n(?://[^\n]*\n)*func (\w+)\(\)`)

// writeRegistry lists the annotated harnesses for the replay command.
func writeRegistry(work string) error {
	files, _ := filepath.Glob(filepath.Join(work, "props", "*.go"))
	var b strings.Builder
	b.WriteString("package props\n\nfunc init() {\n")
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		for _, m := range harnessRe.FindAllStringSubmatch(string(src), -1) {
			fmt.Fprintf(&b, "\tRegistry[%q] = %s\n", m[1], m[1])
		}
	}
	b.WriteString("}\n")
	return os.WriteFile(filepath.Join(work, "props", "zz_registry.go"), []byte(b.String()), 0o644)
}

func goOut(dir string, args ...string) (string, error) {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = goEnv("0")
	b, err := c.Output()
	return strings.TrimSpace(string(b)), err
}

// patch inserts a hook call at the start of each function whose header matches.
func patchSrc(src string, hooks [][2]string) (string, error) {
	for _, h := range hooks {
		i := strings.Index(src, h[0])
		if i < 0 {
			return "", fmt.Errorf("overlay: %q not found", h[0])
		}
		j := i + len(h[0])
		src = src[:j] + "\n\t" + h[1] + "\n" + src[j:]
	}
	return src, nil
}

const hookVar = "\n// VerifHook forces values of the random source (verification overlay).\nvar VerifHook func(string) (float64, bool)\n"

func hookCall(kind, conv string) string {
	return fmt.Sprintf("if VerifHook != nil {\nif v, ok := VerifHook(%q); ok {\nreturn %s\n}\n}", kind, conv)
}

// writeOverlay patches copies of math/rand and fastrand so that a replay can force the
// random values the solver chose.
func writeOverlay(work, nat string) (string, error) {
	goroot, err := goOut(work, "env", "GOROOT")
	if err != nil {
		return "", err
	}
	fr, err := goOut(work, "list", "-m", "-f", "{{.Dir}}", "github.com/valyala/fastrand")
	if err != nil {
		return "", fmt.Errorf("fastrand: %v", err)
	}
	rep := map[string]string{}
	put := func(name, file string, hooks [][2]string, extra string) error {
		b, err := os.ReadFile(file)
		if err != nil {
			return err
		}
		s, err := patchSrc(string(b), hooks)
		if err != nil {
			return err
		}
		to := filepath.Join(nat, "overlay_"+name+".txt")
		rep[file] = to
		return os.WriteFile(to, []byte(s+extra), 0o644)
	}
	r := filepath.Join(goroot, "src", "math", "rand")
	if err := put("rand.go", filepath.Join(r, "rand.go"), [][2]string{
		{"func (r *Rand) Float64() float64 {", hookCall("Rand.Float64", "v")},
		{"func (r *Rand) Intn(n int) int {", hookCall("Rand.Intn", "int(v)")},
		{"func (r *Rand) Int63n(n int64) int64 {", hookCall("Rand.Int63n", "int64(v)")},
		{"func Float64() float64 {", hookCall("rand.Float64", "v")},
		{"func Intn(n int) int {", hookCall("rand.Intn", "int(v)")},
	}, hookVar); err != nil {
		return "", err
	}
	if err := put("exp.go", filepath.Join(r, "exp.go"), [][2]string{
		{"func (r *Rand) ExpFloat64() float64 {", hookCall("Rand.ExpFloat64", "v")},
	}, ""); err != nil {
		return "", err
	}
	if err := put("normal.go", filepath.Join(r, "normal.go"), [][2]string{
		{"func (r *Rand) NormFloat64() float64 {", hookCall("Rand.NormFloat64", "v")},
	}, ""); err != nil {
		return "", err
	}
	// the module cache cannot be overlaid: a patched copy replaces the module
	fd := filepath.Join(nat, "fastrand_patched")
	if err := os.MkdirAll(fd, 0o755); err != nil {
		return "", err
	}
	fb, err := os.ReadFile(filepath.Join(fr, "fastrand.go"))
	if err != nil {
		return "", err
	}
	fs, err := patchSrc(string(fb), [][2]string{
		{"func (r *RNG) Uint32n(maxN uint32) uint32 {", hookCall("RNG.Uint32n", "uint32(v)")},
		{"func (r *RNG) Uint32() uint32 {", hookCall("RNG.Uint32", "uint32(v)")},
		{"func Uint32n(maxN uint32) uint32 {", hookCall("fastrand.Uint32n", "uint32(v)")},
		{"func Uint32() uint32 {", hookCall("fastrand.Uint32", "uint32(v)")},
	})
	if err != nil {
		return "", err
	}
	os.WriteFile(filepath.Join(fd, "fastrand.go"), []byte(fs+hookVar), 0o644)
	os.WriteFile(filepath.Join(fd, "go.mod"), []byte("module github.com/valyala/fastrand\n"), 0o644)
	mb, err := os.ReadFile(filepath.Join(work, "go.mod"))
	if err != nil {
		return "", err
	}
	mb = append(mb, "\nreplace github.com/valyala/fastrand => "+fd+"\n"...)
	os.WriteFile(filepath.Join(nat, "native.mod"), mb, 0o644)
	sb, err := os.ReadFile(filepath.Join(work, "go.sum"))
	if err != nil {
		return "", err
	}
	os.WriteFile(filepath.Join(nat, "native.sum"), sb, 0o644)
	repo, err := goOut(work, "list", "-m", "-f", "{{.Dir}}", "github.com/mmadfox/go-gpsgen")
	if err != nil {
		return "", fmt.Errorf("go-gpsgen: %v", err)
	}
	if err := instrument(repo, nat, rep); err != nil {
		return "", err
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	o := filepath.Join(nat, "overlay.json")
	return o, os.WriteFile(o, b, 0o644)
}

// startNative builds the replay command in the background.
func startNative(work, out string, race bool) *Native {
	n := &Native{work: work, out: out, done: make(chan struct{})}
	go func() {
		defer close(n.done)
		t0 := time.Now()
		o, err := writeOverlay(work, n.out)
		if err != nil {
			n.err = err
			return
		}
		n.overlay = o
		n.bin, n.err = n.build(false)
		if race && n.err == nil {
			n.raceBin, n.raceErr = n.build(true)
		}
		n.wall = time.Since(t0)
	}()
	return n
}

func (n *Native) build(race bool) (string, error) {
	out := filepath.Join(n.out, "replay.bin")
	args := []string{"build", "-overlay", n.overlay, "-tags", "verifoverlay", "-modfile", filepath.Join(n.out, "native.mod")}
	cgo := "0"
	if race {
		out += ".race"
		args = append(args, "-race")
		cgo = "1"
	}
	args = append(args, "-o", out, "./replay")
	c := exec.Command("go", args...)
	c.Dir = n.work
	c.Env = goEnv(cgo)
	b, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, b)
	}
	return out, nil
}

// NatResult is the outcome of a replay.
type NatResult struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Covers []string `json:"covers,omitempty"`
	Inputs []string `json:"inputs,omitempty"`
	Races  string   `json:"races,omitempty"`
}

func (n *Native) run(bin, file string, args ...string) NatResult {
	return n.runEnv(bin, nil, file, args...)
}

func (n *Native) runEnv(bin string, env []string, file string, args ...string) NatResult {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	var c *exec.Cmd
	if bin == n.bin {
		// code that never stops growing must not take the machine down
		c = exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", `ulimit -v 12000000; exec "$0" "$@"`, bin, file}, args...)...)
	} else {
		c = exec.CommandContext(ctx, bin, append([]string{file}, args...)...)
	}
	c.Dir = n.work
	c.Env = append(os.Environ(), env...)
	var so, se strings.Builder
	c.Stdout, c.Stderr = &so, &se
	err := c.Run()
	var r NatResult
	ok := false
	for _, l := range strings.Split(so.String(), "\n") {
		if s, has := strings.CutPrefix(l, "VH-RESULT "); has {
			ok = json.Unmarshal([]byte(s), &r) == nil
		}
	}
	if st := c.ProcessState; r.Status == "hang" && len(args) == 0 && bin == n.bin && st != nil && st.UserTime()+st.SystemTime() > 15*time.Second {
		// a single run takes milliseconds
		r.Status, r.Msg = "loop", "the code does not come to an end"
	}
	if i := strings.Index(se.String(), "WARNING: DATA RACE"); i >= 0 {
		s := se.String()[i:]
		if len(s) > 3000 {
			s = s[:3000]
		}
		r.Races = s
	}
	if !ok {
		s := se.String()
		if i := strings.Index(s, "fatal error:"); i >= 0 {
			s = s[i:]
		} else if i := strings.Index(s, "panic:"); i >= 0 {
			s = s[i:]
		}
		if len(s) > 1500 {
			s = s[:1500]
		}
		first, _, _ := strings.Cut(s, "\n")
		switch {
		case strings.HasPrefix(s, "fatal error:") || strings.HasPrefix(s, "panic:"):
			r.Status, r.Msg = "panic", first
			r.Inputs = []string{s}
		case ctx.Err() != nil:
			r.Status = "hang"
		default:
			r.Status, r.Msg = "error", fmt.Sprint(err, " ", s)
		}
	}
	return r
}
