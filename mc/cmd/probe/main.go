// Command probe writes an overlay of the standard library (go build -overlay) whose programs tell, on file descriptor 3,
// which environment variables and files they consult, and whose clock can be moved by VERIFMC_CLOCK (seconds).
//
// usage: probe GOROOT OUTDIR     (writes OUTDIR/overlay.json)
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
)

const helper = `package syscall

import "unsafe"

// VerifProbe reports what is consulted on file descriptor 3 (if there is one).
func VerifProbe(what, name string) {
	if name == "VERIFMC_CLOCK" {
		return
	}
	b := make([]byte, 0, len(what)+len(name)+2)
	b = append(b, what...)
	b = append(b, ' ')
	b = append(b, name...)
	b = append(b, 0)
	RawSyscall(SYS_WRITE, 3, uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)))
}
`

const clock = `package time

import "syscall"

func verifClock() (d int64) {
	syscall.VerifProbe("clock", "")
	s, _ := syscall.Getenv("VERIFMC_CLOCK")
	neg := false
	for i := 0; i < len(s); i++ {
		if s[i] == '-' {
			neg = true
			continue
		}
		d = d*10 + int64(s[i]-'0')
	}
	if neg {
		d = -d
	}
	return d
}
`

func main() {
	root, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	n := 0
	put := func(rel, text string) {
		n++
		p := filepath.Join(out, fmt.Sprintf("%d_%s", n, filepath.Base(rel)))
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		replace[filepath.Join(root, "src", rel)] = p
	}
	read := func(rel string) string {
		b, err := os.ReadFile(filepath.Join(root, "src", rel))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		return string(b)
	}
	z := "syscall/zsyscall_linux_" + runtime.GOARCH + ".go"
	fn := regexp.MustCompile(`(?m)^func (\w+)\([^)\n]*\b(path|oldpath|pathname) string[^\n]*\{\n`)
	probed := 0
	text := fn.ReplaceAllStringFunc(read(z), func(s string) string {
		m := fn.FindStringSubmatch(s)
		probed++
		return s + fmt.Sprintf("\tVerifProbe(\"file\", %s)\n", m[2])
	})
	if probed < 5 {
		fmt.Fprintln(os.Stderr, "the system calls of this standard library are not understood")
		os.Exit(1)
	}
	put(z, text)
	env := read("syscall/env_unix.go")
	for _, f := range []struct{ sig, ins string }{
		{"func Getenv(key string) (value string, found bool) {\n", "\tVerifProbe(\"env\", key)\n"},
		{"func Environ() []string {\n", "\tVerifProbe(\"environ\", \"\")\n"},
	} {
		if !strings.Contains(env, f.sig) {
			fmt.Fprintln(os.Stderr, "the environment of this standard library is not understood")
			os.Exit(1)
		}
		env = strings.Replace(env, f.sig, f.sig+f.ins, 1)
	}
	put("syscall/env_unix.go", env)
	put("syscall/verif_probe.go", helper)
	const now = "\tsec, nsec, mono := runtimeNow()\n"
	if t := read("time/time.go"); strings.Contains(t, "func Now() Time {\n"+now) {
		put("time/time.go", strings.Replace(t, "func Now() Time {\n"+now, "func Now() Time {\n"+now+"\tsec += verifClock()\n", 1))
		put("time/verif_clock.go", clock)
	}
	b, _ := json.Marshal(map[string]any{"Replace": replace})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
