package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"

	e "verifmc/engine"
)

// ---- where the output goes ----

// openTerminal gives both ends of a terminal which does not change what is written to it.
func openTerminal() (*os.File, *os.File, error) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	ctl := func(fd uintptr, req uintptr, p unsafe.Pointer) error {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(p)); e != 0 {
			return e
		}
		return nil
	}
	var unlock, n int32
	if err := ctl(m.Fd(), syscall.TIOCSPTLCK, unsafe.Pointer(&unlock)); err != nil {
		_ = m.Close()
		return nil, nil, err
	}
	if err := ctl(m.Fd(), syscall.TIOCGPTN, unsafe.Pointer(&n)); err != nil {
		_ = m.Close()
		return nil, nil, err
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		_ = m.Close()
		return nil, nil, err
	}
	var t syscall.Termios
	if err := ctl(s.Fd(), syscall.TCGETS, unsafe.Pointer(&t)); err == nil {
		t.Oflag &^= syscall.OPOST
		t.Lflag &^= syscall.ECHO
		_ = ctl(s.Fd(), syscall.TCSETS, unsafe.Pointer(&t))
	}
	return m, s, nil
}

// outTo runs a command with its output connected in some way. It returns what arrived there.
type outTo struct {
	name string
	full bool // whether all the output arrives
	run  func(base string, cmd *exec.Cmd) (out, err string, ex error, ok bool)
}

func outKinds(limits []int) []outTo {
	ks := []outTo{
		{"a file", true, func(base string, cmd *exec.Cmd) (string, string, error, bool) {
			p := filepath.Join(filepath.Dir(base), "out")
			f, err := os.Create(p)
			if err != nil {
				panic(err)
			}
			var errb bytes.Buffer
			cmd.Stdout, cmd.Stderr = f, &errb
			ex := cmd.Run()
			_ = f.Close()
			b, err := os.ReadFile(p)
			if err != nil {
				panic(err)
			}
			return string(b), errb.String(), ex, true
		}},
		{"a file which is appended to", true, func(base string, cmd *exec.Cmd) (string, string, error, bool) {
			p := filepath.Join(filepath.Dir(base), "out")
			if err := os.WriteFile(p, []byte("before\n"), 0o644); err != nil {
				panic(err)
			}
			f, err := os.OpenFile(p, os.O_WRONLY|os.O_APPEND, 0)
			if err != nil {
				panic(err)
			}
			var errb bytes.Buffer
			cmd.Stdout, cmd.Stderr = f, &errb
			ex := cmd.Run()
			_ = f.Close()
			b, err := os.ReadFile(p)
			if err != nil {
				panic(err)
			}
			if !strings.HasPrefix(string(b), "before\n") {
				return string(b), errb.String(), ex, true
			}
			return string(b[7:]), errb.String(), ex, true
		}},
		{"a terminal", true, func(_ string, cmd *exec.Cmd) (string, string, error, bool) {
			m, s, err := openTerminal()
			if err != nil {
				return "", "", nil, false
			}
			var errb bytes.Buffer
			cmd.Stdout, cmd.Stderr = s, &errb
			got := make(chan string)
			go func() {
				b, _ := io.ReadAll(m) // ends with an error when the other end is closed
				got <- string(b)
			}()
			ex := cmd.Run()
			_ = s.Close()
			out := <-got
			_ = m.Close()
			return out, errb.String(), ex, true
		}},
		{"a terminal, as are the input and the errors", true, func(_ string, cmd *exec.Cmd) (string, string, error, bool) {
			m, s, err := openTerminal()
			if err != nil {
				return "", "", nil, false
			}
			if cmd.Stdin == nil {
				cmd.Stdin = s
			}
			var errb bytes.Buffer
			cmd.Stdout = s
			cmd.Stderr = &errb
			got := make(chan string)
			go func() {
				b, _ := io.ReadAll(m)
				got <- string(b)
			}()
			ex := cmd.Run()
			_ = s.Close()
			out := <-got
			_ = m.Close()
			return out, errb.String(), ex, true
		}},
		{"a socket", true, func(_ string, cmd *exec.Cmd) (string, string, error, bool) {
			fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
			if err != nil {
				return "", "", nil, false
			}
			a, b := os.NewFile(uintptr(fds[0]), "a"), os.NewFile(uintptr(fds[1]), "b")
			syscall.CloseOnExec(fds[0])
			syscall.CloseOnExec(fds[1])
			var errb bytes.Buffer
			cmd.Stdout, cmd.Stderr = b, &errb
			got := make(chan string)
			go func() {
				x, _ := io.ReadAll(a)
				got <- string(x)
			}()
			ex := cmd.Run()
			_ = b.Close()
			out := <-got
			_ = a.Close()
			return out, errb.String(), ex, true
		}},
		{"a pipe which is read byte by byte", true, func(_ string, cmd *exec.Cmd) (string, string, error, bool) {
			rd, wr, err := os.Pipe()
			if err != nil {
				panic(err)
			}
			_, _, _ = syscall.Syscall(syscall.SYS_FCNTL, wr.Fd(), 1031 /* F_SETPIPE_SZ */, 4096)
			var errb bytes.Buffer
			cmd.Stdout, cmd.Stderr = wr, &errb
			got := make(chan string)
			go func() {
				var sb strings.Builder
				b := make([]byte, 1)
				for {
					n, err := rd.Read(b)
					if n == 0 || err != nil {
						break
					}
					sb.WriteByte(b[0])
				}
				got <- sb.String()
			}()
			ex := cmd.Run()
			_ = wr.Close()
			out := <-got
			_ = rd.Close()
			return out, errb.String(), ex, true
		}},
		{"a device which is full", false, func(_ string, cmd *exec.Cmd) (string, string, error, bool) {
			f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			if err != nil {
				return "", "", nil, false
			}
			cmd.Stdout = f
			ex := cmd.Run()
			_ = f.Close()
			return "", "", ex, true
		}},
		{"nothing (closed), nor do the errors", false, func(_ string, cmd *exec.Cmd) (string, string, error, bool) {
			sh, err := exec.LookPath("sh")
			if err != nil {
				return "", "", nil, false
			}
			cmd.Args = append([]string{sh, "-c", `exec "$0" "$@" >&- 2>&-`}, append([]string{cmd.Path}, cmd.Args[1:]...)...)
			cmd.Path = sh
			ex := cmd.Run()
			return "", "", ex, true
		}},
	}
	for _, n := range limits {
		n := n
		ks = append(ks, outTo{fmt.Sprintf("a reader which goes away after %d bytes", n), false, func(_ string, cmd *exec.Cmd) (string, string, error, bool) {
			rd, wr, err := os.Pipe()
			if err != nil {
				panic(err)
			}
			cmd.Stdout = wr
			if n == 0 {
				_ = rd.Close()
			}
			if err := cmd.Start(); err != nil {
				panic(err)
			}
			_ = wr.Close()
			if n > 0 {
				b := make([]byte, n)
				_, _ = io.ReadFull(rd, b)
				_ = rd.Close()
			}
			return "", "", cmd.Wait(), true
		}})
	}
	return ks
}

// every command in every state with its output connected in every way
func c18Outputs(r *e.Run, states []c18State, ref func(c18State, int) CLI) {
	limits := []int{0, 1, 2, 3, 5, 9, 17, 33, 65, 129, 257}
	kinds := outKinds(limits)
	use := states
	if !r.Thorough() {
		use = states[:min(12, len(states))]
	}
	nk, nc := int64(len(kinds)), int64(len(c18Cmds))
	missing := make([]map[string]bool, r.Workers)
	r.Par(int64(len(use))*nk*nc, func(w *e.W, i int64) {
		k, ci, s := kinds[i%nk], int(i/nk%nc), use[i/nk/nc]
		c := c18Cmds[ci]
		text := func() string { return fmt.Sprintf("%v, %v, with its output connected to %s", c, s, k.name) }
		w.Case(text)
		base := filepath.Join(workDir(w, "c18"), "o")
		c18World(base, s)
		before := c18Tree(base)
		cmd := exec.Command(r.GQL, c.args...)
		cmd.Dir = filepath.Join(base, "work")
		cmd.Env = []string{}
		env := c18Env(base)
		for _, k := range sortedKeys(env) {
			cmd.Env = append(cmd.Env, k+"="+env[k])
		}
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if c.stdin >= 0 {
			cmd.Stdin = strings.NewReader(c18Texts[c.stdin])
		}
		hung := false
		t := time.AfterFunc(60*time.Second, func() {
			hung = true
			if cmd.Process != nil {
				_ = cmd.Process.Kill()
			}
		})
		out, errs, ex, ok := k.run(base, cmd)
		t.Stop()
		if !ok {
			if missing[w.ID] == nil {
				missing[w.ID] = map[string]bool{}
			}
			missing[w.ID][k.name] = true
			return
		}
		r.AddTransitions(1)
		r.AddTraces(1)
		got := CLI{Out: out, Err: errs}
		if ex != nil {
			ee, isExit := ex.(*exec.ExitError)
			if !isExit {
				panic(fmt.Sprint("cannot run the gql command: ", ex))
			}
			got.Code = ee.ExitCode()
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				got.Signal = " (" + ws.Signal().String() + ")"
			}
		}
		want := ref(s, ci)
		w.Outcome(fmt.Sprintf("exit %d%s", got.Code, got.Signal))
		why := ""
		switch {
		case hung:
			why = "does not end"
		case k.full && !got.same(want):
			why = fmt.Sprintf("gives\n%v\nbut in general\n%v\n", got, want)
		case !k.full && got.Signal == "" && got.Code != want.Code:
			why = fmt.Sprintf("ends with exit status %d but in general with %d\n", got.Code, want.Code)
		case !k.full && got.Signal != "" && !strings.Contains(got.Signal, syscall.SIGPIPE.String()):
			why = fmt.Sprintf("ends with%s\n", got.Signal)
		}
		if after := c18Tree(base); after != before {
			why += fmt.Sprintf("changed files\n--- before\n%s--- after\n%s", before, after)
		}
		if why != "" {
			r.Violate(1<<51|i, "output:"+text(), text()+" "+why, map[string]any{"case": text(), "texts": c18Texts, "why": why})
		}
	})
	names := map[string]bool{}
	for _, m := range missing {
		for n := range m {
			names[n] = true
		}
	}
	if len(names) > 0 {
		r.Assume("not available in this sandbox as a place for the output: " + strings.Join(sortedKeys(names), "; "))
	}
	r.Space("what the output is connected to (file, terminal, socket, slow reader, full device, nothing, a reader which goes away after n bytes)", "kinds", len(kinds), "commands", len(c18Cmds), "states of the files", len(use))
}
