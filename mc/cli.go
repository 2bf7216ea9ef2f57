package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"syscall"
	"time"

	e "verifmc/engine"
)

// CLI is the result of one run of the gql command.
type CLI struct {
	Out, Err string
	Code     int
	Hung     bool
	Signal   string
}

func (c CLI) String() string {
	return fmt.Sprintf("exit status %d%s\nstdout: %s\nstderr: %s", c.Code, c.Signal, clipS(c.Out, 1500), clipS(c.Err, 800))
}

// runGQL runs the command built from /repo in dir.
func runGQL(r *e.Run, dir string, stdin []byte, args ...string) CLI {
	return runBin(r.GQL, dir, stdin, 60*time.Second, args...)
}

func runBin(bin, dir string, stdin []byte, limit time.Duration, args ...string) CLI {
	return runEnv(bin, dir, stdin, limit, nil, args...)
}

func runEnv(bin, dir string, stdin []byte, limit time.Duration, env []string, args ...string) CLI {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	if stdin != nil {
		cmd.Stdin = bytes.NewReader(stdin)
	}
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	cmd.Env = append(cmd.Env, env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	c := CLI{Out: out.String(), Err: errb.String()}
	if ctx.Err() != nil {
		c.Hung = true
		c.Code = -1
		return c
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			c.Code = ee.ExitCode()
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				c.Signal = " (" + ws.Signal().String() + ")"
			}
		} else {
			panic(fmt.Sprint("cannot run the gql command: ", err))
		}
	}
	return c
}

// workDir is a fresh directory of a worker.
func workDir(w *e.W, tag string) string {
	d := filepath.Join(w.R.Scratch, "w"+strconv.Itoa(w.ID), tag)
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

func putFile(dir, name, text string) {
	if filepath.Dir(name) != "." {
		_ = os.MkdirAll(filepath.Dir(filepath.Join(dir, name)), 0o755)
	}
	if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644); err != nil {
		panic(err)
	}
}

// emptyDir removes the regular entries of a scratch directory.
func emptyDir(dir string) {
	es, err := os.ReadDir(dir)
	if err != nil {
		panic(err)
	}
	for _, x := range es {
		if err := os.RemoveAll(filepath.Join(dir, x.Name())); err != nil {
			panic(err)
		}
	}
}
