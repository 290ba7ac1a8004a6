package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"time"
)

// Replayer runs concrete cases against the natively compiled code.
type Replayer struct {
	mu   sync.Mutex
	bin  string
	race string
	repo string
	dir  string
	ov   string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	N    int
}

type NativeResult struct {
	OK     bool     `json:"ok"`
	Assume bool     `json:"assume"`
	Assert string   `json:"assert"`
	Panic  string   `json:"panic"`
	Hang   bool     `json:"hang"`
	Crash  bool     `json:"crash"`
	Race   bool     `json:"race"`
	Err    string   `json:"err"`
	Obs    []string `json:"obs"`
}

func (r NativeResult) Confirms() bool {
	return r.Assert != "" || r.Panic != "" || r.Hang || r.Crash || r.Race
}

func (r NativeResult) String() string {
	switch {
	case r.Race:
		return "data race between two concurrent calls"
	case r.Assert != "":
		return "assertion failed: " + r.Assert
	case r.Panic != "":
		return "panic: " + r.Panic
	case r.Hang:
		return "did not finish"
	case r.Crash:
		return "process crashed"
	case r.Assume:
		return "assumption not met"
	case r.Err != "":
		return "replay error: " + r.Err
	}
	return "passed"
}

func NewReplayer(repo, harness, dir string) (*Replayer, error) {
	r := &Replayer{repo: repo, dir: dir}
	ov, err := overlayFiles(repo, harness)
	if err != nil {
		return nil, err
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	r.ov = filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(r.ov, b, 0o644); err != nil {
		return nil, err
	}
	r.bin, err = r.build(false)
	return r, err
}

func (r *Replayer) build(race bool) (string, error) {
	bin := filepath.Join(r.dir, "replay")
	args := []string{"build", "-overlay", r.ov}
	env := goEnv()
	if race {
		bin += "-race"
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	args = append(args, "-o", bin, "./"+overlayDir+"/cmd")
	cmd := exec.Command("go", args...)
	cmd.Dir = r.repo
	cmd.Env = env
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building the replay program: %v\n%s", err, out)
	}
	return bin, nil
}

func (r *Replayer) close() {
	if r.cmd != nil {
		r.in.Close()
		r.cmd.Process.Kill()
		r.cmd.Wait()
		r.cmd = nil
	}
}

func (r *Replayer) Close() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.close()
}

func (r *Replayer) start() error {
	r.cmd = exec.Command(r.bin)
	var err error
	if r.in, err = r.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := r.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	r.out = bufio.NewReaderSize(o, 1<<20)
	return r.cmd.Start()
}

func (r *Replayer) Run(c Case) NativeResult {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.N++
	if c.Kind == "assert" && len(c.Msg) > 12 && c.Msg[:12] == "shared state" {
		return r.runRace(c)
	}
	if r.cmd == nil {
		if err := r.start(); err != nil {
			return NativeResult{Err: err.Error()}
		}
	}
	b, _ := json.Marshal(c)
	b = append(b, '\n')
	if _, err := r.in.Write(b); err != nil {
		r.close()
		return NativeResult{Err: err.Error()}
	}
	type rd struct {
		l   []byte
		err error
	}
	ch := make(chan rd, 1)
	out := r.out
	go func() {
		l, err := out.ReadBytes('\n')
		ch <- rd{l, err}
	}()
	select {
	case x := <-ch:
		if x.err != nil {
			r.close()
			return NativeResult{Crash: true}
		}
		var res NativeResult
		if err := json.Unmarshal(x.l, &res); err != nil {
			r.close()
			return NativeResult{Err: err.Error()}
		}
		if res.Hang {
			r.close()
		}
		return res
	case <-time.After(40 * time.Second):
		r.close()
		return NativeResult{Hang: true}
	}
}

func (r *Replayer) runRace(c Case) NativeResult {
	if r.race == "" {
		b, err := r.build(true)
		if err != nil {
			return NativeResult{Err: err.Error()}
		}
		r.race = b
	}
	b, _ := json.Marshal(c)
	for i := 0; i < 5; i++ {
		cmd := exec.Command(r.race)
		cmd.Env = append(os.Environ(), "GORACE=exitcode=66 halt_on_error=1")
		in, _ := cmd.StdinPipe()
		if err := cmd.Start(); err != nil {
			return NativeResult{Err: err.Error()}
		}
		in.Write(append(b, '\n'))
		in.Close()
		err := cmd.Wait()
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 66 {
			return NativeResult{Race: true}
		}
	}
	return NativeResult{OK: true}
}
