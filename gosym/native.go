package main

// Native replay: the same harness compiled by the Go compiler and run on one
// concrete assignment.

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"time"
)

type natRes struct {
	Status  string          `json:"status"` // ok assume assert panic hang
	Msg     string          `json:"msg"`
	Obs     []string        `json:"obs"`
	Reached map[string]bool `json:"reached"`
}

type natProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

type Native struct {
	bin      string
	thorough bool
	timeout  time.Duration
	pool     chan *natProc
	once     sync.Once
	N        int64
	mu       sync.Mutex
	dir      string
	args     []string // of go build for the replay program
	raceErr  error
}

func buildNative(hdir, modfile, outdir string) (*Native, error) {
	bin := filepath.Join(outdir, "replay")
	var args []string
	if modfile != "" {
		args = append(args, "-modfile="+modfile)
	}
	args = append(args, "./cmd/replay")
	c := exec.Command("go", append([]string{"build", "-o", bin}, args...)...)
	c.Dir = hdir
	c.Env = append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=mod", "CGO_ENABLED=0", "GOWORK=off")
	out, err := c.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("building replay: %v\n%s", err, out)
	}
	return &Native{bin: bin, dir: hdir, args: args, timeout: 20 * time.Second, pool: make(chan *natProc, 16)}, nil
}

// Race runs an assignment in a build with the race detector.
func (n *Native) Race(h string, as map[string]uint64, thorough bool) (bool, string, error) {
	n.once.Do(func() {
		c := exec.Command("go", append([]string{"build", "-race", "-o", n.bin + ".race"}, n.args...)...)
		c.Dir = n.dir
		c.Env = append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=mod", "CGO_ENABLED=1", "GOWORK=off")
		if out, err := c.CombinedOutput(); err != nil {
			n.raceErr = fmt.Errorf("building replay with -race: %v\n%s", err, out)
		}
	})
	if n.raceErr != nil {
		return false, "", n.raceErr
	}
	f, err := os.CreateTemp(filepath.Dir(n.bin), "race*.json")
	if err != nil {
		return false, "", err
	}
	b, _ := json.Marshal(map[string]any{"harness": h, "assign": as, "thorough": thorough})
	f.Write(b)
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, n.bin+".race", "-concurrent", f.Name())
	c.Env = append(os.Environ(), "TZ=UTC", "GORACE=halt_on_error=1 exitcode=66")
	out, err := c.CombinedOutput()
	return c.ProcessState != nil && c.ProcessState.ExitCode() == 66, string(out), nil
}

func (n *Native) get() (*natProc, error) {
	select {
	case p := <-n.pool:
		return p, nil
	default:
	}
	args := []string{"-server"}
	if n.thorough {
		args = append(args, "-thorough")
	}
	c := exec.Command(n.bin, args...)
	c.Env = append(os.Environ(), "TZ=UTC", "GOMEMLIMIT=2GiB")
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &natProc{c, in, bufio.NewReaderSize(out, 1<<20)}, nil
}

// Run replays one assignment. A hang or a dead process is only believed when
// it happens twice.
func (n *Native) Run(h string, as map[string]uint64) (*natRes, error) {
	r, err := n.run1(h, as, n.timeout)
	if err == nil && (r.Status == "hang" || r.Status == "died") {
		r, err = n.run1(h, as, 2*n.timeout)
		if err == nil && r.Status == "died" {
			r.Status = "panic"
		}
	}
	return r, err
}

func (n *Native) run1(h string, as map[string]uint64, tmo time.Duration) (*natRes, error) {
	p, err := n.get()
	if err != nil {
		return nil, err
	}
	req, _ := json.Marshal(map[string]any{"harness": h, "assign": as})
	type rr struct {
		line []byte
		err  error
	}
	ch := make(chan rr, 1)
	go func() {
		if _, err := p.in.Write(append(req, '\n')); err != nil {
			ch <- rr{nil, err}
			return
		}
		l, err := p.out.ReadBytes('\n')
		ch <- rr{l, err}
	}()
	select {
	case x := <-ch:
		if x.err != nil {
			p.cmd.Process.Kill()
			p.cmd.Wait()
			// the process died: a fatal error (stack overflow, out of memory)
			return &natRes{Status: "died", Msg: "process died: " + x.err.Error()}, nil
		}
		var res natRes
		if err := json.Unmarshal(x.line, &res); err != nil {
			return nil, err
		}
		n.pool <- p
		n.mu.Lock()
		n.N++
		n.mu.Unlock()
		return &res, nil
	case <-time.After(tmo):
		p.cmd.Process.Kill()
		p.cmd.Wait()
		return &natRes{Status: "hang", Msg: "no result within " + tmo.String()}, nil
	}
}

func (n *Native) Close() {
	for {
		select {
		case p := <-n.pool:
			p.in.Close()
			p.cmd.Process.Kill()
			p.cmd.Wait()
		default:
			return
		}
	}
}
