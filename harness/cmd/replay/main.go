// Command replay runs a harness natively on concrete assignments: either one
// replay file, or requests on standard input (-server).
package main

import (
	"bufio"
	"bytes"
	"encoding/gob"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"strconv"

	"verif/harness/sym"
)

type request struct {
	Harness  string            `json:"harness"`
	Assign   map[string]uint64 `json:"assign"`
	Thorough bool              `json:"thorough"`
}

func main() {
	flag.BoolVar(&sym.RaceMode, "concurrent", false, "run concurrent calls in goroutines")
	flag.IntVar(&sym.FreshOnly, "fresh", 0, "run only this call, as a new process")
	server := flag.Bool("server", false, "answer requests")
	thorough := flag.Bool("thorough", false, "thorough bounds")
	flag.Parse()
	if sym.FreshOnly > 0 {
		var rq request
		if err := json.NewDecoder(os.Stdin).Decode(&rq); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		_, st, msg := sym.Run(registry[rq.Harness], rq.Assign, rq.Thorough)
		if st != "fresh" {
			fmt.Fprintln(os.Stderr, "status:", st, msg)
			os.Exit(2)
		}
		if err := gob.NewEncoder(os.Stdout).Encode(sym.FreshResult); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	var now request
	sym.RunFresh = func(n int, result any) error {
		rq, err := json.Marshal(now)
		if err != nil {
			return err
		}
		exe, err := os.Executable()
		if err != nil {
			return err
		}
		cmd := exec.Command(exe, "-fresh", strconv.Itoa(n))
		cmd.Stdin = bytes.NewReader(rq)
		var out, bad bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &bad
		if err := cmd.Run(); err != nil {
			return fmt.Errorf("%v: %s", err, bad.String())
		}
		return gob.NewDecoder(&out).Decode(result)
	}
	if !*server {
		b, err := os.ReadFile(flag.Arg(0))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var rq request
		if err := json.Unmarshal(b, &rq); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		now = rq
		s, st, msg := sym.Run(registry[rq.Harness], rq.Assign, rq.Thorough)
		if _, ok := rq.Assign["order of map iteration@1"]; ok {
			// the order is random: try until it is the one that fails
			for i := 0; i < 1000 && (st == "ok" || st == "assume"); i++ {
				s, st, msg = sym.Run(registry[rq.Harness], rq.Assign, rq.Thorough)
			}
		}
		fmt.Println("harness:", rq.Harness)
		for _, o := range s.Obs {
			fmt.Println("observed:", o)
		}
		fmt.Println("status:", st, msg)
		if st != "ok" && st != "assume" {
			os.Exit(1)
		}
		return
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var rq request
		if err := json.Unmarshal(line, &rq); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		f := registry[rq.Harness]
		var res map[string]any
		if f == nil {
			res = map[string]any{"status": "error", "msg": "no harness " + rq.Harness}
		} else {
			now = rq
			now.Thorough = *thorough
			s, st, msg := sym.Run(f, rq.Assign, *thorough)
			obs := s.Obs
			if obs == nil {
				obs = []string{}
			}
			res = map[string]any{"status": st, "msg": msg, "obs": obs, "reached": s.Reached}
		}
		b, _ := json.Marshal(res)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
