// Command replay runs harnesses natively on recorded inputs.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"

	"verif/harness/h"
	"verif/harness/sym"
)

type rec struct {
	H  string   `json:"h"`
	In []sym.In `json:"in"`
}

type result struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func runOne(r rec) (res result) {
	f := h.Registry[r.H]
	if f == nil {
		return result{Status: "diverged", Msg: "no harness " + r.H}
	}
	sym.Begin(r.In)
	h.Reset()
	done := make(chan any, 1)
	go func() {
		ok := false
		defer func() {
			p := recover()
			if !ok && p == nil {
				p = "goexit"
			}
			done <- p
		}()
		f()
		ok = true
	}()
	var p any
	select {
	case p = <-done:
	case <-time.After(20 * time.Second):
		return result{Status: "timeout", Msg: "no result after 20 s"}
	}
	obs, failed := sym.Result()
	res.Obs = obs
	switch {
	case failed != nil:
		res.Status, res.Msg = failed.Status, failed.Msg
	case p != nil:
		res.Status, res.Msg = "panic", fmt.Sprint(p)
	default:
		res.Status = "ok"
	}
	if res.Obs == nil {
		res.Obs = []string{}
	}
	return
}

func emit(r result) {
	b, _ := json.Marshal(r)
	os.Stdout.Write([]byte("RESULT " + string(b) + "\n"))
}

func main() {
	debug.SetMaxStack(256 << 20)
	b, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	var recs []rec
	if err := json.Unmarshal(b, &recs); err != nil {
		panic(err)
	}
	switch os.Args[1] {
	case "one", "cold":
		emit(runOne(recs[0]))
	case "batch":
		for _, r := range recs {
			x := runOne(r)
			emit(x)
			if x.Status == "timeout" {
				return // the runner is still busy: continue in a fresh process
			}
		}
	case "race":
		// stress: many runs with different parallelism
		var last result
		end := time.Now().Add(12 * time.Second)
		for i := 0; time.Now().Before(end) && i < 4000; i++ {
			if i%64 == 0 {
				runtime.GOMAXPROCS(1 + (i/64)%8)
			}
			last = runOne(recs[0])
			if last.Status != "ok" {
				break
			}
		}
		emit(last)
	}
}
