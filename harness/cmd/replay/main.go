// replay runs a harness natively on recorded values.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"

	"verif/harness/props"
	"verif/harness/sym"
)

type file struct {
	Harness string    `json:"harness"`
	Tier    int       `json:"tier"`
	Race    bool      `json:"race"`
	Values  []sym.Val `json:"values"`
	Items   []struct {
		Values []sym.Val `json:"values"`
	} `json:"items"`
}

type result struct {
	Status string    `json:"status"`
	Msg    string    `json:"msg,omitempty"`
	Obs    []sym.Val `json:"obs"`
}

func run(f func(), vals []sym.Val, tier int) (r result) {
	sym.Load(vals, tier)
	defer func() {
		r.Obs = sym.Obs
		switch e := recover().(type) {
		case nil:
			r.Status = "ok"
		case sym.Failure:
			r.Status, r.Msg = "fail", e.Msg
		case sym.Pruned:
			r.Status = "pruned"
		case sym.Diverged:
			r.Status, r.Msg = "diverged", e.Msg
		default:
			r.Status, r.Msg = "panic", fmt.Sprintf("panic: %v", e)
			if os.Getenv("REPLAY_STACK") != "" {
				debug.PrintStack()
			}
		}
	}()
	f()
	return
}

func main() {
	path := flag.String("file", "", "recorded violation")
	batch := flag.String("batch", "", "recorded completed paths")
	repeat := flag.Int("repeat", 60, "runs (map iteration order differs between them)")
	flag.Parse()
	p := *path
	if *batch != "" {
		p = *batch
	}
	b, err := os.ReadFile(p)
	if err != nil {
		fmt.Println(err)
		os.Exit(5)
	}
	var f file
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		os.Exit(5)
	}
	h, ok := props.All[f.Harness]
	if !ok {
		fmt.Println("no harness", f.Harness)
		os.Exit(5)
	}
	debug.SetMaxStack(256 << 20)
	if *batch != "" {
		enc := json.NewEncoder(os.Stdout)
		for _, it := range f.Items {
			enc.Encode(run(h, it.Values, f.Tier))
		}
		return
	}
	sym.Race = f.Race
	code := 0
	for i := 0; i < *repeat; i++ {
		r := run(h, f.Values, f.Tier)
		switch r.Status {
		case "ok":
			continue
		case "fail", "panic":
			fmt.Printf("VIOLATED by %s: %s\n", f.Harness, r.Msg)
			os.Exit(3)
		case "pruned":
			code = 4
		case "diverged":
			fmt.Println("diverged:", r.Msg)
			code = 5
		}
	}
	if code == 0 {
		fmt.Println("held")
	}
	os.Exit(code)
}
