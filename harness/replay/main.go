// Command replay runs harnesses natively on concrete inputs: one JSON job per line on
// stdin, one JSON result per line on the original stdout.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"github.com/kunitsucom/ddlctl/pkg/zz_verif/cli"
	"github.com/kunitsucom/ddlctl/pkg/zz_verif/h"
	"github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"
)

type job struct {
	H      string `json:"h"`
	Inputs []struct {
		N string `json:"n"`
		V uint64 `json:"v"`
	} `json:"inputs"`
	Known []string `json:"known"`
	Tier  int      `json:"tier"`
}

type result struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Where  string   `json:"where,omitempty"`
	Obs    []string `json:"obs"`
}

func run(j job) (r result) {
	defer func() {
		p := recover()
		r.Obs = sym.S.Obs
		if p == nil {
			return
		}
		if o, ok := p.(sym.Outcome); ok {
			r.Status, r.Msg = o.Kind, o.Msg
			return
		}
		r.Status = "panic"
		r.Msg = fmt.Sprint(p)
		st := strings.Split(string(debug.Stack()), "\n")
		var fr []string
		for _, l := range st {
			if strings.HasPrefix(l, "github.com/kunitsucom/ddlctl/") && !strings.Contains(l, "zz_verif") {
				if i := strings.LastIndex(l, "("); i > 0 {
					l = l[:i]
				}
				fr = append(fr, strings.TrimPrefix(l, "github.com/kunitsucom/ddlctl/"))
				if len(fr) == 3 {
					break
				}
			}
		}
		r.Where = strings.Join(fr, " < ")
	}()
	f, ok := h.Registry[j.H]
	if !ok {
		f, ok = cli.Registry[j.H]
	}
	if !ok {
		return result{Status: "no-harness"}
	}
	f()
	return result{Status: "ok"}
}

func main() {
	out := os.Stdout
	if null, err := os.OpenFile("/dev/null", os.O_RDWR, 0); err == nil {
		os.Stdout = null
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			var j job
			if e := json.Unmarshal(line, &j); e != nil {
				fmt.Fprintf(out, "{\"status\":\"badjob\"}\n")
			} else {
				m := map[string]uint64{}
				for _, i := range j.Inputs {
					m[i.N] = i.V
				}
				k := map[string]bool{}
				for _, i := range j.Known {
					k[i] = true
				}
				sym.Reset(m, k, j.Tier)
				done := make(chan result, 1)
				go func() { done <- run(j) }()
				var r result
				hang := false
				select {
				case r = <-done:
				case <-time.After(20 * time.Second):
					r = result{Status: "hang"}
					hang = true
				}
				b, _ := json.Marshal(r)
				out.Write(append(b, '\n'))
				if hang {
					os.Exit(3)
				}
			}
		}
		if err != nil {
			return
		}
	}
}
