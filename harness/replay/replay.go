// Package replay runs recorded inputs through the harnesses natively.
package replay

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/mmcloughlin/addchain/zzverif/nd"
)

// Result of one record.
type Result struct {
	ID    int      `json:"id"`
	Kind  string   `json:"kind"`
	Msg   string   `json:"msg"`
	Obs   []string `json:"obs"`
	Stack string   `json:"stack,omitempty"`
}

func one(r nd.Record, f func()) (res Result) {
	res.ID = r.ID
	res.Kind = "ok"
	nd.Begin(r)
	defer func() {
		res.Obs = nd.Obs
		switch x := recover().(type) {
		case nil:
		case nd.AssertFailed:
			res.Kind, res.Msg = "assert", x.Msg
		case nd.AssumeFailed:
			res.Kind = "assume"
		case nd.Diverged:
			res.Kind, res.Msg = "diverge", x.Msg
		default:
			res.Kind, res.Msg = "panic", fmt.Sprint(x)
			res.Stack = string(debug.Stack())
			if len(res.Stack) > 4000 {
				res.Stack = res.Stack[:4000]
			}
		}
	}()
	f()
	return
}

// Main reads records (one JSON object per line) and writes results.
func Main(hs map[string]func()) {
	if os.Getenv("ND_RACE") == "" {
		// a runaway program ends here, not in the sandbox
		lim := uint64(3 << 30)
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := json.NewEncoder(os.Stdout)
	for {
		line, err := in.ReadString('\n')
		line = strings.TrimSpace(line)
		if line != "" {
			var r nd.Record
			if e := json.Unmarshal([]byte(line), &r); e != nil {
				fmt.Fprintln(os.Stderr, e)
				os.Exit(3)
			}
			f := hs[r.Harness]
			if f == nil {
				fmt.Fprintln(os.Stderr, "no harness", r.Harness)
				os.Exit(3)
			}
			// announce, so that a crash of the process can be attributed
			fmt.Printf("#%d\n", r.ID)
			ch := make(chan Result, 1)
			go func() {
				var res Result
				n := r.Tries
				nd.Perturb = n > 0
				if n < 1 {
					n = 1
				}
				for i := 0; i < n; i++ {
					res = one(r, f)
					if res.Kind == "assert" || res.Kind == "panic" {
						break
					}
				}
				ch <- res
			}()
			select {
			case res := <-ch:
				out.Encode(res)
			case <-time.After(90 * time.Second):
				out.Encode(Result{ID: r.ID, Kind: "timeout", Msg: "no result in 90 s"})
				os.Exit(4)
			}
		}
		if err != nil {
			return
		}
	}
}
