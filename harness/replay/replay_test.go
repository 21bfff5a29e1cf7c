// Package replay runs one harness natively, against the real code, on given inputs.
package replay

import (
	"encoding/json"
	"fmt"
	"os"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness"
	"verif/harness/sym"
)

type request struct {
	Harness string            `json:"harness"`
	Tier    string            `json:"tier"`
	Inputs  map[string]uint64 `json:"inputs"`
}

type response struct {
	Status string    `json:"status"`
	Msg    string    `json:"msg"`
	Log    []sym.Obs `json:"log"`
}

func finish(status, msg string, code int) {
	b, _ := json.Marshal(response{status, msg, sym.Log})
	if p := os.Getenv("VERIF_OUT"); p != "" {
		os.WriteFile(p, b, 0o644)
	}
	if code != 0 || os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "%s %s\n", status, msg)
	}
	os.Exit(code)
}

func TestReplay(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("VERIF_REPLAY"))
	if err != nil {
		t.Skip("VERIF_REPLAY is not set")
	}
	var r request
	if err := json.Unmarshal(b, &r); err != nil {
		t.Fatal(err)
	}
	f := harness.All[r.Harness]
	if f == nil {
		t.Fatal("no harness " + r.Harness)
	}
	sym.Load(r.Inputs, r.Tier)
	sym.Failed = func(msg string) { finish("assert", msg, 3) }
	sym.Rejected = func() { finish("reject", "an assumption is not met", 4) }
	if os.Getenv("VERIF_NOBUBBLE") != "" {
		f()
		finish("ok", "", 0)
	}
	sym.Quiesce = synctest.Wait
	synctest.Test(t, func(t *testing.T) {
		time.Sleep(123456789) // as the clock of the executor
		f()
		finish("ok", "", 0)
	})
}
