// Package cli drives the ddlctl command itself. Under the engine the operating system and
// the database are the stubs of this package; natively they are a scratch directory and
// database/sql drivers that answer from the same world.
package cli

import (
	"context"
	"errors"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/ddlctl"
	"github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"
)

// An event is one request the database saw: open, conn, exec, query, close.
type event struct {
	what, q string
	err     error
}

// A world is everything around one run of ddlctl.
type world struct {
	files map[string]string
	dirs  []string
	stdin string
	env   map[string]string

	out      string            // standard output
	written  map[string]string // files after the run
	log      []event
	fault    func(what, q string) error // the error of the next request
	answer   func(q string, args []any) table
	order    bool // every map iteration order
	badWrite bool // standard output refuses everything
}

// A table is the answer to a query.
type table struct {
	cols []string
	rows [][]any
}

var w *world

func newWorld() *world {
	return &world{
		files:  map[string]string{},
		env:    map[string]string{},
		fault:  func(string, string) error { return nil },
		answer: func(string, []any) table { return table{} },
	}
}

func (x *world) event(what, q string) error {
	err := x.fault(what, q)
	x.log = append(x.log, event{what, q, err})
	return err
}

var errDB = errors.New("database says no")

// run executes ddlctl with the arguments in the world.
func (x *world) run(args ...string) error {
	w = x
	args = append([]string{"ddlctl"}, args...)
	if sym.Symbolic() {
		enter(args)
		x.written = map[string]string{}
		for k, v := range x.files {
			x.written[k] = v
		}
		sym.MapOrder(x.order)
		defer sym.MapOrder(false)
		return ddlctl.DDLCtl(context.Background())
	}
	return x.native(args)
}

// count is the number of requests of the kind.
func (x *world) count(what string) int {
	n := 0
	for _, e := range x.log {
		if e.what == what {
			n++
		}
	}
	return n
}

// executed lists the statements sent for execution.
func (x *world) executed() []event {
	var out []event
	for _, e := range x.log {
		if e.what == "exec" {
			out = append(out, e)
		}
	}
	return out
}

const (
	before = "\n-- 8< --\n\n"
	after  = "\n\n-- >8 --\n"
)

// displayed is the migration text shown to the operator.
func (x *world) displayed() (string, bool) {
	i := strings.Index(x.out, before)
	if i < 0 {
		return "", false
	}
	s := x.out[i+len(before):]
	j := strings.LastIndex(s, after)
	if j < 0 {
		return "", false
	}
	return s[:j], true
}
