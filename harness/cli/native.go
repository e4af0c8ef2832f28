package cli

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"io"
	"os"
	"path/filepath"

	cliz "github.com/kunitsucom/util.go/exp/cli"

	"github.com/kunitsucom/ddlctl/pkg/ddlctl"
	"github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"
)

// The real world: files in a scratch directory, standard streams in files, and drivers
// whose answers and failures come from w.

func init() {
	if sym.Symbolic() {
		return
	}
	for _, n := range []string{"postgres", "mysql", "spanner"} {
		sql.Register(n, fakeDriver{})
	}
}

func (x *world) native(args []string) error {
	dir, err := os.MkdirTemp("", "ddlctl-world")
	if err != nil {
		panic(err)
	}
	old, _ := os.Getwd()
	os.Mkdir(filepath.Join(dir, "work"), 0o755)
	os.Chdir(filepath.Join(dir, "work"))
	oin, oout, oerr, oargs := os.Stdin, os.Stdout, os.Stderr, os.Args
	co, ce := cliz.Stdout, cliz.Stderr
	var envs []string
	defer func() {
		os.Stdin, os.Stdout, os.Stderr, os.Args = oin, oout, oerr, oargs
		cliz.Stdout, cliz.Stderr = co, ce
		for _, k := range envs {
			os.Unsetenv(k)
		}
		os.Chdir(old)
		os.RemoveAll(dir)
	}()
	for _, d := range x.dirs {
		os.MkdirAll(d, 0o755)
	}
	for n, s := range x.files {
		os.MkdirAll(filepath.Dir(n), 0o755)
		os.WriteFile(n, []byte(s), 0o644)
	}
	for k, v := range x.env {
		os.Setenv(k, v)
		envs = append(envs, k)
	}
	std, err := os.MkdirTemp("", "ddlctl-std")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(std)
	os.WriteFile(filepath.Join(std, "in"), []byte(x.stdin), 0o644)
	in, _ := os.Open(filepath.Join(std, "in"))
	out, _ := os.Create(filepath.Join(std, "out"))
	null, _ := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	defer in.Close()
	defer null.Close()
	if x.badWrite {
		out.Close()
	}
	os.Stdin, os.Stdout, os.Stderr, os.Args = in, out, null, args
	cliz.Stdout, cliz.Stderr = out, null
	err = ddlctl.DDLCtl(context.Background())
	out.Close()
	b, _ := os.ReadFile(filepath.Join(std, "out"))
	x.out = string(b)
	x.written = map[string]string{}
	filepath.Walk(".", func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			c, _ := os.ReadFile(p)
			x.written[p] = string(c)
		}
		return nil
	})
	return err
}

type fakeDriver struct{}

func (fakeDriver) Open(string) (driver.Conn, error) {
	if err := w.event("open", ""); err != nil {
		return nil, err
	}
	return &fakeConn{}, nil
}

type fakeConn struct{}

func (*fakeConn) Prepare(q string) (driver.Stmt, error) { return nil, errors.New("not supported") }
func (*fakeConn) Begin() (driver.Tx, error)             { return nil, errors.New("not supported") }
func (*fakeConn) Close() error                          { return w.event("close", "") }
func (*fakeConn) Ping(context.Context) error            { return nil }
func (*fakeConn) ExecContext(_ context.Context, q string, _ []driver.NamedValue) (driver.Result, error) {
	if err := w.event("exec", q); err != nil {
		return nil, err
	}
	return driver.ResultNoRows, nil
}

func (*fakeConn) QueryContext(_ context.Context, q string, named []driver.NamedValue) (driver.Rows, error) {
	if err := w.event("query", q); err != nil {
		return nil, err
	}
	var args []any
	for _, a := range named {
		args = append(args, a.Value)
	}
	return &fakeRows{t: w.answer(q, args)}, nil
}

type fakeRows struct {
	t table
	i int
}

func (r *fakeRows) Columns() []string { return r.t.cols }
func (r *fakeRows) Close() error      { return nil }
func (r *fakeRows) Next(dest []driver.Value) error {
	if r.i >= len(r.t.rows) {
		return io.EOF
	}
	for i, v := range r.t.rows[r.i] {
		dest[i] = v
	}
	r.i++
	return nil
}
