package cli

import (
	"context"
	"database/sql"
	"errors"
	"io"
	"io/fs"
	"log"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/kunitsucom/ddlctl/pkg/logs"
	"github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"
)

// The engine calls these in place of the functions named; natively they are never called.

const cwd = "/work"

func enter(args []string) {
	os.Args = args
	os.Stdin = new(os.File)
	os.Stdout = new(os.File)
	os.Stderr = new(os.File)
	handles = nil
	openRows = nil
	pos = 0
}

func clean(name string) string {
	name = path.Clean(name)
	return strings.TrimPrefix(name, cwd+"/")
}

var pos int

//symgo:replace os.Getwd
func getwd() (string, error) { return cwd, nil }

//symgo:replace os.Getenv
func getenv(k string) string { return w.env[k] }

//symgo:replace os.LookupEnv
func lookupEnv(k string) (string, bool) { v, ok := w.env[k]; return v, ok }

//symgo:replace os.ReadFile
func readFile(name string) ([]byte, error) {
	if s, ok := w.written[clean(name)]; ok {
		return []byte(s), nil
	}
	if isDir(clean(name)) {
		return nil, &fs.PathError{Op: "read", Path: name, Err: errors.New("is a directory")}
	}
	return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
}

func isDir(name string) bool {
	if name == "." || name == cwd {
		return true
	}
	for _, d := range w.dirs {
		if d == name {
			return true
		}
	}
	return false
}

type info struct {
	name string
	dir  bool
	size int64
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.dir }
func (i info) Sys() any           { return nil }
func (i info) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (i info) Type() fs.FileMode          { return i.Mode().Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }
func (i info) String() string             { return i.name }

func statOf(name string) (info, bool) {
	n := clean(name)
	if s, ok := w.written[n]; ok {
		return info{path.Base(n), false, int64(len(s))}, true
	}
	if isDir(n) {
		return info{path.Base(n), true, 0}, true
	}
	return info{}, false
}

//symgo:replace os.Stat
func stat(name string) (os.FileInfo, error) {
	i, ok := statOf(name)
	if !ok {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
	}
	return i, nil
}

//symgo:replace os.Lstat
func lstat(name string) (os.FileInfo, error) { return stat(name) }

//symgo:replace os.ReadDir
func readDir(name string) ([]os.DirEntry, error) {
	n := clean(name)
	if !isDir(n) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	var names []string
	sym.MapOrder(false)
	defer sym.MapOrder(w.order)
	for f := range w.written {
		if path.Dir(f) == n {
			names = append(names, f)
		}
	}
	for _, d := range w.dirs {
		if path.Dir(d) == n && d != n {
			names = append(names, d)
		}
	}
	sort.Strings(names)
	var out []os.DirEntry
	for _, f := range names {
		i, _ := statOf(f)
		out = append(out, i)
	}
	return out, nil
}

type handle struct {
	f    *os.File
	name string
	off  int
}

var handles []*handle

func handleOf(f *os.File) *handle {
	for _, h := range handles {
		if h.f == f {
			return h
		}
	}
	return nil
}

//symgo:replace os.OpenFile
func openFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	n := clean(name)
	_, ok := w.written[n]
	if isDir(n) || (!ok && (flag&os.O_CREATE == 0 || !isDir(path.Dir(n)))) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	if !ok || flag&os.O_TRUNC != 0 {
		w.written[n] = ""
	}
	h := &handle{f: new(os.File), name: n}
	if flag&os.O_APPEND != 0 {
		h.off = len(w.written[n])
	}
	handles = append(handles, h)
	return h.f, nil
}

//symgo:replace os.Create
func create(name string) (*os.File, error) {
	return openFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

//symgo:replace os.Open
func open(name string) (*os.File, error) { return openFile(name, os.O_RDONLY, 0) }

//symgo:replace os.WriteFile
func writeFile(name string, data []byte, perm os.FileMode) error {
	f, err := openFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = fileWrite(f, data)
	return err
}

//symgo:replace os.Remove
func remove(name string) error {
	if _, ok := w.written[clean(name)]; !ok {
		return &fs.PathError{Op: "remove", Path: name, Err: fs.ErrNotExist}
	}
	delete(w.written, clean(name))
	return nil
}

//symgo:replace os.Rename
func rename(from, to string) error {
	s, ok := w.written[clean(from)]
	if !ok {
		return &fs.PathError{Op: "rename", Path: from, Err: fs.ErrNotExist}
	}
	delete(w.written, clean(from))
	w.written[clean(to)] = s
	return nil
}

//symgo:replace (*os.File).Close
func fileClose(f *os.File) error { return nil }

//symgo:replace (*os.File).Sync
func fileSync(f *os.File) error { return nil }

//symgo:replace (*os.File).Name
func fileName(f *os.File) string {
	if h := handleOf(f); h != nil {
		return h.name
	}
	return ""
}

//symgo:replace (*os.File).Read
func fileRead(f *os.File, p []byte) (int, error) {
	if f == os.Stdin {
		if pos >= len(w.stdin) {
			return 0, io.EOF
		}
		n := copy(p, w.stdin[pos:])
		pos += n
		return n, nil
	}
	h := handleOf(f)
	if h == nil {
		return 0, fs.ErrInvalid
	}
	s := w.written[h.name]
	if h.off >= len(s) {
		return 0, io.EOF
	}
	n := copy(p, s[h.off:])
	h.off += n
	return n, nil
}

//symgo:replace (*os.File).Write
func fileWrite(f *os.File, p []byte) (int, error) {
	return fileWriteString(f, string(p))
}

//symgo:replace (*os.File).WriteString
func fileWriteString(f *os.File, s string) (int, error) {
	if f == os.Stdout {
		if w.badWrite {
			return 0, fs.ErrClosed
		}
		w.out += s
		return len(s), nil
	}
	if f == os.Stderr {
		return len(s), nil
	}
	h := handleOf(f)
	if h == nil {
		return 0, fs.ErrInvalid
	}
	old := w.written[h.name]
	w.written[h.name] = old[:h.off] + s
	h.off += len(s)
	return len(s), nil
}

// ---- the database ----

type openRow struct {
	r    *sql.Rows
	t    table
	next int
}

var openRows []*openRow

func rowOf(r *sql.Rows) *openRow {
	for _, o := range openRows {
		if o.r == r {
			return o
		}
	}
	return nil
}

//symgo:replace database/sql.Open
func sqlOpen(driverName, dsn string) (*sql.DB, error) {
	switch driverName {
	case "postgres", "mysql", "spanner":
		return new(sql.DB), nil
	}
	return nil, errors.New("sql: unknown driver")
}

//symgo:replace (*database/sql.DB).PingContext
func dbPing(db *sql.DB, ctx context.Context) error { return w.event("open", "") }

//symgo:replace (*database/sql.DB).Close
func dbClose(db *sql.DB) error { return w.event("close", "") }

type result struct{}

func (result) LastInsertId() (int64, error) { return 0, nil }
func (result) RowsAffected() (int64, error) { return 0, nil }

//symgo:replace (*database/sql.DB).ExecContext
func dbExec(db *sql.DB, ctx context.Context, q string, args ...any) (sql.Result, error) {
	if err := w.event("exec", q); err != nil {
		return nil, err
	}
	return result{}, nil
}

//symgo:replace (*database/sql.DB).Exec
func dbExec0(db *sql.DB, q string, args ...any) (sql.Result, error) {
	return dbExec(db, context.Background(), q, args...)
}

//symgo:replace (*database/sql.DB).Conn
func dbConn(db *sql.DB, ctx context.Context) (*sql.Conn, error) { return new(sql.Conn), nil }

//symgo:replace (*database/sql.Conn).ExecContext
func connExec(c *sql.Conn, ctx context.Context, q string, args ...any) (sql.Result, error) {
	return dbExec(nil, ctx, q, args...)
}

//symgo:replace (*database/sql.Conn).Close
func connClose(c *sql.Conn) error { return nil }

//symgo:replace (*database/sql.DB).QueryContext
func dbQuery(db *sql.DB, ctx context.Context, q string, args ...any) (*sql.Rows, error) {
	if err := w.event("query", q); err != nil {
		return nil, err
	}
	o := &openRow{r: new(sql.Rows), t: w.answer(q, args)}
	openRows = append(openRows, o)
	return o.r, nil
}

//symgo:replace (*database/sql.DB).Query
func dbQuery0(db *sql.DB, q string, args ...any) (*sql.Rows, error) {
	return dbQuery(db, context.Background(), q, args...)
}

//symgo:replace (*database/sql.Rows).Columns
func rowsColumns(r *sql.Rows) ([]string, error) { return rowOf(r).t.cols, nil }

//symgo:replace (*database/sql.Rows).Next
func rowsNext(r *sql.Rows) bool {
	o := rowOf(r)
	if o.next >= len(o.t.rows) {
		return false
	}
	o.next++
	return true
}

//symgo:replace (*database/sql.Rows).Err
func rowsErr(r *sql.Rows) error { return nil }

//symgo:replace (*database/sql.Rows).Close
func rowsClose(r *sql.Rows) error { return nil }

var errScan = errors.New("sql: Scan error")

//symgo:replace (*database/sql.Rows).Scan
func rowsScan(r *sql.Rows, dest ...any) error {
	o := rowOf(r)
	row := o.t.rows[o.next-1]
	if len(dest) != len(row) {
		return errScan
	}
	for i, d := range dest {
		switch p := d.(type) {
		case *string:
			s, ok := row[i].(string)
			if !ok {
				return errScan
			}
			*p = s
		case **string:
			if row[i] == nil {
				*p = nil
				continue
			}
			s, ok := row[i].(string)
			if !ok {
				return errScan
			}
			*p = &s
		case *int:
			n, ok := row[i].(int64)
			if !ok {
				return errScan
			}
			*p = int(n)
		case *bool:
			b, ok := row[i].(bool)
			if !ok {
				return errScan
			}
			*p = b
		default:
			return errScan
		}
	}
	return nil
}

// ---- logging: the text is of no interest, but where it goes is ----

//symgo:replace (*github.com/kunitsucom/ddlctl/pkg/logs.DefaultLogger).Print
func logPrint(l *logs.DefaultLogger, v ...any) { l.Writer().Write([]byte("log\n")) }

//symgo:replace (*github.com/kunitsucom/ddlctl/pkg/logs.DefaultLogger).Printf
func logPrintf(l *logs.DefaultLogger, format string, v ...any) { l.Writer().Write([]byte("log\n")) }

//symgo:replace (*log.Logger).Output
func logOutput(l *log.Logger, depth int, s string) error {
	_, err := l.Writer().Write([]byte("log\n"))
	return err
}
