exec(open("/tmp/seeds/dbcommon.py").read())
id="sql-row-skipped"; property="C19"
needs="a row whose stored value the member cannot hold, such as null in a column read into a number"
breaks="the row is silently missing from the list instead of the read failing"
edits=[("pkg/golang/database.go",'''		dst.Code("\\t\\terr := rows.Scan(" + scan.String() + ")\\n")
	dst.Code("\\t\\tif err == nil {\\n")
	dst.Code("\\t\\t\\tret = append(ret, val)\\n")
	dst.Code("\\t\\t}\\n")
	dst.Code("\\t\\treturn true, err\\n")
'''[1:],'''		dst.Code("\\t\\tif err := rows.Scan(" + scan.String() + "); err != nil {\\n")
	dst.Code("\\t\\t\\treturn true, nil\\n")
	dst.Code("\\t\\t}\\n")
	dst.Code("\\t\\tret = append(ret, val)\\n")
	dst.Code("\\t\\treturn true, nil\\n")
'''[1:])]
M=DBMAIN.replace('"strings";','"strings";"database/sql/driver";"io";')
M=M.replace('e.text, e.args = q, args; return nil, errors.New("no database")','return one.Query(q, args...)')
M=M.replace('var _ = strings.Index','''var _ = strings.Index
var _ = errors.New
type drv struct{}
func (drv) Open(string) (driver.Conn, error) { return drv{}, nil }
func (drv) Prepare(string) (driver.Stmt, error) { return drv{}, nil }
func (drv) Close() error { return nil }
func (drv) Begin() (driver.Tx, error) { return nil, errors.New("no transactions") }
func (drv) NumInput() int { return -1 }
func (drv) Exec([]driver.Value) (driver.Result, error) { return nil, errors.New("no exec") }
func (drv) Query([]driver.Value) (driver.Rows, error) { return &rows{}, nil }
type rows struct{ n int }
func (*rows) Columns() []string { return []string{"id", "size"} }
func (*rows) Close() error { return nil }
func (r *rows) Next(to []driver.Value) error {
	r.n++
	if r.n > 3 { return io.EOF }
	to[0], to[1] = int64(r.n), int64(7)
	if r.n == 2 { to[1] = nil }
	return nil
}
var one = func() *sql.DB { sql.Register("one", drv{}); d, err := sql.Open("one", ""); if err != nil { panic(err) }; return d }()
''')
files=gogen({"a.hbuf":'''package go = "a"
[db: name = "t_row"; list = "self"]
data Row {
	[db: name = "id"; key = "true"]
	int32 id = 1
	[db: name = "size"]
	int32 size = 2
}
'''}, M % '''	l, err := a.Row{}.DbList(ctx)
	if err == nil { panic(l) }
''')
