exec(open("/tmp/seeds/common.py").read())
DBMAIN='''package main
import ("context";"database/sql";"errors";"strings";"gen/p/a";"github.com/wskfjtheqian/hbuf_golang/pkg/db";"github.com/wskfjtheqian/hbuf_golang/pkg/cache")
var _ = strings.Index
var _ = cache.NewStore
type exec struct{ text string; args []any }
func (e *exec) Table(n string) string { return n }
func (e *exec) Query(q string, args ...any) (*sql.Rows, error) { e.text, e.args = q, args; return nil, errors.New("no database") }
func (e *exec) Exec(q string, args ...any) (sql.Result, error) { e.text, e.args = q, args; return result{}, nil }
type result struct{}
func (result) RowsAffected() (int64, error) { return 1, nil }
func (result) LastInsertId() (int64, error) { return 1, nil }
func p[T any](v T) *T { return &v }
func main(){
	e := &exec{}
	ctx := db.With(context.Background(), e)
	_ = ctx
%s
}
'''
def dbgen(schema, body): return gogen({"a.hbuf": schema}, DBMAIN % body)
