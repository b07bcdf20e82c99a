// Package db is a stand-in for the database runtime: the statement builder of
// hbuf_golang v1.0.12 over database/sql, with a hook that sees every statement.
package db

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"strings"
)

type Execute interface {
	Table(name string) string
	Query(query string, args ...any) (*sql.Rows, error)
	Exec(query string, args ...any) (sql.Result, error)
}

type key struct{}

func With(ctx context.Context, e Execute) context.Context { return context.WithValue(ctx, key{}, e) }

func GET(ctx context.Context) Execute {
	e, _ := ctx.Value(key{}).(Execute)
	return e
}

type Sql struct {
	text   strings.Builder
	params []any
	del    string
}

func NewSql() *Sql { return &Sql{} }

func (s *Sql) T(query string) *Sql {
	s.text.WriteString(s.removeStart(strings.Trim(strings.Trim(query, " "), "\t")))
	s.text.WriteString(" ")
	return s
}

func (s *Sql) V(a any) *Sql {
	s.text.WriteString("? ")
	s.params = append(s.params, a)
	return s
}

func (s *Sql) P(args ...any) *Sql {
	s.params = append(s.params, args...)
	return s
}

func (s *Sql) L(question string, args ...any) *Sql {
	for i := range args {
		if i != 0 {
			s.text.WriteString(s.removeStart(question))
		}
		s.text.WriteString("? ")
	}
	s.params = append(s.params, args...)
	return s
}

func (s *Sql) removeStart(question string) string {
	if len(s.del) > 0 {
		question = strings.TrimPrefix(question, s.del)
		s.del = ""
	}
	return question
}

func (s *Sql) Del(text string) { s.del = text }

// Text and Params are what has been built.
func (s *Sql) Text() string  { return s.text.String() }
func (s *Sql) Params() []any { return s.params }

func (s *Sql) Query(ctx context.Context, scan func(*sql.Rows) (bool, error)) (int64, error) {
	rows, err := GET(ctx).Query(s.text.String(), s.params...)
	if err != nil {
		return 0, err
	}
	defer rows.Close()
	var count int64
	more := true
	for rows.Next() {
		count++
		if more {
			if more, err = scan(rows); err != nil {
				return 0, err
			}
		}
	}
	return count, rows.Err()
}

func (s *Sql) Exec(ctx context.Context) (int64, int64, error) {
	r, err := GET(ctx).Exec(s.text.String(), s.params...)
	if err != nil {
		return 0, 0, err
	}
	count, err := r.RowsAffected()
	if err != nil {
		return 0, 0, err
	}
	id, err := r.LastInsertId()
	return count, id, err
}

type ConverterJson struct{ data any }

func (t *ConverterJson) Scan(value any) error {
	switch v := value.(type) {
	case nil:
		return nil
	case []byte:
		return json.Unmarshal(v, t.data)
	case string:
		return json.Unmarshal([]byte(v), t.data)
	}
	return fmt.Errorf("cannot scan %T as JSON", value)
}

func (t ConverterJson) Value() (driver.Value, error) {
	b, err := json.Marshal(t.data)
	if err != nil {
		return nil, err
	}
	return string(b), nil
}

func NewJson(data any) *ConverterJson { return &ConverterJson{data} }
