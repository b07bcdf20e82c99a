// Package cache is a stand-in for the cache runtime, kept in memory, with the
// locking rules of hbuf_golang v1.0.12 and a log of every operation.
package cache

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/wskfjtheqian/hbuf_golang/pkg/db"
)

type Event struct {
	Op    string // get, hit, set, del, unlock
	Table string
	Key   string
	Dur   time.Duration
	OK    bool
	At    int // statements sent before
}

// Store is one cache.
type Store struct {
	Entries map[string]string
	Locked  map[string]bool
	Log     []Event
	Fail    string     // the operation that fails: get, set or del
	Seen    func() int // statements so far
}

func NewStore() *Store { return &Store{Entries: map[string]string{}, Locked: map[string]bool{}} }

type key struct{}

func With(ctx context.Context, s *Store) context.Context { return context.WithValue(ctx, key{}, s) }

func get(ctx context.Context) *Store {
	s, _ := ctx.Value(key{}).(*Store)
	return s
}

func (s *Store) note(e Event) {
	if s.Seen != nil {
		e.At = s.Seen()
	}
	s.Log = append(s.Log, e)
}

func (s *Store) lock(table string) bool {
	if s.Locked[table] {
		return false
	}
	s.Locked[table] = true
	return true
}

func dbKey(table string, q *db.Sql) string {
	pc, _, line, _ := runtime.Caller(2)
	b, _ := json.Marshal(q.Params())
	return fmt.Sprintf("db:%s:%s:%d:%s:%s", table, runtime.FuncForPC(pc).Name(), line, q.Text(), b)
}

func DbGet[T any](ctx context.Context, k, table string, q *db.Sql, value *T) (*T, string, error) {
	if k == "" {
		k = dbKey(table, q)
	}
	s := get(ctx)
	if s == nil {
		return nil, k, nil
	}
	if s.Fail == "get" {
		s.note(Event{Op: "get", Table: table, Key: k})
		return nil, "", errors.New("the cache does not answer")
	}
	text, ok := s.Entries[k]
	s.note(Event{Op: "get", Table: table, Key: k, OK: ok})
	if !ok {
		return nil, k, nil
	}
	if err := json.Unmarshal([]byte(text), value); err != nil {
		return nil, "", err
	}
	return value, k, nil
}

func DbSet(ctx context.Context, k, table string, q *db.Sql, value any, d time.Duration) (string, error) {
	s := get(ctx)
	if s == nil {
		return k, nil
	}
	if s.Fail == "set" {
		s.note(Event{Op: "set", Table: table, Key: k, Dur: d})
		return "", errors.New("the cache does not answer")
	}
	ok := s.lock(table)
	if !ok {
		s.note(Event{Op: "set", Table: table, Key: k, Dur: d})
		return "", nil
	}
	if k == "" {
		k = dbKey(table, q)
	}
	b, err := json.Marshal(value)
	s.note(Event{Op: "set", Table: table, Key: k, Dur: d, OK: err == nil})
	if err != nil {
		return "", err
	}
	s.Entries[k] = string(b)
	return k, nil
}

func DbDel(ctx context.Context, table string) error {
	s := get(ctx)
	if s == nil {
		return nil
	}
	if s.Fail == "del" {
		s.note(Event{Op: "del", Table: table})
		return errors.New("the cache does not answer")
	}
	ok := s.lock(table)
	s.note(Event{Op: "del", Table: table, OK: ok})
	for k := range s.Entries {
		if strings.HasPrefix(k, "db:"+table+":") {
			delete(s.Entries, k)
		}
	}
	return nil
}

func DbUnlock(ctx context.Context, table string) error {
	s := get(ctx)
	if s == nil {
		return nil
	}
	s.note(Event{Op: "unlock", Table: table, OK: s.Locked[table]})
	delete(s.Locked, table)
	return nil
}
