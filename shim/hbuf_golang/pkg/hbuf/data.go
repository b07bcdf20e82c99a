// Package hbuf is a stand-in for the runtime library of generated Go code: the
// value types of hbuf_golang v1.0.12 with the same wire format.
package hbuf

import (
	"database/sql/driver"
	"fmt"
	"strconv"
	"strings"
	"time"
)

type Data interface {
	ToData() ([]byte, error)
	FormData([]byte) error
}

type Time time.Time

func (t *Time) UnmarshalJSON(data []byte) error {
	if string(data) == "null" {
		return nil
	}
	n, err := strconv.ParseInt(string(data), 10, 64)
	if err != nil {
		return err
	}
	*t = Time(time.UnixMilli(n))
	return nil
}

func (t Time) MarshalJSON() ([]byte, error) {
	return []byte(strconv.FormatInt(time.Time(t).UnixMilli(), 10)), nil
}

func (t Time) UnixMilli() int64 { return time.Time(t).UnixMilli() }

func (t *Time) Scan(value any) error {
	switch v := value.(type) {
	case nil:
		return nil
	case time.Time:
		*t = Time(v)
		return nil
	}
	return fmt.Errorf("cannot scan %T into a time", value)
}

func (t Time) Value() (driver.Value, error) { return time.Time(t), nil }

type Int64 int64

func (t Int64) String() string { return strconv.FormatInt(int64(t), 10) }

func unquote(data []byte) string {
	s := string(data)
	if len(s) > 2 && s[0] == '"' && s[len(s)-1] == '"' {
		s = s[1 : len(s)-1]
	}
	return s
}

func (t *Int64) UnmarshalJSON(data []byte) error {
	if string(data) == "null" {
		return nil
	}
	n, err := strconv.ParseInt(unquote(data), 10, 64)
	if err != nil {
		return err
	}
	*t = Int64(n)
	return nil
}

func (t Int64) MarshalJSON() ([]byte, error) {
	return []byte(`"` + strconv.FormatInt(int64(t), 10) + `"`), nil
}

func (t *Int64) Scan(value any) error {
	s, ok, err := text(value)
	if err != nil || !ok {
		return err
	}
	n, err := strconv.ParseInt(s, 10, 64)
	*t = Int64(n)
	return err
}

func (t Int64) Value() (driver.Value, error) { return int64(t), nil }

type Uint64 uint64

func (t *Uint64) UnmarshalJSON(data []byte) error {
	if string(data) == "null" {
		return nil
	}
	n, err := strconv.ParseUint(unquote(data), 10, 64)
	if err != nil {
		return err
	}
	*t = Uint64(n)
	return nil
}

func (t Uint64) MarshalJSON() ([]byte, error) {
	return []byte(`"` + strconv.FormatUint(uint64(t), 10) + `"`), nil
}

func (t *Uint64) Scan(value any) error {
	s, ok, err := text(value)
	if err != nil || !ok {
		return err
	}
	n, err := strconv.ParseUint(s, 10, 64)
	*t = Uint64(n)
	return err
}

func (t Uint64) Value() (driver.Value, error) {
	if t > 1<<63-1 {
		return strconv.FormatUint(uint64(t), 10), nil
	}
	return int64(t), nil
}

func text(value any) (string, bool, error) {
	switch v := value.(type) {
	case nil:
		return "", false, nil
	case int64:
		return strconv.FormatInt(v, 10), true, nil
	case []byte:
		return strings.TrimSpace(string(v)), true, nil
	case string:
		return strings.TrimSpace(v), true, nil
	}
	return "", false, fmt.Errorf("cannot scan %T into a number", value)
}
