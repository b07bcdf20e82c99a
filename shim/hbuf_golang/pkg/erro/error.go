package erro

import "errors"

type Error struct{ error }

func NewError(msg string) *Error { return &Error{errors.New(msg)} }

func Wrap(err error) *Error { return &Error{err} }

func (e *Error) Unwrap() error { return e.error }
