package xerrors

import (
	"errors"
	"fmt"
)

func New(s string) error                               { return errors.New(s) }
func Errorf(format string, args ...interface{}) error { return fmt.Errorf(format, args...) }
