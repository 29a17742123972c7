package uuid

import "strconv"

type UUID struct{ n int }

var next int

func NewV4() UUID              { next++; return UUID{next} }
func (u UUID) String() string  { return "uuid-" + strconv.Itoa(u.n) }
func Equal(a, b UUID) bool     { return a == b }
