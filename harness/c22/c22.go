package main

import (
	"strconv"

	libunlynx "github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

func zzRoster() (kyber.Scalar, *onet.Roster) {
	x := libunlynx.SuiTe.Scalar().Pick(libunlynx.SuiTe.RandomStream())
	return x, &onet.Roster{Aggregate: libunlynx.SuiTe.Point().Mul(x, nil)}
}

func zzDecrypts(x kyber.Scalar, c libunlynx.CipherText, v int64) bool {
	p := libunlynx.SuiTe.Point().Sub(c.C, libunlynx.SuiTe.Point().Mul(x, c.K))
	return p.Equal(libunlynx.SuiTe.Point().Mul(libunlynx.SuiTe.Scalar().SetInt64(v), nil))
}

func zzDigit(c byte) bool { return c >= '0' && c <= '9' }

// zzList is an independent parser of {item, item}; it returns the items.
func zzList(s string) ([]string, bool) {
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		return nil, false
	}
	s = s[1 : len(s)-1]
	var items []string
	cur := ""
	first := true // no character of the item seen
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == ',':
			items = append(items, cur)
			cur, first = "", true
		case s[i] == ' ' && first && len(items) > 0:
		default:
			cur += string(s[i : i+1])
			first = false
		}
	}
	return append(items, cur), true
}

func zzNumber(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !zzDigit(s[i]) {
			return false
		}
	}
	return true
}

// zzName tells whether s is the letter followed by a number.
func zzName(s string, letter byte) bool {
	return len(s) > 1 && s[0] == letter && zzNumber(s[1:])
}

func zzSame(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// zzCheck compares parseQuery with the reference.
func zzCheck(sum string, count bool, where, predicate, groupBy string) {
	x, el := zzRoster()
	gotSum, gotCount, gotWhere, gotPred, gotGroup, err := parseQuery(el, sum, count, where, predicate, groupBy)
	// reference
	ok := true
	sums, k := zzList(sum)
	if !k {
		ok = false
	}
	hasCount := false
	for _, s := range sums {
		if s == "count" {
			hasCount = true
		} else if !zzName(s, 's') {
			ok = false
		}
	}
	if count && !hasCount {
		ok = false
	}
	var names []string
	var values []int64
	if (where == "") != (predicate == "") {
		ok = false
	}
	if where != "" {
		ws, k := zzList(where)
		if !k || len(ws)%2 != 0 {
			ok = false
		}
		for i, w := range ws {
			if i%2 == 0 {
				if !zzName(w, 'w') {
					ok = false
				}
				names = append(names, w)
			} else {
				if !zzNumber(w) {
					ok = false
				}
				v, perr := strconv.ParseInt(w, 10, 64)
				if perr != nil {
					ok = false
				}
				values = append(values, v)
			}
		}
	}
	var groups []string
	if groupBy != "" {
		groups, k = zzList(groupBy)
		if !k {
			ok = false
		}
		for _, g := range groups {
			if !zzName(g, 'g') {
				ok = false
			}
		}
	}
	sym.Assert((err == nil) == ok, "a query is wrongly accepted or rejected")
	if !ok {
		return
	}
	sym.Assert(zzSame(gotSum, sums), "other sum attributes")
	sym.Assert(gotCount == count, "another count")
	sym.Assert(gotPred == predicate, "another predicate")
	sym.Assert(zzSame(gotGroup, groups), "other groupBy attributes")
	sym.Assert(len(gotWhere) == len(values), "another number of where attributes")
	for i := range values {
		sym.Assert(gotWhere[i].Name == names[i], "another where attribute")
		sym.Assert(zzDecrypts(x, gotWhere[i].Value, values[i]), "another where value")
	}
}

func zzDigits(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(sym.Int64("digit", '0', '9'))
	}
	return string(b)
}

func zzSep() string { return []string{",", ", ", ",  "}[sym.Choice("sep", 3)] }

func zzNames(letter string, n int) string {
	s := "{"
	for i := 0; i < n; i++ {
		if i > 0 {
			s += zzSep()
		}
		s += letter + zzDigits(1+i%2)
	}
	return s + "}"
}

// H_names: well-formed queries with any names.
func H_names() {
	sum := zzNames("s", 1+sym.Choice("sums", 3))
	group := ""
	if n := sym.Choice("groups", 4); n > 0 {
		group = zzNames("g", n)
	}
	zzCheck(sum, false, "{w1, 1}", "v0 == v1", group)
}

// H_count: count queries.
func H_count() {
	d := zzDigits(1)
	sum := []string{"{s" + d + "}", "{s" + d + ",s1" + d + "}", "{s1, count}", "{count, s1,s2}", "{count}", "{s1, counter}", "{s1 ,count}", "{scount}"}[sym.Choice("sum", 8)]
	zzCheck(sum, sym.Choice("count", 2) == 1, "", "", "{g1}")
}

// H_where: where attributes of any name and value.
func H_where() {
	pred := []string{"v0 == v1", "", "(v0 == v1 || v2 == v3) && v4 == v5"}[sym.Choice("pred", 3)]
	where := ""
	switch sym.Choice("where", 5) {
	case 1:
		where = "{w" + zzDigits(1) + zzSep() + strconv.FormatInt(sym.Int64("v", 0, 1<<63-1), 10) + "}"
	case 2:
		where = "{w1, " + zzDigits(3) + zzSep() + "w" + zzDigits(2) + ", " + zzDigits(1+sym.Choice("digits", 3)) + "}"
	case 3:
		where = "{w1, 1, w2}"
	case 4:
		where = "{w1, 99999999999999999999}"
	}
	zzCheck("{s1}", false, where, pred, "{g1, g2}")
}

// H_many: many names, of which one has a free digit.
func H_many() {
	ls := []int{9, 10, 11, 12, 16, 17, 33, 65, 101, 129, 257}
	n := ls[sym.Choice("n", len(ls))]
	at := []int{0, 9, n / 2, n - 1}[sym.Choice("at", 4)]
	sep := zzSep()
	list := func(letter string, value string) string {
		s := "{"
		for i := 0; i < n; i++ {
			if i > 0 {
				s += sep
			}
			s += letter
			if i == at {
				s += zzDigits(1)
			} else {
				s += strconv.Itoa(n - i)
			}
			if value != "" {
				s += sep + value
				if i != at {
					s += strconv.Itoa(i)
				}
			}
		}
		return s + "}"
	}
	switch sym.Choice("kind", 3) {
	case 0:
		zzCheck(list("s", ""), false, "{w1, 1}", "v0 == v1", "{g1}")
	case 1:
		zzCheck("{s1}", false, "", "", list("g", ""))
	case 2:
		zzCheck("{s1}", false, list("w", "3"), "v0 == v1", "{g1}")
	}
}

// H_long: long names and long predicates.
func H_long() {
	ls := []int{5, 17, 33, 65, 129, 257}
	n := ls[sym.Choice("n", len(ls))]
	d := ""
	p := "v0 == v1"
	for i := 0; i < n; i++ {
		d += "7"
		p += " || v0 == v1"
	}
	d += zzDigits(1)
	zzCheck("{s"+d+",s1}", false, "{w1, 1, w"+d+", 5}", p, "{g2, g"+d+"}")
}

// H_missing: parameters that are missing or empty.
func H_missing() {
	opt := func(vs ...string) string { return vs[sym.Choice("p", len(vs))] }
	zzCheck(opt("", "{}", "{s1}"), sym.Choice("count", 2) == 1, opt("", "{}", "{w1, 2}"), opt("", "v0 == v1"), opt("", "{}", "{g1}", "{g1, g2}"))
}

// H_altered: one byte of a parameter is replaced, inserted or removed.
func H_altered() {
	which := sym.Choice("parameter", 3)
	base := [][]string{{"{s1}", "{s1, s23}", "{s1,count}"}, {"{w1, 1}", "{w12,3, w4,56}", "{w1,1,w2,2}"}, {"{g1}", "{g12, g3}", "{g1,g2,g3}"}}[which]
	s := base[sym.Choice("base", 3)]
	at := sym.Choice("at", 16)
	sym.Assume(at <= len(s))
	switch sym.Choice("how", 3) {
	case 0:
		s = s[:at] + string(sym.Bytes("b", 1)) + s[at:]
	case 1:
		sym.Assume(at < len(s))
		s = s[:at] + string(sym.Bytes("b", 1)) + s[at+1:]
	case 2:
		sym.Assume(at < len(s))
		s = s[:at] + s[at+1:]
	}
	ps := []string{"{s1}", "{w1, 1}", "{g1}"}
	ps[which] = s
	zzCheck(ps[0], false, ps[1], "v0 == v1", ps[2])
}
