// Package proof models the Sigma-protocol proofs as an ideal functionality: a
// proof is an opaque token bound to the statement it was made for and to
// whether that statement was true of the secrets used; verification accepts
// exactly when it is presented with that statement and the statement was true.
package proof

import (
	"errors"
	"hash"

	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/symgrp"
)

type Suite interface {
	kyber.Group
	kyber.Encoding
	kyber.XOFFactory
	kyber.Random
}

var _ hash.Hash

type ProverContext interface {
	Put(message interface{}) error
	PubRand(message ...interface{}) error
	PriRand(message ...interface{}) error
}

type VerifierContext interface {
	Get(message interface{}) error
	PubRand(message ...interface{}) error
}

type Prover func(ctx ProverContext) error
type Verifier func(ctx VerifierContext) error

// Statement is what a proof is about.
type Statement struct {
	Text   string
	Points []kyber.Point
	Valid  bool
	// Rel, when set, decides validity from the points presented by the verifier.
	Rel func(pts []kyber.Point) bool
}

// Ctx collects the statement of one proof.
type Ctx struct {
	St  *Statement
	Tok *Statement // verifier: what the token says
	Ok  bool
}

func (c *Ctx) Put(m interface{}) error        { return nil }
func (c *Ctx) Get(m interface{}) error        { return nil }
func (c *Ctx) PubRand(m ...interface{}) error { return nil }
func (c *Ctx) PriRand(m ...interface{}) error { return nil }

type record struct {
	proto string
	st    *Statement
}

var records []*record

func HashProve(suite Suite, protocolName string, prover Prover) ([]byte, error) {
	ctx := &Ctx{}
	if err := prover(ctx); err != nil {
		return nil, err
	}
	if ctx.St == nil {
		return nil, errors.New("model: no statement")
	}
	records = append(records, &record{protocolName, ctx.St})
	return symgrp.Token(len(records)-1, 64), nil
}

func HashVerify(suite Suite, protocolName string, verifier Verifier, proof []byte) error {
	id := symgrp.TokenID(proof)
	ctx := &Ctx{}
	if id >= 0 && records[id].proto == protocolName {
		ctx.Tok = records[id].st
	}
	if err := verifier(ctx); err != nil {
		return err
	}
	if !ctx.Ok {
		return errors.New("invalid proof")
	}
	return nil
}

// ---- predicates

type Predicate interface {
	String() string
	Prover(suite Suite, secrets map[string]kyber.Scalar, points map[string]kyber.Point, choice map[Predicate]int) Prover
	Verifier(suite Suite, points map[string]kyber.Point) Verifier
	reps(out []*repPred) []*repPred
}

type repPred struct {
	P  string
	SB []string
}

func Rep(P string, SB ...string) Predicate {
	if len(SB)&1 != 0 {
		panic("mismatched Scalar")
	}
	return &repPred{P, SB}
}

func (r *repPred) String() string {
	s := r.P + "="
	for i := 0; i < len(r.SB); i += 2 {
		if i > 0 {
			s += "+"
		}
		s += r.SB[i] + "*" + r.SB[i+1]
	}
	return s
}
func (r *repPred) reps(out []*repPred) []*repPred { return append(out, r) }
func (r *repPred) Prover(suite Suite, secrets map[string]kyber.Scalar, points map[string]kyber.Point, choice map[Predicate]int) Prover {
	return prover(suite, r, secrets, points)
}
func (r *repPred) Verifier(suite Suite, points map[string]kyber.Point) Verifier {
	return verifier(suite, r, points)
}

type andPred []Predicate

func And(sub ...Predicate) Predicate { a := andPred(sub); return &a }

func (a *andPred) String() string {
	s := "("
	for i, x := range *a {
		if i > 0 {
			s += " && "
		}
		s += x.String()
	}
	return s + ")"
}
func (a *andPred) reps(out []*repPred) []*repPred {
	for _, x := range *a {
		out = x.reps(out)
	}
	return out
}
func (a *andPred) Prover(suite Suite, secrets map[string]kyber.Scalar, points map[string]kyber.Point, choice map[Predicate]int) Prover {
	return prover(suite, a, secrets, points)
}
func (a *andPred) Verifier(suite Suite, points map[string]kyber.Point) Verifier {
	return verifier(suite, a, points)
}

// points in the order the predicate names them
func collect(suite Suite, p Predicate, points map[string]kyber.Point) []kyber.Point {
	var out []kyber.Point
	seen := map[string]bool{}
	add := func(n string) {
		if seen[n] {
			return
		}
		seen[n] = true
		q := points[n]
		if q == nil {
			q = suite.Point().Base()
		}
		out = append(out, q.Clone())
	}
	for _, r := range p.reps(nil) {
		add(r.P)
		for i := 1; i < len(r.SB); i += 2 {
			add(r.SB[i])
		}
	}
	return out
}

func prover(suite Suite, p Predicate, secrets map[string]kyber.Scalar, points map[string]kyber.Point) Prover {
	return func(pc ProverContext) error {
		ctx := pc.(*Ctx)
		valid := true
		full := map[string]kyber.Point{}
		for n, q := range points {
			full[n] = q
		}
		bases := map[string]bool{}
		for _, r := range p.reps(nil) {
			for i := 1; i < len(r.SB); i += 2 {
				bases[r.SB[i]] = true
			}
		}
		for _, r := range p.reps(nil) {
			sum := suite.Point().Null()
			for i := 0; i < len(r.SB); i += 2 {
				s := secrets[r.SB[i]]
				if s == nil {
					panic("runtime error: invalid memory address or nil pointer dereference (secret " + r.SB[i] + ")")
				}
				sum.Add(sum, suite.Point().Mul(s, points[r.SB[i+1]]))
			}
			q := full[r.P]
			if q == nil {
				// the real prover never reads the left-hand side of a
				// representation: one it is not given is what the secrets say.
				// Only a missing base stands for the standard base point.
				if bases[r.P] {
					q = suite.Point().Base()
				} else {
					q = sum
					full[r.P] = sum
				}
			}
			if !sum.Equal(q) {
				valid = false
			}
		}
		ctx.St = &Statement{Text: p.String(), Points: collect(suite, p, full), Valid: valid}
		return nil
	}
}

func verifier(suite Suite, p Predicate, points map[string]kyber.Point) Verifier {
	return func(vc VerifierContext) error {
		ctx := vc.(*Ctx)
		pts := collect(suite, p, points)
		st := ctx.Tok
		if st == nil || !st.Valid || st.Text != p.String() || len(st.Points) != len(pts) {
			return nil
		}
		ok := true
		for i := range pts {
			if !pts[i].Equal(st.Points[i]) {
				ok = false
				break
			}
		}
		ctx.Ok = ok
		return nil
	}
}
