// Package shuffle models Neff's pair shuffle proof as an ideal functionality.
package shuffle

import (
	"crypto/cipher"
	"errors"

	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/proof"
)

type Suite proof.Suite

type PairShuffle struct {
	grp kyber.Group
	k   int
}

func (ps *PairShuffle) Init(grp kyber.Group, k int) *PairShuffle {
	if k <= 1 {
		panic("can't shuffle permutation of size <= 1")
	}
	ps.grp, ps.k = grp, k
	return ps
}

func base(grp kyber.Group, p kyber.Point) kyber.Point {
	if p == nil {
		return grp.Point().Base()
	}
	return p.Clone()
}

// Prove binds the proof to g, h, X, Y and to the outputs that pi and beta give.
func (ps *PairShuffle) Prove(pi []int, g, h kyber.Point, beta []kyber.Scalar, X, Y []kyber.Point, rand cipher.Stream, ctx proof.ProverContext) error {
	k := ps.k
	if k != len(pi) || k != len(beta) {
		panic("mismatched vector lengths")
	}
	piinv := make([]int, k)
	for i := 0; i < k; i++ {
		piinv[pi[i]] = i
	}
	perm := true
	for i := 0; i < k; i++ {
		if pi[piinv[i]] != i {
			perm = false
		}
	}
	pts := []kyber.Point{base(ps.grp, g), base(ps.grp, h)}
	for i := 0; i < k; i++ {
		pts = append(pts, X[i].Clone(), Y[i].Clone())
	}
	for i := 0; i < k; i++ {
		xb := ps.grp.Point().Mul(beta[pi[i]], g)
		xb.Add(xb, X[pi[i]])
		yb := ps.grp.Point().Mul(beta[pi[i]], h)
		yb.Add(yb, Y[pi[i]])
		pts = append(pts, xb, yb)
	}
	ctx.(*proof.Ctx).St = &proof.Statement{Text: "pairshuffle", Points: pts, Valid: perm}
	return nil
}

func (ps *PairShuffle) Verify(g, h kyber.Point, X, Y, Xbar, Ybar []kyber.Point, vc proof.VerifierContext) error {
	k := ps.k
	if len(X) != k || len(Y) != k || len(Xbar) != k || len(Ybar) != k {
		panic("mismatched vector lengths")
	}
	ctx := vc.(*proof.Ctx)
	st := ctx.Tok
	pts := []kyber.Point{base(ps.grp, g), base(ps.grp, h)}
	for i := 0; i < k; i++ {
		pts = append(pts, X[i], Y[i])
	}
	for i := 0; i < k; i++ {
		pts = append(pts, Xbar[i], Ybar[i])
	}
	if st == nil || !st.Valid || st.Text != "pairshuffle" || len(st.Points) != len(pts) {
		return errors.New("invalid PairShuffleProof")
	}
	for i := range pts {
		if !pts[i].Equal(st.Points[i]) {
			return errors.New("invalid PairShuffleProof")
		}
	}
	ctx.Ok = true
	return nil
}

func Verifier(group kyber.Group, g, h kyber.Point, X, Y, Xbar, Ybar []kyber.Point) proof.Verifier {
	ps := PairShuffle{}
	ps.Init(group, len(X))
	return func(ctx proof.VerifierContext) error { return ps.Verify(g, h, X, Y, Xbar, Ybar, ctx) }
}
