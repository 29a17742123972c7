// Package px runs protocols of the repository on the model of the overlay network.
package px

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

// Net is a network of n servers with fresh keys.
func Net(n int) (*onet.Net, []kyber.Scalar) {
	return NetKeys(n, func(int) kyber.Scalar { return hx.Rand() })
}

// NetKeys is a network of n servers with given private keys.
func NetKeys(n int, key func(i int) kyber.Scalar) (*onet.Net, []kyber.Scalar) {
	onet.Choice = sym.Choice
	onet.Wait = sym.WaitQuiescent
	onet.Prune = func() { sym.Assume(false) }
	var privs []kyber.Scalar
	net := onet.NewNet(n, func(i int) (kyber.Scalar, kyber.Point) {
		k := key(i)
		privs = append(privs, k)
		return k, libunlynx.SuiTe.Point().Mul(k, nil)
	})
	return net, privs
}

// Node makes an instance of a protocol that runs on a single server.
func Node(name string) onet.ProtocolInstance {
	net, _ := Net(1)
	pi, err := net.Create(name, net.Roster.GenerateBinaryTree())
	sym.Assert(err == nil, "the protocol could not be created")
	return pi
}

// Start starts a protocol the way the services do.
func Start(pi onet.ProtocolInstance) *error {
	var err error
	done := &err
	go func() { *done = pi.Start() }()
	return done
}

// Trees are the tree shapes over n servers that are explored.
func Trees(net *onet.Net, n int) *onet.Tree {
	switch {
	case n < 3:
		return net.Roster.GenerateNaryTree(1)
	case n == 3:
		return net.Roster.GenerateNaryTree(1 + sym.Choice("arity", 2))
	case n > 6: // few shapes and one order of arrival
		net.Deviations = 0
		return net.Roster.GenerateNaryTree([]int{1, 2, 3, n - 1}[sym.Choice("arity", 4)])
	default:
		return net.Roster.GenerateNaryTree(1 + sym.Choice("arity", n-1))
	}
}
