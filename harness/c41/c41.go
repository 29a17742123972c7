// Package c41: protocols whose inputs are missing.
package c41

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"github.com/ldsec/unlynx/zz_verif/tx"
	"go.dedis.ch/onet/v3"
)

// H_root: the root's data or key is missing: Start reports an error, nothing
// comes out, nothing crashes and nobody waits forever.
func H_root() {
	kind := []int{0, 2, 3, 4}[sym.Choice("protocol", 4)]
	what := 0
	if kind == 0 || kind == 2 || kind == 4 {
		what = sym.Choice("what", 3)
	}
	got, err := tx.Protocol(kind, 2+sym.Choice("servers", 2)).Without(func(root bool, name string, pi onet.ProtocolInstance) {
		if !root {
			return
		}
		switch p := pi.(type) {
		case *protocolsunlynx.KeySwitchingProtocol:
			if what != 1 {
				p.TargetOfSwitch = nil
			}
			if what != 0 {
				p.TargetPublicKey = nil
			}
		case *protocolsunlynx.DeterministicTaggingProtocol:
			if what != 1 {
				p.TargetOfSwitch = nil
			}
			if what != 0 {
				p.SurveySecretKey = nil
			}
		case *protocolsunlynx.ShufflingProtocol:
			p.ShuffleTarget = nil
		case *protocolsunlynx.ShufflingPlusDDTProtocol:
			if what != 1 {
				p.TargetData = nil
			}
			if what != 0 {
				p.SurveySecretKey = nil
			}
		}
	})
	sym.Assert(err != nil, "Start returns no error although its inputs are missing")
	sym.Assert(!got, "a result without inputs")
}

// H_server: one server other than the root lacks its survey key: no result,
// no crash, and nobody waits forever.
func H_server() {
	kind := []int{2, 4}[sym.Choice("protocol", 2)]
	n := 2 + sym.Choice("servers", 2)
	at, count := sym.Choice("at", n-1), 0
	got, err := tx.Protocol(kind, n).Without(func(root bool, name string, pi onet.ProtocolInstance) {
		if root {
			return
		}
		if count++; count-1 != at {
			return
		}
		switch p := pi.(type) {
		case *protocolsunlynx.DeterministicTaggingProtocol:
			p.SurveySecretKey = nil
		case *protocolsunlynx.ShufflingPlusDDTProtocol:
			p.SurveySecretKey = nil
		}
	})
	sym.Assert(err == nil, "Start fails at a server that has its inputs")
	sym.Assert(!got, "a result without inputs")
}

// H_aggregation: one server has no data to aggregate, or two kinds of data:
// no result, no crash, and nobody waits forever.
func H_aggregation() {
	n := 2 + sym.Choice("servers", 2)
	at, count := sym.Choice("at", n), 0
	both := sym.Bool("both")
	got, err := tx.Protocol(1, n).Without(func(root bool, name string, pi onet.ProtocolInstance) {
		if count++; count-1 != at {
			return
		}
		p := pi.(*protocolsunlynx.CollectiveAggregationProtocol)
		if both {
			p.SimpleData = &[]libunlynx.CipherText{*libunlynx.NewCipherText()}
		} else {
			p.GroupedData = nil
		}
	})
	_ = err
	sym.Assert(!got, "a result although a server had no usable data")
}
