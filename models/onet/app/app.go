package app

import (
	"io"

	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
)

type Group struct{ Roster *onet.Roster }

func RunServer(config string)                              { panic("app is not modelled") }
func InteractiveConfig(s network.Suite, binaryName string) { panic("app is not modelled") }
func ReadGroupDescToml(f io.Reader) (*Group, error)        { panic("app is not modelled") }
