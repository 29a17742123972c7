package network

import (
	"go.dedis.ch/kyber/v3"
	"strings"
	"time"

	"go.dedis.ch/onet/v3/modelrt"
)

type Suite interface {
	kyber.Group
	kyber.Encoding
	kyber.XOFFactory
	kyber.Random
}

type Message interface{}
type MessageTypeID struct{ name string }

func (m MessageTypeID) Equal(o MessageTypeID) bool { return m.name == o.name }
func (m MessageTypeID) String() string             { return m.name }

func RegisterMessage(m Message) MessageTypeID { return MessageTypeID{modelrt.TypeName(m)} }
func RegisterMessages(ms ...Message) []MessageTypeID {
	var out []MessageTypeID
	for _, m := range ms {
		out = append(out, RegisterMessage(m))
	}
	return out
}
func MessageType(m Message) MessageTypeID { return MessageTypeID{modelrt.TypeName(m)} }

type Address string

func (a Address) String() string { return string(a) }
func (a Address) Valid() bool    { return strings.Contains(string(a), "://") }
func (a Address) NetworkAddress() string {
	if i := strings.Index(string(a), "://"); i >= 0 {
		return string(a[i+3:])
	}
	return ""
}
func (a Address) Host() string {
	n := a.NetworkAddress()
	if i := strings.LastIndex(n, ":"); i >= 0 {
		return n[:i]
	}
	return ""
}
func (a Address) Port() string {
	n := a.NetworkAddress()
	if i := strings.LastIndex(n, ":"); i >= 0 {
		return n[i+1:]
	}
	return ""
}
func (a Address) NetworkAddressResolved() string { return a.NetworkAddress() }

type ServerIdentityID struct{ s string }

func (a ServerIdentityID) Equal(b ServerIdentityID) bool { return a.s == b.s }
func (a ServerIdentityID) String() string                { return a.s }

type ServerIdentity struct {
	Public      kyber.Point
	ID          ServerIdentityID
	Address     Address
	Description string
	private     kyber.Scalar
}

func (s *ServerIdentity) String() string               { return s.Address.String() }
func (s *ServerIdentity) SetPrivate(p kyber.Scalar)    { s.private = p }
func (s *ServerIdentity) GetPrivate() kyber.Scalar     { return s.private }
func (s *ServerIdentity) GetID() ServerIdentityID      { return s.ID }
func (s *ServerIdentity) Equal(o *ServerIdentity) bool { return s.Public.Equal(o.Public) }

func NewServerIdentity(public kyber.Point, addr Address) *ServerIdentity {
	return &ServerIdentity{Public: public, Address: addr, ID: ServerIdentityID{"id:" + string(addr)}}
}

type Envelope struct {
	ServerIdentity *ServerIdentity
	MsgType        MessageTypeID
	Msg            Message
}

var MaxPacketSize = uint32(10 * 1024 * 1024)
var MaxRetryConnect = 5
var WaitRetry = 100 * time.Millisecond
