// Package c42: requests when servers cannot be reached.
package c42

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"github.com/ldsec/unlynx/zz_verif/tx"
	"go.dedis.ch/onet/v3"
)

const (
	creation = iota
	results
	tagged
)

func kind(msg interface{}) int {
	switch msg.(type) {
	case *servicesunlynx.SurveyCreationQuery:
		return creation
	case *servicesunlynx.SurveyResultsQuery:
		return results
	case *servicesunlynx.DDTfinished:
		return tagged
	}
	return -1
}

// scene is a network in which some servers cannot be reached by the entry
// server when it sends one kind of message.
type scene struct {
	net    *onet.Net
	root   int
	down   []bool
	failed int
	sent   []bool
}

func begin() *scene {
	sym.RandForks(0)
	n := 2 + sym.Choice("servers", 3+sym.Tier())
	c := &scene{net: sx.Network(n), root: sym.Choice("root", n), down: make([]bool, n), sent: make([]bool, n)}
	some := false
	for i := range c.down {
		if i != c.root {
			c.down[i] = sym.Choice("unreachable", 2) == 1
			some = some || c.down[i]
		}
	}
	if !some {
		c.down[(c.root+1)%n] = true
	}
	return c
}

func (c *scene) cut(k int) {
	c.net.Unreachable = func(m onet.Sending) bool {
		if m.From != c.root || kind(m.Msg) != k {
			return false
		}
		if c.down[m.To] {
			c.failed++
			return true
		}
		c.sent[m.To] = true
		return false
	}
}

// end checks that everybody else was told, and that the servers still work.
func (c *scene) end(err error) {
	sym.Assert(err != nil, "a request succeeds although a server did not get it")
	sym.Assert(c.failed > 0, "a request fails before anything was sent")
	for i := range c.down {
		sym.Assert(i == c.root || c.down[i] || c.sent[i], "a server that can be reached was not told")
	}
	c.net.Unreachable = nil
	c.next()
}

// next is another survey.
func (c *scene) next() {
	n := len(c.down)
	nbr := make([]int64, n)
	at := sym.Choice("at", n)
	nbr[at] = 1
	s := sx.Create(c.net, sym.Choice("next", n), sx.Plain, nbr...)
	v := sx.Value()
	sym.Assert(s.Submit(at, s.Encrypt([]libunlynx.DpClearResponse{sx.Response(true, 3, 1, v)})) == nil, "a submission is rejected")
	s.Result(sx.Row{Group: []int64{3}, Aggr: []int64{v}})
	sym.Reach("next survey")
}

// H_creation: servers cannot be reached while a survey is created.
func H_creation() {
	c := begin()
	c.cut(creation)
	m := map[string]int64{}
	k := c.net.Roster.Aggregate
	q := &servicesunlynx.SurveyCreationQuery{Roster: *c.net.Roster, MapDPs: m, Sum: []string{"s1"}, GroupBy: []string{"g1"}, Where: []libunlynx.WhereQueryAttribute{{Name: "w1", Value: *libunlynx.EncryptInt(k, 1)}}, Predicate: "v0 == v1"}
	c.end(sx.Send(c.net, c.root, q, &servicesunlynx.ServiceState{}))
}

// H_silent: messages that create a survey, or those that confirm it, are lost
// and nobody is told.
func H_silent() {
	sym.RandForks(0)
	libunlynx.TIMEOUT = tx.Timeout
	n := 2 + sym.Choice("servers", 2)
	net, root := sx.Network(n), sym.Choice("root", n)
	lost := make([]int, n) // 1: the query to it, 2: its confirmation
	some := false
	for i := range lost {
		if i != root {
			lost[i] = sym.Choice("lost", 3)
			some = some || lost[i] > 0
		}
	}
	net.Lost = func(m onet.Sending) bool {
		switch m.Msg.(type) {
		case *servicesunlynx.SurveyCreationQuery:
			return lost[m.To] == 1
		case *servicesunlynx.QueryBroadcastFinished:
			return lost[m.From] == 2
		}
		return false
	}
	_, q := sx.Draft(net, root, sx.Plain)
	err := sx.Slowly(net, tx.Timeout, func() error {
		return sx.Direct(net, root, q, &servicesunlynx.ServiceState{})
	})
	sym.Assert((err != nil) == some, "a survey is confirmed although a server did not confirm it, or the reverse")
	net.Lost = nil
	c := &scene{net: net, down: make([]bool, n)}
	c.next()
}

func (c *scene) survey() *sx.Survey {
	n := len(c.down)
	nbr := make([]int64, n)
	for i := range nbr {
		nbr[i] = 1
	}
	s := sx.Create(c.net, c.root, sx.Plain, nbr...)
	enc := sym.Choice("enc", 2) == 1
	for i := range nbr {
		sym.Assert(s.Submit(i, s.Encrypt([]libunlynx.DpClearResponse{sx.Response(enc, 0, 1, sx.Value()), sx.Response(enc, 1, int64(i%2), 5)})) == nil, "a submission is rejected")
	}
	return s
}

func (c *scene) ask(s *sx.Survey) error {
	_, x := hx.Key()
	return sx.Send(c.net, c.root, &servicesunlynx.SurveyResultsQuery{SurveyID: s.ID, ClientPublic: x}, &servicesunlynx.ServiceResult{})
}

// H_results: servers cannot be reached while a result is asked for.
func H_results() {
	c := begin()
	s := c.survey()
	c.cut(results)
	c.end(c.ask(s))
}

// H_tagged: servers cannot be reached when the entry server has tagged its data.
func H_tagged() {
	c := begin()
	s := c.survey()
	c.cut(tagged)
	c.end(c.ask(s))
}
