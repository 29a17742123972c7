// Package onet models the overlay network: a set of in-process hosts whose
// messages are queued per (receiver, sender) and delivered one at a time, in an
// order chosen by the harness.
package onet

import (
	"errors"
	"strconv"
	"sync"

	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3/modelrt"
	"go.dedis.ch/onet/v3/network"
)

type ServiceID struct{ name string }

var NilServiceID = ServiceID{}

type ProtocolID string
type TokenID string

type GenericConfig struct{ Data []byte }

type ProtocolInstance interface {
	Start() error
	Dispatch() error
	ProcessProtocolMsg(*ProtocolMsg)
	Shutdown() error
}

type NewProtocol func(*TreeNodeInstance) (ProtocolInstance, error)

type ProtocolMsg struct {
	From *TreeNode
	To   *TreeNode
	Msg  interface{}
	Size int
	inst int // which run of a protocol
	conf *GenericConfig
}

var protocols = map[string]NewProtocol{}

func GlobalProtocolRegister(name string, p NewProtocol) (ProtocolID, error) {
	if _, ok := protocols[name]; ok {
		return ProtocolID(name), errors.New("already registered")
	}
	protocols[name] = p
	return ProtocolID(name), nil
}

type TreeNodeID string

func (t TreeNodeID) Equal(o TreeNodeID) bool { return t == o }

type TreeNode struct {
	ID             TreeNodeID
	ServerIdentity *network.ServerIdentity
	RosterIndex    int
	Parent         *TreeNode
	Children       []*TreeNode
}

func NewTreeNode(i int, si *network.ServerIdentity) *TreeNode {
	return &TreeNode{ID: TreeNodeID("node" + strconv.Itoa(i)), ServerIdentity: si, RosterIndex: i}
}
func (t *TreeNode) Equal(o *TreeNode) bool { return t.ID == o.ID }
func (t *TreeNode) IsRoot() bool           { return t.Parent == nil }
func (t *TreeNode) IsLeaf() bool           { return len(t.Children) == 0 }
func (t *TreeNode) Name() string           { return t.ServerIdentity.Address.String() }
func (t *TreeNode) AddChild(c *TreeNode) {
	t.Children = append(t.Children, c)
	c.Parent = t
}
func (t *TreeNode) String() string { return string(t.ID) }

type Tree struct {
	ID     string
	Roster *Roster
	Root   *TreeNode
}

func (t *Tree) List() []*TreeNode {
	var out []*TreeNode
	var rec func(n *TreeNode)
	rec = func(n *TreeNode) {
		out = append(out, n)
		for _, c := range n.Children {
			rec(c)
		}
	}
	rec(t.Root)
	return out
}
func (t *Tree) Size() int { return len(t.List()) }

type Roster struct {
	ID        string
	List      []*network.ServerIdentity
	Aggregate kyber.Point
}

func NewRoster(ids []*network.ServerIdentity) *Roster {
	r := &Roster{ID: "roster"}
	r.List = append(r.List, ids...)
	for _, s := range ids {
		if r.Aggregate == nil {
			r.Aggregate = s.Public.Clone()
		} else {
			r.Aggregate.Add(r.Aggregate, s.Public)
		}
	}
	return r
}
func (ro *Roster) Search(id network.ServerIdentityID) (int, *network.ServerIdentity) {
	for i, e := range ro.List {
		if e.ID.Equal(id) {
			return i, e
		}
	}
	return -1, nil
}
func (ro *Roster) Publics() []kyber.Point {
	var out []kyber.Point
	for _, e := range ro.List {
		out = append(out, e.Public)
	}
	return out
}
func (ro *Roster) GenerateNaryTreeWithRoot(N int, root *network.ServerIdentity) *Tree {
	rootIndex := 0
	if root != nil {
		rootIndex, _ = ro.Search(root.ID)
		if rootIndex < 0 {
			return nil
		}
	} else {
		root = ro.List[0]
	}
	rootNode := NewTreeNode(rootIndex, root)
	parents := []*TreeNode{rootNode}
	children := []*TreeNode{}
	for i := 1; i < len(ro.List); i++ {
		index := (i + rootIndex) % len(ro.List)
		if len(parents[0].Children) == N {
			parents = parents[1:]
		}
		if len(parents) == 0 {
			parents = children
			children = []*TreeNode{}
		}
		c := NewTreeNode(index, ro.List[index])
		children = append(children, c)
		parents[0].AddChild(c)
	}
	return &Tree{ID: "tree", Roster: ro, Root: rootNode}
}
func (ro *Roster) GenerateNaryTree(N int) *Tree { return ro.GenerateNaryTreeWithRoot(N, nil) }
func (ro *Roster) GenerateBinaryTree() *Tree    { return ro.GenerateNaryTreeWithRoot(2, nil) }
func (ro *Roster) GenerateStar() *Tree          { return ro.GenerateNaryTreeWithRoot(len(ro.List)-1, nil) }

// ---- the network

type message struct {
	seq  int
	msg  *ProtocolMsg      // protocol message
	env  *network.Envelope // service message
	name string
	sent chan struct{} // orders the sending before the delivery
}

// Net is a set of hosts with their undelivered messages.
type Net struct {
	mu      sync.Mutex
	Roster  *Roster
	hosts   []*Server
	queue   [][][]*message // receiver, sender
	insts   map[string]*TreeNodeInstance
	runs    []*run
	NewProt NewProtocol // overrides the registered constructor
	Sent    int
	asleep  map[string]bool

	// Watch keeps copies of everything that is sent; clients have the index -1.
	Watch bool
	seen  map[string][]interface{}

	// Fault decides what happens to a message of a protocol: 0 it is
	// delivered, 1 it is lost, 2 sending it fails, 3 it is held until Release.
	Fault  func(m Sending) int
	held   []func()
	faults sync.Mutex

	// Unreachable decides whether a service's message cannot be sent.
	Unreachable func(m Sending) bool

	// Lost decides whether a service's message is lost without an error (in
	// onet v3.2.0 Context.SendRaw does not return the router's error).
	Lost func(m Sending) bool

	// Deviations is how often another than the first message that can be
	// delivered is (negative: any number of times). Bounded says that it is
	// not to be combined with the reduction of equivalent orders.
	Deviations int
	Bounded    bool
}

// Sending is a message of a protocol that is sent, and the root of the run.
type Sending struct {
	From, To, Root int
	Protocol       string
	Msg            interface{}
}

type run struct {
	name    string
	tree    *Tree
	service string
}

type Server struct {
	net      *Net
	idx      int
	Identity *network.ServerIdentity
	services map[string]Service
	procs    map[string]Processor
	handlers map[string]interface{}
	busy     bool
}

type Processor interface{ Process(*network.Envelope) }

// Choice and Wait are set by the harness: a decision among n alternatives, and
// waiting until every other goroutine is blocked.
var Choice func(name string, n int) int
var Wait func(level int)
var Prune func()

// NewNet creates n hosts with fresh keys.
func NewNet(n int, keygen func(i int) (kyber.Scalar, kyber.Point)) *Net {
	net := &Net{Deviations: -1, insts: map[string]*TreeNodeInstance{}, asleep: map[string]bool{}}
	var ids []*network.ServerIdentity
	for i := 0; i < n; i++ {
		priv, pub := keygen(i)
		si := network.NewServerIdentity(pub, network.Address("tls://10.0.0."+strconv.Itoa(1+i/2)+":"+strconv.Itoa(7770+2*(i%2))))
		si.SetPrivate(priv)
		ids = append(ids, si)
		net.hosts = append(net.hosts, &Server{net: net, idx: i, Identity: si, services: map[string]Service{}, procs: map[string]Processor{}, handlers: map[string]interface{}{}})
		net.queue = append(net.queue, make([][]*message, n))
	}
	net.Roster = NewRoster(ids)
	return net
}

func (net *Net) Host(i int) *Server { return net.hosts[i] }

func (net *Net) hostOf(id network.ServerIdentityID) *Server {
	for _, h := range net.hosts {
		if h.Identity.ID.Equal(id) {
			return h
		}
	}
	return nil
}

// Create makes the root instance of a new run of a protocol.
func (net *Net) Create(name string, t *Tree) (ProtocolInstance, error) {
	net.mu.Lock()
	id := len(net.runs)
	net.runs = append(net.runs, &run{name: name, tree: t})
	net.mu.Unlock()
	tni := net.instance(id, t.Root)
	pi, err := net.construct(name)(tni)
	if err != nil {
		return nil, err
	}
	tni.pi = pi
	go pi.Dispatch()
	return pi, nil
}

func (net *Net) construct(name string) NewProtocol {
	if net.NewProt != nil {
		return net.NewProt
	}
	return protocols[name]
}

func ikey(run int, node *TreeNode) string { return strconv.Itoa(run) + "/" + string(node.ID) }

func (net *Net) instance(run int, node *TreeNode) *TreeNodeInstance {
	net.mu.Lock()
	defer net.mu.Unlock()
	k := ikey(run, node)
	if t, ok := net.insts[k]; ok {
		return t
	}
	t := &TreeNodeInstance{net: net, node: node, run: run, chans: map[string]interface{}{}, agg: map[string]bool{}, pend: map[string][]*ProtocolMsg{}}
	net.insts[k] = t
	return t
}

func (net *Net) post(to, from int, m *message) {
	net.mu.Lock()
	net.Sent++
	m.seq = net.Sent
	if m.msg != nil {
		net.watch(from, to, m.msg.Msg)
	} else {
		net.watch(from, to, m.env.Msg)
	}
	m.sent = make(chan struct{}, 1)
	m.sent <- struct{}{}
	net.queue[to][from] = append(net.queue[to][from], m)
	net.mu.Unlock()
}

func (net *Net) watch(from, to int, m interface{}) {
	if !net.Watch {
		return
	}
	if net.seen == nil {
		net.seen = map[string][]interface{}{}
	}
	net.seen[net.key(to, from)] = append(net.seen[net.key(to, from)], modelrt.Copy(m))
}

// Seen lists the messages sent from one server to another, in order; -1 is a
// client.
func (net *Net) Seen(from, to int) []interface{} { return net.seen[net.key(to, from)] }

// Deliver delivers queued messages, in an order decided by Choice, until none
// is left and every goroutine is blocked. It explores the orders up to
// commutation of deliveries to different hosts (sleep sets).
func (net *Net) Deliver() {
	for {
		Wait(1)
		net.mu.Lock()
		var cand [][2]int
		total := 0
		for r := range net.queue {
			for s := range net.queue[r] {
				// a connection waits with the messages of protocols while the
				// overlay of the host is busy
				if len(net.queue[r][s]) > 0 && (net.queue[r][s][0].env != nil || !net.hosts[r].busy) {
					total++
					if !net.asleep[net.key(r, s)] {
						cand = append(cand, [2]int{r, s})
					}
				}
			}
		}
		if total == 0 {
			net.mu.Unlock()
			return
		}
		if len(cand) == 0 {
			net.mu.Unlock()
			Prune()
			return
		}
		k := 0
		if len(cand) > 1 && (net.Deviations != 0) {
			net.mu.Unlock()
			k = Choice("delivery", len(cand))
			net.mu.Lock()
			if k > 0 && net.Deviations > 0 {
				net.Deviations--
			}
		}
		for _, c := range cand[:k] {
			if !net.Bounded {
				net.asleep[net.key(c[0], c[1])] = true
			}
		}
		r, s := cand[k][0], cand[k][1]
		// deliveries to the same host do not commute with this one
		for s2 := range net.queue[r] {
			delete(net.asleep, net.key(r, s2))
		}
		m := net.queue[r][s][0]
		net.queue[r][s] = net.queue[r][s][1:]
		net.mu.Unlock()
		net.dispatch(net.hosts[r], m)
	}
}

func (net *Net) key(r, s int) string { return strconv.Itoa(r) + "<" + strconv.Itoa(s) }

func (net *Net) dispatch(h *Server, m *message) {
	<-m.sent
	if m.env != nil {
		p := h.procs[m.env.MsgType.String()]
		if p != nil {
			go p.Process(m.env)
		}
		return
	}
	t := net.instance(m.msg.inst, m.msg.To)
	if t.pi == nil && !t.bound {
		t.bound = true
		rn := net.runs[m.msg.inst]
		if rn.service != "" {
			net.mu.Lock()
			h.busy = true // the overlay handles one message at a time
			net.mu.Unlock()
			go func() {
				pi, err := h.services[rn.service].NewProtocol(t, m.msg.conf)
				t.config = m.msg.conf
				net.mu.Lock()
				h.busy = false
				net.mu.Unlock()
				if err == nil && pi != nil {
					t.pi = pi
					go pi.Dispatch()
					t.process(m.msg)
				}
			}()
			return
		}
		pi, err := net.construct(rn.name)(t)
		if err != nil {
			return
		}
		t.pi = pi
		go pi.Dispatch()
	}
	t.process(m.msg)
}

// ---- protocol instances

type TreeNodeInstance struct {
	net    *Net
	node   *TreeNode
	run    int
	pi     ProtocolInstance
	bound  bool
	mu     sync.Mutex
	done   bool
	config *GenericConfig
	chans  map[string]interface{}
	agg    map[string]bool
	pend   map[string][]*ProtocolMsg
	Dones  int
}

func (n *TreeNodeInstance) process(m *ProtocolMsg) {
	n.mu.Lock()
	if n.done {
		n.mu.Unlock()
		return
	}
	n.mu.Unlock()
	name := modelrt.TypeName(m.Msg)
	c, ok := n.chans[name]
	if !ok {
		return
	}
	fromParent := !n.IsRoot() && m.From == n.node.Parent
	if fromParent || !n.agg[name] {
		modelrt.Send(c, n.agg[name], []interface{}{m.From}, []interface{}{m.Msg})
		return
	}
	n.pend[name] = append(n.pend[name], m)
	if len(n.pend[name]) < len(n.node.Children) {
		return
	}
	var from, msgs []interface{}
	for _, x := range n.pend[name] {
		from = append(from, x.From)
		msgs = append(msgs, x.Msg)
	}
	n.pend[name] = nil
	modelrt.Send(c, true, from, msgs)
}

func (n *TreeNodeInstance) ProcessProtocolMsg(m *ProtocolMsg)       { n.process(m) }
func (n *TreeNodeInstance) TreeNode() *TreeNode                     { return n.node }
func (n *TreeNodeInstance) ServerIdentity() *network.ServerIdentity { return n.node.ServerIdentity }
func (n *TreeNodeInstance) Parent() *TreeNode                       { return n.node.Parent }
func (n *TreeNodeInstance) Children() []*TreeNode                   { return n.node.Children }
func (n *TreeNodeInstance) Root() *TreeNode                         { return n.Tree().Root }
func (n *TreeNodeInstance) IsRoot() bool                            { return n.node.Parent == nil }
func (n *TreeNodeInstance) IsLeaf() bool                            { return len(n.node.Children) == 0 }
func (n *TreeNodeInstance) Tree() *Tree                             { return n.net.runs[n.run].tree }
func (n *TreeNodeInstance) Roster() *Roster                         { return n.Tree().Roster }
func (n *TreeNodeInstance) List() []*TreeNode                       { return n.Tree().List() }
func (n *TreeNodeInstance) Index() int                              { return n.node.RosterIndex }
func (n *TreeNodeInstance) Name() string                            { return n.ServerIdentity().Address.String() }
func (n *TreeNodeInstance) Info() string                            { return n.Name() }
func (n *TreeNodeInstance) ProtocolName() string                    { return n.net.runs[n.run].name }
func (n *TreeNodeInstance) TokenID() TokenID                        { return TokenID(ikey(n.run, n.node)) }
func (n *TreeNodeInstance) Private() kyber.Scalar {
	return n.net.hostOf(n.node.ServerIdentity.ID).Identity.GetPrivate()
}
func (n *TreeNodeInstance) Public() kyber.Point                { return n.ServerIdentity().Public }
func (n *TreeNodeInstance) Aggregate() kyber.Point             { return n.Roster().Aggregate }
func (n *TreeNodeInstance) Publics() []kyber.Point             { return n.Roster().Publics() }
func (n *TreeNodeInstance) Start() error                       { return nil }
func (n *TreeNodeInstance) Dispatch() error                    { return nil }
func (n *TreeNodeInstance) Shutdown() error                    { return nil }
func (n *TreeNodeInstance) ProtocolInstance() ProtocolInstance { return n.pi }
func (n *TreeNodeInstance) SetConfig(c *GenericConfig) error {
	if n.config != nil {
		return errors.New("can't set config twice")
	}
	n.config = c
	return nil
}
func (n *TreeNodeInstance) Done() {
	n.mu.Lock()
	n.done = true
	n.Dones++
	n.mu.Unlock()
}

// IsDone tells the harness whether the instance ended.
func (n *TreeNodeInstance) IsDone() bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.done
}

func (n *TreeNodeInstance) RegisterChannel(c interface{}) error {
	modelrt.MakeChan(c, 100)
	name, agg := modelrt.ChanInfo(c)
	n.chans[name] = c
	n.agg[name] = agg
	return nil
}
func (n *TreeNodeInstance) RegisterChannels(cs ...interface{}) error {
	for _, c := range cs {
		if err := n.RegisterChannel(c); err != nil {
			return err
		}
	}
	return nil
}
func (n *TreeNodeInstance) RegisterChannelLength(c interface{}, length int) error {
	modelrt.MakeChan(c, length)
	name, agg := modelrt.ChanInfo(c)
	n.chans[name] = c
	n.agg[name] = agg
	return nil
}

func (n *TreeNodeInstance) SendTo(to *TreeNode, msg interface{}) error {
	if to == nil {
		return errors.New("Sent to a nil TreeNode")
	}
	n.mu.Lock()
	closing := n.done
	n.mu.Unlock()
	if closing {
		return errors.New("is closing")
	}
	r, s := n.net.hostOf(to.ServerIdentity.ID).idx, n.net.hostOf(n.node.ServerIdentity.ID).idx
	m := &message{msg: &ProtocolMsg{From: n.node, To: to, Msg: modelrt.Copy(msg), inst: n.run, conf: n.config}}
	if n.net.Fault != nil {
		n.net.faults.Lock()
		f := n.net.Fault(Sending{s, r, n.net.hostOf(n.Root().ServerIdentity.ID).idx, n.ProtocolName(), m.msg.Msg})
		if f == 3 {
			n.net.held = append(n.net.held, func() { n.net.post(r, s, m) })
		}
		n.net.faults.Unlock()
		switch f {
		case 1, 3:
			return nil
		case 2:
			return errors.New("the connection is broken")
		}
	}
	n.net.post(r, s, m)
	return nil
}

// Release puts the messages that are held into the queues.
func (net *Net) Release() {
	net.faults.Lock()
	held := net.held
	net.held = nil
	net.faults.Unlock()
	for _, f := range held {
		f()
	}
}

func (n *TreeNodeInstance) SendToParent(msg interface{}) error {
	if n.IsRoot() {
		return nil
	}
	return n.SendTo(n.Parent(), msg)
}
func (n *TreeNodeInstance) SendToChildren(msg interface{}) error {
	if n.IsLeaf() {
		return nil
	}
	for _, c := range n.Children() {
		if err := n.SendTo(c, msg); err != nil {
			return err
		}
	}
	return nil
}
func (n *TreeNodeInstance) SendToChildrenInParallel(msg interface{}) []error {
	var errs []error
	for _, c := range n.Children() {
		if err := n.SendTo(c, msg); err != nil {
			errs = append(errs, err)
		}
	}
	return errs
}
func (n *TreeNodeInstance) Broadcast(msg interface{}) []error {
	var errs []error
	for _, c := range n.List() {
		if c == n.node {
			continue
		}
		if err := n.SendTo(c, msg); err != nil {
			errs = append(errs, err)
		}
	}
	return errs
}

// Instances lists the protocol instances created so far.
func (net *Net) Instances() []*TreeNodeInstance {
	net.mu.Lock()
	defer net.mu.Unlock()
	var out []*TreeNodeInstance
	for r := range net.runs {
		for _, nd := range net.runs[r].tree.List() {
			if t, ok := net.insts[ikey(r, nd)]; ok {
				out = append(out, t)
			}
		}
	}
	return out
}

// ---- services

type Service interface {
	NewProtocol(*TreeNodeInstance, *GenericConfig) (ProtocolInstance, error)
	ProcessClientRequest(path string, buf []byte) ([]byte, error)
	Processor
}

type NewServiceFunc func(c *Context) (Service, error)

var services = map[string]NewServiceFunc{}

func RegisterNewService(name string, fn NewServiceFunc) (ServiceID, error) {
	services[name] = fn
	return ServiceID{name}, nil
}

type Context struct {
	server *Server
	name   string
}

func (c *Context) ServerIdentity() *network.ServerIdentity { return c.server.Identity }
func (c *Context) RegisterProcessor(p Processor, ids ...network.MessageTypeID) {
	for _, id := range ids {
		c.server.procs[id.String()] = p
	}
}
func (c *Context) SendRaw(si *network.ServerIdentity, msg interface{}) error {
	h := c.server.net.hostOf(si.ID)
	if h == nil {
		return errors.New("unknown host")
	}
	cp := modelrt.Copy(msg)
	if u := c.server.net.Unreachable; u != nil && u(Sending{c.server.idx, h.idx, -1, "", msg}) {
		return errors.New("the connection is broken")
	}
	if l := c.server.net.Lost; l != nil && l(Sending{c.server.idx, h.idx, -1, "", msg}) {
		return nil
	}
	c.server.net.post(h.idx, c.server.idx, &message{env: &network.Envelope{ServerIdentity: c.server.Identity, MsgType: network.MessageType(cp), Msg: cp}})
	return nil
}
func (c *Context) NewTreeNodeInstance(t *Tree, tn *TreeNode, protoName string) *TreeNodeInstance {
	net := c.server.net
	net.mu.Lock()
	id := len(net.runs)
	net.runs = append(net.runs, &run{name: protoName, tree: t, service: c.name})
	net.mu.Unlock()
	tni := net.instance(id, tn)
	tni.bound = true
	return tni
}
func (c *Context) RegisterProtocolInstance(pi ProtocolInstance) error {
	return nil
}

type ServiceProcessor struct {
	*Context
}

func NewServiceProcessor(c *Context) *ServiceProcessor { return &ServiceProcessor{c} }
func (s *ServiceProcessor) RegisterHandler(f interface{}) error {
	s.server.handlers[modelrt.HandlerType(f)] = f
	return nil
}
func (s *ServiceProcessor) RegisterHandlers(fs ...interface{}) error {
	for _, f := range fs {
		s.RegisterHandler(f)
	}
	return nil
}
func (s *ServiceProcessor) NewProtocol(*TreeNodeInstance, *GenericConfig) (ProtocolInstance, error) {
	return nil, nil
}
func (s *ServiceProcessor) ProcessClientRequest(path string, buf []byte) ([]byte, error) {
	return nil, errors.New("not modelled")
}
func (s *ServiceProcessor) Process(*network.Envelope) {}

// StartService instantiates a registered service on every host.
func (net *Net) StartService(name string) error {
	for _, h := range net.hosts {
		s, err := services[name](&Context{server: h, name: name})
		if err != nil {
			return err
		}
		h.services[name] = s
	}
	Current = net
	return nil
}

func (s *Server) Service(name string) Service { return s.services[name] }

// Current is the network clients talk to.
var Current *Net

type Client struct{ service string }

func NewClient(suite network.Suite, s string) *Client { return &Client{s} }

// SendProtobuf calls the handler of the destination and stores its reply in ret.
func (c *Client) SendProtobuf(dst *network.ServerIdentity, msg interface{}, ret interface{}) error {
	h := Current.hostOf(dst.ID)
	if h == nil {
		return errors.New("unknown host")
	}
	cp := modelrt.Copy(msg)
	f, ok := h.handlers[modelrt.TypeName(cp)]
	if !ok {
		return errors.New("no such handler")
	}
	Current.mu.Lock()
	Current.watch(-1, h.idx, cp)
	Current.mu.Unlock()
	reply, err := modelrt.CallHandler(f, cp)
	if err == nil && reply != nil {
		Current.mu.Lock()
		Current.watch(h.idx, -1, reply)
		Current.mu.Unlock()
	}
	if err != nil {
		return err
	}
	if reply != nil && ret != nil {
		modelrt.Assign(ret, modelrt.Copy(reply))
	}
	return nil
}
func (c *Client) Close() error { return nil }

// Simulation-side names some packages mention.
type LocalTest struct{}
