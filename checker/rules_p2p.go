package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the peer-to-peer node: what a message of a peer may lead to.

func p2pCfg(track ...string) EngCfg {
	tr := map[string]bool{}
	for _, t := range track {
		tr[t] = true
	}
	return EngCfg{
		Opaque: func(f *ssa.Function) bool {
			n := fname(f)
			return tableOpaque(f) || strings.HasPrefix(n, "cryptonote.") || strings.HasPrefix(n, "p2p.LevinProtocol.") || strings.HasPrefix(n, "p2p.LevinCommand.")
		},
		Impure: func(n string) bool {
			return strings.HasPrefix(n, "p2p.LevinProtocol.") || n == "binary.Unmarshal" || strings.HasSuffix(n, "eserialize") || n == "cryptonote.BlockChain.AddBlock" || n == "crypto.HashList.Remove"
		},
		Track: func(n string) bool { return tr[n] },
	}
}

// at: at every call of the tracked function name the pattern is established; a0, a1.. are its arguments.
func (r *Run) at(rule, name, pat, meaning string, min int) {
	if r == nil {
		return
	}
	con := fname(r.fn)
	if r.label != "" {
		con += " [" + r.label + "]"
	}
	n, bad := 0, 0
	for _, o := range r.e.obs {
		if o.name != name {
			continue
		}
		n++
		b := bmap{}
		for i, x := range o.args {
			b[fmt.Sprintf("a%d", i)] = x
		}
		if !r.pm.Holds(o.st, pat, b) {
			dumpFacts(rule, o.st, b)
			if bad == 0 {
				r.c.ob(rule, con, o.pos, false, "reaches "+name+" without establishing: "+meaning)
			}
			bad++
		}
	}
	r.c.counts[rule+" sites"] += n
	if n < min {
		r.c.ob(rule, con, r.fn.Pos(), false, fmt.Sprintf("%d call(s) of %s found, %d expected", n, name, min))
		return
	}
	if bad == 0 {
		r.c.ob(rule, con, r.fn.Pos(), true, meaning)
	}
}

var _ = token.NoPos

const (
	hsReply  = "p2p.LevinProtocol.Reply"
	hsNotify = "p2p.LevinProtocol.Notify"
	hsInvoke = "p2p.LevinProtocol.Invoke"
	hsAdd    = "cryptonote.BlockChain.AddBlock"
	hsRead   = "p2p.LevinProtocol.read"
)

var p2pNames = []string{"n", "p", "req"}

func (c *Ctx) handshakeRules() {
	if r := c.run("", c.fn("p2p", "Node", "HandleHandshake"), p2pCfg(), p2pNames); r != nil {
		r.must("accept-network", "req.NodeData.NetworkID == n.Config.Network.NetworkID", "the peer names the network of this node")
		r.must("accept-incoming", "p.isIncoming", "the connection was opened by the peer")
		r.must("accept-once", "p.ID == 0", "the peer has not introduced itself on this connection before")
		r.must("accept-records-id", `ev("set", p.ID, req.NodeData.PeerID)`, "the peer is known by the identifier it sent")
		r.must("accept-records-version", `ev("set", p.version, req.NodeData.Version)`, "the peer is known with the version it sent")
		r.mustOn(r.failure(), "refuse-shuts-down", `ev("set", p.state, 6)`, "a refused peer is shut down")
	}
	if r := c.run("", c.fn("p2p", "Node", "handleCommand"), p2pCfg(hsReply), []string{"n", "p", "cmd"}); r != nil {
		r.at("reply-after-accept", hsReply, "is(v_c, p2p.TimedSyncRequest) || p.isIncoming && p.ID == 0 && as(v_c, p2p.HandshakeRequest).NodeData.NetworkID == n.Config.Network.NetworkID", "a handshake is answered only when it was accepted", 2)
	}
	if r := c.run("", c.fn("p2p", "Peer", "handshake"), p2pCfg(hsInvoke), []string{"p", "n"}); r != nil {
		r.must("connect-asked", `ev("`+hsInvoke+`", p.protocol, 1001, _, v_res)`, "the handshake was sent")
		r.must("connect-network", "n.Config.Network.NetworkID == v_res.NodeData.NetworkID", "the peer answers for the network of this node")
		r.must("connect-version", "v_res.NodeData.Version >= n.Config.Network.P2PMinimumVersion", "the peer's version is at least the minimum")
		r.must("connect-records-id", `ev("set", p.ID, v_res.NodeData.PeerID)`, "the peer is known by the identifier it sent")
		r.at("connect-once", hsInvoke, "p.state == 0", "a handshake is sent only before another one took place", 1)
	}
}

// listed: v_b is entry number i of the list v_l.
const listed = `(ev("setelem", v_l, i, v_b) || step(v_l, append(v_l, v_b)))`

func (c *Ctx) deliveryRules() {
	cfg := p2pCfg(hsAdd, hsNotify, "crypto.HashList.Remove")
	r := c.run("", c.fn("p2p", "Node", "HandleResponseGetObjects"), cfg, []string{"n", "p", "nt"})
	if r != nil {
		each := func(p string) string { return "all(i, nt.Blocks, " + p + ")" }
		r.at("add-only-requested", hsAdd, each("HashList.Has(_, Block.Hash(v_b))"), "every block of the delivery was requested from this peer", 1)
		r.at("add-decoded", hsAdd, each("Block.Deserialize(_, _) == nil && bytes.Reader.Len(NewReader(nt.Blocks[i].Block)) == 0"), "every block of the delivery decodes completely", 1)
		r.at("add-transaction-count", hsAdd, each("HashList.Has(_, Block.Hash(v_b)) && len(nt.Blocks[i].Transactions) == len(v_b.TransactionsHashes)"), "every block comes with as many transactions as it lists", 1)
		r.at("add-nothing-missing", hsAdd, each("HashList.Has(v_r, Block.Hash(v_b))")+" && len(v_r) == 0", "no requested block is missing from the delivery", 1)
		r.at("add-once", hsAdd, each(`ev("crypto.HashList.Remove", _, Block.Hash(v_b))`), "a delivered block is no longer requested", 1)
		r.at("add-height", hsAdd, "nt.CurrentBlockchainHeight >= p.lastResponseHeight", "the peer does not fall back behind the height it announced", 1)
		r.at("add-block-of-delivery", hsAdd, each(listed+` && HashList.Has(_, Block.Hash(v_b))`)+" && val(a1, v_l[v_j])", "the block handed to the chain is one of the delivery", 1)
		r.at("add-own-transactions", hsAdd, each(`ev("put", v_m, Block.Hash(v_b), nt.Blocks[i].Transactions)`)+" && val(a2, get(v_m, Block.Hash(a1)))", "the transactions handed to the chain are those delivered with the block", 1)
		r.must("add-every-block", each(listed)+" && all(j, either(v_l, nt.Blocks), BlockChain.AddBlock(_, v_l[j], _) == nil)", "the delivery succeeds only if the chain accepted every block")
	}
}

// when keeps the outcomes on which the pattern is established.
func (r *Run) when(outs []Out, pat string) []Out {
	var s []Out
	for _, o := range outs {
		if r.pm.Holds(o.st, pat, bmap{}) {
			s = append(s, o)
		}
	}
	return s
}

func pathCfg(cfg EngCfg) EngCfg {
	cfg.Streams, cfg.PathMode = true, true
	return cfg
}

const ownFailure = `BlockChain.AddBlock(_, _, _) != nil || LevinProtocol.Notify(_, _, _) != nil || r1(BlockChain.BuildSparseChain(_)) != nil || r1(BlockChain.GenesisBlock(_)) != nil`

func (c *Ctx) violationRules() {
	cfg := pathCfg(p2pCfg(hsNotify, hsAdd))
	if r := c.run("delivery", c.fn("p2p", "Node", "HandleResponseGetObjects"), cfg, []string{"n", "p", "nt"}); r != nil {
		r.must("delivery-not-empty", "len(nt.Blocks) != 0", "an empty delivery is refused")
		r.must("delivery-height", "nt.CurrentBlockchainHeight >= p.lastResponseHeight", "a delivery of a peer that fell back is refused")
		r.mustOn(r.failure(), "delivery-violator-shut-down", "now(p.state, 6) || !has(_, _) || "+ownFailure, "a peer whose delivery is refused is shut down")
	}
	if r := c.run("", c.fn("p2p", "Node", "handleNotification"), cfg, []string{"n", "p", "cmd"}); r != nil {
		rq := r.when(r.outs, "is(_, p2p.NotificationRequestChain)")
		ok := func(outs []Out) (s []Out) {
			for _, o := range outs {
				if r.isSuccess(o) {
					s = append(s, o)
				}
			}
			return
		}
		no := func(outs []Out) (s []Out) {
			for _, o := range outs {
				if !r.isSuccess(o) {
					s = append(s, o)
				}
			}
			return
		}
		r.mustOn(ok(rq), "chain-request-not-empty", "len(as(_, p2p.NotificationRequestChain).Blocks) != 0", "a chain request without blocks is refused")
		r.mustOn(ok(rq), "chain-request-genesis", "Block.Hash(r0(BlockChain.GenesisBlock(_))) == as(v_x, p2p.NotificationRequestChain).Blocks[len(as(v_x, p2p.NotificationRequestChain).Blocks)-1]", "a chain request that does not end in our genesis block is refused")
		r.mustOn(no(rq), "chain-request-violator-shut-down", "now(p.state, 6) || "+ownFailure, "a peer whose chain request is refused is shut down")
		const ce = "as(v_x, p2p.NotificationResponseChainEntry)"
		re := r.when(r.outs, "is(_, p2p.NotificationResponseChainEntry)")
		r.mustOn(ok(re), "entry-not-empty", "len("+ce+".BlocksHashes) != 0", "a chain entry without blocks is refused")
		r.mustOn(ok(re), "entry-attached", "BlockChain.HaveBlock(_, "+ce+".BlocksHashes[0])", "a chain entry that does not start at a block of our chain is refused")
		r.mustOn(ok(re), "entry-within-total", ce+".StartHeight + anyconv(len("+ce+".BlocksHashes) - 1) <= "+ce+".TotalHeight || "+ce+".StartHeight + anyconv(len("+ce+".BlocksHashes)) - 1 <= "+ce+".TotalHeight", "a chain entry that ends above the height the peer claims is refused")
		r.mustOn(no(re), "entry-violator-shut-down", "now(p.state, 6) || "+ownFailure, "a peer whose chain entry is refused is shut down")
	}
	if r := c.run("", c.fn("p2p", "Node", "processSyncData"), cfg, []string{"n", "p", "data", "initial"}); r != nil {
		r.must("sync-not-too-deep", "!initial && p.state == 0 || p.state == 1 || BlockChain.HaveBlock(_, data.TopBlockHash) || data.CurrentHeight >= BlockChain.Height(_) || minus(data.CurrentHeight, BlockChain.Height(_)) >= 0 || anyconv(math.Abs(anyconv(minus(data.CurrentHeight, BlockChain.Height(_))))) <= Network.MinedMoneyUnlockWindow(n.Blockchain.Network) || BlockChain.Height(_) - data.CurrentHeight <= Network.MinedMoneyUnlockWindow(n.Blockchain.Network) || minus(BlockChain.Height(_), data.CurrentHeight) <= Network.MinedMoneyUnlockWindow(n.Blockchain.Network) || !Checkpoints.IsInCheckpointZone(_, data.CurrentHeight)", "a peer whose chain is too deep behind inside the checkpoint zone is refused")
		r.mustOn(r.failure(), "sync-violator-shut-down", "now(p.state, 6)", "a peer whose sync data are refused is shut down")
	}
	c.shutdownRules()
}

// shutdownRules: the connection loop reads nothing more from a peer that is shut down.
func (c *Ctx) shutdownRules() {
	r := c.run("", c.fn("p2p", "Node", "connectionHandler"), pathCfg(p2pCfg(hsRead)), []string{"n", "p"})
	if r == nil {
		return
	}
	at := r.e.fieldAddr(r.args[1], r.fn.Params[1].Type(), "state")
	n, bad := 0, ""
	for _, o := range r.e.obs {
		if o.name != hsRead || at == nil {
			continue
		}
		n++
		s := r.e.load(o.st, at)
		if r.e.decide(o.st, r.e.in.cmpFact(token.NEQ, s, r.e.in.Int(6), true, true)) != yes {
			bad = "a command is read while the state of the peer may be the shutdown state"
		}
	}
	c.counts["reads of the connection loop"] = n
	c.ob("no-read-after-shutdown", fname(r.fn), r.fn.Pos(), n > 0 && bad == "", bad)
}

const (
	wgAdd  = "sync.WaitGroup.Add"
	wgDone = "sync.WaitGroup.Done"
	wgWait = "sync.WaitGroup.Wait"
)

// lifetimeRules: every connection and every goroutine of the node comes to an end when it has to.
func (c *Ctx) lifetimeRules() {
	cfg := pathCfg(p2pCfg(hsRead, "net.Conn.Close", "net.TCPConn.Close", "net.TCPListener.Close", "net.TCPListener.SetDeadline", "net.TCPListener.AcceptTCP", wgAdd, wgDone, wgWait))
	if r := c.run("", c.fn("p2p", "Node", "connectionHandler"), cfg, []string{"n", "p"}); r != nil {
		r.mustOn(r.outs, "connection-closed", `ev("net.Conn.Close", p.protocol.Conn)`, "the connection is closed when its handler returns")
		c.watcher(r)
	}
	if r := c.run("", c.fn("p2p", "Node", "runListener"), cfg, []string{"n"}); r != nil {
		r.mustOn(r.outs, "listener-closed", `ev("net.TCPListener.Close", n.listener)`, "the listener is closed when the node stops")
		r.mustOn(r.outs, "listener-counted-out", `ev("`+wgDone+`", n.wg)`, "the listener is counted out when it returns")
		r.once("listener-counted-out-once", wgDone, "the listener is counted out once")
		r.at("accept-bounded", "net.TCPListener.AcceptTCP", `ev("net.TCPListener.SetDeadline", n.listener, _)`, "waiting for a connection is bounded, so that the end of the node is noticed", 1)
		r.at("connection-counted-in", "go", `ev("`+wgAdd+`", n.wg, 1)`, "a connection is counted in before its goroutine starts", 1)
		r.at("connection-accepted", "go", `r1(net.TCPListener.AcceptTCP(_)) == nil`, "a handler starts only for an accepted connection", 1)
	}
	if r := c.run("", c.fn("p2p", "Node", "handleIncomingConnection"), cfg, []string{"n", "conn"}); r != nil {
		r.mustOn(r.outs, "connection-counted-out", `ev("`+wgDone+`", n.wg)`, "the connection is counted out when its goroutine ends")
	}
	if r := c.run("", c.fn("p2p", "Node", "handleIncomingConnection"), cfg, []string{"n", "conn"}); r != nil {
		r.once("connection-counted-out-once", wgDone, "the connection is counted out once")
	}
	if r := c.run("", c.fn("p2p", "Node", "Run"), cfg, []string{"n", "ctx"}); r != nil {
		r.at("listener-counted-in", "go", `ev("`+wgAdd+`", n.wg, 1)`, "the listener is counted in before its goroutine starts", 1)
		r.must("run-waits", `ev("`+wgWait+`", n.wg)`, "the node waits for everything it started")
	}
}

// watcher: a goroutine started by the handler waits for the end of the node and for the end of the
// handler, and closes the connection in the first case.
func (c *Ctx) watcher(r *Run) {
	why := "no goroutine waits for the node's context and for the end of the handler, closing the connection when the node stops"
	ok := false
	for _, o := range r.e.obs {
		if o.name != "go" || len(o.args) == 0 || o.args[0].fn == nil || o.args[0].fn.Blocks == nil {
			continue
		}
		fn := o.args[0].fn
		binds := o.args[0].args
		st := o.st.clone()
		chanOf := func(v ssa.Value) *Term {
			if u, isLoad := v.(*ssa.UnOp); isLoad {
				v = u.X
			}
			for i, f := range fn.FreeVars {
				if ssa.Value(f) == v && i < len(binds) {
					return r.e.view(st, binds[i])
				}
			}
			for i, p := range fn.Params {
				if ssa.Value(p) == v && i+1 < len(o.args) {
					return o.args[i+1]
				}
			}
			return nil
		}
		done, end := -1, -1
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				sel, is := in.(*ssa.Select)
				if !is || !sel.Blocking {
					continue
				}
				for k, s := range sel.States {
					if call, is := s.Chan.(*ssa.Call); is && call.Call.IsInvoke() && call.Call.Method.Name() == "Done" {
						done = k
					} else if ch := chanOf(s.Chan); ch != nil {
						released := true
						for _, x := range r.outs {
							released = released && x.st.facts.has(r.e.in.fact(Fact{kind: "EV", name: "close", args: []*Term{ch}, pos: eventPos(x.st, "close", ch)}))
						}
						if released {
							end = k
						}
					}
				}
			}
		}
		if done < 0 || end < 0 {
			continue
		}
		outs := r.e.call(fn, o.args[1:], binds, st, "watcher", nil, false, 1)
		closes, other := 0, 0
		for _, x := range outs {
			if r.pm.Holds(x.st, `ev("net.Conn.Close", p.protocol.Conn)`, bmap{}) {
				closes++
			} else {
				other++
				idx := false
				for _, f := range x.st.facts.list() {
					idx = idx || f.kind == "EQ" && f.b == nil && f.a != nil && f.a.op == OpFresh && f.a.str == "selidx" && f.c.IsInt64() && int(f.c.Int64()) == end ||
						f.kind == "NE" && f.b == nil && f.a != nil && f.a.op == OpFresh && f.a.str == "selidx" && f.c.IsInt64() && int(f.c.Int64()) == done
				}
				if !idx {
					closes = -1000
				}
			}
		}
		c.fns[fname(fn)] = true
		if closes > 0 {
			ok = true
		}
	}
	c.ob("watcher-closes", fname(r.fn), r.fn.Pos(), ok, why)
}

func eventPos(st *State, name string, a *Term) token.Pos {
	for _, f := range st.facts.list() {
		if f.kind == "EV" && f.name == name && len(f.args) > 0 && f.args[0] == a {
			return f.pos
		}
	}
	return token.NoPos
}

// once: on every outcome the event happened at exactly one place, outside of any loop.
func (r *Run) once(rule, event, meaning string) {
	for _, o := range r.outs {
		n := 0
		for f := range o.st.may.m {
			if f.name == event || f.name == event+" again" {
				n++
				if len(f.loops) > 0 {
					n = 99
				}
			}
		}
		if n != 1 {
			r.c.ob(rule, fname(r.fn), o.pos, false, fmt.Sprintf("%s: it may happen %d times", meaning, n))
			return
		}
	}
	r.c.ob(rule, fname(r.fn), r.fn.Pos(), len(r.outs) > 0, meaning)
}

// syncPat, nodePat: what a node says of its chain and itself.
func syncPat(x, bc string) string {
	top := "BlockChain.TopBlock(" + bc + ")"
	return x + "{CurrentHeight: Block.Index(" + top + ") + 1, TopBlockHash: Block.Hash(" + top + ")}"
}

func nodePat(bc string) string {
	return "BasicNodeData{NetworkID: " + bc + ".Network.NetworkID, Version: " + bc + ".Network.P2PCurrentVersion}"
}

// replyRules: every answer is the one of the request's command.
func (c *Ctx) replyRules() {
	sync, node := syncPat, nodePat
	cfg := p2pCfg(hsReply, hsNotify)
	op := cfg.Opaque
	cfg.Opaque = func(f *ssa.Function) bool { return op(f) || fname(f) == "p2p.peerStore.toPeerEntries" }
	if r := c.run("", c.fn("p2p", "Node", "handleCommand"), cfg, []string{"n", "p", "cmd"}); r != nil {
		r.at("reply-command", hsReply, "is(v_c, p2p.HandshakeRequest) && val(a1, either(cmd.Command, 1001)) || is(v_c, p2p.TimedSyncRequest) && val(a1, either(cmd.Command, 1002))", "an answer carries the command of the request", 2)
		r.at("reply-content", hsReply, "is(v_c, p2p.HandshakeRequest) && val(a2, HandshakeResponse{NodeData: "+node("n.Blockchain")+", PayloadData: "+sync("SyncData", "n.Blockchain")+", Peers: peerStore.toPeerEntries(n.ps)})"+
			" || is(v_c, p2p.TimedSyncRequest) && val(a2, TimedSyncResponse{PayloadData: "+sync("SyncData", "n.Blockchain")+", Peers: peerStore.toPeerEntries(n.ps)})", "a request is answered with the node's own chain state and peers", 2)
	}
}

// announceRules: what the node tells its peers about itself.
func (c *Ctx) announceRules() {
	sync, node := syncPat, nodePat
	for _, f := range []string{"NewHandshakeRequest", "NewHandshakeResponse"} {
		if r := c.run("", c.fn("p2p", "", f), p2pCfg(), []string{"bc", "peers"}); r != nil {
			t := strings.TrimPrefix(f, "New")
			r.must("handshake-network", "result(0, "+t+"{NodeData: "+node("bc")+"})", "a handshake names the network and version of the node")
			r.must("handshake-height", "result(0, "+t+"{PayloadData: "+sync("SyncData", "bc")+"})", "a handshake carries the height and the hash of the top block")
			if t == "HandshakeResponse" {
				r.must("handshake-peers", "result(0, "+t+"{Peers: peers})", "the answer to a handshake carries the known peers")
			}
		}
	}
	c.replyRules()
	if r := c.run("", c.fn("p2p", "Node", "NotifyRequestChain"), p2pCfg(hsNotify), []string{"n", "p"}); r != nil {
		r.must("chain-request-content", `ev("`+hsNotify+`", p.protocol, 2006, NotificationRequestChain{Blocks: r0(BlockChain.BuildSparseChain(n.Blockchain))})`, "a chain request lists the sparse chain of the node")
	}
	if r := c.run("", c.fn("p2p", "Peer", "requestChain"), p2pCfg(hsNotify), []string{"p", "bc"}); r != nil {
		r.must("chain-request-content", `ev("`+hsNotify+`", p.protocol, 2006, NotificationRequestChain{Blocks: r0(BlockChain.BuildSparseChain(bc))})`, "a chain request lists the sparse chain of the node")
	}
}

// peerStoreRules: the lists of known peers.
func (c *Ctx) peerStoreRules() {
	for _, x := range [][3]string{{"toWhite", "white", "grey"}, {"toGrey", "grey", "white"}} {
		if r := c.run("", c.fn("p2p", "peerStore", x[0]), pathCfg(p2pCfg()), []string{"ps", "p"}); r != nil {
			r.must("move-files", `ev("put", ps.`+x[1]+`.peers, p.ID, p)`, "the peer is filed under its identifier in the list named")
			r.must("move-identified", "p.ID != 0", "a peer without an identifier is not filed")
			r.must("move-new", "!has(ps."+x[1]+".peers, p.ID)", "a filed peer is not replaced by another one")
			r.must("move-removes", `ev("delete", ps.`+x[2]+`.peers, p.ID) || !has(ps.`+x[2]+`.peers, p.ID)`, "the peer leaves the other list")
		}
	}
	if r := c.run("", c.fn("p2p", "peerStore", "toPeerEntries"), p2pCfg(), []string{"ps"}); r != nil {
		for _, l := range []string{"white", "grey"} {
			r.must("list-"+l, "all(i, ps."+l+".peers, step(v_l, append(v_l, PeerEntry{ID: ps."+l+".peers[i].ID, Address: ps."+l+".peers[i].address})))", "every "+l+" peer is listed with its identifier and address")
		}
	}
}

func init() {
	register("P05", "A node describes itself truthfully to its peers", "", nil, func(c *Ctx) { c.announceRules() })
	register("P06", "The peer lists are consistent", "", nil, func(c *Ctx) { c.peerStoreRules() })
	register("P04", "Connections and goroutines of the node end with the node", "", nil, func(c *Ctx) { c.lifetimeRules() })
	register("P03", "A peer that breaks the protocol is disconnected", "", nil, func(c *Ctx) { c.violationRules() })
	register("P02", "Only requested blocks reach the chain, each with its own transactions", "", nil, func(c *Ctx) { c.deliveryRules() })
	register("P01", "Peers are admitted by a handshake of the same network", "", nil, func(c *Ctx) { c.handshakeRules() })
}
