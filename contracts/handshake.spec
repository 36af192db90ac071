package time
prop C25

smtfun istimer (Int) Bool

func NewTimer(d) (t)
  trusted
  modifies nothing
  ensures t != nil && t.C != 0 && istimer(t.C)

package github.com/skycoin/net/factory
prop C25

smtfun chanin (Int) Int

func (*Connection).GetChanIn(fc) (ch)
  trusted
  modifies nothing
  ensures ch == chanin(fc) && ch != 0 && !istimer(ch)

func (*Connection).GetRemoteAddr(fc) (a)
  trusted
  modifies nothing
  ensures a != nil

package node
prop C25

define connected(c) = c != nil && c.n != nil && c.n.Logger != nil && c.n.config != nil && c.reqs != nil && c.closeq != 0 && c.sendq != 0 && c.sendq != chanin(c.Connection) && c.closeq != chanin(c.Connection)
define in(c) = chanin(c.Connection)
// the frame that was read
define got(c) = nreceived(in(c)) == old(nreceived(in(c))) + 1
define frame(c) = received(in(c), old(nreceived(in(c))), []byte)
define num(raw, i) = raw[i] + 256 * raw[i+1] + 65536 * raw[i+2] + 16777216 * raw[i+3]
// the frame that was sent
define sends(c) = nsent(c.sendq) == old(nsent(c.sendq)) + 1
define reply(c) = sent(c.sendq, old(nsent(c.sendq)), []byte)
define isAck(raw) = len(raw) >= 9 && raw[8] == 4 && desok(msg.Ack, bytes(raw[9:])) && desn(msg.Ack, bytes(raw[9:])) + 9 == len(raw)
define ackID(raw) = desf(msg.Ack, bytes(raw[9:]), NodeID)
define isErr(raw) = len(raw) >= 9 && raw[8] == 6 && desok(msg.Err, bytes(raw[9:])) && desn(msg.Err, bytes(raw[9:])) + 9 == len(raw)
define isSyn(raw) = len(raw) >= 9 && raw[8] == 3 && desok(msg.Syn, bytes(raw[9:])) && desn(msg.Syn, bytes(raw[9:])) + 9 == len(raw)
define synID(raw) = desf(msg.Syn, bytes(raw[9:]), NodeID)
define synVer(raw) = desf(msg.Syn, bytes(raw[9:]), Protocol)
define mySeq(c) = ite(old(c.seq) == 4294967295, 1, old(c.seq) + 1)

func (*Conn).String(c) (s)
  opaque
  requires c != nil
  pure net.Addr.String, (*github.com/skycoin/net/factory.Connection).IsTCP
  modifies nothing

func (*Conn).performHandshake(c) (err)
  requires connected(c)
  pure node/log.Logger.*, net.Addr.String, (*github.com/skycoin/net/factory.Connection).IsTCP, (*time.Timer).Stop
  modifies c.seq, c.peerID
  ensures peer: imp(err != nil, c.peerID == old(c.peerID))
  ensures one: got(c) || nreceived(in(c)) == old(nreceived(in(c)))
  ensures synSent: imp(err == nil || got(c), sends(c))
  ensures synNumber: imp(err == nil || got(c), num(reply(c), 0) == mySeq(c) && num(reply(c), 4) == 0)
  lemma synBytes: imp(err == nil || got(c), reply(c)[8] == 3 && bytes(reply(c)[9:]) == serof(msg.Syn, msg.Version, c.n.idpk))
  ensures syn: imp(err == nil || got(c), isSyn(reply(c)))
  ensures synContents: imp(err == nil || got(c), synVer(reply(c)) == msg.Version && synID(reply(c)) == c.n.idpk)
  ensures answered: imp(err == nil, got(c) && num(frame(c), 4) == mySeq(c) && isAck(frame(c)))
  ensures identity: imp(err == nil, c.peerID == ackID(frame(c)) && !has(c.n.pkToConn, c.peerID))
  ensures accepted: imp(got(c) && num(frame(c), 4) == mySeq(c) && isAck(frame(c)) && !has(c.n.pkToConn, ackID(frame(c))), err == nil)
  ensures twice: imp(got(c) && num(frame(c), 4) == mySeq(c) && isAck(frame(c)) && has(c.n.pkToConn, ackID(frame(c))), err == ErrAlreadyHaveConnection)

func (*Conn).acceptHandshake(c) (err)
  requires connected(c)
  pure node/log.Logger.*, net.Addr.String, (*github.com/skycoin/net/factory.Connection).IsTCP, (*time.Timer).Stop
  modifies c.seq, c.peerID
  ensures peer: imp(err != nil, c.peerID == old(c.peerID))
  ensures one: got(c) || nreceived(in(c)) == old(nreceived(in(c)))
  ensures asked: imp(err == nil, got(c) && isSyn(frame(c)) && synVer(frame(c)) == msg.Version && !has(c.n.pkToConn, synID(frame(c))))
  ensures identity: imp(err == nil, c.peerID == synID(frame(c)))
  lemma ackBytes: imp(err == nil, reply(c)[8] == 4 && bytes(reply(c)[9:]) == serof(msg.Ack, c.n.idpk))
  ensures ack: imp(err == nil, sends(c) && num(reply(c), 4) == num(frame(c), 0) && isAck(reply(c)) && ackID(reply(c)) == c.n.idpk)
  ensures noack: imp(err != nil && sends(c), !isAck(reply(c)))
  ensures most: sends(c) || nsent(c.sendq) == old(nsent(c.sendq))
  ensures told: imp(err != nil && sends(c), num(reply(c), 4) == num(frame(c), 0) && isErr(reply(c)))
  ensures twice: imp(got(c) && isSyn(frame(c)) && synVer(frame(c)) == msg.Version && has(c.n.pkToConn, synID(frame(c))), err == ErrAlreadyHaveConnection)
