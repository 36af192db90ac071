package node/msg
prop C24

smtfun encodedmsg (Iface) BS

iface Msg.Encode(m) (p)
  modifies nothing
  ensures bytes(p) == encodedmsg(m)
  ensures 1 <= len(p) && len(p) < 4611686018427387904
  // as proved of each of the messages (C23)
  ensures imp(is(m, *Syn), p[0] == 3 && bytes(p[1:]) == ser(unboxed(m, *Syn)))
  ensures imp(is(m, *Ack), p[0] == 4 && bytes(p[1:]) == ser(unboxed(m, *Ack)))
  ensures imp(is(m, *Err), p[0] == 6 && bytes(p[1:]) == ser(unboxed(m, *Err)))

package node
prop C24

func (*Conn).encodeMsg(c, seq, rseq, m) (raw)
  opaque
  requires m != nil && imp(is(m, *msg.Syn), unboxed(m, *msg.Syn) != nil) && imp(is(m, *msg.Ack), unboxed(m, *msg.Ack) != nil) && imp(is(m, *msg.Err), unboxed(m, *msg.Err) != nil)
  modifies nothing
  ensures length: len(raw) == 8 + bslen(encodedmsg(m))
  ensures seq: raw[0] + 256 * raw[1] + 65536 * raw[2] + 16777216 * raw[3] == seq
  ensures rseq: raw[4] + 256 * raw[5] + 65536 * raw[6] + 16777216 * raw[7] == rseq
  ensures contents: bytes(raw[8:]) == encodedmsg(m)
  ensures fresh: fresh(raw)
  ensures type: imp(is(m, *msg.Syn), raw[8] == 3) && imp(is(m, *msg.Ack), raw[8] == 4) && imp(is(m, *msg.Err), raw[8] == 6)
  ensures Syn: imp(is(m, *msg.Syn), bytes(raw[9:]) == ser(unboxed(m, *msg.Syn)))
  ensures Ack: imp(is(m, *msg.Ack), bytes(raw[9:]) == ser(unboxed(m, *msg.Ack)))
  ensures Err: imp(is(m, *msg.Err), bytes(raw[9:]) == ser(unboxed(m, *msg.Err)))

func (*Conn).decodeRaw(c, raw) (seq, rseq, m, err)
  opaque
  modifies nothing
  ensures short: imp(len(raw) < 9, err != nil && m == nil && seq == 0 && rseq == 0)
  ensures seq: imp(len(raw) >= 9, raw[0] + 256 * raw[1] + 65536 * raw[2] + 16777216 * raw[3] == seq)
  ensures rseq: imp(len(raw) >= 9, raw[4] + 256 * raw[5] + 65536 * raw[6] + 16777216 * raw[7] == rseq)
  // decoded
  ensures Empty: imp(len(raw) >= 9, decEmpty(raw[8:], m, err))
  ensures Type: imp(len(raw) >= 9, decType(raw[8:], m, err))
  ensures WhichType: imp(len(raw) >= 9, decWhichType(raw[8:], m, err))
  ensures Incomplete: imp(len(raw) >= 9, decIncomplete(raw[8:], m, err))
  ensures Result: imp(len(raw) >= 9, decResult(raw[8:], m, err))
  ensures PingAccepted: imp(len(raw) >= 9, decPingAccepted(raw[8:], m, err))
  ensures PingRest: imp(len(raw) >= 9, decPingRest(raw[8:], m, err))
  ensures PingContents: imp(len(raw) >= 9, decPingContents(raw[8:], m, err))
  ensures PongAccepted: imp(len(raw) >= 9, decPongAccepted(raw[8:], m, err))
  ensures PongRest: imp(len(raw) >= 9, decPongRest(raw[8:], m, err))
  ensures PongContents: imp(len(raw) >= 9, decPongContents(raw[8:], m, err))
  ensures SynAccepted: imp(len(raw) >= 9, decSynAccepted(raw[8:], m, err))
  ensures SynRest: imp(len(raw) >= 9, decSynRest(raw[8:], m, err))
  ensures SynContents: imp(len(raw) >= 9, decSynContents(raw[8:], m, err))
  ensures AckAccepted: imp(len(raw) >= 9, decAckAccepted(raw[8:], m, err))
  ensures AckRest: imp(len(raw) >= 9, decAckRest(raw[8:], m, err))
  ensures AckContents: imp(len(raw) >= 9, decAckContents(raw[8:], m, err))
  ensures OkAccepted: imp(len(raw) >= 9, decOkAccepted(raw[8:], m, err))
  ensures OkRest: imp(len(raw) >= 9, decOkRest(raw[8:], m, err))
  ensures OkContents: imp(len(raw) >= 9, decOkContents(raw[8:], m, err))
  ensures ErrAccepted: imp(len(raw) >= 9, decErrAccepted(raw[8:], m, err))
  ensures ErrRest: imp(len(raw) >= 9, decErrRest(raw[8:], m, err))
  ensures ErrContents: imp(len(raw) >= 9, decErrContents(raw[8:], m, err))
  ensures SubAccepted: imp(len(raw) >= 9, decSubAccepted(raw[8:], m, err))
  ensures SubRest: imp(len(raw) >= 9, decSubRest(raw[8:], m, err))
  ensures SubContents: imp(len(raw) >= 9, decSubContents(raw[8:], m, err))
  ensures UnsubAccepted: imp(len(raw) >= 9, decUnsubAccepted(raw[8:], m, err))
  ensures UnsubRest: imp(len(raw) >= 9, decUnsubRest(raw[8:], m, err))
  ensures UnsubContents: imp(len(raw) >= 9, decUnsubContents(raw[8:], m, err))
  ensures RqListAccepted: imp(len(raw) >= 9, decRqListAccepted(raw[8:], m, err))
  ensures RqListRest: imp(len(raw) >= 9, decRqListRest(raw[8:], m, err))
  ensures RqListContents: imp(len(raw) >= 9, decRqListContents(raw[8:], m, err))
  ensures ListAccepted: imp(len(raw) >= 9, decListAccepted(raw[8:], m, err))
  ensures ListRest: imp(len(raw) >= 9, decListRest(raw[8:], m, err))
  ensures ListContents: imp(len(raw) >= 9, decListContents(raw[8:], m, err))
  ensures RootAccepted: imp(len(raw) >= 9, decRootAccepted(raw[8:], m, err))
  ensures RootRest: imp(len(raw) >= 9, decRootRest(raw[8:], m, err))
  ensures RootContents: imp(len(raw) >= 9, decRootContents(raw[8:], m, err))
  ensures RqObjectAccepted: imp(len(raw) >= 9, decRqObjectAccepted(raw[8:], m, err))
  ensures RqObjectRest: imp(len(raw) >= 9, decRqObjectRest(raw[8:], m, err))
  ensures RqObjectContents: imp(len(raw) >= 9, decRqObjectContents(raw[8:], m, err))
  ensures ObjectAccepted: imp(len(raw) >= 9, decObjectAccepted(raw[8:], m, err))
  ensures ObjectRest: imp(len(raw) >= 9, decObjectRest(raw[8:], m, err))
  ensures ObjectContents: imp(len(raw) >= 9, decObjectContents(raw[8:], m, err))
  ensures RqPreviewAccepted: imp(len(raw) >= 9, decRqPreviewAccepted(raw[8:], m, err))
  ensures RqPreviewRest: imp(len(raw) >= 9, decRqPreviewRest(raw[8:], m, err))
  ensures RqPreviewContents: imp(len(raw) >= 9, decRqPreviewContents(raw[8:], m, err))
  ensures RqPeersAccepted: imp(len(raw) >= 9, decRqPeersAccepted(raw[8:], m, err))
  ensures RqPeersRest: imp(len(raw) >= 9, decRqPeersRest(raw[8:], m, err))
  ensures RqPeersContents: imp(len(raw) >= 9, decRqPeersContents(raw[8:], m, err))
  ensures PeersAccepted: imp(len(raw) >= 9, decPeersAccepted(raw[8:], m, err))
  ensures PeersRest: imp(len(raw) >= 9, decPeersRest(raw[8:], m, err))
  ensures PeersContents: imp(len(raw) >= 9, decPeersContents(raw[8:], m, err))
  // end

func (*Conn).nextSeq(c) (seq)
  requires c != nil
  modifies c.seq
  ensures next: seq == ite(old(c.seq) == 4294967295, 1, old(c.seq) + 1) && c.seq == seq
  ensures notzero: seq != 0
  inv (_i == 0 && c.seq == old(c.seq)) || (_i == 0 && c.seq == 0 && old(c.seq) == 4294967295) || (_i != 0 && c.seq == _i && _i == ite(old(c.seq) == 4294967295, 1, old(c.seq) + 1))

func (*Conn).addRequest(c, seq, rq)
  requires c != nil && c.reqs != nil
  guarded c.mx: c.reqs[*]
  ensures added: has(c.reqs, seq) && c.reqs[seq] == rq
  ensures others: forall(k, uint32, imp(k != seq, iff(has(c.reqs, k), old(has(c.reqs, k))) && imp(has(c.reqs, k), c.reqs[k] == old(c.reqs[k]))))

func (*Conn).delRequest(c, seq)
  requires c != nil
  guarded c.mx: c.reqs[*]
  ensures gone: !has(c.reqs, seq)
  ensures others: forall(k, uint32, imp(k != seq, iff(has(c.reqs, k), old(has(c.reqs, k))) && imp(has(c.reqs, k), c.reqs[k] == old(c.reqs[k]))))

func (*Conn).isResponse(c, rseq) (rq, ok)
  requires c != nil
  guarded c.mx: c.reqs[*]
  modifies c.mx, c.reqs[*]
  ensures ok: ok == old(has(c.reqs, rseq))
  ensures channel: imp(ok, rq == old(c.reqs[rseq]))
  ensures once: !has(c.reqs, rseq)
  ensures others: forall(k, uint32, imp(k != rseq, iff(has(c.reqs, k), old(has(c.reqs, k))) && imp(has(c.reqs, k), c.reqs[k] == old(c.reqs[k]))))
