package node/msg
prop C23

define decEmpty(p, m, err) = iff(len(p) == 0, err == ErrEmptyMessage)
define decType(p, m, err) = imp(len(p) > 0, iff(p[0] < 1 || p[0] > 16, is(err, InvalidTypeError)))
define decWhichType(p, m, err) = imp(is(err, InvalidTypeError), as(unboxed(err, InvalidTypeError), InvalidTypeError).typ == p[0])
define decIncomplete(p, m, err) = imp(err == nil || err == ErrIncomplieDecoding, len(p) > 0 && 1 <= p[0] && p[0] <= 16)
define decResult(p, m, err) = iff(err == nil, m != nil)
define decPingAccepted(p, m, err) = imp(len(p) > 0 && p[0] == 1, iff(err == nil, desok(Ping, bytes(p[1:])) && desn(Ping, bytes(p[1:])) + 1 == len(p)))
define decPingRest(p, m, err) = imp(len(p) > 0 && p[0] == 1, iff(err == ErrIncomplieDecoding, desok(Ping, bytes(p[1:])) && desn(Ping, bytes(p[1:])) + 1 != len(p)))
define decPingContents(p, m, err) = imp(err == nil && p[0] == 1, is(m, *Ping))
define decPongAccepted(p, m, err) = imp(len(p) > 0 && p[0] == 2, iff(err == nil, desok(Pong, bytes(p[1:])) && desn(Pong, bytes(p[1:])) + 1 == len(p)))
define decPongRest(p, m, err) = imp(len(p) > 0 && p[0] == 2, iff(err == ErrIncomplieDecoding, desok(Pong, bytes(p[1:])) && desn(Pong, bytes(p[1:])) + 1 != len(p)))
define decPongContents(p, m, err) = imp(err == nil && p[0] == 2, is(m, *Pong))
define decSynAccepted(p, m, err) = imp(len(p) > 0 && p[0] == 3, iff(err == nil, desok(Syn, bytes(p[1:])) && desn(Syn, bytes(p[1:])) + 1 == len(p)))
define decSynRest(p, m, err) = imp(len(p) > 0 && p[0] == 3, iff(err == ErrIncomplieDecoding, desok(Syn, bytes(p[1:])) && desn(Syn, bytes(p[1:])) + 1 != len(p)))
define decSynContents(p, m, err) = imp(err == nil && p[0] == 3, is(m, *Syn) && unboxed(m, *Syn) != nil && unboxed(m, *Syn).Protocol == desf(Syn, bytes(p[1:]), Protocol) && unboxed(m, *Syn).NodeID == desf(Syn, bytes(p[1:]), NodeID))
define decAckAccepted(p, m, err) = imp(len(p) > 0 && p[0] == 4, iff(err == nil, desok(Ack, bytes(p[1:])) && desn(Ack, bytes(p[1:])) + 1 == len(p)))
define decAckRest(p, m, err) = imp(len(p) > 0 && p[0] == 4, iff(err == ErrIncomplieDecoding, desok(Ack, bytes(p[1:])) && desn(Ack, bytes(p[1:])) + 1 != len(p)))
define decAckContents(p, m, err) = imp(err == nil && p[0] == 4, is(m, *Ack) && unboxed(m, *Ack) != nil && unboxed(m, *Ack).NodeID == desf(Ack, bytes(p[1:]), NodeID))
define decOkAccepted(p, m, err) = imp(len(p) > 0 && p[0] == 5, iff(err == nil, desok(Ok, bytes(p[1:])) && desn(Ok, bytes(p[1:])) + 1 == len(p)))
define decOkRest(p, m, err) = imp(len(p) > 0 && p[0] == 5, iff(err == ErrIncomplieDecoding, desok(Ok, bytes(p[1:])) && desn(Ok, bytes(p[1:])) + 1 != len(p)))
define decOkContents(p, m, err) = imp(err == nil && p[0] == 5, is(m, *Ok))
define decErrAccepted(p, m, err) = imp(len(p) > 0 && p[0] == 6, iff(err == nil, desok(Err, bytes(p[1:])) && desn(Err, bytes(p[1:])) + 1 == len(p)))
define decErrRest(p, m, err) = imp(len(p) > 0 && p[0] == 6, iff(err == ErrIncomplieDecoding, desok(Err, bytes(p[1:])) && desn(Err, bytes(p[1:])) + 1 != len(p)))
define decErrContents(p, m, err) = imp(err == nil && p[0] == 6, is(m, *Err) && unboxed(m, *Err) != nil && unboxed(m, *Err).Err == desf(Err, bytes(p[1:]), Err))
define decSubAccepted(p, m, err) = imp(len(p) > 0 && p[0] == 7, iff(err == nil, desok(Sub, bytes(p[1:])) && desn(Sub, bytes(p[1:])) + 1 == len(p)))
define decSubRest(p, m, err) = imp(len(p) > 0 && p[0] == 7, iff(err == ErrIncomplieDecoding, desok(Sub, bytes(p[1:])) && desn(Sub, bytes(p[1:])) + 1 != len(p)))
define decSubContents(p, m, err) = imp(err == nil && p[0] == 7, is(m, *Sub) && unboxed(m, *Sub) != nil && unboxed(m, *Sub).Feed == desf(Sub, bytes(p[1:]), Feed))
define decUnsubAccepted(p, m, err) = imp(len(p) > 0 && p[0] == 8, iff(err == nil, desok(Unsub, bytes(p[1:])) && desn(Unsub, bytes(p[1:])) + 1 == len(p)))
define decUnsubRest(p, m, err) = imp(len(p) > 0 && p[0] == 8, iff(err == ErrIncomplieDecoding, desok(Unsub, bytes(p[1:])) && desn(Unsub, bytes(p[1:])) + 1 != len(p)))
define decUnsubContents(p, m, err) = imp(err == nil && p[0] == 8, is(m, *Unsub) && unboxed(m, *Unsub) != nil && unboxed(m, *Unsub).Feed == desf(Unsub, bytes(p[1:]), Feed))
define decRqListAccepted(p, m, err) = imp(len(p) > 0 && p[0] == 9, iff(err == nil, desok(RqList, bytes(p[1:])) && desn(RqList, bytes(p[1:])) + 1 == len(p)))
define decRqListRest(p, m, err) = imp(len(p) > 0 && p[0] == 9, iff(err == ErrIncomplieDecoding, desok(RqList, bytes(p[1:])) && desn(RqList, bytes(p[1:])) + 1 != len(p)))
define decRqListContents(p, m, err) = imp(err == nil && p[0] == 9, is(m, *RqList))
define decListAccepted(p, m, err) = imp(len(p) > 0 && p[0] == 10, iff(err == nil, desok(List, bytes(p[1:])) && desn(List, bytes(p[1:])) + 1 == len(p)))
define decListRest(p, m, err) = imp(len(p) > 0 && p[0] == 10, iff(err == ErrIncomplieDecoding, desok(List, bytes(p[1:])) && desn(List, bytes(p[1:])) + 1 != len(p)))
define decListContents(p, m, err) = imp(err == nil && p[0] == 10, is(m, *List) && unboxed(m, *List) != nil && seq(unboxed(m, *List).Feeds) == desf(List, bytes(p[1:]), Feeds))
define decRootAccepted(p, m, err) = imp(len(p) > 0 && p[0] == 11, iff(err == nil, desok(Root, bytes(p[1:])) && desn(Root, bytes(p[1:])) + 1 == len(p)))
define decRootRest(p, m, err) = imp(len(p) > 0 && p[0] == 11, iff(err == ErrIncomplieDecoding, desok(Root, bytes(p[1:])) && desn(Root, bytes(p[1:])) + 1 != len(p)))
define decRootContents(p, m, err) = imp(err == nil && p[0] == 11, is(m, *Root) && unboxed(m, *Root) != nil && unboxed(m, *Root).Feed == desf(Root, bytes(p[1:]), Feed) && unboxed(m, *Root).Nonce == desf(Root, bytes(p[1:]), Nonce) && unboxed(m, *Root).Seq == desf(Root, bytes(p[1:]), Seq) && bytes(unboxed(m, *Root).Value) == desf(Root, bytes(p[1:]), Value) && unboxed(m, *Root).Sig == desf(Root, bytes(p[1:]), Sig))
define decRqObjectAccepted(p, m, err) = imp(len(p) > 0 && p[0] == 12, iff(err == nil, desok(RqObject, bytes(p[1:])) && desn(RqObject, bytes(p[1:])) + 1 == len(p)))
define decRqObjectRest(p, m, err) = imp(len(p) > 0 && p[0] == 12, iff(err == ErrIncomplieDecoding, desok(RqObject, bytes(p[1:])) && desn(RqObject, bytes(p[1:])) + 1 != len(p)))
define decRqObjectContents(p, m, err) = imp(err == nil && p[0] == 12, is(m, *RqObject) && unboxed(m, *RqObject) != nil && unboxed(m, *RqObject).Key == desf(RqObject, bytes(p[1:]), Key))
define decObjectAccepted(p, m, err) = imp(len(p) > 0 && p[0] == 13, iff(err == nil, desok(Object, bytes(p[1:])) && desn(Object, bytes(p[1:])) + 1 == len(p)))
define decObjectRest(p, m, err) = imp(len(p) > 0 && p[0] == 13, iff(err == ErrIncomplieDecoding, desok(Object, bytes(p[1:])) && desn(Object, bytes(p[1:])) + 1 != len(p)))
define decObjectContents(p, m, err) = imp(err == nil && p[0] == 13, is(m, *Object) && unboxed(m, *Object) != nil && bytes(unboxed(m, *Object).Value) == desf(Object, bytes(p[1:]), Value))
define decRqPreviewAccepted(p, m, err) = imp(len(p) > 0 && p[0] == 14, iff(err == nil, desok(RqPreview, bytes(p[1:])) && desn(RqPreview, bytes(p[1:])) + 1 == len(p)))
define decRqPreviewRest(p, m, err) = imp(len(p) > 0 && p[0] == 14, iff(err == ErrIncomplieDecoding, desok(RqPreview, bytes(p[1:])) && desn(RqPreview, bytes(p[1:])) + 1 != len(p)))
define decRqPreviewContents(p, m, err) = imp(err == nil && p[0] == 14, is(m, *RqPreview) && unboxed(m, *RqPreview) != nil && unboxed(m, *RqPreview).Feed == desf(RqPreview, bytes(p[1:]), Feed))
define decRqPeersAccepted(p, m, err) = imp(len(p) > 0 && p[0] == 15, iff(err == nil, desok(RqPeers, bytes(p[1:])) && desn(RqPeers, bytes(p[1:])) + 1 == len(p)))
define decRqPeersRest(p, m, err) = imp(len(p) > 0 && p[0] == 15, iff(err == ErrIncomplieDecoding, desok(RqPeers, bytes(p[1:])) && desn(RqPeers, bytes(p[1:])) + 1 != len(p)))
define decRqPeersContents(p, m, err) = imp(err == nil && p[0] == 15, is(m, *RqPeers) && unboxed(m, *RqPeers) != nil && unboxed(m, *RqPeers).Feed == desf(RqPeers, bytes(p[1:]), Feed))
define decPeersAccepted(p, m, err) = imp(len(p) > 0 && p[0] == 16, iff(err == nil, desok(Peers, bytes(p[1:])) && desn(Peers, bytes(p[1:])) + 1 == len(p)))
define decPeersRest(p, m, err) = imp(len(p) > 0 && p[0] == 16, iff(err == ErrIncomplieDecoding, desok(Peers, bytes(p[1:])) && desn(Peers, bytes(p[1:])) + 1 != len(p)))
define decPeersContents(p, m, err) = imp(err == nil && p[0] == 16, is(m, *Peers) && unboxed(m, *Peers) != nil && unboxed(m, *Peers).Feed == desf(Peers, bytes(p[1:]), Feed))

func (*Ping).Type(m) (t)
  modifies nothing
  ensures t == 1

func (*Ping).Encode(m) (p)
  modifies nothing
  ensures type: len(p) > 0 && p[0] == 1
  ensures length: len(p) == 1

func (*Pong).Type(m) (t)
  modifies nothing
  ensures t == 2

func (*Pong).Encode(m) (p)
  modifies nothing
  ensures type: len(p) > 0 && p[0] == 2
  ensures length: len(p) == 1

func (*Syn).Type(m) (t)
  modifies nothing
  ensures t == 3

func (*Syn).Encode(m) (p)
  requires m != nil
  modifies nothing
  ensures type: len(p) > 0 && p[0] == 3
  ensures length: len(p) == 1 + bslen(ser(m))
  ensures contents: bytes(p[1:]) == ser(m)

func (*Ack).Type(m) (t)
  modifies nothing
  ensures t == 4

func (*Ack).Encode(m) (p)
  requires m != nil
  modifies nothing
  ensures type: len(p) > 0 && p[0] == 4
  ensures length: len(p) == 1 + bslen(ser(m))
  ensures contents: bytes(p[1:]) == ser(m)

func (*Ok).Type(m) (t)
  modifies nothing
  ensures t == 5

func (*Ok).Encode(m) (p)
  modifies nothing
  ensures type: len(p) > 0 && p[0] == 5
  ensures length: len(p) == 1

func (*Err).Type(m) (t)
  modifies nothing
  ensures t == 6

func (*Err).Encode(m) (p)
  requires m != nil
  modifies nothing
  ensures type: len(p) > 0 && p[0] == 6
  ensures length: len(p) == 1 + bslen(ser(m))
  ensures contents: bytes(p[1:]) == ser(m)

func (*Sub).Type(m) (t)
  modifies nothing
  ensures t == 7

func (*Sub).Encode(m) (p)
  requires m != nil
  modifies nothing
  ensures type: len(p) > 0 && p[0] == 7
  ensures length: len(p) == 1 + bslen(ser(m))
  ensures contents: bytes(p[1:]) == ser(m)

func (*Unsub).Type(m) (t)
  modifies nothing
  ensures t == 8

func (*Unsub).Encode(m) (p)
  requires m != nil
  modifies nothing
  ensures type: len(p) > 0 && p[0] == 8
  ensures length: len(p) == 1 + bslen(ser(m))
  ensures contents: bytes(p[1:]) == ser(m)

func (*RqList).Type(m) (t)
  modifies nothing
  ensures t == 9

func (*RqList).Encode(m) (p)
  modifies nothing
  ensures type: len(p) > 0 && p[0] == 9
  ensures length: len(p) == 1

func (*List).Type(m) (t)
  modifies nothing
  ensures t == 10

func (*List).Encode(m) (p)
  requires m != nil
  modifies nothing
  ensures type: len(p) > 0 && p[0] == 10
  ensures length: len(p) == 1 + bslen(ser(m))
  ensures contents: bytes(p[1:]) == ser(m)

func (*Root).Type(m) (t)
  modifies nothing
  ensures t == 11

func (*Root).Encode(m) (p)
  requires m != nil
  modifies nothing
  ensures type: len(p) > 0 && p[0] == 11
  ensures length: len(p) == 1 + bslen(ser(m))
  ensures contents: bytes(p[1:]) == ser(m)

func (*RqObject).Type(m) (t)
  modifies nothing
  ensures t == 12

func (*RqObject).Encode(m) (p)
  requires m != nil
  modifies nothing
  ensures type: len(p) > 0 && p[0] == 12
  ensures length: len(p) == 1 + bslen(ser(m))
  ensures contents: bytes(p[1:]) == ser(m)

func (*Object).Type(m) (t)
  modifies nothing
  ensures t == 13

func (*Object).Encode(m) (p)
  requires m != nil
  modifies nothing
  ensures type: len(p) > 0 && p[0] == 13
  ensures length: len(p) == 1 + bslen(ser(m))
  ensures contents: bytes(p[1:]) == ser(m)

func (*RqPreview).Type(m) (t)
  modifies nothing
  ensures t == 14

func (*RqPreview).Encode(m) (p)
  requires m != nil
  modifies nothing
  ensures type: len(p) > 0 && p[0] == 14
  ensures length: len(p) == 1 + bslen(ser(m))
  ensures contents: bytes(p[1:]) == ser(m)

func (*RqPeers).Type(m) (t)
  modifies nothing
  ensures t == 15

func (*RqPeers).Encode(m) (p)
  requires m != nil
  modifies nothing
  ensures type: len(p) > 0 && p[0] == 15
  ensures length: len(p) == 1 + bslen(ser(m))
  ensures contents: bytes(p[1:]) == ser(m)

func (*Peers).Type(m) (t)
  modifies nothing
  ensures t == 16

func (*Peers).Encode(m) (p)
  requires m != nil
  modifies nothing
  ensures type: len(p) > 0 && p[0] == 16

func Decode(p) (m, err)
  modifies nothing
  ensures Empty: decEmpty(p, m, err)
  ensures Type: decType(p, m, err)
  ensures WhichType: decWhichType(p, m, err)
  ensures Incomplete: decIncomplete(p, m, err)
  ensures Result: decResult(p, m, err)
  ensures PingAccepted: decPingAccepted(p, m, err)
  ensures PingRest: decPingRest(p, m, err)
  ensures PingContents: decPingContents(p, m, err)
  ensures PongAccepted: decPongAccepted(p, m, err)
  ensures PongRest: decPongRest(p, m, err)
  ensures PongContents: decPongContents(p, m, err)
  ensures SynAccepted: decSynAccepted(p, m, err)
  ensures SynRest: decSynRest(p, m, err)
  ensures SynContents: decSynContents(p, m, err)
  ensures AckAccepted: decAckAccepted(p, m, err)
  ensures AckRest: decAckRest(p, m, err)
  ensures AckContents: decAckContents(p, m, err)
  ensures OkAccepted: decOkAccepted(p, m, err)
  ensures OkRest: decOkRest(p, m, err)
  ensures OkContents: decOkContents(p, m, err)
  ensures ErrAccepted: decErrAccepted(p, m, err)
  ensures ErrRest: decErrRest(p, m, err)
  ensures ErrContents: decErrContents(p, m, err)
  ensures SubAccepted: decSubAccepted(p, m, err)
  ensures SubRest: decSubRest(p, m, err)
  ensures SubContents: decSubContents(p, m, err)
  ensures UnsubAccepted: decUnsubAccepted(p, m, err)
  ensures UnsubRest: decUnsubRest(p, m, err)
  ensures UnsubContents: decUnsubContents(p, m, err)
  ensures RqListAccepted: decRqListAccepted(p, m, err)
  ensures RqListRest: decRqListRest(p, m, err)
  ensures RqListContents: decRqListContents(p, m, err)
  ensures ListAccepted: decListAccepted(p, m, err)
  ensures ListRest: decListRest(p, m, err)
  ensures ListContents: decListContents(p, m, err)
  ensures RootAccepted: decRootAccepted(p, m, err)
  ensures RootRest: decRootRest(p, m, err)
  ensures RootContents: decRootContents(p, m, err)
  ensures RqObjectAccepted: decRqObjectAccepted(p, m, err)
  ensures RqObjectRest: decRqObjectRest(p, m, err)
  ensures RqObjectContents: decRqObjectContents(p, m, err)
  ensures ObjectAccepted: decObjectAccepted(p, m, err)
  ensures ObjectRest: decObjectRest(p, m, err)
  ensures ObjectContents: decObjectContents(p, m, err)
  ensures RqPreviewAccepted: decRqPreviewAccepted(p, m, err)
  ensures RqPreviewRest: decRqPreviewRest(p, m, err)
  ensures RqPreviewContents: decRqPreviewContents(p, m, err)
  ensures RqPeersAccepted: decRqPeersAccepted(p, m, err)
  ensures RqPeersRest: decRqPeersRest(p, m, err)
  ensures RqPeersContents: decRqPeersContents(p, m, err)
  ensures PeersAccepted: decPeersAccepted(p, m, err)
  ensures PeersRest: decPeersRest(p, m, err)
  ensures PeersContents: decPeersContents(p, m, err)
