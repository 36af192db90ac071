package cipher
prop C18

smtfun pubof ((Array Int Int)) (Array Int Int)

func PubKeyFromSecKey(sk) (pk, err)
  trusted
  modifies nothing
  ensures imp(err == nil, pk == pubof(sk))

func SignHash(hash, sk) (sig, err)
  trusted
  modifies nothing
  ensures imp(err == nil, signedby(pubof(sk), sig, hash))

package skyobject
prop C17

func (*Index).receivedRoot(i, pk, sig, val) (r, err)
  modifies nothing
  ensures accepted: iff(err == nil, r != nil)
  ensures signed: imp(err == nil, signedby(pk, sig, sha(bytes(val))))
  ensures feed: imp(err == nil, r.Pub == pk)
  ensures hash: imp(err == nil, r.Hash == sha(bytes(val)) && r.Sig == sig)
  ensures place: imp(err == nil, r.Nonce == desf(registry.Root, bytes(val), Nonce) && r.Seq == desf(registry.Root, bytes(val), Seq) && r.Prev == desf(registry.Root, bytes(val), Prev) && r.Time == desf(registry.Root, bytes(val), Time))
  ensures contents: imp(err == nil, r.Reg == desf(registry.Root, bytes(val), Reg) && seq(r.Refs) == desf(registry.Root, bytes(val), Refs) && bytes(r.Descriptor) == desf(registry.Root, bytes(val), Descriptor))
  ensures decodes: imp(err == nil, desok(registry.Root, bytes(val)) && desn(registry.Root, bytes(val)) == bslen(bytes(val)))
  ensures full: imp(err == nil, !r.IsFull)

func (*Index).PreviewRoot(i, pk, sig, val) (r, err)
  requires known(i)
  ensures unchanged: samedb()
  ensures accepted: iff(err == nil, r != nil)
  ensures signed: imp(err == nil, signedby(pk, sig, sha(bytes(val))))
  ensures feed: imp(err == nil, r.Pub == pk)
  ensures hash: imp(err == nil, r.Hash == sha(bytes(val)) && r.Sig == sig)
  ensures full: imp(err == nil, !r.IsFull)

func (*Index).ReceivedRoot(i, pk, sig, val) (r, err)
  requires known(i)
  ensures hasheads: hasheads(i)
  ensures apart: apart(i)
  ensures feedsin: feedsin(i)
  ensures headsin: headsin(i)
  ensures lastin: lastin(i)
  ensures actives: actives(i)
  ensures dbok: dbok()
  ensures unchanged: samedb()
  ensures accepted: imp(err == nil, r != nil)
  ensures signed: imp(r != nil, signedby(pk, sig, sha(bytes(val))) && r.Pub == pk && r.Hash == sha(bytes(val)) && r.Sig == sig)
  ensures feed: imp(err == nil, ixf(0)[pk])
  ensures contents: imp(err == nil, r.Nonce == desf(registry.Root, bytes(val), Nonce) && r.Seq == desf(registry.Root, bytes(val), Seq) && r.Prev == desf(registry.Root, bytes(val), Prev) && r.Time == desf(registry.Root, bytes(val), Time) && r.Reg == desf(registry.Root, bytes(val), Reg) && seq(r.Refs) == desf(registry.Root, bytes(val), Refs))
  ensures full: imp(err == nil, iff(r.IsFull, ixr(0)[pk][r.Nonce][r.Seq]))

prop C18

func (*Index).saveRoot(i, up, r) (val, err)
  uses setActive
  requires known(i)
  requires up != nil && r != nil && i.c.conf != nil
  requires forall(p, cipher.PubKey, forall(n, uint64, forall(s, uint64, imp(ixr(0)[p][n][s], s < 18446744073709551615))))
  requires forall(p, cipher.PubKey, forall(n, uint64, forall(s, uint64, imp(ixr(0)[p][n][s], exists(j, int, 0 <= j && j < 32 && ixhash(0)[p][n][s][j] != 0)))))
  ensures hasheads: hasheads(i)
  ensures apart: apart(i)
  ensures feedsin: feedsin(i)
  ensures headsin: headsin(i)
  ensures lastin: lastin(i)
  ensures actives: actives(i)
  ensures dbok: dbok()
  ensures failed: imp(err != nil, samedb())
  ensures feed: imp(err == nil, old(ixf(0)[r.Pub]))
  ensures place: imp(err == nil, r.Pub == old(r.Pub) && r.Nonce == old(r.Nonce) && r.Reg == old(r.Reg) && seq(r.Refs) == old(seq(r.Refs)))
  ensures first: imp(err == nil && r.Seq == 0, forall(s, uint64, !old(ixr(0)[r.Pub][r.Nonce][s])) && forall(j, int, imp(0 <= j && j < 32, r.Prev[j] == 0)))
  ensures next: imp(err == nil && r.Seq > 0, old(ixr(0))[r.Pub][r.Nonce][r.Seq - 1] && r.Prev == old(ixhash(0))[r.Pub][r.Nonce][r.Seq - 1])
  ensures last: imp(err == nil, forall(s, uint64, imp(old(ixr(0)[r.Pub][r.Nonce][s]), s < r.Seq)))
  ensures encoded: imp(err == nil, bytes(val) == serof(registry.Root, r.Refs, r.Descriptor, r.Reg, r.Pub, r.Nonce, r.Seq, r.Time, r.Prev) && r.Hash == sha(bytes(val)) && len(val) <= i.c.conf.MaxObjectSize)
  ensures signed: imp(err == nil, signedby(pubof(up.sk), r.Sig, r.Hash))
  ensures full: imp(err == nil, r.IsFull)
  ensures added: imp(err == nil, ixf(0) == old(ixf(0)) && ixh(0) == put2(old(ixh(0)), r.Pub, r.Nonce, true) && ixr(0) == put3(old(ixr(0)), r.Pub, r.Nonce, r.Seq, true))
  ensures stored: imp(err == nil, ixhash(0) == put3(old(ixhash(0)), r.Pub, r.Nonce, r.Seq, r.Hash) && ixprev(0) == put3(old(ixprev(0)), r.Pub, r.Nonce, r.Seq, r.Prev) && ixsig(0) == put3(old(ixsig(0)), r.Pub, r.Nonce, r.Seq, r.Sig) && ixtime(0) == put3(old(ixtime(0)), r.Pub, r.Nonce, r.Seq, r.Time))
