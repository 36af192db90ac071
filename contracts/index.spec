package cipher
prop C17

smtfun signedby ((Array Int Int) (Array Int Int) (Array Int Int)) Bool

func VerifyPubKeySignedHash(pk, sig, hash) (err)
  trusted
  modifies nothing
  ensures iff(err == nil, signedby(pk, sig, hash))

package data
prop C16

// What the index database has: feeds, their heads, roots of them, and the
// record of each root. There is one database.
ghost ixf : (Array (Array Int Int) Bool)
ghost ixh : (Array (Array Int Int) (Array Int Bool))
ghost ixr : (Array (Array Int Int) (Array Int (Array Int Bool)))
ghost ixhash : (Array (Array Int Int) (Array Int (Array Int (Array Int Int))))
ghost ixprev : (Array (Array Int Int) (Array Int (Array Int (Array Int Int))))
ghost ixsig : (Array (Array Int Int) (Array Int (Array Int (Array Int Int))))
ghost ixtime : (Array (Array Int Int) (Array Int (Array Int Int)))

// what a handle of the database is for
smtfun hfeed (Iface) (Array Int Int)
smtfun rfeed (Iface) (Array Int Int)
smtfun rnonce (Iface) Int

define put2(a, p, n, v) = store(a, p, store(a[p], n, v))
define put3(a, p, n, s, v) = store(a, p, store(a[p], n, store(a[p][n], s, v)))
define dbrecord(r, p, n) = r.Hash == ixhash(0)[p][n][r.Seq] && r.Prev == ixprev(0)[p][n][r.Seq] && r.Sig == ixsig(0)[p][n][r.Seq] && r.Time == ixtime(0)[p][n][r.Seq]

iface Feeds.Add(f, pk) (err)
  modifies ixf(0)
  ensures imp(err == nil, ixf(0) == store(old(ixf(0)), pk, true))

iface Feeds.Del(f, pk) (err)
  modifies ixf(0), ixh(0), ixr(0)
  ensures imp(!old(ixf(0)[pk]), err == ErrNoSuchFeed)
  ensures imp(err == nil, ixf(0) == store(old(ixf(0)), pk, false))
  ensures imp(err == nil, forall(p, cipher.PubKey, forall(n, uint64, iff(ixh(0)[p][n], old(ixh(0)[p][n]) && p != pk))))
  ensures imp(err == nil, forall(p, cipher.PubKey, forall(n, uint64, forall(s, uint64, iff(ixr(0)[p][n][s], old(ixr(0)[p][n][s]) && p != pk)))))

iface Feeds.Heads(f, pk) (hs, err)
  modifies nothing
  ensures imp(!ixf(0)[pk], err == ErrNoSuchFeed)
  ensures imp(ixf(0)[pk], err != ErrNoSuchFeed && err != ErrNoSuchHead && err != ErrNotFound && err != ErrStopIteration)
  ensures imp(err == nil, hs != nil && hfeed(hs) == pk)

iface Heads.Add(hs, nonce) (rs, err)
  modifies ixh(0)
  ensures imp(err == nil, rs != nil && rfeed(rs) == hfeed(hs) && rnonce(rs) == nonce && ixh(0) == put2(old(ixh(0)), hfeed(hs), nonce, true))

iface Heads.Del(hs, nonce) (err)
  modifies ixh(0), ixr(0)
  ensures imp(!old(ixh(0)[hfeed(hs)][nonce]), err == ErrNoSuchHead)
  ensures imp(err == nil, ixh(0) == put2(old(ixh(0)), hfeed(hs), nonce, false))
  ensures imp(err == nil, forall(p, cipher.PubKey, forall(n, uint64, forall(s, uint64, iff(ixr(0)[p][n][s], old(ixr(0)[p][n][s]) && !(p == hfeed(hs) && n == nonce))))))

iface Heads.Roots(hs, nonce) (rs, err)
  modifies nothing
  ensures imp(!ixh(0)[hfeed(hs)][nonce], err == ErrNoSuchHead)
  ensures imp(ixh(0)[hfeed(hs)][nonce], err != ErrNoSuchFeed && err != ErrNoSuchHead && err != ErrNotFound && err != ErrStopIteration)
  ensures imp(err == nil, rs != nil && rfeed(rs) == hfeed(hs) && rnonce(rs) == nonce)

iface Roots.Has(rs, seq) (ok, err)
  modifies nothing
  ensures imp(err == nil, iff(ok, ixr(0)[rfeed(rs)][rnonce(rs)][seq]))

iface Roots.Get(rs, seq) (r, err)
  modifies nothing
  ensures imp(!ixr(0)[rfeed(rs)][rnonce(rs)][seq], err == ErrNotFound)
  ensures imp(ixr(0)[rfeed(rs)][rnonce(rs)][seq], err != ErrNoSuchFeed && err != ErrNoSuchHead && err != ErrNotFound && err != ErrStopIteration)
  ensures imp(err == nil, r != nil && fresh(r) && r.Seq == seq && dbrecord(r, rfeed(rs), rnonce(rs)))

// the contents of a root that is there already stay, but the time of the access
iface Roots.Set(rs, r) (err)
  requires r != nil
  modifies ixr(0), ixhash(0), ixprev(0), ixsig(0), ixtime(0), r.Create, r.Access
  ensures imp(err == nil, ixr(0) == put3(old(ixr(0)), rfeed(rs), rnonce(rs), r.Seq, true))
  ensures imp(err == nil && !old(ixr(0)[rfeed(rs)][rnonce(rs)][r.Seq]), ixhash(0) == put3(old(ixhash(0)), rfeed(rs), rnonce(rs), r.Seq, r.Hash) && ixprev(0) == put3(old(ixprev(0)), rfeed(rs), rnonce(rs), r.Seq, r.Prev) && ixsig(0) == put3(old(ixsig(0)), rfeed(rs), rnonce(rs), r.Seq, r.Sig) && ixtime(0) == put3(old(ixtime(0)), rfeed(rs), rnonce(rs), r.Seq, r.Time))
  ensures imp(err == nil && old(ixr(0)[rfeed(rs)][rnonce(rs)][r.Seq]), ixhash(0) == old(ixhash(0)) && ixprev(0) == old(ixprev(0)) && ixsig(0) == old(ixsig(0)) && ixtime(0) == old(ixtime(0)))

iface Roots.Del(rs, seq) (err)
  modifies ixr(0)
  ensures imp(err == nil, ixr(0) == put3(old(ixr(0)), rfeed(rs), rnonce(rs), seq, false))
  ensures err != ErrNoSuchFeed && err != ErrNoSuchHead && err != ErrNotFound

// what iterations meet (see go/data/models.go)
func verifFeeds(fs) (m, err)
  trusted
  modifies nothing
  ensures err != ErrNoSuchFeed && err != ErrNoSuchHead && err != ErrNotFound && err != ErrStopIteration
  ensures imp(err == nil, m != nil && fresh(m) && forall(p, cipher.PubKey, iff(has(m, p), ixf(0)[p])))

func verifHeads(hs) (m, err)
  trusted
  modifies nothing
  ensures err != ErrNoSuchFeed && err != ErrNoSuchHead && err != ErrNotFound && err != ErrStopIteration
  ensures imp(err == nil, m != nil && fresh(m) && forall(n, uint64, iff(has(m, n), ixh(0)[hfeed(hs)][n])))

func verifRoots(rs) (m, err)
  trusted
  modifies nothing
  ensures err != ErrNoSuchFeed && err != ErrNoSuchHead && err != ErrNotFound && err != ErrStopIteration
  ensures imp(err == nil, m != nil && fresh(m) && forall(s, uint64, iff(has(m, s), ixr(0)[rfeed(rs)][rnonce(rs)][s])))

func verifRoot(rs, seq) (r)
  trusted
  modifies nothing
  ensures r != nil && fresh(r) && r.Seq == seq && dbrecord(r, rfeed(rs), rnonce(rs))

func verifLast(rs) (r, err)
  trusted
  modifies nothing
  ensures err != ErrNoSuchFeed && err != ErrNoSuchHead && err != ErrNotFound && err != ErrStopIteration
  ensures imp(err == nil && r == nil, forall(s, uint64, !ixr(0)[rfeed(rs)][rnonce(rs)][s]))
  ensures imp(err == nil && r != nil, fresh(r) && ixr(0)[rfeed(rs)][rnonce(rs)][r.Seq] && forall(s, uint64, imp(ixr(0)[rfeed(rs)][rnonce(rs)][s], s <= r.Seq)) && dbrecord(r, rfeed(rs), rnonce(rs)))

package skyobject
prop C16

define lastof(dr, p, n) = ite(dr == nil, forall(s, uint64, !ixr(0)[p][n][s]), ixr(0)[p][n][dr.Seq] && forall(s, uint64, imp(ixr(0)[p][n][s], s <= dr.Seq)) && dbrecord(dr, p, n))
define hasheads(i) = i != nil && i.stat != nil && forall(p, cipher.PubKey, forall(n, uint64, imp(has(i.feeds, p) && has(i.feeds[p].h, n), alive(i.feeds[p].h[n])))) && i.c != nil && i.c.db != nil && i.c.db.idxdb != nil && i.feeds != nil && forall(p, cipher.PubKey, imp(has(i.feeds, p), i.feeds[p] != nil && i.feeds[p].h != nil && alive(i.feeds[p]) && alive(i.feeds[p].h)))
define apart(i) = forall(p, cipher.PubKey, forall(q, cipher.PubKey, imp(has(i.feeds, p) && has(i.feeds, q) && p != q, i.feeds[p] != i.feeds[q] && i.feeds[p].h != i.feeds[q].h)))
define feedsin(i) = forall(p, cipher.PubKey, iff(has(i.feeds, p), ixf(0)[p]))
define headsin(i) = forall(p, cipher.PubKey, forall(n, uint64, imp(has(i.feeds, p), iff(has(i.feeds[p].h, n), ixh(0)[p][n]))))
define lastin(i) = forall(p, cipher.PubKey, forall(n, uint64, imp(has(i.feeds, p) && has(i.feeds[p].h, n), lastof(i.feeds[p].h[n], p, n))))
define dbok() = forall(p, cipher.PubKey, forall(n, uint64, imp(ixh(0)[p][n], ixf(0)[p]) && forall(s, uint64, imp(ixr(0)[p][n][s], ixh(0)[p][n]))))
define active(hs) = forall(n, uint64, imp(has(hs.h, n) && hs.h[n] != nil, hs.h[n].Time <= hs.activet)) && ((hs.activet == 0 && hs.activen == 0) || (hs.activet > 0 && has(hs.h, hs.activen) && hs.h[hs.activen] != nil && hs.h[hs.activen].Time == hs.activet))
define actives(i) = forall(p, cipher.PubKey, imp(has(i.feeds, p), active(i.feeds[p])))
define known(i) = hasheads(i) && apart(i) && feedsin(i) && headsin(i) && lastin(i) && actives(i) && dbok()

func (*indexHeads).setActive(hs) ()
  requires hs != nil
  opaque
  modifies hs.activet, hs.activen
  ensures active: active(hs)
  inv forall(n, uint64, imp(_v[n] && has(_P.h, n) && _P.h[n] != nil, _P.h[n].Time <= _P.activet))
  inv _P.activet >= 0
  inv (_P.activet == 0 && _P.activen == 0) || (_P.activet > 0 && has(_P.h, _P.activen) && _P.h[_P.activen] != nil && _P.h[_P.activen].Time == _P.activet)

define listed(i) = len(i.feedsl) == 0 || forall(p, cipher.PubKey, iff(among(p, i.feedsl), has(i.feeds, p)))

func (*Index).AddFeed(i, pk) (err)
  requires known(i)
  requires listed(i)
  ensures listed: listed(i)
  ensures hasheads: hasheads(i)
  ensures apart: apart(i)
  ensures feedsin: feedsin(i)
  ensures headsin: headsin(i)
  ensures lastin: lastin(i)
  ensures actives: actives(i)
  ensures dbok: dbok()
  ensures added: imp(err == nil, has(i.feeds, pk))
  ensures failed: imp(err != nil, iff(has(i.feeds, pk), old(has(i.feeds, pk))))
  ensures others: forall(p, cipher.PubKey, imp(p != pk, iff(has(i.feeds, p), old(has(i.feeds, p)))))

func (*Index).AddHead(i, pk, nonce) (err)
  requires known(i)
  ensures hasheads: hasheads(i)
  ensures apart: apart(i)
  ensures feedsin: feedsin(i)
  ensures headsin: headsin(i)
  ensures lastin: lastin(i)
  ensures actives: actives(i)
  ensures dbok: dbok()
  ensures refused: imp(!has(i.feeds, pk), err == data.ErrNoSuchFeed)
  ensures added: imp(err == nil, has(i.feeds[pk].h, nonce))

func (*Index).lastRoot(i, pk, nonce) (dr, err)
  requires known(i)
  modifies nothing
  ensures nofeed: imp(!ixf(0)[pk], dr == nil && err == data.ErrNoSuchFeed)
  ensures nohead: imp(ixf(0)[pk] && !ixh(0)[pk][nonce], dr == nil && err == data.ErrNoSuchHead)
  ensures blank: imp(ixh(0)[pk][nonce] && forall(s, uint64, !ixr(0)[pk][nonce][s]), dr == nil && err == data.ErrNotFound)
  ensures last: imp(err == nil, dr != nil && lastof(dr, pk, nonce))
  ensures found: imp(err != nil, forall(s, uint64, !ixr(0)[pk][nonce][s]))

func (*Index).LastRootSeq(i, pk, nonce) (seq, err)
  requires known(i)
  ensures hasheads: hasheads(i)
  ensures apart: apart(i)
  ensures feedsin: feedsin(i)
  ensures headsin: headsin(i)
  ensures lastin: lastin(i)
  ensures actives: actives(i)
  ensures dbok: dbok()
  ensures last: imp(err == nil, ixr(0)[pk][nonce][seq] && forall(s, uint64, imp(ixr(0)[pk][nonce][s], s <= seq)))
  ensures none: imp(err != nil, forall(s, uint64, !ixr(0)[pk][nonce][s]))

func (*Index).HasFeed(i, pk) (yep)
  requires known(i)
  ensures hasheads: hasheads(i)
  ensures apart: apart(i)
  ensures feedsin: feedsin(i)
  ensures headsin: headsin(i)
  ensures lastin: lastin(i)
  ensures actives: actives(i)
  ensures dbok: dbok()
  ensures has: iff(yep, ixf(0)[pk])

func (*Index).HasHead(i, pk, nonce) (yep)
  requires known(i)
  ensures hasheads: hasheads(i)
  ensures apart: apart(i)
  ensures feedsin: feedsin(i)
  ensures headsin: headsin(i)
  ensures lastin: lastin(i)
  ensures actives: actives(i)
  ensures dbok: dbok()
  ensures has: iff(yep, ixh(0)[pk][nonce])

func (*Index).ActiveHead(i, pk) (nonce)
  requires known(i)
  ensures hasheads: hasheads(i)
  ensures apart: apart(i)
  ensures feedsin: feedsin(i)
  ensures headsin: headsin(i)
  ensures lastin: lastin(i)
  ensures actives: actives(i)
  ensures dbok: dbok()
  ensures none: imp(!ixf(0)[pk], nonce == 0)
  ensures newest: forall(n, uint64, forall(s, uint64, imp(ixr(0)[pk][n][s] && forall(z, uint64, imp(ixr(0)[pk][n][z], z <= s)) && ixtime(0)[pk][n][s] > 0, has(i.feeds[pk].h, nonce) && i.feeds[pk].h[nonce] != nil && i.feeds[pk].h[nonce].Time >= ixtime(0)[pk][n][s])))

func (*Index).findRoot(i, pk, nonce, seq) (dr, err)
  requires known(i)
  ensures hasheads: hasheads(i)
  ensures apart: apart(i)
  ensures feedsin: feedsin(i)
  ensures headsin: headsin(i)
  ensures lastin: lastin(i)
  ensures actives: actives(i)
  ensures dbok: dbok()
  ensures nofeed: imp(!ixf(0)[pk], err == data.ErrNoSuchFeed)
  ensures nohead: imp(ixf(0)[pk] && !ixh(0)[pk][nonce], err == data.ErrNoSuchHead)
  ensures found: imp(err == nil, dr != nil && dr.Seq == seq && ixr(0)[pk][nonce][seq] && dbrecord(dr, pk, nonce))

func (*Index).dataRoot(i, pk, nonce, seq) (dr, err)
  requires known(i)
  ensures hasheads: hasheads(i)
  ensures apart: apart(i)
  ensures feedsin: feedsin(i)
  ensures headsin: headsin(i)
  ensures lastin: lastin(i)
  ensures actives: actives(i)
  ensures dbok: dbok()
  ensures found: imp(err == nil, dr != nil && dr.Seq == seq && ixr(0)[pk][nonce][seq] && dbrecord(dr, pk, nonce))
  ensures nofeed: imp(!ixf(0)[pk], err == data.ErrNoSuchFeed)
  ensures nohead: imp(ixf(0)[pk] && !ixh(0)[pk][nonce], err == data.ErrNoSuchHead)

define samedb() = ixf(0) == old(ixf(0)) && ixh(0) == old(ixh(0)) && ixr(0) == old(ixr(0)) && ixhash(0) == old(ixhash(0)) && ixprev(0) == old(ixprev(0)) && ixsig(0) == old(ixsig(0)) && ixtime(0) == old(ixtime(0))
define blank33(k) = forall(j, int, imp(0 <= j && j < 33, k[j] == 0))

func (*Index).addRoot(i, r) (has, err)
  requires known(i)
  requires r != nil
  ensures hasheads: hasheads(i)
  ensures apart: apart(i)
  ensures feedsin: feedsin(i)
  ensures headsin: headsin(i)
  ensures lastin: lastin(i)
  ensures actives: actives(i)
  ensures dbok: dbok()
  ensures full: imp(!r.IsFull, err != nil)
  ensures nofeed: imp(!old(ixf(0)[r.Pub]), err != nil)
  ensures failed: imp(err != nil, samedb())
  ensures had: imp(err == nil, iff(has, old(ixr(0)[r.Pub][r.Nonce][r.Seq])))
  ensures hasit: imp(has && err == nil, samedb())
  ensures added: imp(err == nil && !has, ixf(0) == old(ixf(0)) && ixh(0) == put2(old(ixh(0)), r.Pub, r.Nonce, true) && ixr(0) == put3(old(ixr(0)), r.Pub, r.Nonce, r.Seq, true))
  ensures stored: imp(err == nil && !has, ixhash(0) == put3(old(ixhash(0)), r.Pub, r.Nonce, r.Seq, r.Hash) && ixprev(0) == put3(old(ixprev(0)), r.Pub, r.Nonce, r.Seq, r.Prev) && ixsig(0) == put3(old(ixsig(0)), r.Pub, r.Nonce, r.Seq, r.Sig) && ixtime(0) == put3(old(ixtime(0)), r.Pub, r.Nonce, r.Seq, r.Time))

func (*Index).AddRoot(i, r) (has, err)
  requires known(i)
  requires r != nil
  ensures hasheads: hasheads(i)
  ensures apart: apart(i)
  ensures feedsin: feedsin(i)
  ensures headsin: headsin(i)
  ensures lastin: lastin(i)
  ensures actives: actives(i)
  ensures dbok: dbok()
  ensures full: imp(!r.IsFull, err != nil)
  ensures had: imp(err == nil, iff(has, old(ixr(0)[r.Pub][r.Nonce][r.Seq])) && ixr(0)[r.Pub][r.Nonce][r.Seq])
  ensures failed: imp(err != nil, samedb())

func (*Index).delRoot(i, pk, nonce, seq) (hash, err)
  requires known(i)
  ensures hasheads: hasheads(i)
  ensures apart: apart(i)
  ensures feedsin: feedsin(i)
  ensures headsin: headsin(i)
  ensures lastin: lastin(i)
  ensures actives: actives(i)
  ensures dbok: dbok()
  ensures failed: imp(err != nil, samedb())
  ensures deleted: imp(err == nil, old(ixr(0)[pk][nonce][seq]) && hash == old(ixhash(0)[pk][nonce][seq]) && ixr(0) == put3(old(ixr(0)), pk, nonce, seq, false) && ixf(0) == old(ixf(0)) && ixh(0) == old(ixh(0)))
  ensures there: imp(err == data.ErrNotFound || err == data.ErrNoSuchFeed || err == data.ErrNoSuchHead, !old(ixr(0)[pk][nonce][seq]))

func (*Index).delHead(i, pk, nonce) (rhs, err)
  requires known(i)
  ensures hasheads: hasheads(i)
  ensures apart: apart(i)
  ensures feedsin: feedsin(i)
  ensures headsin: headsin(i)
  ensures lastin: lastin(i)
  ensures actives: actives(i)
  ensures dbok: dbok()
  ensures failed: imp(err != nil, samedb())
  ensures deleted: imp(err == nil, old(ixh(0)[pk][nonce]) && ixf(0) == old(ixf(0)) && ixh(0) == put2(old(ixh(0)), pk, nonce, false))
  ensures others: imp(err == nil, forall(p, cipher.PubKey, forall(n, uint64, forall(s, uint64, iff(ixr(0)[p][n][s], old(ixr(0)[p][n][s]) && !(p == pk && n == nonce))))))
  ensures roots: imp(err == nil, forall(s, uint64, imp(old(ixr(0)[pk][nonce][s]), among(old(ixhash(0)[pk][nonce][s]), rhs))))
  inv forall(s, uint64, imp(_v[s] && ixr(0)[pk][nonce][s], among(ixhash(0)[pk][nonce][s], _s)))

func (*Index).delFeed(i, pk) (rhs, err)
  requires known(i)
  requires listed(i)
  ensures listed: listed(i)
  ensures hasheads: hasheads(i)
  ensures apart: apart(i)
  ensures feedsin: feedsin(i)
  ensures headsin: headsin(i)
  ensures lastin: lastin(i)
  ensures actives: actives(i)
  ensures dbok: dbok()
  ensures failed: imp(err != nil, samedb())
  ensures deleted: imp(err == nil, old(ixf(0)[pk]) && ixf(0) == store(old(ixf(0)), pk, false))
  ensures heads: imp(err == nil, forall(p, cipher.PubKey, forall(n, uint64, iff(ixh(0)[p][n], old(ixh(0)[p][n]) && p != pk))))
  ensures others: imp(err == nil, forall(p, cipher.PubKey, forall(n, uint64, forall(s, uint64, iff(ixr(0)[p][n][s], old(ixr(0)[p][n][s]) && p != pk)))))
  ensures roots: imp(err == nil, forall(n, uint64, forall(s, uint64, imp(old(ixr(0)[pk][n][s]), among(old(ixhash(0)[pk][n][s]), rhs)))))
  inv forall(n, uint64, forall(s, uint64, imp(_v[n] && ixr(0)[pk][n][s], among(ixhash(0)[pk][n][s], _s))))
  inv forall(s, uint64, imp(_v[s] && ixr(0)[pk][rnonce(_E)][s], among(ixhash(0)[pk][rnonce(_E)][s], _s)))
  inv forall(h, cipher.SHA256, imp(entry(among(h, _s)), among(h, _s)))

func (*Index).Heads(i, pk) (heads, err)
  requires known(i)
  modifies nothing
  ensures refused: iff(err == nil, ixf(0)[pk])
  ensures all: imp(err == nil, forall(n, uint64, imp(ixh(0)[pk][n], among(n, heads))))
  ensures only: imp(err == nil, forall(n, uint64, imp(among(n, heads), ixh(0)[pk][n])))
  inv forall(n, uint64, imp(_v[n], among(n, _s)))
  inv forall(n, uint64, imp(among(n, _s), ixh(0)[pk][n]))

func (*Index).Feeds(i) (feeds)
  requires known(i)
  requires listed(i)
  ensures listed: listed(i)
  ensures all: len(i.feeds) >= 0 && forall(p, cipher.PubKey, iff(among(p, feeds), ixf(0)[p]))
  inv forall(p, cipher.PubKey, imp(_v[p], among(p, _P.feedsl)))
  inv forall(p, cipher.PubKey, imp(among(p, _P.feedsl), has(_P.feeds, p)))

func newIndexStat(samples) (i)
  trusted
  modifies nothing
  ensures i != nil && fresh(i)

define headsof(hs, p) = hs.h != nil && active(hs) && forall(n, uint64, imp(has(hs.h, n), lastof(hs.h[n], p, n) && ixh(0)[p][n]))

func (*Index).load(i, c) (err)
  requires i != nil && c != nil && c.conf != nil && c.db != nil && c.db.idxdb != nil && dbok()
  ensures hasheads: imp(err == nil, hasheads(i))
  ensures apart: imp(err == nil, apart(i))
  ensures feedsin: imp(err == nil, feedsin(i))
  ensures headsin: imp(err == nil, headsin(i))
  ensures lastin: imp(err == nil, lastin(i))
  ensures actives: imp(err == nil, actives(i))
  ensures db: samedb()
  inv i.feeds != nil && forall(p, cipher.PubKey, iff(_v[p], has(i.feeds, p)))
  inv forall(p, cipher.PubKey, imp(has(i.feeds, p), i.feeds[p] != nil && i.feeds[p].h != nil && alive(i.feeds[p]) && alive(i.feeds[p].h)))
  inv forall(p, cipher.PubKey, forall(n, uint64, imp(has(i.feeds, p) && has(i.feeds[p].h, n), alive(i.feeds[p].h[n]))))
  inv apart(i)
  inv headsin(i)
  inv lastin(i)
  inv actives(i)
  inv _P.h != nil && forall(n, uint64, iff(_v[n], has(_P.h, n)))
  inv active(_P)
  inv forall(n, uint64, imp(has(_P.h, n), alive(_P.h[n]) && lastof(_P.h[n], hfeed(_E), n)))
