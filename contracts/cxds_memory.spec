package data/cxds
prop C01, C02


define others(m, key) = forall(k, cipher.SHA256, imp(k != key, iff(has(m.kvs, k), old(has(m.kvs, k))) && imp(has(m.kvs, k), m.kvs[k] == old(m.kvs[k]))))
define same(m) = forall(k, cipher.SHA256, iff(has(m.kvs, k), old(has(m.kvs, k))) && imp(has(m.kvs, k), m.kvs[k] == old(m.kvs[k])))
define counted(old_, inc, now) = now == ite(inc >= 0, old_ + inc, ite(0-inc >= old_, 0, old_ + inc))
define mrc(m, key) = ite(has(m.kvs, key), m.kvs[key].rc, 0)
define mvol(m, key) = ite(has(m.kvs, key), len(m.kvs[key].val), 0)
define mstats(m, key) = m.amountAll - old(m.amountAll) == ite(has(m.kvs, key), 1, 0) - ite(old(has(m.kvs, key)), 1, 0) && m.voluemAll - old(m.voluemAll) == mvol(m, key) - old(mvol(m, key)) && m.amountUsed - old(m.amountUsed) == ite(mrc(m, key) > 0, 1, 0) - ite(old(mrc(m, key)) > 0, 1, 0) && m.volumeUsed - old(m.volumeUsed) == ite(mrc(m, key) > 0, mvol(m, key), 0) - ite(old(mrc(m, key)) > 0, old(mvol(m, key)), 0)
define small(n) = 0 <= n && n < 4611686018427387904
define msmall(m, key) = small(m.amountAll) && small(m.amountUsed) && small(m.voluemAll) && small(m.volumeUsed) && small(mvol(m, key))
define inRange(m, key, inc) = 0-4294967296 < inc && inc < 4294967296 && imp(has(m.kvs, key), m.kvs[key].rc + inc < 4294967296)

func (*memoryCXDS).Get(m, key, inc) (val, rc, err)
  requires m != nil
  requires inRange(m, key, inc)
  requires msmall(m, key)
  requires imp(inc != 0, m.kvs != nil)
  ensures C01_missing: imp(!old(has(m.kvs, key)), err == data.ErrNotFound && rc == 0 && val == nil && same(m))
  ensures C01_found: imp(old(has(m.kvs, key)), err == nil && val == old(m.kvs[key].val) && counted(old(m.kvs[key].rc), inc, rc))
  ensures C01_stored: imp(old(has(m.kvs, key)), has(m.kvs, key) && m.kvs[key].rc == rc && m.kvs[key].val == old(m.kvs[key].val))
  ensures others: others(m, key)
  ensures C02_stats: mstats(m, key)

func (*memoryCXDS).Inc(m, key, inc) (rc, err)
  requires m != nil
  requires inRange(m, key, inc)
  requires msmall(m, key)
  ensures C01_missing: imp(!old(has(m.kvs, key)), err == data.ErrNotFound && rc == 0 && same(m))
  ensures C01_found: imp(old(has(m.kvs, key)), err == nil && counted(old(m.kvs[key].rc), inc, rc))
  ensures C01_stored: imp(old(has(m.kvs, key)), has(m.kvs, key) && m.kvs[key].rc == rc && m.kvs[key].val == old(m.kvs[key].val))
  ensures others: others(m, key)
  ensures C02_stats: mstats(m, key)

func (*memoryCXDS).Set(m, key, val, inc) (rc, err)
  requires m != nil && m.kvs != nil
  requires inc > 0
  requires inRange(m, key, inc)
  requires msmall(m, key)
  requires small(len(val))
  ensures C01_empty: imp(len(val) == 0, err == ErrEmptyValue && same(m))
  ensures C01_ok: imp(len(val) > 0, err == nil && has(m.kvs, key) && m.kvs[key].rc == rc)
  ensures C01_created: imp(len(val) > 0 && !old(has(m.kvs, key)), rc == inc && bytes(m.kvs[key].val) == old(bytes(val)))
  ensures C01_kept: imp(len(val) > 0 && old(has(m.kvs, key)), rc == old(m.kvs[key].rc) + inc && m.kvs[key].val == old(m.kvs[key].val))
  ensures others: others(m, key)
  ensures C02_stats: mstats(m, key)

func (*memoryCXDS).Del(m, key) (err)
  requires m != nil && m.kvs != nil
  requires msmall(m, key)
  ensures C01_gone: err == nil && !has(m.kvs, key)
  ensures others: others(m, key)
  ensures C02_stats: mstats(m, key)

// every object once
define eachonce(f, k0) = forall(i, int, forall(j, int, imp(k0 <= i && i < j && j < calls(f), callarg(f, 0, i, cipher.SHA256) != callarg(f, 0, j, cipher.SHA256))))
define cberr(f, n) = callres(f, 1, n, error)

func (*memoryCXDS).Iterate(m, f) (err)
  requires m != nil && m.kvs != nil
  requires f != nil
  ensures unchanged: same(m)
  ensures C02_stats: m.amountAll == old(m.amountAll) && m.amountUsed == old(m.amountUsed) && m.voluemAll == old(m.voluemAll) && m.volumeUsed == old(m.volumeUsed)
  ensures C01_once: eachonce(f, old(calls(f)))
  ensures C01_those: forall(n, int, imp(old(calls(f)) <= n && n < calls(f), has(m.kvs, callarg(f, 0, n, cipher.SHA256)) && m.kvs[callarg(f, 0, n, cipher.SHA256)].rc == callarg(f, 1, n, uint32) && m.kvs[callarg(f, 0, n, cipher.SHA256)].val == callarg(f, 2, n, []byte)))
  ensures C01_all: imp(err == nil && imp(calls(f) > old(calls(f)), callres(f, 0, calls(f) - 1, error) == nil), forall(k, cipher.SHA256, imp(has(m.kvs, k), called(f, k) || old(called(f, k)))))
  ensures C01_stopped: imp(calls(f) > old(calls(f)) && callres(f, 0, calls(f) - 1, error) != nil, imp(callres(f, 0, calls(f) - 1, error) == data.ErrStopIteration, err == nil) && imp(callres(f, 0, calls(f) - 1, error) != data.ErrStopIteration, err == callres(f, 0, calls(f) - 1, error)))
  ensures C01_continued: forall(n, int, imp(old(calls(f)) <= n && n < calls(f) - 1, callres(f, 0, n, error) == nil))
  inv eachonce(f, old(calls(f)))
  inv forall(n, int, imp(old(calls(f)) <= n && n < calls(f), _v[callarg(f, 0, n, cipher.SHA256)]))
  inv forall(n, int, imp(old(calls(f)) <= n && n < calls(f), callres(f, 0, n, error) == nil))
  inv forall(n, int, imp(old(calls(f)) <= n && n < calls(f), has(m.kvs, callarg(f, 0, n, cipher.SHA256)) && m.kvs[callarg(f, 0, n, cipher.SHA256)].rc == callarg(f, 1, n, uint32) && m.kvs[callarg(f, 0, n, cipher.SHA256)].val == callarg(f, 2, n, []byte)))
  inv forall(k, cipher.SHA256, imp(_v[k], called(f, k)))
  inv calls(f) >= old(calls(f))

// sums over all objects, and what the removal of one takes from them
smtfun amtAll ((Array (Array Int Int) Bool) (Array (Array Int Int) T.data_cxds.memoryObject)) Int
axiom amtAll: (forall ((d (Array (Array Int Int) Bool)) (v (Array (Array Int Int) T.data_cxds.memoryObject)) (k (Array Int Int))) (! (= (amtAll (store d k false) v) (- (amtAll d v) (ite (select d k) 1 0))) :pattern ((amtAll (store d k false) v))))
axiom amtAll: (forall ((d (Array (Array Int Int) Bool)) (v (Array (Array Int Int) T.data_cxds.memoryObject))) (! (<= 0 (amtAll d v)) :pattern ((amtAll d v))))
smtfun amtUsed ((Array (Array Int Int) Bool) (Array (Array Int Int) T.data_cxds.memoryObject)) Int
axiom amtUsed: (forall ((d (Array (Array Int Int) Bool)) (v (Array (Array Int Int) T.data_cxds.memoryObject)) (k (Array Int Int))) (! (= (amtUsed (store d k false) v) (- (amtUsed d v) (ite (select d k) (ite (< 0 (T.data_cxds.memoryObject.0.rc (select v k))) 1 0) 0))) :pattern ((amtUsed (store d k false) v))))
axiom amtUsed: (forall ((d (Array (Array Int Int) Bool)) (v (Array (Array Int Int) T.data_cxds.memoryObject))) (! (<= 0 (amtUsed d v)) :pattern ((amtUsed d v))))
smtfun volAll ((Array (Array Int Int) Bool) (Array (Array Int Int) T.data_cxds.memoryObject)) Int
axiom volAll: (forall ((d (Array (Array Int Int) Bool)) (v (Array (Array Int Int) T.data_cxds.memoryObject)) (k (Array Int Int))) (! (= (volAll (store d k false) v) (- (volAll d v) (ite (select d k) (ite (< 0 (s-len (T.data_cxds.memoryObject.1.val (select v k)))) (s-len (T.data_cxds.memoryObject.1.val (select v k))) 0) 0))) :pattern ((volAll (store d k false) v))))
axiom volAll: (forall ((d (Array (Array Int Int) Bool)) (v (Array (Array Int Int) T.data_cxds.memoryObject))) (! (<= 0 (volAll d v)) :pattern ((volAll d v))))
smtfun volUsed ((Array (Array Int Int) Bool) (Array (Array Int Int) T.data_cxds.memoryObject)) Int
axiom volUsed: (forall ((d (Array (Array Int Int) Bool)) (v (Array (Array Int Int) T.data_cxds.memoryObject)) (k (Array Int Int))) (! (= (volUsed (store d k false) v) (- (volUsed d v) (ite (select d k) (ite (< 0 (T.data_cxds.memoryObject.0.rc (select v k))) (ite (< 0 (s-len (T.data_cxds.memoryObject.1.val (select v k)))) (s-len (T.data_cxds.memoryObject.1.val (select v k))) 0) 0) 0))) :pattern ((volUsed (store d k false) v))))
axiom volUsed: (forall ((d (Array (Array Int Int) Bool)) (v (Array (Array Int Int) T.data_cxds.memoryObject))) (! (<= 0 (volUsed d v)) :pattern ((volUsed d v))))

define counts(m) = m.amountAll == amtAll(dom(m.kvs), vals(m.kvs)) && m.amountUsed == amtUsed(dom(m.kvs), vals(m.kvs)) && m.voluemAll == volAll(dom(m.kvs), vals(m.kvs)) && m.volumeUsed == volUsed(dom(m.kvs), vals(m.kvs))
define ran(f, n) = old(calls(f)) <= n && n < calls(f)
define wantdel(f, n) = callres(f, 0, n, bool) && callres(f, 1, n, error) == nil

func (*memoryCXDS).IterateDel(m, f) (err)
  requires m != nil && m.kvs != nil
  requires f != nil
  requires counts(m)
  requires forall(k, cipher.SHA256, !called(f, k))
  requires forall(k, cipher.SHA256, msmall(m, k))
  ensures C02_counts: counts(m)
  ensures C01_left: forall(k, cipher.SHA256, imp(has(m.kvs, k), old(has(m.kvs, k)) && m.kvs[k] == old(m.kvs[k])))
  ensures C01_asked: forall(n, int, imp(ran(f, n) && wantdel(f, n), !has(m.kvs, callarg(f, 0, n, cipher.SHA256))))
  ensures C01_refused: forall(n, int, imp(ran(f, n) && !wantdel(f, n), has(m.kvs, callarg(f, 0, n, cipher.SHA256))))
  ensures C01_others: forall(k, cipher.SHA256, imp(old(has(m.kvs, k)) && !called(f, k), has(m.kvs, k)))
  ensures C01_once: eachonce(f, old(calls(f)))
  ensures C01_those: forall(n, int, forall(k, cipher.SHA256, imp(ran(f, n) && callarg(f, 0, n, cipher.SHA256) == k, old(has(m.kvs, k)) && old(m.kvs[k].rc) == callarg(f, 1, n, uint32) && old(m.kvs[k].val) == callarg(f, 2, n, []byte))))
  ensures C01_all: imp(imp(calls(f) > old(calls(f)), callres(f, 1, calls(f) - 1, error) == nil), err == nil && forall(k, cipher.SHA256, imp(has(m.kvs, k), called(f, k))))
  ensures C01_stopped: imp(calls(f) > old(calls(f)) && callres(f, 1, calls(f) - 1, error) != nil, imp(callres(f, 1, calls(f) - 1, error) == data.ErrStopIteration, err == nil) && imp(callres(f, 1, calls(f) - 1, error) != data.ErrStopIteration, err == callres(f, 1, calls(f) - 1, error)))
  ensures C01_continued: forall(n, int, imp(ran(f, n) && n < calls(f) - 1, callres(f, 1, n, error) == nil))
  inv counts(m)
  inv m.amountAll <= old(m.amountAll) && m.amountUsed <= old(m.amountUsed) && m.voluemAll <= old(m.voluemAll) && m.volumeUsed <= old(m.volumeUsed)
  inv forall(k, cipher.SHA256, imp(has(m.kvs, k), old(has(m.kvs, k)) && m.kvs[k] == old(m.kvs[k])))
  inv forall(n, int, imp(ran(f, n) && wantdel(f, n), !has(m.kvs, callarg(f, 0, n, cipher.SHA256))))
  inv forall(n, int, imp(ran(f, n) && !wantdel(f, n), has(m.kvs, callarg(f, 0, n, cipher.SHA256))))
  inv forall(k, cipher.SHA256, imp(old(has(m.kvs, k)) && !called(f, k), has(m.kvs, k)))
  inv _e == nil
  inv eachonce(f, old(calls(f)))
  inv forall(n, int, imp(ran(f, n), _v[callarg(f, 0, n, cipher.SHA256)]))
  inv forall(n, int, imp(ran(f, n), callres(f, 1, n, error) == nil))
  inv forall(n, int, forall(k, cipher.SHA256, imp(ran(f, n) && callarg(f, 0, n, cipher.SHA256) == k, old(has(m.kvs, k)) && old(m.kvs[k].rc) == callarg(f, 1, n, uint32) && old(m.kvs[k].val) == callarg(f, 2, n, []byte))))
  inv forall(k, cipher.SHA256, imp(_v[k], called(f, k)))
  inv calls(f) >= old(calls(f))

func (*memoryCXDS).Amount(m) (all, used)
  requires m != nil
  modifies nothing
  ensures C02_reported: all == m.amountAll && used == m.amountUsed

func (*memoryCXDS).Volume(m) (all, used)
  requires m != nil
  modifies nothing
  ensures C02_reported: all == m.voluemAll && used == m.volumeUsed

func NewMemoryCXDS() (ds)
  ensures C01_blank: ds != nil && is(ds, *memoryCXDS) && unboxed(ds, *memoryCXDS).kvs != nil && forall(k, cipher.SHA256, !has(unboxed(ds, *memoryCXDS).kvs, k))
  ensures C02_zero: unboxed(ds, *memoryCXDS).amountAll == 0 && unboxed(ds, *memoryCXDS).amountUsed == 0 && unboxed(ds, *memoryCXDS).voluemAll == 0 && unboxed(ds, *memoryCXDS).volumeUsed == 0
