package bolt
prop C01, C02

// What a bolt database has: buckets by name, and values by key of each.
// bkrw: a transaction that can change it is open; bkfail: the database failed.
ghost bkin : (Array BS Bool)
ghost bkhas : (Array BS Bool)
ghost bkval : (Array BS BS)
ghost bkrw : Bool
ghost bkfail : Bool
smtfun bucketof (BS) Int
smtfun cxnameof (Int) BS
axiom bucketof: (forall ((n BS)) (! (and (= (cxnameof (bucketof n)) n) (< 0 (bucketof n))) :pattern ((bucketof n))))

func (*Tx).Bucket(tx, name) (b)
  trusted
  modifies nothing
  ensures ref(b) == ite(bkin(0)[bytes(name)], bucketof(bytes(name)), 0)

func (*Bucket).Get(b, key) (v)
  trusted
  requires b != nil
  modifies nothing
  ensures imp(!bkhas(ref(b))[bytes(key)], v == nil)
  ensures imp(bkhas(ref(b))[bytes(key)], v != nil && fresh(v) && bytes(v) == bkval(ref(b))[bytes(key)])

func (*Bucket).Put(b, key, v) (err)
  trusted
  requires b != nil
  modifies bkhas(ref(b)), bkval(ref(b)), bkfail(0)
  ensures imp(err == nil, bkfail(0) == old(bkfail(0)) && bkrw(0) && bkhas(ref(b)) == store(old(bkhas(ref(b))), bytes(key), true) && bkval(ref(b)) == store(old(bkval(ref(b))), bytes(key), bytes(v)))
  ensures imp(err != nil, bkhas(ref(b)) == old(bkhas(ref(b))) && bkval(ref(b)) == old(bkval(ref(b))) && bkfail(0) == (old(bkfail(0)) || (old(bkrw(0)) && len(key) > 0 && len(key) <= 32768 && len(v) <= 2147483646)))
  ensures err != data.ErrNotFound && err != data.ErrStopIteration

func (*Bucket).Delete(b, key) (err)
  trusted
  requires b != nil
  modifies bkhas(ref(b)), bkfail(0)
  ensures imp(err == nil, bkfail(0) == old(bkfail(0)) && bkrw(0) && bkhas(ref(b)) == store(old(bkhas(ref(b))), bytes(key), false))
  ensures imp(err != nil, bkhas(ref(b)) == old(bkhas(ref(b))) && bkfail(0) == (old(bkfail(0)) || old(bkrw(0))))
  ensures err != data.ErrNotFound && err != data.ErrStopIteration

func (*Bucket).Tx(b) (tx)
  trusted
  modifies nothing
  ensures tx != nil

package data/cxds
prop C01, C02

// the next of the numbers that are written as slices of the same length
func incSlice(b) (ok)
  ensures last: iff(!ok, forall(j, int, imp(0 <= j && j < len(b), old(b[j]) == 255)))
  ensures next: imp(ok, exists(i, int, 0 <= i && i < len(b) && b[i] == old(b[i]) + 1 && forall(j, int, imp(0 <= j && j < i, b[j] == old(b[j]))) && forall(j, int, imp(i < j && j < len(b), old(b[j]) == 255 && b[j] == 0))))
  modifies b[*]
  inv forall(j, int, imp(_i < j && j < len(b), old(b[j]) == 255 && b[j] == 0))
  inv forall(j, int, imp(0 <= j && j <= _i, b[j] == old(b[j])))
  inv _i < len(b)

// an object in the store: the counter, four bytes, and the value
smtfun rcof (BS) Int
axiom rcof: (forall ((b BS)) (! (= (rcof b) (+ (* 16777216 (select (bs-data b) 0)) (* 65536 (select (bs-data b) 1)) (* 256 (select (bs-data b) 2)) (select (bs-data b) 3))) :pattern ((rcof b))))
smtfun valof (BS) BS
axiom valof: (forall ((b BS)) (! (= (valof b) (mk-bs (- (bs-len b) 4) (shift.Int (bs-data b) 4 (- (bs-len b) 4)))) :pattern ((valof b))))

define objs() = bucketof(old(bytes(objsBucket)))
define ohas(key) = bkhas(objs())[bytes(key)]
define orc(key) = rcof(bkval(objs())[bytes(key)])
define oval(key) = valof(bkval(objs())[bytes(key)])
define ostored(v) = 4 < bslen(v) && bslen(v) <= 2147483646
define objects() = forall(k, "BS", imp(bkhas(objs())[k], ostored(bkval(objs())[k])), bkval(objs())[k])
define ready(d) = d != nil && d.b != nil && bkin(0)[bytes(objsBucket)] && bytes(objsBucket) != bytes(metaBucket) && !bkfail(0) && objects()
define oinrange(key, inc) = 0-4294967296 < inc && inc < 4294967296 && imp(ohas(key), orc(key) + inc < 4294967296)
define osame() = bkhas(objs()) == old(bkhas(objs())) && bkval(objs()) == old(bkval(objs()))
define oonly(key) = forall(k, "BS", imp(k != bytes(key), iff(bkhas(objs())[k], old(bkhas(objs())[k])) && bkval(objs())[k] == old(bkval(objs())[k])))
define olive(key) = ohas(key) && orc(key) > 0
define ovol(key) = bslen(oval(key))
define ostats(d, key) = d.amountAll - old(d.amountAll) == ite(ohas(key), 1, 0) - ite(old(ohas(key)), 1, 0) && d.volumeAll - old(d.volumeAll) == ite(ohas(key), ovol(key), 0) - ite(old(ohas(key)), old(ovol(key)), 0) && d.amountUsed - old(d.amountUsed) == ite(olive(key), 1, 0) - ite(old(olive(key)), 1, 0) && d.volumeUsed - old(d.volumeUsed) == ite(olive(key), ovol(key), 0) - ite(old(olive(key)), old(ovol(key)), 0)
define osmall(d) = small(d.amountAll) && small(d.amountUsed) && small(d.volumeAll) && small(d.volumeUsed)
define statsame(d) = d.amountAll == old(d.amountAll) && d.amountUsed == old(d.amountUsed) && d.volumeAll == old(d.volumeAll) && d.volumeUsed == old(d.volumeUsed)
define metasame() = bkhas(bucketof(old(bytes(metaBucket)))) == old(bkhas(bucketof(bytes(metaBucket)))) && bkval(bucketof(old(bytes(metaBucket)))) == old(bkval(bucketof(bytes(metaBucket))))

func (*driveCXDS).Get(d, key, inc) (val, rc, err)
  requires ready(d)
  requires oinrange(key, inc)
  requires osmall(d)
  ensures C01_missing: imp(!old(ohas(key)), err != nil && osame() && imp(!bkfail(0), err == data.ErrNotFound))
  ensures C01_found: imp(old(ohas(key)) && err == nil, bytes(val) == old(oval(key)) && counted(old(orc(key)), inc, rc))
  ensures C01_counter: imp(err == nil, ohas(key) && orc(key) == rc)
  ensures C01_kept: imp(err == nil, oval(key) == old(oval(key)))
  ensures failed: imp(err != nil, osame() && imp(old(ohas(key)), bkfail(0)))
  ensures others: oonly(key) && metasame()
  ensures objects: objects()
  ensures C02_stats: ostats(d, key)

func (*driveCXDS).Inc(d, key, inc) (rc, err)
  requires ready(d)
  requires oinrange(key, inc)
  requires osmall(d)
  ensures C01_missing: imp(!old(ohas(key)), err != nil && osame() && imp(!bkfail(0), err == data.ErrNotFound))
  ensures C01_found: imp(old(ohas(key)) && err == nil, counted(old(orc(key)), inc, rc))
  ensures C01_counter: imp(err == nil, ohas(key) && orc(key) == rc)
  ensures C01_kept: imp(err == nil, oval(key) == old(oval(key)))
  ensures failed: imp(err != nil, osame() && imp(old(ohas(key)), bkfail(0)))
  ensures others: oonly(key) && metasame()
  ensures objects: objects()
  ensures C02_stats: ostats(d, key)

func (*driveCXDS).Set(d, key, val, inc) (rc, err)
  requires ready(d)
  requires inc > 0
  requires oinrange(key, inc)
  requires osmall(d)
  requires len(val) < 2147483642
  ensures C01_empty: imp(len(val) == 0, err == ErrEmptyValue)
  ensures C01_created: imp(err == nil && !old(ohas(key)), rc == inc && oval(key) == old(bytes(val)))
  ensures C01_added: imp(err == nil && old(ohas(key)), rc == old(orc(key)) + inc && oval(key) == old(oval(key)))
  ensures C01_counter: imp(err == nil, ohas(key) && orc(key) == rc)
  ensures failed: imp(err != nil, osame() && imp(len(val) > 0, bkfail(0)))
  ensures others: oonly(key) && metasame()
  ensures objects: objects()
  ensures C02_stats: ostats(d, key)

func (*driveCXDS).Del(d, key) (err)
  requires ready(d)
  requires osmall(d)
  ensures C01_gone: imp(err == nil, !ohas(key))
  ensures failed: imp(err != nil, osame() && bkfail(0))
  ensures others: oonly(key) && metasame()
  ensures objects: objects()
  ensures C02_stats: ostats(d, key)

func (*driveCXDS).Amount(d) (all, used)
  requires d != nil
  modifies nothing
  ensures C02_reported: all == d.amountAll && used == d.amountUsed

func (*driveCXDS).Volume(d) (all, used)
  requires d != nil
  modifies nothing
  ensures C02_reported: all == d.volumeAll && used == d.volumeUsed

// numbers kept in the meta bucket: four bytes, or eight for a greater one
smtfun numof (BS) Int
axiom numof: (forall ((b BS)) (! (=> (= (bs-len b) 4) (= (numof b) (+ (* 16777216 (select (bs-data b) 0)) (* 65536 (select (bs-data b) 1)) (* 256 (select (bs-data b) 2)) (select (bs-data b) 3)))) :pattern ((numof b))))
axiom numof: (forall ((b BS)) (! (=> (= (bs-len b) 8) (= (numof b) (+ (* 72057594037927936 (select (bs-data b) 0)) (* 281474976710656 (select (bs-data b) 1)) (* 1099511627776 (select (bs-data b) 2)) (* 4294967296 (select (bs-data b) 3)) (* 16777216 (select (bs-data b) 4)) (* 65536 (select (bs-data b) 5)) (* 256 (select (bs-data b) 6)) (select (bs-data b) 7)))) :pattern ((numof b))))

func encodeUint32(u) (ub)
  ensures C02_number: bslen(bytes(ub)) == 4 && numof(bytes(ub)) == u && fresh(ub)

func decodeUint32(ub) (u)
  requires len(ub) >= 4
  ensures C02_number: imp(len(ub) == 4, u == numof(bytes(ub)))

prop C02
define meta() = bucketof(old(bytes(metaBucket)))
define metais(key, n) = bkhas(meta())[old(bytes(key))] && numof(bkval(meta())[old(bytes(key))]) == n
define distinct4() = bytes(amountAllKey) != bytes(amountUsedKey) && bytes(amountAllKey) != bytes(volumeAllKey) && bytes(amountAllKey) != bytes(volumeUsedKey) && bytes(amountUsedKey) != bytes(volumeAllKey) && bytes(amountUsedKey) != bytes(volumeUsedKey) && bytes(volumeAllKey) != bytes(volumeUsedKey)
define keys4() = 0 < len(amountAllKey) && len(amountAllKey) < 100 && 0 < len(amountUsedKey) && len(amountUsedKey) < 100 && 0 < len(volumeAllKey) && len(volumeAllKey) < 100 && 0 < len(volumeUsedKey) && len(volumeUsedKey) < 100
define statfits(key) = imp(bkhas(meta())[bytes(key)], numof(bkval(meta())[bytes(key)]) < 9223372036854775808)
define statin(d) = metais(amountAllKey, d.amountAll) && metais(amountUsedKey, d.amountUsed) && metais(volumeAllKey, d.volumeAll) && metais(volumeUsedKey, d.volumeUsed)

func (*driveCXDS).saveStat(d) (err)
  requires ready(d) && bkin(0)[bytes(metaBucket)] && distinct4()
  requires osmall(d)
  requires keys4()
  requires d.amountAll < 4294967296 && d.amountUsed < 4294967296
  ensures saved: imp(err == nil, statin(d))
  ensures objects: osame()
  ensures statsame: statsame(d)
  ensures failed: imp(err != nil, bkfail(0) && metasame())

func (*driveCXDS).loadStat(d) (err)
  requires ready(d) && bkin(0)[bytes(metaBucket)] && distinct4()
  requires statfits(volumeAllKey) && statfits(volumeUsedKey)
  ensures loaded: imp(err == nil, statin(d))
  ensures same: osame() && metasame()
