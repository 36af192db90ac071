package data
prop C13, C14, C15

// What the store has: objects by hash with counters. There is one store.
ghost cxhas : (Array (Array Int Int) Bool)
ghost cxrc : (Array (Array Int Int) Int)
ghost cxval : (Array (Array Int Int) BS)

// as the stores do it (see C01)
define cxcount(old_, inc) = ite(old_ + inc < 0, 0, old_ + inc)

iface CXDS.Get(db, key, inc) (val, rc, err)
  modifies cxrc(0)
  ensures imp(err != nil, cxrc(0) == old(cxrc(0)))
  ensures imp(!cxhas(0)[key], err == ErrNotFound)
  ensures imp(cxhas(0)[key], err != ErrNotFound)
  ensures imp(err == nil, val != nil && bytes(val) == cxval(0)[key] && rc == cxcount(old(cxrc(0)[key]), inc) && cxrc(0) == store(old(cxrc(0)), key, rc))

iface CXDS.Set(db, key, val, inc) (rc, err)
  modifies cxhas(0), cxrc(0), cxval(0)
  ensures err != ErrNotFound
  ensures imp(err != nil, cxrc(0) == old(cxrc(0)) && cxhas(0) == old(cxhas(0)) && cxval(0) == old(cxval(0)))
  ensures imp(err == nil, cxhas(0) == store(old(cxhas(0)), key, true) && cxrc(0) == store(old(cxrc(0)), key, rc) && cxval(0) == store(old(cxval(0)), key, ite(old(cxhas(0)[key]), old(cxval(0)[key]), bytes(val))))
  ensures imp(err == nil, rc == ite(old(cxhas(0)[key]), cxcount(old(cxrc(0)[key]), inc), inc))

iface CXDS.Inc(db, key, inc) (rc, err)
  modifies cxrc(0)
  ensures imp(err != nil, cxrc(0) == old(cxrc(0)))
  ensures imp(!cxhas(0)[key], err == ErrNotFound)
  ensures imp(cxhas(0)[key], err != ErrNotFound)
  ensures imp(err == nil, rc == cxcount(old(cxrc(0)[key]), inc) && cxrc(0) == store(old(cxrc(0)), key, rc))

package skyobject
prop C13, C14, C15

// the lengths of the values that are kept, by key
smtfun keptlens ((Array (Array Int Int) Bool) (Array (Array Int Int) Int) (Array Int Slice)) (Array (Array Int Int) Int)
axiom keptlens: (forall ((d (Array (Array Int Int) Bool)) (v (Array (Array Int Int) Int)) (h (Array Int Slice)) (k (Array Int Int))) (! (= (select (keptlens d v h) k) (ite (and (select d k) (< 0 (s-len (select h (select v k))))) (s-len (select h (select v k))) 0)) :pattern ((select (keptlens d v h) k))))
// how many there are and how long they are together
smtfun keptn ((Array (Array Int Int) Int)) Int
axiom kmark: (forall ((a (Array (Array Int Int) Int)) (k (Array Int Int)) (n Int)) (! (= (keptn (store a k n)) (+ (keptn a) (- (ite (< 0 n) 1 0) (ite (< 0 (select a k)) 1 0)))) :pattern ((keptn (store a k n)))))
axiom kmark: (forall ((d (Array (Array Int Int) Bool)) (v (Array (Array Int Int) Int)) (h (Array Int Slice))) (! (<= 0 (keptn (keptlens d v h))) :pattern ((keptn (keptlens d v h)))))
axiom kzero: (forall ((d (Array (Array Int Int) Bool)) (v (Array (Array Int Int) Int)) (h (Array Int Slice))) (! (or (exists ((k (Array Int Int))) (not (= (select (keptlens d v h) k) 0))) (= (keptn (keptlens d v h)) 0)) :pattern ((kzero (keptlens d v h)))))
smtfun keptvol ((Array (Array Int Int) Int)) Int
axiom kmark: (forall ((a (Array (Array Int Int) Int)) (k (Array Int Int)) (n Int)) (! (= (keptvol (store a k n)) (+ (keptvol a) (- n (select a k)))) :pattern ((keptvol (store a k n)))))
axiom kmark: (forall ((d (Array (Array Int Int) Bool)) (v (Array (Array Int Int) Int)) (h (Array Int Slice))) (! (<= 0 (keptvol (keptlens d v h))) :pattern ((keptvol (keptlens d v h)))))
axiom kzero: (forall ((d (Array (Array Int Int) Bool)) (v (Array (Array Int Int) Int)) (h (Array Int Slice))) (! (or (exists ((k (Array Int Int))) (not (= (select (keptlens d v h) k) 0))) (= (keptvol (keptlens d v h)) 0)) :pattern ((kzero (keptlens d v h)))))

smtfun kzero ((Array (Array Int Int) Int)) Bool
axiom kzero: (forall ((a (Array (Array Int Int) Int))) (! (kzero a) :pattern ((kzero a))))
// arrays that differ at a key only
smtfun kmark ((Array Int Int)) Bool
axiom kmark: (forall ((k (Array Int Int))) (! (kmark k) :pattern ((kmark k))))
axiom kmark: (forall ((a (Array (Array Int Int) Int)) (b (Array (Array Int Int) Int)) (k (Array Int Int))) (! (or (exists ((j (Array Int Int))) (and (not (= j k)) (not (= (select a j) (select b j))))) (= (keptn b) (+ (keptn a) (- (ite (< 0 (select b k)) 1 0) (ite (< 0 (select a k)) 1 0))))) :pattern ((keptn a) (keptn b) (kmark k))))
axiom kmark: (forall ((a (Array (Array Int Int) Int)) (b (Array (Array Int Int) Int)) (k (Array Int Int))) (! (or (exists ((j (Array Int Int))) (and (not (= j k)) (not (= (select a j) (select b j))))) (= (keptvol b) (+ (keptvol a) (- (select b k) (select a k))))) :pattern ((keptvol a) (keptvol b) (kmark k))))

define clens(c) = keptlens(dom(c.is), vals(c.is), heapof(item.val))
define csums(c) = c.amount == keptn(clens(c)) && c.volume == keptvol(clens(c))

define cready(c) = c != nil && c.c != nil && c.c.conf != nil && c.c.db != nil && c.c.db.cxds != nil && c.stat != nil && c.is != nil && (c.c.conf.CachePolicy == LRU || c.c.conf.CachePolicy == LFU)
define u32(n) = 0 <= n && n < 4294967296
define cregular(c, k) = has(c.is, k) && len(c.is[k].val) > 0
define cdistinct(c) = forall(k, cipher.SHA256, forall(j, cipher.SHA256, imp(has(c.is, k) && has(c.is, j) && k != j, c.is[k] != c.is[j] && imp(c.is[k].fwant != nil, c.is[k].fwant != c.is[j].fwant))))
define stdb() = forall(k, cipher.SHA256, imp(cxhas(0)[k], u32(cxrc(0)[k]) && bslen(cxval(0)[k]) > 0), cxhas(0)[k])
define fwanted(m) = m != nil && len(m) > 0
define citem(c, k) = c.is[k] != nil && alive(c.is[k]) && u32(c.is[k].fc) && imp(c.is[k].fwant != nil, alive(c.is[k].fwant))
define ckept(c, k) = cxhas(0)[k] && bytes(c.is[k].val) == cxval(0)[k] && c.is[k].rc == cxrc(0)[k] && u32(c.is[k].cc) && c.is[k].cc >= 0 && !fwanted(c.is[k].fwant) && len(c.is[k].val) <= c.c.conf.CacheMaxItemSize
define citems(c) = forall(k, cipher.SHA256, imp(has(c.is, k), citem(c, k) && imp(len(c.is[k].val) > 0, ckept(c, k) && c.is[k].cc > 0)))
define cinv(c) = cready(c) && cdistinct(c) && stdb() && citems(c)
// small numbers of objects in memory
define csmall(c) = 0 <= c.amount && c.amount < 1152921504606846976 && 0 <= c.volume && c.volume < 1152921504606846976

// the counter a user sees, and what fillers hold of it
define counter(c, k) = ite(cregular(c, k), c.is[k].cc, cxrc(0)[k])
define fillers(c, k) = ite(has(c.is, k), c.is[k].fc, 0)
define awaited(c, k) = has(c.is, k) && fwanted(c.is[k].fwant)
define samevals() = cxhas(0) == old(cxhas(0)) && cxval(0) == old(cxval(0))
define counters(c) = forall(k, cipher.SHA256, imp(cxhas(0)[k], counter(c, k) == old(counter(c, k))))
define holders(c) = forall(k, cipher.SHA256, fillers(c, k) == old(fillers(c, k)) && iff(awaited(c, k), old(awaited(c, k))) && imp(awaited(c, k), c.is[k].fwant == old(c.is[k].fwant)))

// removes what is kept of an object: all its changes are in the store then
func (*Cache).delete(c, key, it) (err)
  requires cready(c)
  requires has(c.is, key) && c.is[key] == it && it != nil
  requires forall(k, cipher.SHA256, imp(has(c.is, k) && k != key, c.is[k] != it))
  requires 0-4294967296 < it.cc && it.cc < 4294967296 && u32(it.rc)
  requires csmall(c) && kmark(key)
  opaque
  modifies cxrc(0), c.is[*], c.amount, c.volume, it.val, it.rc, it.cc, it.cachePoints, c.stat.writes
  ensures failed: imp(err != nil, cxrc(0) == old(cxrc(0)) && dom(c.is) == old(dom(c.is)) && vals(c.is) == old(vals(c.is)) && c.amount == old(c.amount) && c.volume == old(c.volume) && it.val == old(it.val) && it.rc == old(it.rc) && it.cc == old(it.cc) && it.cachePoints == old(it.cachePoints))
  ensures stored: imp(err == nil && old(it.cc == it.rc), cxrc(0) == old(cxrc(0)))
  ensures stored2: imp(err == nil && old(it.cc != it.rc), cxrc(0) == store(old(cxrc(0)), key, cxcount(old(cxrc(0)[key]), old(it.cc - it.rc))))
  ensures kept: imp(err == nil && it.fc != 0, dom(c.is) == old(dom(c.is)) && vals(c.is) == old(vals(c.is)) && len(it.val) == 0)
  ensures gone: imp(err == nil && it.fc == 0, dom(c.is) == store(old(dom(c.is)), key, false) && forall(k, cipher.SHA256, imp(k != key, vals(c.is)[k] == old(vals(c.is)[k]))))
  ensures counted: imp(err == nil, c.amount == old(c.amount) - 1 && c.volume == old(c.volume) - old(len(it.val)))
  ensures sums: imp(err == nil, clens(c) == store(old(clens(c)), key, 0))
  ensures sums2: imp(err == nil && old(len(it.val)) > 0, keptn(clens(c)) == old(keptn(clens(c))) - 1 && keptvol(clens(c)) == old(keptvol(clens(c)) - len(it.val)))
  ensures sums3: 0 <= keptn(clens(c)) && 0 <= keptvol(clens(c))
  ensures error: imp(cxhas(0)[key], err != data.ErrNotFound)
  ensures left: imp(err == nil, it.cc == ite(it.fc == 0, old(it.cc), 0))

// changes the counter of an object that is kept
func (*Cache).incCached(c, key, inc, it) (err)
  requires cinv(c)
  requires csums(c) && csmall(c) && kmark(key)
  requires cregular(c, key) && c.is[key] == it
  requires 0-4294967296 < inc && inc < 4294967296 && it.cc + inc < 4294967296
  opaque
  modifies cxrc(0), c.is[*], c.amount, c.volume, it.val, it.rc, it.cc, it.cachePoints, c.stat.writes
  ensures inv: cinv(c) && csums(c)
  ensures C13_others: forall(k, cipher.SHA256, imp(k != key, iff(has(c.is, k), old(has(c.is, k))) && c.is[k] == old(c.is[k]) && cxrc(0)[k] == old(cxrc(0)[k])))
  ensures C13_failed: imp(err != nil, counter(c, key) == old(counter(c, key)) && cregular(c, key) && c.is[key] == it && err != data.ErrNotFound)
  ensures C13_counted: imp(err == nil, counter(c, key) == cxcount(old(counter(c, key)), inc) && imp(has(c.is, key), c.is[key] == it) && iff(cregular(c, key), counter(c, key) > 0) && it.cc == counter(c, key))
  ensures C15_holders: holders(c)

// how much is kept (see C14)
define cbound(n) = 0 < n && n < 1152921504606846976
define climits(c) = 0 <= c.amount && 0 <= c.volume && imp(!c.enable, c.amount == 0 && c.volume == 0) && imp(c.enable, cbound(c.c.conf.CacheMaxAmount) && cbound(c.c.conf.CacheMaxVolume) && c.amount <= c.c.conf.CacheMaxAmount && c.volume <= c.c.conf.CacheMaxVolume && 0 <= c.amountc && c.amountc <= c.c.conf.CacheMaxAmount && 0 <= c.volumec && c.volumec <= c.c.conf.CacheMaxVolume && c.c.conf.CacheMaxItemSize <= c.c.conf.CacheMaxVolume)
// items that are not regular stay, nothing is added
define cothers(c) = forall(k, cipher.SHA256, imp(old(has(c.is, k)) && !old(cregular(c, k)), has(c.is, k) && c.is[k] == old(c.is[k]) && !(len(c.is[k].val) > 0)) && imp(!old(has(c.is, k)), !has(c.is, k)))


// frees place (assumed here, decided by the bounded check)
func (*Cache).cleanDown(c, vol) (err)
  requires cinv(c) && csums(c) && climits(c) && c.enable
  requires 0 <= vol && vol <= c.c.conf.CacheMaxItemSize
  trusted
  modifies cxrc(0), c.is[*], c.amount, c.volume, allof(item), allof(cxdsStat)
  ensures inv: cinv(c) && csums(c) && climits(c)
  ensures C13_counters: counters(c)
  ensures C15_holders: holders(c)
  ensures others: cothers(c)
  ensures C14_fits: imp(err == nil, c.amount + 1 <= c.c.conf.CacheMaxAmount && c.volume + vol <= c.c.conf.CacheMaxVolume)
  ensures error: err != data.ErrNotFound

define cok(c) = cinv(c) && csums(c) && climits(c)
define incok(n) = 0-4294967296 < n && n < 4294967296
define csame(c, key) = forall(k, cipher.SHA256, imp(k != key, iff(cxhas(0)[k], old(cxhas(0)[k])) && cxval(0)[k] == old(cxval(0)[k]) && imp(cxhas(0)[k], counter(c, k) == old(counter(c, k)))))

// keeps an object that is in the store
func (*Cache).putItem(c, key, val, rc) (err)
  requires cok(c)
  requires kmark(key)
  requires !has(c.is, key) && cxhas(0)[key] && cxrc(0)[key] == rc && u32(rc) && imp(c.enable, bytes(val) == cxval(0)[key])
  opaque
  modifies cxrc(0), c.is[*], c.amount, c.volume, allof(item), allof(cxdsStat)
  ensures inv: cready(c)
  ensures inv1: cdistinct(c)
  ensures inv2: stdb()
  ensures inv3: citems(c)
  ensures sums: csums(c)
  ensures C14_limits: climits(c)
  ensures C13_counters: counters(c)
  ensures C15_holders: holders(c)
  ensures error: err != data.ErrNotFound


define cadded(c, key, inc) = counter(c, key) == cxcount(old(counter(c, key)), inc)
define changes(c, key, inc) = cxhas(0) == old(cxhas(0)) && cxval(0) == old(cxval(0)) && holders(c) && csame(c, key)


func (*Cache).getFilling(c, key, inc, it) (val, rc, err)
  requires cok(c) && kmark(key) && incok(inc)
  requires imp(cxhas(0)[key], counter(c, key) + inc < 4294967296)
  requires has(c.is, key) && c.is[key] == it && len(it.val) == 0 && !fwanted(it.fwant)
  opaque
  modifies cxrc(0), c.is[*], c.amount, c.volume, allof(item), allof(cxdsStat)
  ensures item: has(c.is, key) && c.is[key] == it
  ensures inv: cready(c)
  ensures inv1: cdistinct(c)
  ensures inv2: stdb()
  ensures inv3: citems(c)
  ensures sums: csums(c)
  ensures C14_limits: climits(c)
  ensures C13_others: changes(c, key, inc)
  ensures C13_unknown: iff(err == data.ErrNotFound, !cxhas(0)[key])
  ensures C13_got: imp(err == nil, cxhas(0)[key] && bytes(val) == cxval(0)[key] && cadded(c, key, inc) && rc == counter(c, key) - fillers(c, key))
  ensures C13_failed: imp(cxhas(0)[key], cadded(c, key, inc) || counter(c, key) == old(counter(c, key)))

func (*Cache).incFilling(c, key, inc, it) (rc, err)
  requires cok(c) && kmark(key) && incok(inc)
  requires imp(cxhas(0)[key], counter(c, key) + inc < 4294967296)
  requires has(c.is, key) && c.is[key] == it && len(it.val) == 0 && !fwanted(it.fwant)
  opaque
  modifies cxrc(0), c.is[*], c.amount, c.volume, allof(item), allof(cxdsStat)
  ensures item: has(c.is, key) && c.is[key] == it
  ensures inv: cready(c)
  ensures inv1: cdistinct(c)
  ensures inv2: stdb()
  ensures inv3: citems(c)
  ensures sums: csums(c)
  ensures C14_limits: climits(c)
  ensures C13_others: changes(c, key, inc)
  ensures C13_unknown: iff(err == data.ErrNotFound, !cxhas(0)[key])
  ensures C13_got: imp(err == nil, cxhas(0)[key] && cadded(c, key, inc) && rc == counter(c, key) - fillers(c, key))
  ensures C13_failed: imp(cxhas(0)[key], cadded(c, key, inc) || counter(c, key) == old(counter(c, key)))

func (*Cache).incItem(c, key, inc, it) (rc, err)
  requires cok(c) && kmark(key) && incok(inc)
  requires imp(cxhas(0)[key], counter(c, key) + inc < 4294967296)
  requires has(c.is, key) && c.is[key] == it
  opaque
  modifies cxrc(0), c.is[*], c.amount, c.volume, allof(item), allof(cxdsStat)
  ensures item: imp(has(c.is, key), c.is[key] == it) && it.fc == old(it.fc)
  ensures inv: cready(c)
  ensures inv1: cdistinct(c)
  ensures inv2: stdb()
  ensures inv3: citems(c)
  ensures sums: csums(c)
  ensures C14_limits: climits(c)
  ensures C13_others: changes(c, key, inc)
  ensures C13_unknown: iff(err == data.ErrNotFound, !cxhas(0)[key] || old(awaited(c, key))) && imp(old(awaited(c, key)), counter(c, key) == old(counter(c, key)))
  ensures C13_got: imp(err == nil, cxhas(0)[key] && cadded(c, key, inc) && rc == counter(c, key) - fillers(c, key))
  ensures C13_failed: imp(cxhas(0)[key], cadded(c, key, inc) || counter(c, key) == old(counter(c, key)))

func (*Cache).inc(c, key, inc) (rc, err)
  requires cok(c) && kmark(key) && incok(inc)
  requires imp(cxhas(0)[key], counter(c, key) + inc < 4294967296)
  opaque
  modifies cxrc(0), c.is[*], c.amount, c.volume, allof(item), allof(cxdsStat)
  ensures inv: cready(c)
  ensures inv1: cdistinct(c)
  ensures inv2: stdb()
  ensures inv3: citems(c)
  ensures sums: csums(c)
  ensures C14_limits: climits(c)
  ensures C13_others: changes(c, key, inc)
  ensures C13_unknown: iff(err == data.ErrNotFound, !cxhas(0)[key] || old(awaited(c, key))) && imp(old(awaited(c, key)), counter(c, key) == old(counter(c, key)))
  ensures C13_got: imp(err == nil, cxhas(0)[key] && cadded(c, key, inc) && rc == counter(c, key) - fillers(c, key))
  ensures C13_failed: imp(cxhas(0)[key], cadded(c, key, inc) || counter(c, key) == old(counter(c, key)))

func (*Cache).get(c, key, inc) (val, rc, err)
  requires cok(c) && kmark(key) && incok(inc)
  requires imp(cxhas(0)[key], counter(c, key) + inc < 4294967296)
  opaque
  modifies cxrc(0), c.is[*], c.amount, c.volume, allof(item), allof(cxdsStat)
  ensures inv: cready(c)
  ensures inv1: cdistinct(c)
  ensures inv2: stdb()
  ensures inv3: citems(c)
  ensures sums: csums(c)
  ensures C14_limits: climits(c)
  ensures C13_others: changes(c, key, inc)
  ensures C13_unknown: iff(err == data.ErrNotFound, !cxhas(0)[key] || old(awaited(c, key))) && imp(old(awaited(c, key)), counter(c, key) == old(counter(c, key)))
  ensures C13_got: imp(err == nil, cxhas(0)[key] && bytes(val) == cxval(0)[key] && cadded(c, key, inc) && rc == counter(c, key) - fillers(c, key))
  ensures C13_failed: imp(cxhas(0)[key], cadded(c, key, inc) || counter(c, key) == old(counter(c, key)))

func (*Cache).getNoCache(c, key, inc) (val, rc, err)
  requires cok(c) && kmark(key) && incok(inc)
  requires imp(cxhas(0)[key], counter(c, key) + inc < 4294967296)
  opaque
  modifies cxrc(0), c.is[*], c.amount, c.volume, allof(item), allof(cxdsStat)
  ensures inv: cready(c)
  ensures inv1: cdistinct(c)
  ensures inv2: stdb()
  ensures inv3: citems(c)
  ensures sums: csums(c)
  ensures C14_limits: climits(c)
  ensures C13_others: changes(c, key, inc)
  ensures C13_unknown: iff(err == data.ErrNotFound, !cxhas(0)[key] || old(awaited(c, key))) && imp(old(awaited(c, key)), counter(c, key) == old(counter(c, key)))
  ensures C13_got: imp(err == nil, cxhas(0)[key] && bytes(val) == cxval(0)[key] && cadded(c, key, inc) && rc == counter(c, key) - fillers(c, key))
  ensures C13_failed: imp(cxhas(0)[key], cadded(c, key, inc) || counter(c, key) == old(counter(c, key)))

func (*Cache).Get(c, key, inc) (val, rc, err)
  requires cok(c) && kmark(key) && incok(inc)
  requires imp(cxhas(0)[key], counter(c, key) + inc < 4294967296)
  modifies cxrc(0), c.is[*], c.amount, c.volume, allof(item), allof(cxdsStat)
  ensures inv: cready(c)
  ensures inv1: cdistinct(c)
  ensures inv2: stdb()
  ensures inv3: citems(c)
  ensures sums: csums(c)
  ensures C14_limits: climits(c)
  ensures C13_others: changes(c, key, inc)
  ensures C13_unknown: iff(err == data.ErrNotFound, !cxhas(0)[key] || old(awaited(c, key))) && imp(old(awaited(c, key)), counter(c, key) == old(counter(c, key)))
  ensures C13_got: imp(err == nil, cxhas(0)[key] && bytes(val) == cxval(0)[key] && cadded(c, key, inc) && rc == counter(c, key) - fillers(c, key))
  ensures C13_failed: imp(cxhas(0)[key], cadded(c, key, inc) || counter(c, key) == old(counter(c, key)))

func (*Cache).Inc(c, key, inc) (rc, err)
  requires cok(c) && kmark(key) && incok(inc)
  requires imp(cxhas(0)[key], counter(c, key) + inc < 4294967296)
  modifies cxrc(0), c.is[*], c.amount, c.volume, allof(item), allof(cxdsStat)
  ensures inv: cready(c)
  ensures inv1: cdistinct(c)
  ensures inv2: stdb()
  ensures inv3: citems(c)
  ensures sums: csums(c)
  ensures C14_limits: climits(c)
  ensures C13_others: changes(c, key, inc)
  ensures C13_unknown: iff(err == data.ErrNotFound, !cxhas(0)[key] || old(awaited(c, key))) && imp(old(awaited(c, key)), counter(c, key) == old(counter(c, key)))
  ensures C13_got: imp(err == nil, cxhas(0)[key] && cadded(c, key, inc) && rc == counter(c, key) - fillers(c, key))
  ensures C13_failed: imp(cxhas(0)[key], cadded(c, key, inc) || counter(c, key) == old(counter(c, key)))

// what those who wait add
smtfun wsum ((Array Int Bool) (Array Int Int)) Int
axiom wsum: (forall ((v (Array Int Int))) (! (= (wsum ((as const (Array Int Bool)) false) v) 0) :pattern ((wsum ((as const (Array Int Bool)) false) v))))
axiom wsum: (forall ((d (Array Int Bool)) (v (Array Int Int)) (k Int)) (! (= (wsum (store d k true) v) (+ (wsum d v) (ite (select d k) 0 (select v k)))) :pattern ((wsum (store d k true) v))))
// no sum is negative or more than the whole
axiom wsum: (forall ((d (Array Int Bool)) (e (Array Int Bool)) (v (Array Int Int))) (! (or (exists ((k Int)) (and (select d k) (or (not (select e k)) (< (select v k) 0)))) (exists ((k Int)) (and (select e k) (< (select v k) 0))) (and (<= 0 (wsum d v)) (<= (wsum d v) (wsum e v)))) :pattern ((wsum d v) (wsum e v))))
define waits(m) = ite(fwanted(m), wsum(dom(m), vals(m)), 0)
define waitsok(m) = u32(waits(m)) && forall(g, "Int", imp(has(m, g), 0 <= m[g]))

define newcount(c, key, inc) = cxrc(0)[key] == inc
// what Set does with the counter in the store
define setcount(c, key, inc) = counter(c, key) == ite(old(cxhas(0)[key]), cxcount(old(counter(c, key)), inc), inc)
define cothersok(c, key) = csame(c, key) && forall(k, cipher.SHA256, imp(k != key, fillers(c, k) == old(fillers(c, k)) && iff(awaited(c, k), old(awaited(c, k))) && imp(awaited(c, k), c.is[k].fwant == old(c.is[k].fwant))))
define wascounted(c, key) = cxhas(0) == old(cxhas(0)) && cxval(0) == old(cxval(0)) && counter(c, key) == old(counter(c, key))
define setval(key, val) = cxhas(0)[key] && cxval(0)[key] == ite(old(cxhas(0)[key]), old(cxval(0)[key]), bytes(val))

// sets an object that is awaited
func (*Cache).setWanted(c, key, val, inc, it) (rc, err)
  requires cok(c) && kmark(key) && u32(inc) && len(val) > 0
  requires imp(cxhas(0)[key], cxval(0)[key] == bytes(val))
  requires has(c.is, key) && c.is[key] == it && len(it.val) == 0 && fwanted(it.fwant) && waitsok(it.fwant)
  requires ite(cxhas(0)[key], counter(c, key), 0) + inc + waits(it.fwant) < 4294967296 && it.fc + waits(it.fwant) < 4294967296
  opaque
  modifies cxhas(0), cxval(0), cxrc(0), c.is[*], c.amount, c.volume, allof(item), allof(cxdsStat)
  ensures inv: cready(c)
  ensures inv1: cdistinct(c)
  ensures inv2: stdb()
  ensures inv3: citems(c)
  ensures sums: csums(c)
  ensures C14_limits: climits(c)
  ensures C13_others: cothersok(c, key)
  ensures C15_large: imp(len(val) > c.c.conf.MaxObjectSize, err != nil && wascounted(c, key) && !awaited(c, key))
  ensures C15_unheld: imp(len(val) <= c.c.conf.MaxObjectSize && inc + old(waits(it.fwant)) == 0, err == nil && wascounted(c, key) && !awaited(c, key) && fillers(c, key) == old(fillers(c, key)))
  ensures C15_set: imp(err == nil && inc + old(waits(it.fwant)) != 0, setval(key, val) && !awaited(c, key) && fillers(c, key) == old(fillers(c, key)) + old(waits(it.fwant)))
  ensures C13_counted: imp(err == nil && inc + old(waits(it.fwant)) != 0, counter(c, key) == ite(old(cxhas(0)[key]), cxcount(old(counter(c, key)), inc + old(waits(it.fwant))), inc + old(waits(it.fwant))) && rc == counter(c, key) - fillers(c, key))
  ensures error: err != data.ErrNotFound
  inv _i == wsum(_v, vals(it.fwant))
  inv c.c.conf.MaxObjectSize >= len(val)

func (*Cache).SetWanted(c, key, val) (rc, err)
  requires cok(c) && kmark(key) && len(val) > 0
  requires imp(cxhas(0)[key], cxval(0)[key] == bytes(val))
  requires imp(has(c.is, key) && !cregular(c, key), waitsok(c.is[key].fwant) && ite(cxhas(0)[key], counter(c, key), 0) + waits(c.is[key].fwant) < 4294967296 && fillers(c, key) + waits(c.is[key].fwant) < 4294967296)
  modifies cxhas(0), cxval(0), cxrc(0), c.is[*], c.amount, c.volume, allof(item), allof(cxdsStat)
  ensures inv: cready(c)
  ensures inv1: cdistinct(c)
  ensures inv2: stdb()
  ensures inv3: citems(c)
  ensures sums: csums(c)
  ensures C14_limits: climits(c)
  ensures C13_others: cothersok(c, key)
  ensures C15_unwanted: imp(!old(awaited(c, key)), err == nil && wascounted(c, key) && fillers(c, key) == old(fillers(c, key)) && !awaited(c, key))
  ensures C15_large: imp(old(awaited(c, key)) && len(val) > c.c.conf.MaxObjectSize, err != nil && wascounted(c, key) && !awaited(c, key))
  ensures C15_unheld: imp(old(awaited(c, key)) && len(val) <= c.c.conf.MaxObjectSize && old(waits(c.is[key].fwant)) == 0, err == nil && wascounted(c, key) && !awaited(c, key) && fillers(c, key) == old(fillers(c, key)))
  ensures C15_set: imp(err == nil && old(awaited(c, key)) && old(waits(c.is[key].fwant)) != 0, setval(key, val) && !awaited(c, key) && fillers(c, key) == old(fillers(c, key)) + old(waits(c.is[key].fwant)) && counter(c, key) == ite(old(cxhas(0)[key]), cxcount(old(counter(c, key)), old(waits(c.is[key].fwant))), old(waits(c.is[key].fwant))))

func (*Cache).Set(c, key, val, inc) (rc, err)
  requires cok(c) && kmark(key) && len(val) > 0 && 0 < inc && inc < 4294967296
  requires imp(cxhas(0)[key], cxval(0)[key] == bytes(val))
  requires ite(cxhas(0)[key], counter(c, key), 0) + inc < 4294967296
  requires imp(has(c.is, key) && !cregular(c, key), waitsok(c.is[key].fwant) && ite(cxhas(0)[key], counter(c, key), 0) + inc + waits(c.is[key].fwant) < 4294967296 && fillers(c, key) + waits(c.is[key].fwant) < 4294967296)
  modifies cxhas(0), cxval(0), cxrc(0), c.is[*], c.amount, c.volume, allof(item), allof(cxdsStat)
  ensures inv: cready(c)
  ensures inv1: cdistinct(c)
  ensures inv2: stdb()
  ensures inv3: citems(c)
  ensures sums: csums(c)
  ensures C14_limits: climits(c)
  ensures C13_others: cothersok(c, key)
  ensures C13_large: imp(!old(cxhas(0)[key]) && !old(has(c.is, key)) && len(val) > c.c.conf.MaxObjectSize, err != nil && wascounted(c, key))
  ensures C13_set: imp(err == nil, setval(key, val) && !awaited(c, key) && counter(c, key) == ite(old(cxhas(0)[key]), cxcount(old(counter(c, key)), inc + old(ite(awaited(c, key), waits(c.is[key].fwant), 0))), inc + old(ite(awaited(c, key), waits(c.is[key].fwant), 0))))
  ensures C13_got: imp(err == nil, rc == counter(c, key) - fillers(c, key))
  ensures C15_held: imp(err == nil, fillers(c, key) == old(fillers(c, key)) + old(ite(awaited(c, key), waits(c.is[key].fwant), 0)))
  ensures C15_waits: imp(!old(awaited(c, key)), !awaited(c, key) && fillers(c, key) == old(fillers(c, key)))

// what is in the cache for a channel that waits
define cwaits(c, key, gc) = ite(awaited(c, key) && has(c.is[key].fwant, gc), c.is[key].fwant[gc], 0)
define cinchan(c, key, gc) = awaited(c, key) && has(c.is[key].fwant, gc)

func (*Cache).Want(c, key, gc, inc) (err)
  requires cok(c) && kmark(key) && u32(inc)
  requires imp(cxhas(0)[key], counter(c, key) + inc < 4294967296) && fillers(c, key) + inc < 4294967296 && u32(cwaits(c, key, gc) + inc)
  modifies cxrc(0), c.is[*], c.amount, c.volume, allof(item), allof(cxdsStat), c.is[key].fwant[*]
  ensures inv: cready(c)
  ensures inv1: cdistinct(c)
  ensures inv2: stdb()
  ensures inv3: citems(c)
  ensures sums: csums(c)
  ensures C14_limits: climits(c)
  ensures C13_others: cothersok(c, key)
  ensures C13_values: cxhas(0) == old(cxhas(0)) && cxval(0) == old(cxval(0))
  ensures C15_stored: imp(err == nil && cxhas(0)[key] && !old(awaited(c, key)), cadded(c, key, inc) && fillers(c, key) == old(fillers(c, key)) + inc && !awaited(c, key))
  ensures C15_waits: imp(err == nil && (!cxhas(0)[key] || old(awaited(c, key))), cinchan(c, key, gc) && cwaits(c, key, gc) == old(cwaits(c, key, gc)) + inc && fillers(c, key) == old(fillers(c, key)) && imp(cxhas(0)[key], counter(c, key) == old(counter(c, key))))
  ensures C15_unknown: err != data.ErrNotFound
  ensures C15_too: imp(!cxhas(0)[key], err == nil)

func (*Cache).Unwant(c, key, gc)
  requires cok(c) && kmark(key)
  modifies c.is[*], allof(item), c.is[key].fwant[*]
  lemma len(old(c.is[key].fwant)) >= 0
  lemma forall(g, "Int", imp(g != gc && old(cinchan(c, key, g)), has(old(c.is[key].fwant), g)), old(has(c.is[key].fwant, g)))
  lemma forall(g, "Int", imp(has(old(c.is[key].fwant), g), len(old(c.is[key].fwant)) > 0), old(has(c.is[key].fwant, g)))
  ensures inv: cready(c)
  ensures inv1: cdistinct(c)
  ensures inv2: stdb()
  ensures inv3: citems(c)
  ensures sums: csums(c)
  ensures C14_limits: climits(c)
  ensures C13_others: cothersok(c, key) && wascounted(c, key) && fillers(c, key) == old(fillers(c, key))
  ensures C15_gone: !cinchan(c, key, gc)
  ensures C15_others: forall(g, "Int", imp(g != gc, iff(cinchan(c, key, g), old(cinchan(c, key, g))) && cwaits(c, key, g) == old(cwaits(c, key, g))))

func (*Cache).Finc(c, key, inc) (err)
  requires cok(c) && kmark(key) && incok(inc) && inc != 0
  requires imp(fillers(c, key) != 0, fillers(c, key) >= inc && fillers(c, key) >= 0 - inc)
  modifies cxrc(0), c.is[*], c.amount, c.volume, allof(item), allof(cxdsStat)
  ensures inv: cready(c)
  ensures inv1: cdistinct(c)
  ensures inv2: stdb()
  ensures inv3: citems(c)
  ensures sums: csums(c)
  ensures C14_limits: climits(c)
  ensures C13_others: cothersok(c, key)
  ensures C13_values: cxhas(0) == old(cxhas(0)) && cxval(0) == old(cxval(0))
  ensures C15_none: imp(old(fillers(c, key)) == 0, err == nil && counter(c, key) == old(counter(c, key)) && fillers(c, key) == 0)
  ensures C15_kept: imp(old(fillers(c, key)) != 0 && inc > 0, err == nil && counter(c, key) == old(counter(c, key)) && fillers(c, key) == old(fillers(c, key)) - inc)
  ensures C15_refused: imp(old(fillers(c, key)) != 0 && inc < 0, fillers(c, key) == old(fillers(c, key)) + inc && imp(err == nil, cadded(c, key, inc)) && imp(cxhas(0)[key], cadded(c, key, inc) || counter(c, key) == old(counter(c, key))))
  ensures C15_waits: iff(awaited(c, key), old(awaited(c, key)))
