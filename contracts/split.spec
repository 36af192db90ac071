package skyobject/registry
prop C09

// What a splitting asks of its splitter: the history of the values asked for,
// and whether it has failed. The count of references that comes with a value
// is a function of the history.
ghost asked : Int
ghost splitfailed : Bool
smtfun sget (Int (Array Int Int)) Int
smtfun rcafter (Int) Int

iface Splitter.Get(s, key) (val, rc, err)
  requires blank: key != cipher.SHA256{}
  modifies asked(s)
  ensures asked(s) == sget(old(asked(s)), key)
  ensures imp(err == nil, bytes(val) == stored(key) && rc == rcafter(asked(s)))

iface Splitter.Fail(s, err) ()
  modifies splitfailed(s)
  ensures splitfailed(s)

iface Splitter.Registry(s) (r)
  modifies nothing
  ensures r != nil && forall(k, SchemaRef, imp(has(r.srf, k), r.srf[k] == schemaby(k) && r.srf[k] != nil))

// the histories that splittings make
smtfun shash (Iface (Array Int Int) Int) Int
smtfun sdata (Iface BS Int) Int
smtfun srefs (Iface (Array Int Int) Int) Int
smtfun selems (Iface BS Int Int) Int
smtfun sfields ((Array Int Iface) BS Int Int) Int
axiom shash: (forall ((s Iface) (h (Array Int Int)) (t Int)) (! (= (shash s h t) (ite (= h ((as const (Array Int Int)) 0)) t (ite (< 1 (rcafter (sget t h))) (sget t h) (sdata s (stored h) (sget t h))))) :pattern ((shash s h t))))
axiom sdata: (forall ((s Iface) (b BS) (t Int)) (! (= (sdata s b t) (ite (not (hasrefs s)) t (ite (isrefsch s) (ite (= (reftype s) 1) (shash (elemof s) (hashat b) t) (ite (= (reftype s) 2) (srefs (elemof s) (hashesat b) t) (shash (schemaby (dynschemaat b)) (dynhashat b) t))) (ite (= (kindof s) 17) (selems (elemof s) b (lenof s) t) (ite (= (kindof s) 23) (selems (elemof s) (tail b 4) (countat b) t) (sfields (fieldsof s) b (nfields s) t)))))) :pattern ((sdata s b t))))
axiom selems: (forall ((e Iface) (b BS) (t Int)) (! (= (selems e b 0 t) t) :pattern ((selems e b 0 t))))
axiom selems: (forall ((e Iface) (b BS) (i Int) (t Int)) (! (=> (and (<= 0 i) (< 0 (szof e (tail b (elemsum e b 0 i))))) (= (selems e b (+ i 1) t) (sdata e (sub b (elemsum e b 0 i) (szof e (tail b (elemsum e b 0 i)))) (selems e b i t)))) :pattern ((selems e b i t) (elemsum e b 0 i))))
axiom selems: (forall ((e Iface) (b BS) (i Int) (j Int) (t Int)) (! (=> (and (<= 0 i) (<= i j) (= 0 (szof e (tail b (elemsum e b 0 i))))) (= (selems e b j t) (selems e b i t))) :pattern ((selems e b i t) (selems e b j t) (elemsum e b 0 i))))
axiom sfields: (forall ((a (Array Int Iface)) (b BS) (t Int)) (! (= (sfields a b 0 t) t) :pattern ((sfields a b 0 t))))
axiom sfields: (forall ((a (Array Int Iface)) (b BS) (i Int) (t Int)) (! (=> (<= 0 i) (= (sfields a b (+ i 1) t) (sdata (fschema (select a i)) (sub b (fieldsum a b 0 i) (szof (fschema (select a i)) (tail b (fieldsum a b 0 i)))) (sfields a b i t)))) :pattern ((sfields a b i t) (select a i))))

// a failure is never forgotten
define splits(s, t) = imp(!splitfailed(s), asked(s) == t) && imp(old(splitfailed(s)), splitfailed(s))

func splitSchemaHash(s, sch, hash) ()
  requires s != nil && sch != nil
  opaque
  modifies asked(s), splitfailed(s)
  ensures visits: splits(s, shash(sch, hash, old(asked(s))))
  ensures blank: imp(hash == cipher.SHA256{}, asked(s) == old(asked(s)) && iff(splitfailed(s), old(splitfailed(s))))

func splitSchemaHashAsync(s, sch, hash) ()
  requires s != nil && sch != nil
  modifies asked(s), splitfailed(s)
  ensures visits: splits(s, shash(sch, hash, old(asked(s))))

func splitSchemaData(s, sch, val) ()
  requires s != nil && sch != nil
  opaque
  modifies asked(s), splitfailed(s)
  ensures visits: splits(s, sdata(sch, bytes(val), old(asked(s))))
  ensures nothing: imp(!hasrefs(sch), asked(s) == old(asked(s)) && iff(splitfailed(s), old(splitfailed(s))))

func splitSchemaDataAsync(s, sch, val) ()
  requires s != nil && sch != nil
  opaque
  modifies asked(s), splitfailed(s)
  ensures visits: splits(s, sdata(sch, bytes(val), old(asked(s))))
  ensures nothing: imp(!hasrefs(sch), asked(s) == old(asked(s)) && iff(splitfailed(s), old(splitfailed(s))))

func splitSchemaReference(s, sch, val) ()
  requires s != nil && sch != nil && isrefsch(sch) && hasrefs(sch)
  opaque
  modifies asked(s), splitfailed(s)
  ensures visits: splits(s, sdata(sch, bytes(val), old(asked(s))))

func splitArray(s, sch, val) ()
  requires s != nil && sch != nil
  opaque
  modifies asked(s), splitfailed(s)
  ensures visits: splits(s, selems(elemof(sch), bytes(val), lenof(sch), old(asked(s))))
  ensures split: imp(elemof(sch) != nil && lenof(sch) == 0, iff(splitfailed(s), old(splitfailed(s))))

func splitSlice(s, sch, val) ()
  requires s != nil && sch != nil
  opaque
  modifies asked(s), splitfailed(s)
  ensures visits: splits(s, selems(elemof(sch), tail(bytes(val), 4), countat(bytes(val)), old(asked(s))))
  ensures split: imp(elemof(sch) != nil && 4 <= len(val) && desf(uint32, bytes(val)) == 0, iff(splitfailed(s), old(splitfailed(s))))

func splitArraySlice(s, el, ln, val) ()
  requires s != nil && el != nil && 0 <= ln
  opaque
  modifies asked(s), splitfailed(s)
  ensures visits: splits(s, selems(el, bytes(val), ln, old(asked(s))))
  ensures split: imp(ln == 0, iff(splitfailed(s), old(splitfailed(s))))
  inv 0 <= _n && _n <= len(val)
  inv _n == elemsum(el, bytes(val), 0, _i)
  inv splits(s, selems(el, bytes(val), _i, old(asked(s))))

func splitStruct(s, sch, val) ()
  requires s != nil && sch != nil
  opaque
  modifies asked(s), splitfailed(s)
  ensures visits: splits(s, sfields(fieldsof(sch), bytes(val), nfields(sch), old(asked(s))))
  inv 0 <= _n && _n <= len(val)
  inv _n == fieldsum(fieldsof(sch), bytes(val), 0, _i)
  inv _n == fieldsum(fieldsof(sch), bytes(val), 0, _i + 1)
  inv splits(s, sfields(fieldsof(sch), bytes(val), _i, old(asked(s))))
  inv splits(s, sfields(fieldsof(sch), bytes(val), _i + 1, old(asked(s))))

func (*Ref).Split(r, s, el) ()
  requires r != nil && s != nil && el != nil
  ensures visits: splits(s, shash(el, r.Hash, old(asked(s))))

func (*Dynamic).Split(d, s) ()
  requires d != nil && s != nil
  ensures visits: splits(s, shash(schemaby(d.Schema), d.Hash, old(asked(s))))
  ensures invalid: imp(invalid(d), splitfailed(s) && asked(s) == old(asked(s)))
  ensures blank: imp(d.Hash == cipher.SHA256{}, asked(s) == old(asked(s)) && iff(splitfailed(s), old(splitfailed(s))))

func (*Refs).Split(r, s, el) ()
  trusted
  opaque
  modifies *r, asked(s), splitfailed(s)
  ensures splits(s, srefs(el, old(r.Hash), old(asked(s))))
