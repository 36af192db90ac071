package skyobject/registry
prop C09

// What a walk calls back: the trace is the history of the calls of a
// function. Each call makes the history longer; what it replies, and the
// error, are functions of the history that it makes: this restricts no
// function, as a history never comes back. A function that has failed is not
// called any more.
ghost trace : Int
smtfun visit (Int (Array Int Int) Int) Int
smtfun replied (Int) Bool
smtfun failed (Int) Iface

iface WalkFunc.call(f, hash, depth) (deeper, err)
  requires stopped: failed(trace(f)) == nil
  modifies trace(f)
  ensures trace(f) == visit(old(trace(f)), hash, depth)
  ensures iff(deeper, replied(trace(f)))
  ensures err == failed(trace(f))

// the schema that the registry of the walk has for a reference
smtfun schemaby ((Array Int Int)) Iface

iface Pack.Registry(p) (r)
  modifies nothing
  ensures imp(r != nil, forall(k, SchemaRef, imp(has(r.srf, k), r.srf[k] == schemaby(k) && r.srf[k] != nil)))

// what schemas say of themselves
smtfun hasrefs (Iface) Bool
smtfun isrefsch (Iface) Bool
smtfun reftype (Iface) Int
smtfun lenof (Iface) Int
smtfun nfields (Iface) Int
smtfun fieldsof (Iface) (Array Int Iface)

iface Schema.HasReferences(s) (b)
  modifies nothing
  ensures iff(b, hasrefs(s))

iface Schema.IsReference(s) (b)
  modifies nothing
  ensures iff(b, isrefsch(s))

iface Schema.ReferenceType(s) (t)
  modifies nothing
  ensures t == reftype(s)

iface Schema.Len(s) (n)
  modifies nothing
  ensures n == lenof(s) && 0 <= n && n < 4294967296

iface Schema.Elem(s) (e)
  modifies nothing
  ensures e == elemof(s)

iface Schema.Fields(s) (fs)
  modifies nothing
  ensures len(fs) == nfields(s) && elems(fs) == fieldsof(s) && off(fs) == 0
  ensures forall(i, int, imp(0 <= i && i < len(fs), fs[i] != nil))

iface Schema.String(s) (str)
  modifies nothing

iface Field.Name(s) (str)
  modifies nothing

// the histories that walks make: of what's at a hash, of encoded data by its
// schema, of a reference to an object, of an array of references, of the
// first elements, of the first fields
smtfun sub (BS Int Int) BS
axiom sub: (forall ((b BS) (o Int) (n Int)) (! (= (sub b o n) (mk-bs n (shift.Int (bs-data b) o n))) :pattern ((sub b o n))))
smtfun whash (Iface (Array Int Int) Int) Int
smtfun wdata (Iface BS Int) Int
smtfun wref (Iface (Array Int Int) Int) Int
smtfun wrefs (Iface (Array Int Int) Int) Int
smtfun welems (Iface BS Int Int) Int
smtfun wfields ((Array Int Iface) BS Int Int) Int
smtfun hashat (BS) (Array Int Int)
smtfun hashesat (BS) (Array Int Int)
smtfun dynhashat (BS) (Array Int Int)
smtfun dynschemaat (BS) (Array Int Int)
smtfun countat (BS) Int
axiom des.skyobject_registry.Ref.Hash: (forall ((b BS)) (! (= (des.skyobject_registry.Ref.Hash b) (hashat b)) :pattern ((des.skyobject_registry.Ref.Hash b))))
axiom des.skyobject_registry.Refs.Hash: (forall ((b BS)) (! (= (des.skyobject_registry.Refs.Hash b) (hashesat b)) :pattern ((des.skyobject_registry.Refs.Hash b))))
axiom des.skyobject_registry.Dynamic.Hash: (forall ((b BS)) (! (= (des.skyobject_registry.Dynamic.Hash b) (dynhashat b)) :pattern ((des.skyobject_registry.Dynamic.Hash b))))
axiom des.skyobject_registry.Dynamic.Schema: (forall ((b BS)) (! (= (des.skyobject_registry.Dynamic.Schema b) (dynschemaat b)) :pattern ((des.skyobject_registry.Dynamic.Schema b))))
axiom des.uint32.: (forall ((b BS)) (! (= (des.uint32. b) (countat b)) :pattern ((des.uint32. b))))

axiom whash: (forall ((s Iface) (h (Array Int Int)) (t Int)) (! (= (whash s h t) (ite (hasrefs s) (wdata s (stored h) t) t)) :pattern ((whash s h t))))
axiom wdata: (forall ((s Iface) (b BS) (t Int)) (! (= (wdata s b t) (ite (isrefsch s) (ite (= (reftype s) 1) (wref (elemof s) (hashat b) t) (ite (= (reftype s) 2) (wrefs (elemof s) (hashesat b) t) (wref (schemaby (dynschemaat b)) (dynhashat b) t))) (ite (= (kindof s) 17) (welems (elemof s) b (lenof s) t) (ite (= (kindof s) 23) (welems (elemof s) (tail b 4) (countat b) t) (wfields (fieldsof s) b (nfields s) t))))) :pattern ((wdata s b t))))
axiom welems: (forall ((e Iface) (b BS) (t Int)) (! (= (welems e b 0 t) t) :pattern ((welems e b 0 t))))
axiom welems: (forall ((e Iface) (b BS) (i Int) (t Int)) (! (=> (and (<= 0 i) (< 0 (szof e (tail b (elemsum e b 0 i))))) (= (welems e b (+ i 1) t) (wdata e (sub b (elemsum e b 0 i) (szof e (tail b (elemsum e b 0 i)))) (welems e b i t)))) :pattern ((welems e b i t) (elemsum e b 0 i))))
// an element of no size contains nothing, and only such ones follow
axiom welems: (forall ((e Iface) (b BS) (i Int) (j Int) (t Int)) (! (=> (and (<= 0 i) (<= i j) (= 0 (szof e (tail b (elemsum e b 0 i))))) (= (welems e b j t) (welems e b i t))) :pattern ((welems e b i t) (welems e b j t) (elemsum e b 0 i))))
axiom wfields: (forall ((a (Array Int Iface)) (b BS) (t Int)) (! (= (wfields a b 0 t) t) :pattern ((wfields a b 0 t))))
axiom wfields: (forall ((a (Array Int Iface)) (b BS) (i Int) (t Int)) (! (=> (<= 0 i) (= (wfields a b (+ i 1) t) (ite (hasrefs (fschema (select a i))) (wdata (fschema (select a i)) (sub b (fieldsum a b 0 i) (szof (fschema (select a i)) (tail b (fieldsum a b 0 i)))) (wfields a b i t)) (wfields a b i t)))) :pattern ((wfields a b i t) (select a i))))
axiom wref: (forall ((s Iface) (h (Array Int Int)) (t Int)) (! (= (wref s h t) (ite (and (replied (visit t h 0)) (not (= h ((as const (Array Int Int)) 0)))) (whash s h (visit t h 0)) (visit t h 0))) :pattern ((wref s h t))))

// once the function fails, its error is what's returned; nothing else is the
// error that stops a walk
define walks(f, after) = imp(failed(trace(f)) != nil, after == failed(trace(f))) && imp(after == ErrStopIteration, failed(trace(f)) == after)
define walked(f, after, t) = ite(failed(trace(f)) == nil, imp(after == nil, trace(f) == t), imp(failed(trace(f)) == ErrStopIteration, after == nil) && imp(failed(trace(f)) != ErrStopIteration, after == failed(trace(f)))) && after != ErrStopIteration

func walkSchemaHash(pack, sch, hash, walkFunc) (err)
  requires pack != nil && sch != nil && walkFunc != nil && failed(trace(walkFunc)) == nil
  opaque
  modifies trace(walkFunc), packgets(pack), packkey(pack), packgot(pack)
  ensures visits: imp(err == nil, trace(walkFunc) == whash(sch, hash, old(trace(walkFunc))))
  ensures stops: walks(walkFunc, err)
  ensures lookup: nolookup(pack) || hasrefs(sch)

func walkSchemaData(pack, sch, val, walkFunc) (err)
  requires pack != nil && sch != nil && walkFunc != nil && failed(trace(walkFunc)) == nil
  opaque
  modifies trace(walkFunc), packgets(pack), packkey(pack), packgot(pack)
  ensures visits: imp(err == nil, trace(walkFunc) == wdata(sch, bytes(val), old(trace(walkFunc))))
  ensures stops: walks(walkFunc, err)

func walkSchemaReference(pack, sch, val, walkFunc) (err)
  requires pack != nil && sch != nil && walkFunc != nil && failed(trace(walkFunc)) == nil
  requires isrefsch(sch)
  opaque
  modifies trace(walkFunc), packgets(pack), packkey(pack), packgot(pack)
  ensures visits: imp(err == nil, trace(walkFunc) == wdata(sch, bytes(val), old(trace(walkFunc))))
  ensures stops: walks(walkFunc, err)

func walkArray(pack, sch, val, walkFunc) (err)
  requires pack != nil && sch != nil && walkFunc != nil && failed(trace(walkFunc)) == nil
  opaque
  modifies trace(walkFunc), packgets(pack), packkey(pack), packgot(pack)
  ensures visits: imp(err == nil, trace(walkFunc) == welems(elemof(sch), bytes(val), lenof(sch), old(trace(walkFunc))))
  ensures stops: walks(walkFunc, err)
  ensures walked: imp(elemof(sch) != nil && lenof(sch) == 0, err == nil)

func walkSlice(pack, sch, val, walkFunc) (err)
  requires pack != nil && sch != nil && walkFunc != nil && failed(trace(walkFunc)) == nil
  opaque
  modifies trace(walkFunc), packgets(pack), packkey(pack), packgot(pack)
  ensures visits: imp(err == nil, trace(walkFunc) == welems(elemof(sch), tail(bytes(val), 4), countat(bytes(val)), old(trace(walkFunc))))
  ensures stops: walks(walkFunc, err)
  ensures walked: imp(elemof(sch) != nil && 4 <= len(val) && desf(uint32, bytes(val)) == 0, err == nil)

func walkArraySlice(pack, el, ln, val, walkFunc) (err)
  requires pack != nil && el != nil && walkFunc != nil && 0 <= ln && failed(trace(walkFunc)) == nil
  opaque
  modifies trace(walkFunc), packgets(pack), packkey(pack), packgot(pack)
  ensures visits: imp(err == nil, trace(walkFunc) == welems(el, bytes(val), ln, old(trace(walkFunc))))
  ensures stops: walks(walkFunc, err)
  ensures walked: imp(ln == 0, err == nil)
  inv 0 <= _n && _n <= len(val)
  inv _n == elemsum(el, bytes(val), 0, _i)
  inv trace(walkFunc) == welems(el, bytes(val), _i, old(trace(walkFunc)))
  inv failed(trace(walkFunc)) == nil

func walkStruct(pack, sch, val, walkFunc) (err)
  requires pack != nil && sch != nil && walkFunc != nil && failed(trace(walkFunc)) == nil
  opaque
  modifies trace(walkFunc), packgets(pack), packkey(pack), packgot(pack)
  ensures visits: imp(err == nil, trace(walkFunc) == wfields(fieldsof(sch), bytes(val), nfields(sch), old(trace(walkFunc))))
  ensures stops: walks(walkFunc, err)
  inv 0 <= _n && _n <= len(val)
  inv _n == fieldsum(fieldsof(sch), bytes(val), 0, _i)
  inv _n == fieldsum(fieldsof(sch), bytes(val), 0, _i + 1)
  inv trace(walkFunc) == wfields(fieldsof(sch), bytes(val), _i, old(trace(walkFunc)))
  inv trace(walkFunc) == wfields(fieldsof(sch), bytes(val), _i + 1, old(trace(walkFunc)))
  inv failed(trace(walkFunc)) == nil

func (*Ref).walk(r, pack, sch, walkFunc) (err)
  requires r != nil && pack != nil && sch != nil && walkFunc != nil && failed(trace(walkFunc)) == nil
  opaque
  modifies trace(walkFunc), packgets(pack), packkey(pack), packgot(pack)
  ensures visits: imp(err == nil, trace(walkFunc) == wref(sch, r.Hash, old(trace(walkFunc))))
  ensures stops: walks(walkFunc, err)

func (*Dynamic).walk(d, pack, walkFunc) (err)
  requires d != nil && pack != nil && walkFunc != nil && failed(trace(walkFunc)) == nil
  opaque
  modifies trace(walkFunc), packgets(pack), packkey(pack), packgot(pack)
  ensures visits: imp(err == nil, trace(walkFunc) == wref(schemaby(d.Schema), d.Hash, old(trace(walkFunc))))
  ensures stops: walks(walkFunc, err)
  ensures invalid: imp(invalid(d), err == ErrInvalidDynamicReference && trace(walkFunc) == old(trace(walkFunc)))

func (*Refs).walk(r, pack, sch, walkFunc) (err)
  trusted
  opaque
  modifies *r, trace(walkFunc), packgets(pack), packkey(pack), packgot(pack)
  ensures imp(err == nil, trace(walkFunc) == wrefs(sch, old(r.Hash), old(trace(walkFunc))))
  ensures walks(walkFunc, err)

func (*Ref).Walk(r, pack, sch, walkFunc) (err)
  requires r != nil && pack != nil && sch != nil && walkFunc != nil && failed(trace(walkFunc)) == nil
  ensures visits: walked(walkFunc, err, wref(sch, r.Hash, old(trace(walkFunc))))

func (*Dynamic).Walk(d, pack, walkFunc) (err)
  requires d != nil && pack != nil && walkFunc != nil && failed(trace(walkFunc)) == nil
  ensures visits: walked(walkFunc, err, wref(schemaby(d.Schema), d.Hash, old(trace(walkFunc))))
  ensures invalid: imp(invalid(d), err == ErrInvalidDynamicReference && trace(walkFunc) == old(trace(walkFunc)))

func (*Refs).Walk(r, pack, sch, walkFunc) (err)
  requires r != nil && pack != nil && sch != nil && walkFunc != nil && failed(trace(walkFunc)) == nil
  ensures visits: walked(walkFunc, err, wrefs(sch, old(r.Hash), old(trace(walkFunc))))

// the history after the first references of a root
smtfun wroot (Int Int) Int

func (*Root).Walk(r, pack, walkFunc) (err)
  requires r != nil && pack != nil && walkFunc != nil && failed(trace(walkFunc)) == nil
  requires wroot(r, 0) == trace(walkFunc)
  requires forall(i, int, imp(0 <= i && i < len(r.Refs), wroot(r, i + 1) == wref(schemaby(r.Refs[i].Schema), r.Refs[i].Hash, wroot(r, i))))
  ensures visits: walked(walkFunc, err, wroot(r, len(r.Refs)))
  inv trace(walkFunc) == wroot(r, _i)
  inv trace(walkFunc) == wroot(r, _i + 1)
  inv failed(trace(walkFunc)) == nil
