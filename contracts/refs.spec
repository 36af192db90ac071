package reflect
prop C08

smtfun refkind (Iface) Int
smtfun refnil (Iface) Bool
smtfun refof (Int) Iface

func ValueOf(i) (v)
  trusted
  modifies nothing
  ensures refof(v) == i

func (Value).Kind(v) (k)
  trusted
  modifies nothing
  ensures k == refkind(refof(v))

func (Value).IsNil(v) (b)
  trusted
  modifies nothing
  ensures iff(b, refnil(refof(v)))

package skyobject/registry
prop C08

// What is asked of a Pack: how many values were taken and added, the last
// key asked for and the last value added
ghost serialized : BS
ghost decodedfrom : BS
ghost packgets : Int
ghost packkey : (Array Int Int)
ghost packgot : BS
ghost packadds : Int
ghost packval : BS

// the value that packs have for a hash
smtfun stored ((Array Int Int)) BS

iface Pack.Get(p, key) (val, err)
  modifies packgets(p), packkey(p), packgot(p)
  ensures packgets(p) == old(packgets(p)) + 1
  ensures packkey(p) == key
  ensures packgot(p) == bytes(val)
  ensures imp(err == nil, bytes(val) == stored(key))
  ensures err != ErrStopIteration

iface Pack.Add(p, val) (key, err)
  modifies packadds(p), packval(p)
  ensures packadds(p) == old(packadds(p)) + 1
  ensures packval(p) == bytes(val)
  ensures imp(err == nil, key == sha(bytes(val)))

define nolookup(p) = packgets(p) == old(packgets(p))
define lookup(p, hash) = packgets(p) == old(packgets(p)) + 1 && packkey(p) == hash
define noadd(p) = packadds(p) == old(packadds(p))

// nothing, or a nil pointer of some type
define nothing(o) = o == nil || (refkind(o) == reflect.Ptr && refnil(o))

func isNil(obj) (b)
  modifies nothing
  ensures nil: iff(b, nothing(obj))

func (*Ref).IsBlank(r) (b)
  requires r != nil
  modifies nothing
  ensures blank: iff(b, r.Hash == cipher.SHA256{})

func (*Ref).Clear(r) ()
  requires r != nil
  modifies r.Hash
  ensures blank: r.Hash == cipher.SHA256{}

func (*Ref).Value(r, pack, obj) (err)
  requires r != nil && pack != nil && obj != nil
  ensures blank: imp(r.Hash == cipher.SHA256{}, err == ErrReferenceRepresentsNil && nolookup(pack))
  ensures lookup: imp(r.Hash != cipher.SHA256{}, lookup(pack, r.Hash))
  ensures value: imp(err == nil, decodedfrom(obj) == packgot(pack))
  ensures kept: r.Hash == old(r.Hash) && noadd(pack)

func (*Ref).SetValue(r, pack, obj) (err)
  requires r != nil && pack != nil
  modifies r.Hash, packadds(pack), packval(pack), serialized(obj)
  ensures cleared: imp(nothing(obj), err == nil && r.Hash == cipher.SHA256{} && noadd(pack))
  ensures stored: imp(!noadd(pack), packadds(pack) == old(packadds(pack)) + 1 && packval(pack) == serialized(obj))
  ensures set: imp(err == nil && !noadd(pack), r.Hash == sha(serialized(obj)))
  ensures failed: imp(err != nil, r.Hash == old(r.Hash))
  ensures otherwise: imp(noadd(pack), nothing(obj) && r.Hash == cipher.SHA256{})

func (SchemaRef).IsBlank(s) (b)
  modifies nothing
  ensures blank: iff(b, s == SchemaRef{})

define invalid(d) = d.Hash != cipher.SHA256{} && d.Schema == SchemaRef{}

func (*Dynamic).IsValid(d) (b)
  requires d != nil
  modifies nothing
  ensures valid: iff(b, !invalid(d))

func (*Dynamic).IsBlank(d) (b)
  requires d != nil
  modifies nothing
  ensures blank: iff(b, d.Hash == cipher.SHA256{} && d.Schema == SchemaRef{})

func (*Dynamic).Clear(d) ()
  requires d != nil
  modifies d.Hash, d.Schema
  ensures blank: d.Hash == cipher.SHA256{} && d.Schema == SchemaRef{}

func (*Dynamic).Value(d, pack, obj) (err)
  requires d != nil && pack != nil && obj != nil
  ensures blank: imp(d.Hash == cipher.SHA256{}, err == ErrReferenceRepresentsNil && nolookup(pack))
  ensures invalid: imp(invalid(d), err == ErrInvalidDynamicReference && nolookup(pack))
  ensures lookup: imp(d.Hash != cipher.SHA256{} && !invalid(d), lookup(pack, d.Hash))
  ensures value: imp(err == nil, decodedfrom(obj) == packgot(pack))
  ensures kept: d.Hash == old(d.Hash) && d.Schema == old(d.Schema) && noadd(pack)

func (*Dynamic).SetValue(d, pack, obj) (err)
  requires d != nil && pack != nil
  modifies d.Hash, d.Schema, packadds(pack), packval(pack), serialized(obj)
  ensures cleared: imp(nothing(obj), err == nil && d.Hash == cipher.SHA256{} && d.Schema == SchemaRef{} && noadd(pack))
  ensures stored: imp(!noadd(pack), packadds(pack) == old(packadds(pack)) + 1 && packval(pack) == serialized(obj))
  ensures set: imp(err == nil && !noadd(pack), d.Hash == sha(serialized(obj)))
  ensures failed: imp(err != nil, d.Hash == old(d.Hash))
  ensures schema: imp(!nothing(obj), d.Schema == old(d.Schema))
  ensures otherwise: imp(noadd(pack), nothing(obj))
