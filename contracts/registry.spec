package skyobject/registry
prop C07

func (registryEntities).Len(r) (n)
  modifies nothing
  ensures length: n == len(r)

func (registryEntities).Less(r, i, j) (b)
  requires 0 <= i && i < len(r) && 0 <= j && j < len(r)
  modifies nothing
  ensures order: iff(b, r[i].Name < r[j].Name)

func (registryEntities).Swap(r, i, j) ()
  requires 0 <= i && i < len(r) && 0 <= j && j < len(r)
  modifies r[*]
  ensures swapped: r[i] == old(r[j]) && r[j] == old(r[i])
  ensures others: forall(k, int, imp(0 <= k && k < len(r) && k != i && k != j, r[k] == old(r[k])))

func (*schema).IsRegistered(s) (b)
  requires s != nil
  modifies nothing
  ensures registered: iff(b, s.kind == reflect.Struct && len(s.name) > 0)

func (*schema).encodedSchema(s) (x)
  requires s != nil
  modifies nothing
  ensures fields: imp(s.kind < 4294967296, x.Kind == s.kind) && x.Name == s.name && x.ReferenceType == 0 && x.Len == 0 && x.Fields == nil && x.Elem == nil

// what the bytes say, over the model of the serializer
define esRT(b) = desf(encodedSchema, bytes(b), ReferenceType)
define esKind(b) = desf(encodedSchema, bytes(b), Kind)
define esArray(b) = esRT(b) == 0 && esKind(b) == reflect.Array
define esSlice(b) = esRT(b) == 0 && esKind(b) == reflect.Slice
define esStruct(b) = esRT(b) == 0 && esKind(b) == reflect.Struct
define esBasic(b) = esRT(b) == 0 && esKind(b) != reflect.Array && esKind(b) != reflect.Slice && esKind(b) != reflect.Struct

func decodeSchema(b) (s, err)
  opaque
  modifies nothing
  ensures given: imp(err == nil, s != nil)
  ensures read: imp(err == nil, desok(encodedSchema, bytes(b)) && esRT(b) <= 3)
  ensures reference: imp(err == nil && esRT(b) != 0, is(s, *referenceSchema) && unboxed(s, *referenceSchema).typ == esRT(b) && unboxed(s, *referenceSchema).kind == esKind(b) && iff(unboxed(s, *referenceSchema).elem != nil, esRT(b) != 3))
  ensures array: imp(err == nil && esArray(b), is(s, *arraySchema) && unboxed(s, *arraySchema).kind == reflect.Array && unboxed(s, *arraySchema).length == desf(encodedSchema, bytes(b), Len) && unboxed(s, *arraySchema).elem != nil)
  ensures arrayName: imp(err == nil && esArray(b), bytes(unboxed(s, *arraySchema).name) == desf(encodedSchema, bytes(b), Name))
  ensures slice: imp(err == nil && esSlice(b), is(s, *sliceSchema) && unboxed(s, *sliceSchema).kind == reflect.Slice && unboxed(s, *sliceSchema).elem != nil)
  ensures sliceName: imp(err == nil && esSlice(b), bytes(unboxed(s, *sliceSchema).name) == desf(encodedSchema, bytes(b), Name))
  ensures struct: imp(err == nil && esStruct(b), is(s, *structSchema) && unboxed(s, *structSchema).kind == reflect.Struct)
  ensures structName: imp(err == nil && esStruct(b), bytes(unboxed(s, *structSchema).name) == desf(encodedSchema, bytes(b), Name))
  ensures basic: imp(err == nil && esBasic(b), is(s, *schema) && unboxed(s, *schema).kind == esKind(b) && bytes(unboxed(s, *schema).name) == desf(encodedSchema, bytes(b), Name))

func decodeField(b) (f, err)
  opaque
  modifies nothing
  ensures given: imp(err == nil, is(f, *field))
  ensures read: imp(err == nil, desok(encodedField, bytes(b)))
  ensures named: imp(err == nil, bytes(unboxed(f, *field).name) == desf(encodedField, bytes(b), Name) && bytes(unboxed(f, *field).tag) == desf(encodedField, bytes(b), Tag) && unboxed(f, *field).schema != nil)

func (*arraySchema).encodedSchema(a) (x)
  requires a != nil && a.elem != nil
  ensures length: imp(0 <= a.length && a.length < 4294967296, x.Len == a.length)
  ensures fields: imp(a.kind < 4294967296, x.Kind == a.kind) && x.Name == old(a.name) && x.ReferenceType == 0

func (*sliceSchema).encodedSchema(a) (x)
  requires a != nil && a.elem != nil
  ensures fields: imp(a.kind < 4294967296, x.Kind == a.kind) && x.Name == old(a.name) && x.ReferenceType == 0 && x.Len == 0

iface Field.Encode(f) (b)
  modifies nothing

func (*structSchema).encodedSchema(a) (x)
  requires a != nil && forall(i, int, imp(0 <= i && i < len(a.fields), a.fields[i] != nil))
  ensures fields: imp(a.kind < 4294967296, x.Kind == a.kind) && x.Name == old(a.name) && x.ReferenceType == 0 && x.Len == 0
  ensures count: len(x.Fields) == old(len(a.fields))
  inv len(_P.Fields) == _i
  inv len(_P.Fields) == _i + 1

func (*referenceSchema).encodedSchema(a) (x)
  requires a != nil && imp(a.typ != ReferenceTypeDynamic, a.elem != nil)
  ensures fields: imp(a.kind < 4294967296, x.Kind == a.kind) && imp(0 <= a.typ && a.typ < 4294967296, x.ReferenceType == a.typ) && x.Len == 0 && len(x.Fields) == 0 && iff(x.Elem != nil, a.typ != ReferenceTypeDynamic)

func (*field).encodedField(f) (x)
  requires f != nil && f.schema != nil
  ensures fields: x.Name == old(f.name) && x.Tag == old(f.tag)

smtfun isreg (Iface) Bool
smtfun nameof (Iface) Str
smtfun rawnameof (Iface) BS
iface Schema.RawName(s) (n)
  modifies nothing
  ensures bytes(n) == rawnameof(s)

iface Schema.Encode(s) (b)
  modifies nothing

smtfun sref (Iface) (Array Int Int)

iface Schema.IsRegistered(s) (b)
  modifies nothing
  ensures iff(b, isreg(s))

iface Schema.Name(s) (n)
  modifies nothing
  ensures n == nameof(s)

iface Schema.Reference(s) (r)
  modifies nothing

func (*Registry).fillSchema(r, s, filled) (err)
  opaque
  trusted
  modifies everything
  ensures kept: r.reg == old(r.reg) && r.srf == old(r.srf) && vals(r.reg) == old(vals(r.reg)) && dom(r.reg) == old(dom(r.reg))

func checkRecursion(s, checked) (err)
  opaque
  trusted
  modifies nothing

func DecodeRegistry(b) (r, err)
  ensures given: imp(err == nil, r != nil)
  ensures refused: imp(err != nil, r == nil)
  ensures reference: imp(err == nil, r.ref == sha(encodedreg(r)))
  inv forall(n, string, imp(has(_P.reg, n), _P.reg[n] != nil))

// what the registry is encoded to
ghost encodedreg : BS

func (*Registry).Encode(r) (b)
  opaque
  trusted
  modifies encodedreg(r)
  ensures encodedreg(r) == bytes(b)

func (*Registry).finialize(r) (err)
  requires r != nil && r.reg != nil && r.srf != nil
  requires forall(n, string, imp(has(r.reg, n), r.reg[n] != nil))
  inv r.reg == old(r.reg) && r.srf == old(r.srf) && vals(r.reg) == old(vals(r.reg)) && dom(r.reg) == old(dom(r.reg))
  opaque
  modifies everything
  ensures reference: imp(err == nil, r.ref == sha(encodedreg(r)))
  
func (*Registry).Reference(r) (ref)
  requires r != nil
  modifies nothing
  ensures reference: ref == r.ref

func (*Registry).SchemaByReference(r, sr) (s, err)
  requires r != nil
  ensures found: imp(has(r.srf, sr), err == nil && s == r.srf[sr])
  ensures missing: imp(!has(r.srf, sr), err != nil)

func (*Registry).SchemaByName(r, name) (s, err)
  requires r != nil
  ensures found: imp(has(r.reg, name), err == nil && s == r.reg[name])
  ensures missing: imp(!has(r.reg, name), err != nil)
