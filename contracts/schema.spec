package skyobject/registry
prop C06

// the size that a schema computes for the data, and whether it does; the
// schema of a field
smtfun szof (Iface BS) Int
smtfun szok (Iface BS) Bool
smtfun fschema (Iface) Iface
smtfun kindof (Iface) Int
smtfun elemof (Iface) Iface
smtfun tail (BS Int) BS
axiom tail: (forall ((b BS) (n Int)) (! (= (tail b n) (mk-bs (- (bs-len b) n) (shift.Int (bs-data b) n (- (bs-len b) n)))) :pattern ((tail b n))))

// the size of the fields from one index up to another, each where the last ends
smtfun fieldsum ((Array Int Iface) BS Int Int) Int
axiom fieldsum: (forall ((a (Array Int Iface)) (b BS) (o Int)) (! (= (fieldsum a b o o) 0) :pattern ((fieldsum a b o o))))
axiom fieldsum: (forall ((a (Array Int Iface)) (b BS) (o Int) (i Int)) (! (=> (<= o i) (= (fieldsum a b o (+ i 1)) (+ (fieldsum a b o i) (szof (fschema (select a i)) (tail b (fieldsum a b o i)))))) :pattern ((fieldsum a b o i) (select a i))))

// the size of the first elements, that begin at the shift
smtfun elemsum (Iface BS Int Int) Int
axiom elemsum: (forall ((e Iface) (b BS) (s Int)) (! (= (elemsum e b s 0) s) :pattern ((elemsum e b s 0))))
axiom elemsum: (forall ((e Iface) (b BS) (s Int) (i Int)) (! (=> (<= 0 i) (= (elemsum e b s (+ i 1)) (+ (elemsum e b s i) (szof e (tail b (elemsum e b s i)))))) :pattern ((elemsum e b s i) (tail b (elemsum e b s i)))))
// after an element of no size, there are only elements of no size (by
// induction: each is looked at in the same place)
axiom elemsum: (forall ((e Iface) (b BS) (s Int) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (= 0 (szof e (tail b (elemsum e b s i))))) (= (elemsum e b s j) (elemsum e b s i))) :pattern ((elemsum e b s i) (elemsum e b s j))))

iface Schema.Size(s, p) (n, err)
  modifies nothing
  ensures iff(err == nil, szok(s, bytes(p)))
  ensures err != ErrStopIteration
  ensures imp(err == nil, n == szof(s, bytes(p)) && 0 <= n && n <= len(p))

iface Schema.Kind(s) (k)
  modifies nothing
  ensures k == kindof(s)

iface Field.Schema(f) (s)
  modifies nothing
  ensures s == fschema(f) && s != nil

define size1(k) = k == reflect.Bool || k == reflect.Int8 || k == reflect.Uint8
define size2(k) = k == reflect.Int16 || k == reflect.Uint16
define size4(k) = k == reflect.Int32 || k == reflect.Uint32 || k == reflect.Float32
define size8(k) = k == reflect.Int64 || k == reflect.Uint64 || k == reflect.Float64
define basic(k) = size1(k) || size2(k) || size4(k) || size8(k)
define sizeOfKind(k) = ite(size1(k), 1, ite(size2(k), 2, ite(size4(k), 4, 8)))

func fixedSize(kind) (n)
  modifies nothing
  ensures fixed: n == ite(basic(kind), sizeOfKind(kind), 0 - 1)

func getLength(p) (l, err)
  modifies nothing
  ensures length: iff(err == nil, 4 <= len(p)) && imp(err == nil, l == desf(uint32, bytes(p)) && 0 <= l && l < 4294967296)

func (*schema).Size(s, p) (n, err)
  requires s != nil
  modifies nothing
  ensures bounds: imp(err == nil, 0 <= n && n <= len(p))
  ensures basic: imp(basic(s.kind), iff(err == nil, sizeOfKind(s.kind) <= len(p)) && imp(err == nil, n == sizeOfKind(s.kind)))
  ensures string: imp(s.kind == reflect.String, iff(err == nil, 4 <= len(p) && 4 + desf(uint32, bytes(p)) <= len(p)) && imp(err == nil, n == 4 + desf(uint32, bytes(p))))
  ensures other: imp(!basic(s.kind) && s.kind != reflect.String, err != nil)

func (*referenceSchema).Size(r, p) (n, err)
  requires r != nil
  requires 0 <= refSize && 0 <= refsSize && 0 <= dynamicSize
  modifies nothing
  ensures bounds: imp(err == nil, 0 <= n && n <= len(p))
  ensures single: imp(r.typ == ReferenceTypeSingle, iff(err == nil, refSize <= len(p)) && imp(err == nil, n == refSize))
  ensures array: imp(r.typ == ReferenceTypeSlice, iff(err == nil, refsSize <= len(p)) && imp(err == nil, n == refsSize))
  ensures dynamic: imp(r.typ == ReferenceTypeDynamic, iff(err == nil, dynamicSize <= len(p)) && imp(err == nil, n == dynamicSize))
  ensures other: imp(r.typ < ReferenceTypeSingle || r.typ > ReferenceTypeDynamic, err != nil)

func schemaArraySliceSize(el, l, shift, p) (n, err)
  requires el != nil && 0 <= shift && shift <= 4 && shift <= len(p) && 0 <= l && l < 4294967296
  modifies nothing
  ensures fixed: imp(basic(kindof(el)), err == nil && n == shift + l * sizeOfKind(kindof(el)))
  ensures variable: imp(!basic(kindof(el)) && err == nil, shift <= n && n <= len(p) && n == elemsum(el, bytes(p), shift, l))
  inv shift <= _n && _n <= len(p)
  inv _n == elemsum(el, bytes(p), shift, _i)
  inv _n == elemsum(el, bytes(p), shift, _i + 1)

func (*sliceSchema).Size(s, p) (n, err)
  requires s != nil && s.elem != nil
  modifies nothing
  ensures bounds: imp(err == nil, 0 <= n && n <= len(p))
  ensures short: imp(len(p) < 4, err != nil)
  ensures fixed: imp(basic(kindof(s.elem)) && 4 <= len(p), iff(err == nil, 4 + desf(uint32, bytes(p)) * sizeOfKind(kindof(s.elem)) <= len(p)) && imp(err == nil, n == 4 + desf(uint32, bytes(p)) * sizeOfKind(kindof(s.elem))))
  ensures variable: imp(!basic(kindof(s.elem)) && err == nil, n == elemsum(s.elem, bytes(p), 4, desf(uint32, bytes(p))))
  inv 4 <= _n && _n <= len(p)
  inv _n == elemsum(s.elem, bytes(p), 4, _i)

func (*arraySchema).Size(a, p) (n, err)
  requires a != nil && a.elem != nil && 0 <= a.length && a.length < 4294967296
  modifies nothing
  ensures bounds: imp(err == nil, 0 <= n && n <= len(p))
  ensures fixed: imp(basic(kindof(a.elem)), iff(err == nil, a.length * sizeOfKind(kindof(a.elem)) <= len(p)) && imp(err == nil, n == a.length * sizeOfKind(kindof(a.elem))))
  ensures variable: imp(!basic(kindof(a.elem)) && err == nil, n == elemsum(a.elem, bytes(p), 0, a.length))
  inv _n == elemsum(a.elem, bytes(p), 0, _i)

func (*structSchema).Size(s, p) (n, err)
  requires s != nil
  requires forall(i, int, imp(0 <= i && i < len(s.fields), s.fields[i] != nil))
  modifies nothing
  ensures bounds: imp(err == nil, 0 <= n && n <= len(p))
  ensures sum: imp(err == nil, n == fieldsum(elems(s.fields), bytes(p), off(s.fields), off(s.fields) + len(s.fields)))
  inv _n == fieldsum(elems(s.fields), bytes(p), off(s.fields), off(s.fields) + _i)
  inv _n == fieldsum(elems(s.fields), bytes(p), off(s.fields), off(s.fields) + _i + 1)
