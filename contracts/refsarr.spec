package skyobject/registry
prop C11

func (Degree).Validate(d) (err)
  modifies nothing
  ensures refused: imp(d < 2 || d > 1024, err == ErrInvalidDegree)
  ensures accepted: imp(d >= 2 && d <= 1024, err == nil)

func validateIndex(i, length) (err)
  modifies nothing
  ensures refused: imp(i < 0 || i >= length, err == ErrIndexOutOfRange)
  ensures accepted: imp(i >= 0 && i < length, err == nil)

func validateSliceIndices(i, j, length) (err)
  requires length >= 0
  modifies nothing
  ensures range: imp(i < 0 || j < 0 || i > length || j > length, err == ErrIndexOutOfRange)
  ensures reversed: imp(0 <= i && 0 <= j && i <= length && j <= length && i > j, err == ErrInvalidSliceIndex)
  ensures accepted: imp(0 <= i && i <= j && j <= length, err == nil)

// what these do is C10; here they may do anything, so that a refusal has to
// come before
func (*Refs).elementByIndex(r, pack, rn, i, depth) (el, err)
  trusted
  modifies everything
  ensures imp(err == nil, el != nil)

func (*Refs).setElementHash(r, pack, el, hash) (err)
  trusted
  modifies everything

func (*Refs).deleteElementByIndex(r, pack, rn, i, depth) (err)
  trusted
  modifies everything

func (*Refs).updateHashIfNeed(r, pack, need) (err)
  trusted
  modifies everything

func (*Refs).rewindIterators(r) ()
  trusted
  modifies everything

func (*Refs).startIteration(r) ()
  trusted
  modifies everything
  ensures r.refsNode != nil && r.refsNode.mods != 0

func (*Refs).stopIteration(r) ()
  trusted
  modifies everything
  ensures r.refsNode != nil && r.refsNode.mods != 0

func (*Refs).ascendNode(r, pack, rn, depth, shift, i, ascendFunc) (pass, rewind, err)
  trusted
  modifies everything
  ensures r.refsNode != nil && r.refsNode.mods != 0

func (*Refs).descendNode(r, pack, rn, depth, shift, i, descendFunc) (pass, rewind, err)
  trusted
  modifies everything
  ensures r.refsNode != nil && r.refsNode.mods != 0

func (*Refs).walkUpdatingSlice(r, pack) (err)
  trusted
  modifies everything

func (*Refs).appnedCreatingSliceFunc(r, j) (iter)
  opaque
  requires r != nil && r.refsNode != nil
  modifies nothing
  ensures func: iter != nil

func (*Refs).Append(r, pack, refs) (err)
  trusted
  modifies everything

func pow(a, b) (p)
  opaque
  modifies nothing

func depthToFit(degree, start, fit) (depth)
  opaque
  requires degree >= 2 && start >= 0
  modifies nothing

func newRefs(degree, flags, fit) (nr)
  opaque
  requires degree >= 2
  modifies nothing
  ensures new: nr != nil && fresh(nr) && nr.refsNode != nil && fresh(nr.refsNode) && nr.refsNode.mods == 1
  ensures empty: nr.refsNode.length == 0 && len(nr.refsNode.leafs) == 0 && len(nr.refsNode.branches) == 0 && nr.Hash == cipher.SHA256{}
  ensures like: nr.degree == degree && nr.flags == flags

define loaded(r) = r != nil && r.refsNode != nil && r.refsNode.mods != 0
define unchanged(r) = r.Hash == old(r.Hash) && r.refsNode == old(r.refsNode) && r.refsNode.length == old(r.refsNode.length) && r.depth == old(r.depth) && r.degree == old(r.degree) && r.flags == old(r.flags) && r.refsNode.mods == old(r.refsNode.mods) && r.refsNode.leafs == old(r.refsNode.leafs) && r.refsNode.branches == old(r.refsNode.branches) && seq(r.refsNode.leafs) == old(seq(r.refsNode.leafs)) && seq(r.refsNode.branches) == old(seq(r.refsNode.branches)) && len(r.iterators) == old(len(r.iterators))
define out(i, r) = i < 0 || i >= old(r.refsNode.length)
define refuses(r, err) = err == ErrIndexOutOfRange && unchanged(r)

func (*Refs).HashByIndex(r, pack, i) (hash, err)
  requires loaded(r)
  ensures refused: imp(out(i, r), refuses(r, err))

func (*Refs).ValueByIndex(r, pack, i, obj) (hash, err)
  requires loaded(r) && pack != nil
  ensures refused: imp(out(i, r), refuses(r, err))

func (*Refs).SetHashByIndex(r, pack, i, hash) (err)
  requires loaded(r)
  ensures refused: imp(out(i, r), refuses(r, err))

func (*Refs).DeleteByIndex(r, pack, i) (err)
  requires loaded(r)
  ensures refused: imp(out(i, r), refuses(r, err))

func (*Refs).AscendFrom(r, pack, from, ascendFunc) (err)
  requires loaded(r)
  ensures refused: imp(out(from, r) && !(from == 0 && old(r.refsNode.length) == 0), refuses(r, err))

func (*Refs).DescendFrom(r, pack, from, descendFunc) (err)
  requires loaded(r)
  ensures refused: imp(out(from, r), refuses(r, err))

func (*Refs).SetValueByIndex(r, pack, i, obj) (err)
  requires loaded(r) && pack != nil
  ensures refused: imp(out(i, r), err != nil && unchanged(r))
  ensures which: imp(out(i, r) && nothing(obj), err == ErrIndexOutOfRange)

func (*Refs).Slice(r, pack, i, j) (slice, err)
  requires loaded(r) && r.refsNode.length >= 0 && r.degree >= 2
  ensures range: imp(i < 0 || j < 0 || i > old(r.refsNode.length) || j > old(r.refsNode.length), refuses(r, err) && slice == nil)
  ensures reversed: imp(0 <= i && 0 <= j && i <= old(r.refsNode.length) && j <= old(r.refsNode.length) && i > j, err == ErrInvalidSliceIndex && unchanged(r) && slice == nil)

func (*Refs).SetDegree(r, pack, degree) (err)
  requires loaded(r)
  ensures refused: imp(degree < 2 || degree > 1024, err == ErrInvalidDegree && unchanged(r))
