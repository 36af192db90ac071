package skyobject/registry
prop C12

define rootok(b) = desok(Root, b) && desn(Root, b) == bslen(b)

func (*Root).Encode(r) (b)
  requires r != nil
  modifies nothing
  ensures encoding: bytes(b) == serof(Root, r.Refs, r.Descriptor, r.Reg, r.Pub, r.Nonce, r.Seq, r.Time, r.Prev)

func DecodeRoot(val) (r, err)
  modifies nothing
  ensures accepted: iff(err == nil, rootok(bytes(val)))
  ensures result: iff(err == nil, r != nil)
  ensures refs: imp(err == nil, seq(r.Refs) == desf(Root, bytes(val), Refs))
  ensures descriptor: imp(err == nil, bytes(r.Descriptor) == desf(Root, bytes(val), Descriptor))
  ensures registry: imp(err == nil, r.Reg == desf(Root, bytes(val), Reg))
  ensures feed: imp(err == nil, r.Pub == desf(Root, bytes(val), Pub) && r.Nonce == desf(Root, bytes(val), Nonce))
  ensures place: imp(err == nil, r.Seq == desf(Root, bytes(val), Seq) && r.Prev == desf(Root, bytes(val), Prev))
  ensures time: imp(err == nil, r.Time == desf(Root, bytes(val), Time))
  ensures blank: imp(err == nil, r.IsFull == false && forall(i, int, imp(0 <= i && i < 32, r.Hash[i] == 0)) && forall(i, int, imp(0 <= i && i < 65, r.Sig[i] == 0)))

func (*Root).Short(r) (s)
  requires r != nil
  modifies nothing
  ensures text: s == fmt.Sprintf("%s/%s/%d", list(hex(r.Pub)[:7], ite(len(strconv.FormatUint(r.Nonce, 10)) > 4, strconv.FormatUint(r.Nonce, 10)[:4], strconv.FormatUint(r.Nonce, 10)), r.Seq))

func (*Root).String(r) (s)
  requires r != nil
  modifies nothing
  ensures text: s == fmt.Sprintf("%s/%d/%d:%s", list(hex(r.Pub)[:7], r.Nonce, r.Seq, hex(r.Hash)[:7]))
