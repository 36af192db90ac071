package data
prop C05

func (*Root).Validate(r) (err)
  requires r != nil
  modifies nothing
  ensures accepts: imp(err == nil, r.Hash != cipher.SHA256{} && r.Sig != cipher.Sig{} && r.Time != 0 && iff(r.Seq == 0, r.Prev == cipher.SHA256{}))
  ensures rejects: imp(r.Hash != cipher.SHA256{} && r.Sig != cipher.Sig{} && r.Time != 0 && iff(r.Seq == 0, r.Prev == cipher.SHA256{}), err == nil)

func (*Root).Encode(r) (p)
  requires r != nil
  modifies nothing
  ensures contents: bytes(p) == ser(r)
  ensures length: len(p) == 161
  lemma decodes: desok(Root, bytes(p)) && desn(Root, bytes(p)) == len(p)
  ensures record: desf(Root, bytes(p), Create) == r.Create && desf(Root, bytes(p), Time) == r.Time && desf(Root, bytes(p), Seq) == r.Seq && desf(Root, bytes(p), Prev) == r.Prev && desf(Root, bytes(p), Hash) == r.Hash && desf(Root, bytes(p), Sig) == r.Sig && desf(Root, bytes(p), Access) == r.Access

func (*Root).Decode(r, p) (err)
  requires r != nil
  ensures accepted: iff(err == nil, desok(Root, bytes(p)))
  ensures truncated: imp(err == nil, len(p) >= 161)
  ensures record: imp(err == nil, r.Create == desf(Root, bytes(p), Create) && r.Access == desf(Root, bytes(p), Access) && r.Time == desf(Root, bytes(p), Time) && r.Seq == desf(Root, bytes(p), Seq) && r.Prev == desf(Root, bytes(p), Prev) && r.Hash == desf(Root, bytes(p), Hash) && r.Sig == desf(Root, bytes(p), Sig))
