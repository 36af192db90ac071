package skyobject/statutil
prop C22

define trimmed(x) = strings.TrimRight(strings.TrimRight(fmt.Sprintf("%.2f", list(x)), "0"), ".")
define shown(s, v, lo, hi, unit, suffix) = imp(lo <= v && v < hi, s == trimmed(real(v) / unit) + suffix)

func (Volume).String(v) (s)
  modifies nothing
  ensures bytes: shown(s, v, 0, 1024, 1.0, "B")
  ensures kilo: shown(s, v, 1024, 1048576, 1024.0, "kB")
  ensures mega: shown(s, v, 1048576, 1073741824, 1048576.0, "MB")
  ensures giga: shown(s, v, 1073741824, 4294967296, 1073741824.0, "GB")
  inv (_i == 0 && _f == real(v)) || (_i == 1 && _f * 1024.0 == real(v)) || (_i == 2 && _f * 1048576.0 == real(v)) || (_i == 3 && _f * 1073741824.0 == real(v))
  inv (_i + 1 == 0 && _f == real(v)) || (_i + 1 == 1 && _f * 1024.0 == real(v)) || (_i + 1 == 2 && _f * 1048576.0 == real(v)) || (_i + 1 == 3 && _f * 1073741824.0 == real(v)) || (_i + 1 == 4 && _f * 1099511627776.0 == real(v))
  inv imp(_i > 0, _f >= 1.0)
  inv imp(_i + 1 > 0, _f >= 1.0)

func (Amount).String(a) (s)
  modifies nothing
  ensures ones: shown(s, a, 0, 1000, 1.0, "")
  ensures kilo: shown(s, a, 1000, 1000000, 1000.0, "k")
  ensures mega: shown(s, a, 1000000, 1000000000, 1000000.0, "M")
  ensures giga: shown(s, a, 1000000000, 4294967296, 1000000000.0, "G")
  inv (_i == 0 && _f == real(a)) || (_i == 1 && _f * 1000.0 == real(a)) || (_i == 2 && _f * 1000000.0 == real(a)) || (_i == 3 && _f * 1000000000.0 == real(a))
  inv (_i + 1 == 0 && _f == real(a)) || (_i + 1 == 1 && _f * 1000.0 == real(a)) || (_i + 1 == 2 && _f * 1000000.0 == real(a)) || (_i + 1 == 3 && _f * 1000000000.0 == real(a)) || (_i + 1 == 4 && _f * 1000000000000.0 == real(a))
  inv imp(_i > 0, _f >= 1.0)
  inv imp(_i + 1 > 0, _f >= 1.0)
