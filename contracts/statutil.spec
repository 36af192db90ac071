package skyobject/statutil
prop C21

smtfun rsum ((Array Int Real) Int) Real
axiom rsum: (forall ((a (Array Int Real)) (n Int) (i Int) (v Real)) (! (=> (and (<= 0 i) (< i n)) (= (rsum (store a i v) n) (+ (- (rsum a n) (select a i)) v))) :pattern ((rsum (store a i v) n))))
axiom rsum: (forall ((n Int)) (= (rsum ((as const (Array Int Real)) 0.0) n) 0.0))

// the sum of the samples kept, and how many there are
define window(bins, average, i, c, n) = and(n > 0, len(bins) == n, off(bins) == 0, 0 <= i && i < n, 0 <= c && c <= n, imp(c < n, i == c),
   forall(k, int, imp(c <= k && k < n, bins[k] == 0.0)),
   average * real(c) == rsum(elems(bins), n))

func NewDuration(n) (d)
  requires n > 0
  ensures window: window(captured(d.roll, "bins"), captured(d.roll, "average"), captured(d.roll, "i"), captured(d.roll, "c"), captured(d.roll, "n"))
  ensures empty: captured(d.roll, "c") == 0 && captured(d.roll, "n") == n && captured(d.roll, "average") == 0.0 && d.last == 0

func NewDuration$1(dur) (r)
  guarded d.mx: d.last, bins[*], average, i, c
  requires window(bins, average, i, c, n)
  requires d != nil
  ensures window: window(bins, average, i, c, n)
  ensures count: c == old(ite(c < n, c + 1, c))
  ensures placed: bins[old(i)] == real(dur)
  ensures next: i == ite(old(i) + 1 == n, 0, old(i) + 1)
  ensures rest: forall(k, int, imp(0 <= k && k < n && k != old(i), bins[k] == old(bins[k])))
  ensures last: d.last == r
  ensures mean: imp(0.0 <= average && average < 9000000000000000000.0, real(r) <= average && average < real(r) + 1.0)
  ensures negative: imp(0.0 - 9000000000000000000.0 < average && average < 0.0, average <= real(r) && real(r) - 1.0 < average)

func NewFloat(n) (f)
  requires n > 0
  ensures window: window(captured(f.roll, "bins"), captured(f.roll, "average"), captured(f.roll, "i"), captured(f.roll, "c"), captured(f.roll, "n"))
  ensures empty: captured(f.roll, "c") == 0 && captured(f.roll, "n") == n && captured(f.roll, "average") == 0.0 && f.last == 0.0

func NewFloat$1(dur) (r)
  guarded f.mx: f.last, bins[*], average, i, c
  requires window(bins, average, i, c, n)
  requires f != nil
  ensures window: window(bins, average, i, c, n)
  ensures count: c == old(ite(c < n, c + 1, c))
  ensures placed: bins[old(i)] == dur
  ensures next: i == ite(old(i) + 1 == n, 0, old(i) + 1)
  ensures rest: forall(k, int, imp(0 <= k && k < n && k != old(i), bins[k] == old(bins[k])))
  ensures last: f.last == r && r == average

func (*Duration).Value(d) (r)
  requires d != nil
  guarded d.mx: d.last
  modifies nothing
  ensures last: r == d.last

func (*Float).Value(f) (r)
  requires f != nil
  guarded f.mx: f.last
  modifies nothing
  ensures last: r == f.last

func (*Duration).Add(d, dur) (avg)
  requires d != nil
  ensures rolled: calls(d.roll) == old(calls(d.roll)) + 1 && callarg(d.roll, 0, old(calls(d.roll)), time.Duration) == dur && callres(d.roll, 0, old(calls(d.roll)), time.Duration) == avg

func (*Float).Add(f, val) (avg)
  requires f != nil
  ensures rolled: calls(f.roll) == old(calls(f.roll)) + 1 && callarg(f.roll, 0, old(calls(f.roll)), float64) == val && callres(f.roll, 0, old(calls(f.roll)), float64) == avg

func (*Duration).AddStartTime(d, tp) (avg)
  requires d != nil
  ensures rolled: calls(d.roll) == old(calls(d.roll)) + 1 && callres(d.roll, 0, old(calls(d.roll)), time.Duration) == avg
