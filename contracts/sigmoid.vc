# C21: the sigmoid table, in rounded (float64) arithmetic.
uf mexp(x real) real
axiom exp_pos(x real) trigger {mexp(x)} : mexp(x) > 0
axiom exp_zero() : mexp(0) == 1
axiom exp_sum(x real, y real) manual : mexp(x + y) == mexp(x) * mexp(y)
axiom exp_tangent(x real) manual : mexp(x) >= 1 + x
# float64 rounding to nearest: relative error 2^-53, or half the smallest denormal; monotone
axiom rnd_error(x real) trigger {rnd(x)} : abs(rnd(x) - x) <= abs(x) * 0.0000000000000002 + 0.000000000000000000000001
axiom rnd_sign(x real) trigger {rnd(x)} : x >= 0 ==> rnd(x) >= 0
axiom rnd_mono(x real, y real) trigger {rnd(x), rnd(y)} : x <= y ==> rnd(x) <= rnd(y)
# math.Exp is accurate to 1 ulp
axiom exp_error(x real) trigger {exp(x)} mode float=rnd : abs(exp(x) - mexp(x)) <= mexp(x) * 0.0000000000000005

macro lgst(x) = mexp(x) / (mexp(x) + 1)
macro grid(i) = real(i) * 0.012 - 6

macro tabent(v) = rnd(v / rnd(v + 1))
lemma quot_err(v real, s real, e real) manual props C21 mode float=rnd :
  v > 0 && e > 0 && abs(v - e) <= e * 0.0000000000000005 && abs(s - (v + 1)) <= (v + 1) * 0.0000000000000003 ==> abs(v / s - e / (e + 1)) <= 0.00000000000001
lemma entry_close(y real) props C21 trigger {exp(y)} mode float=rnd hint quot_err(exp(y), rnd(exp(y) + 1), mexp(y)) :
  abs(tabent(exp(y)) - lgst(y)) <= 0.0000000000001
lemma lgst_slope(a real, b real) manual trigger {mexp(a), mexp(b)} props C21 hint exp_sum(a, b - a) hint exp_sum(b - a, a - b) hint exp_tangent(b - a) hint exp_tangent(a - b) hint exp_zero() :
  a <= b && b - a <= 0.0125 ==> 0 <= lgst(b) - lgst(a) && lgst(b) - lgst(a) <= (b - a) * 0.26
lemma exp_half() manual props C21 hint exp_sum(0.5, -0.5) hint exp_tangent(-0.5) hint exp_zero() hint exp_pos(0.5) : mexp(0.5) <= 2
lemma exp_four() manual props C21 hint exp_sum(0.5, 0.5) hint exp_sum(1.0, 1.0) hint exp_sum(2.0, 2.0) hint exp_half() hint exp_pos(0.5) hint exp_pos(1.0) hint exp_pos(2.0) : mexp(0.5) <= 2 && mexp(2.0) <= 16 && mexp(4.0) <= 256
lemma exp_six() manual props C21 hint exp_sum(4.0, 2.0) hint exp_sum(6.0, 0.5) hint exp_four() hint exp_pos(0.5) hint exp_pos(2.0) hint exp_pos(4.0) : mexp(6.5) <= 8192
lemma exp_range(x real) manual trigger {mexp(x)} props C21 hint exp_six() hint exp_sum(x, 6.5 - x) hint exp_sum(x, 0 - x) hint exp_sum(0 - x, 6.5 + x) hint exp_tangent(6.5 - x) hint exp_tangent(6.5 + x) hint exp_pos(x) hint exp_pos(0 - x) hint exp_zero() :
  -6.5 <= x <= 6.5 ==> mexp(x) <= 8192 && mexp(0 - x) <= 8192 && mexp(x) * 8192 >= 1
lemma growth(p real, q real, d real) manual props C21 : p > 0 && p * 8192 >= 1 && p <= 8192 && d >= 1.012 && q == p * d && q <= 8192 ==> q / (q + 1) - p / (p + 1) >= 0.0000001
lemma lgst_growth(a real, b real) manual trigger {mexp(a), mexp(b)} props C21 hint exp_range(a) hint exp_range(b) hint exp_sum(a, b - a) hint exp_sum(b - a, a - b) hint exp_tangent(b - a) hint exp_tangent(a - b) hint exp_zero() hint growth(mexp(a), mexp(b), mexp(b - a)):
  -6.5 <= a && b <= 6.5 && b - a >= 0.012 ==> lgst(b) - lgst(a) >= 0.0000001

macro sigscale() = rnd(rnd(real(1000) / 6) / 2)
# the first n table entries are within 1e-11 of the logistic function at their grid points
rec sigok(t []float64, n int) bool = n <= 0 ? true : sigok(t, n - 1) && abs(t[n-1] - lgst(grid(n - 1))) <= 0.00000000001
lemma sigok_at(t []float64, n int, i int) induction n trigger {sigok(t, n), t[i]} manual props C21 : sigok(t, n) && 0 <= i < n ==> abs(t[i] - lgst(grid(i))) <= 0.00000000001
lemma sigok_all(t []float64, n int) induction n trigger {sigok(t, n)} manual props C21 : (forall i: 0 <= i < n ==> abs(t[i] - lgst(grid(i))) <= 0.00000000001) ==> sigok(t, n)
macro sigstat(s) = s != nil && len(s.expTable) == 1000 && s.maxExp == 6 && s.cache == sigscale()
macro sigwf(s) = sigstat(s) && sigok(s.expTable, 1000)
# the table entry looked up for x
macro tabval(s, x) = s.expTable[min(floor(rnd(rnd(x + 6) * sigscale())), 999)]

contract w2v.newSigmoidTable()(s) {
  props C21
  mode float=rnd
  uses lgst_slope, sigok_all
  ensures [table] sigwf(s)
  ensures [own-storage] fresh(s) && fresh(s.expTable)
  inv [t []float64] forall i: 0 <= i < it ==> abs(t[i] - lgst(grid(i))) <= 0.00000000001
  modifies nothing
}
contract w2v.(*sigmoidTable).sigmoid(s, x)(r) {
  props C21
  mode float=rnd
  uses lgst_slope, lgst_growth, exp_range, sigok_at
  requires sigwf(s) && -6 < x && x < 6
  given y real
  ensures [table-entry] r == tabval(s, x)
  ensures [between-0-and-1] 0 < r && r < 1
  checks [close-to-logistic] abs(r - lgst(x)) < 0.004
  checks [monotone] -6 < y && y <= x ==> tabval(s, y) <= r
  modifies nothing
}
