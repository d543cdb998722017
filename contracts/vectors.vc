# C12: norm and cosine similarity.
alias embutil = pkg/embedding/embutil
alias sutil = pkg/search/searchutil

rec sumsq(v []float64, n int) real = n <= 0 ? 0.0 : sumsq(v, n - 1) + v[n-1] * v[n-1]
rec dotp(a []float64, b []float64, n int) real = n <= 0 ? 0.0 : dotp(a, b, n - 1) + a[n-1] * b[n-1]

lemma sumsq_nonneg(v []float64, n int) induction n trigger {sumsq(v, n)} manual props C12 : sumsq(v, n) >= 0.0
lemma dotp_symmetric(a []float64, b []float64, n int) induction n manual props C12 : dotp(a, b, n) == dotp(b, a, n)
lemma dotp_self(a []float64, n int) induction n manual props C12 : dotp(a, a, n) == sumsq(a, n)
lemma sumsq_zero(a []float64, b []float64, n int) induction n manual props C12 :
   sumsq(a, n) == 0.0 ==> dotp(a, b, n) == 0.0

# Cauchy-Schwarz, in steps
lemma cs_sq(p real, q real, z real) manual props C12 : p >= 0.0 && q >= 0.0 && z * z <= p * q ==> 2 * z <= p + q
lemma cs_mul(d real, sa real, sb real, x real, y real) manual props C12 :
   d * d <= sa * sb && sa >= 0.0 && sb >= 0.0 ==> (d * x * y) * (d * x * y) <= (sa * y * y) * (sb * x * x)
lemma cs_cross(d real, sa real, sb real, x real, y real) manual props C12 :
   d * d <= sa * sb && sa >= 0.0 && sb >= 0.0 ==> 2 * d * x * y <= sa * y * y + sb * x * x
lemma cs_step(d real, sa real, sb real, x real, y real) manual props C12 :
   d * d <= sa * sb && sa >= 0.0 && sb >= 0.0 ==> (d + x * y) * (d + x * y) <= (sa + x * x) * (sb + y * y)
lemma cauchy_schwarz(a []float64, b []float64, n int) induction n manual props C12 :
   dotp(a, b, n) * dotp(a, b, n) <= sumsq(a, n) * sumsq(b, n)

contract embutil.Norm(vec)(r) {
  props C12
  ensures [norm] r == sqrt(sumsq(vec, len(vec)))
  inv [acc float64] acc == sumsq(vec, it)
  inv [acc float64] acc == sumsq(vec, len(vec)) - sumsq(vec, len(vec) - it)
  modifies nothing
}
contract sutil.Cosine(v1, v2, n1, n2)(r) {
  props C12
  requires len(v1) == len(v2)
  ensures [zero-norm] n1 == 0.0 || n2 == 0.0 ==> r == 0.0
  ensures [quotient] n1 != 0.0 && n2 != 0.0 ==> r == dotp(v1, v2, len(v1)) / n1 / n2
  inv [acc float64] acc == dotp(v1, v2, it)
  inv [acc float64] acc == dotp(v1, v2, len(v1)) - dotp(v1, v2, len(v1) - it)
  modifies nothing
}
lemma quot_range(d real, n1 real, n2 real) manual props C12 :
   n1 > 0.0 && n2 > 0.0 && d * d <= (n1 * n1) * (n2 * n2) ==> -1.0 <= d / n1 / n2 && d / n1 / n2 <= 1.0
lemma cosine_range(a []float64, b []float64, n int) manual props C12
   hint cauchy_schwarz_at(a, b, n) hint sqrt(sumsq(a, n)) hint sqrt(sumsq(b, n)) :
   sqrt(sumsq(a, n)) != 0.0 && sqrt(sumsq(b, n)) != 0.0 ==>
     -1.0 <= dotp(a, b, n) / sqrt(sumsq(a, n)) / sqrt(sumsq(b, n)) && dotp(a, b, n) / sqrt(sumsq(a, n)) / sqrt(sumsq(b, n)) <= 1.0
macro cauchy_schwarz_at(a, b, n) = dotp(a, b, n) * dotp(a, b, n) <= sumsq(a, n) * sumsq(b, n)
