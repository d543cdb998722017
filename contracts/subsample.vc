# C24: subsampling.
contract subsample.New(dic, threshold)(s) {
  props C24
  requires dictwf(dic) && threshold >= 0
  ensures [every-word] s != nil && len(s.samples) == dic.maxid
  ensures [value] forall i: 0 <= i < dic.maxid ==> s.samples[i] == max(0, 1 - sqrt(threshold / real(dic.cfs[i])))
  ensures [range] forall i: 0 <= i < dic.maxid ==> 0 <= s.samples[i] <= 1
  inv [a []float64] forall i: 0 <= i < it ==> a[i] == max(0, 1 - sqrt(threshold / real(dic.cfs[i])))
  inv [a []float64] forall i: 0 <= i < it ==> 0 <= a[i] <= 1
  modifies nothing
}
macro subwf(s, n) = s != nil && len(s.samples) == n
contract subsample.(*Subsampler).Trial(s, id)(ok) {
  props C24
  requires 0 <= id < len(s.samples)
  modifies nothing
}
