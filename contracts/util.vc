# C06: division of work.
alias mutil = pkg/model/modelutil

lemma div_step(x int, d int, t int) trigger {idiv(x, t), idiv(d, t)} props C06 :
  0 <= d <= x && x - d < t ==> idiv(x, t) == idiv(d, t) + (d - idiv(d, t) * t + (x - d) >= t ? 1 : 0)

# start of worker i's range
macro part(i, t, n) = i == t ? n : idiv(n, t) * i + max(0, i + (n - idiv(n, t) * t) - t + 1)

contract mutil.IndexPerThread(threadSize, dataSize)(idx) {
  props C06
  requires 1 <= threadSize <= 1000000000 && 0 <= dataSize <= 4000000000000000
  ensures [count] len(idx) == threadSize + 1
  ensures [starts-at-0] idx[0] == 0
  ensures [ends-at-size] idx[threadSize] == dataSize
  ensures [monotone] forall i: 0 <= i < threadSize ==> idx[i] <= idx[i+1]
  ensures [even] forall i, j: 0 <= i < threadSize && 0 <= j < threadSize ==> (idx[i+1] - idx[i]) - (idx[j+1] - idx[j]) <= 1
  ensures [closed-form] forall i: 0 <= i <= threadSize ==> idx[i] == part(i, threadSize, dataSize)
  ensures [bounded] forall i: 0 <= i <= threadSize ==> 0 <= idx[i] <= dataSize
  ensures [fresh] fresh(idx)
  inv [a []int, i int] len(a) == threadSize + 1 && a[threadSize] == dataSize && forall k: 0 <= k < i && k < threadSize ==> a[k] == part(k, threadSize, dataSize)
  modifies nothing
}

contract mutil.NextRandom(value)(r) {
  props C06 C07
  requires value >= 1
  ensures 0 <= r && r < value
  modifies mutil.next
}
