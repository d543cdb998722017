# C19, C20: the word tree.
alias node = pkg/corpus/dictionary/node

# s is the chain of parents from the root (first) to n (last)
macro chain(s, n) = len(s) >= 1 && s[0] != nil && s[0].Parent == nil && s[len(s) - 1] == n && forall i: 0 < i && i < len(s) ==> s[i] != nil && s[i].Parent == s[i-1]
macro chainq(s, n) = len(s) >= 1 && s[0] != nil && s[0].Parent == nil && s[len(s) - 1] == n && chainok(fieldheap("node.Node", "Parent"), sel(heapof("*node.Node"), ref(s)), off(s), off(s) + len(s))
macro pathwf(n) = n != nil && (n.cache != nil ==> chainq(n.cache, n))

# k-th ancestor
rec anc(P arr(int,int), n int, k int) int = k <= 0 ? n : (anc(P, n, k - 1) == 0 ? 0 : P[anc(P, n, k - 1)])
# the cells lo..hi-1 of c form a chain of parents
rec chainok(P arr(int,int), c arr(int,int), lo int, hi int) bool = hi <= lo + 1 ? true : chainok(P, c, lo, hi - 1) && c[hi-1] != 0 && P[c[hi-1]] == c[hi-2]
lemma chainok_all(P arr(int,int), c arr(int,int), lo int, hi int) induction hi from lo + 1 trigger {chainok(P, c, lo, hi)} manual props C19 C20 :
  (forall i: lo < i && i < hi ==> c[i] != 0 && P[c[i]] == c[i-1]) ==> chainok(P, c, lo, hi)
lemma chainok_at(P arr(int,int), c arr(int,int), lo int, hi int, i int) induction hi from lo + 1 trigger {chainok(P, c, lo, hi), c[i]} manual props C19 C20 :
  chainok(P, c, lo, hi) && lo < i && i < hi ==> c[i] != 0 && P[c[i]] == c[i-1]
lemma anc_up(P arr(int,int), n int, k int) induction k from 1 manual props C19 C20 : k >= 1 && n != 0 ==> anc(P, n, k) == anc(P, P[n], k - 1)
lemma anc_up2(P arr(int,int), n int, k int) trigger {anc(P, P[n], k - 1)} manual props C19 C20 hint anc_up(P, n, k) : k >= 1 && n != 0 ==> anc(P, n, k) == anc(P, P[n], k - 1)
lemma chain_anc(P arr(int,int), c arr(int,int), lo int, hi int, i int) induction hi from lo + 1 trigger {chainok(P, c, lo, hi), c[i]} manual props C19 C20 hint anc_up(P, c[hi-1], hi - 1 - i) :
  chainok(P, c, lo, hi) && lo <= i && i < hi ==> anc(P, c[hi-1], hi - 1 - i) == c[i]
lemma chain_anc_n(P arr(int,int), c arr(int,int), lo int, hi int, n int, k int) trigger {chainok(P, c, lo, hi), anc(P, n, k)} manual props C19 C20 hint chain_anc(P, c, lo, hi, hi - 1 - k) :
  chainok(P, c, lo, hi) && 0 <= k && k < hi - lo && c[hi-1] == n ==> anc(P, n, k) == c[hi-1-k]

contract node.(*Node).GetPath(n, depth)(path) {
  props C19 C20
  uses chainok_all, chain_anc_n, chainok_at
  requires pathwf(n)
  checks [root-to-leaf] n.cache != nil && chain(n.cache, n)
  ensures [a-path] n.cache != nil && len(n.cache) >= 1 && n.cache[len(n.cache) - 1] == n && (forall i: 0 <= i < len(n.cache) ==> n.cache[i] != nil)
  ensures [prefix-of-full-path] ref(path) == ref(n.cache) && off(path) == off(n.cache)
  ensures [well-formed] pathwf(n)
  ensures [ancestors] forall i: 0 <= i < len(n.cache) && chainok(fieldheap("node.Node", "Parent"), sel(heapof("*node.Node"), ref(n.cache)), off(n.cache), off(n.cache) + len(n.cache)) ==> anc(fieldheap("node.Node", "Parent"), id(n), len(n.cache) - 1 - i) == id(n.cache[i])
  ensures [depth-limit] len(path) == (depth <= 0 || depth > len(n.cache) ? len(n.cache) : depth)
  ensures [remembered] old(n.cache != nil) ==> n.cache == old(n.cache)
  ensures [own-storage] old(n.cache == nil) ==> fresh(n.cache)
  inv [p *node.Node] n.cache != nil && len(n.cache) == it && fresh(n.cache)
  inv [p *node.Node] forall i: 0 <= i < it ==> n.cache[i] != nil
  inv [p *node.Node] it > 0 ==> n.cache[0] == n && p == n.cache[it - 1].Parent
  inv [p *node.Node] it == 0 ==> p == n
  inv [p *node.Node] forall i: 0 < i && i < it ==> n.cache[i] == n.cache[i-1].Parent
  inv [i int, j int] i + j == len(n.cache) - 1 && i >= 0 && i <= j + 1
  inv [i int] forall k: 0 <= k < i ==> n.cache[k] == entry(n.cache[len(n.cache) - 1 - k])
  inv [i int] forall k: len(n.cache) - i <= k < len(n.cache) ==> n.cache[k] == entry(n.cache[len(n.cache) - 1 - k])
  inv [i int] forall k: i <= k < len(n.cache) - i ==> n.cache[k] == entry(n.cache[k])
  modifies n.cache
}
