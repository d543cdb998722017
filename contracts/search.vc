# C11: nearest-neighbour search.
alias emb = pkg/embedding
alias search = pkg/search

macro score(H, q, qn, e) = qn == 0.0 || e.Norm == 0.0 ? 0.0 : dotp(q, inheap(H, e.Vector), len(q)) / qn / e.Norm

# number of eligible items among the first n with similarity above t
rec nabove(items []emb.Embedding, H arr(int,arr(int,real)), q []float64, qn real, ign []string, n int, t real) int =
  n <= 0 ? 0 : nabove(items, H, q, qn, ign, n - 1, t) +
    (cnt(ign, len(ign), items[n-1].Word) == 0 && score(H, q, qn, items[n-1]) > t ? 1 : 0)
# number of eligible items among the first n with this word and similarity
rec nsame(items []emb.Embedding, H arr(int,arr(int,real)), q []float64, qn real, ign []string, n int, w string, s real) int =
  n <= 0 ? 0 : nsame(items, H, q, qn, ign, n - 1, w, s) +
    (cnt(ign, len(ign), items[n-1].Word) == 0 && items[n-1].Word == w && score(H, q, qn, items[n-1]) == s ? 1 : 0)
# the same counts over a result, the cells lo..hi-1 of an array
rec rabove(ss arr(int,real), lo int, hi int, t real) int = hi <= lo ? 0 : rabove(ss, lo, hi - 1, t) + (ss[hi-1] > t ? 1 : 0)
rec rsame(ws arr(int,string), ss arr(int,real), lo int, hi int, w string, s real) int =
  hi <= lo ? 0 : rsame(ws, ss, lo, hi - 1, w, s) + (ws[hi-1] == w && ss[hi-1] == s ? 1 : 0)

lemma rabove_store(ss arr(int,real), lo int, hi int, t real, p int, v real) induction hi from lo
  trigger {rabove(upd(ss, p, v), lo, hi, t)} props C11 :
  lo <= hi ==> rabove(upd(ss, p, v), lo, hi, t) == rabove(ss, lo, hi, t) + (lo <= p < hi ? (v > t ? 1 : 0) - (ss[p] > t ? 1 : 0) : 0)
lemma rsame_store(ws arr(int,string), ss arr(int,real), lo int, hi int, w string, s real, p int, x string, v real) induction hi from lo
  trigger {rsame(upd(ws, p, x), upd(ss, p, v), lo, hi, w, s)} props C11 :
  lo <= hi ==> rsame(upd(ws, p, x), upd(ss, p, v), lo, hi, w, s) == rsame(ws, ss, lo, hi, w, s)
     + (lo <= p < hi ? (x == w && v == s ? 1 : 0) - (ws[p] == w && ss[p] == s ? 1 : 0) : 0)
lemma rabove_range(ss arr(int,real), lo int, hi int, t real) induction hi from lo trigger {rabove(ss, lo, hi, t)} props C11 :
  lo <= hi ==> 0 <= rabove(ss, lo, hi, t) && rabove(ss, lo, hi, t) <= hi - lo
lemma rabove_all(ss arr(int,real), lo int, hi int, t real) induction hi from lo trigger {rabove(ss, lo, hi, t)} props C11 :
  lo <= hi && (forall j: lo <= j < hi ==> ss[j] > t) ==> rabove(ss, lo, hi, t) == hi - lo
lemma rabove_none(ss arr(int,real), lo int, hi int, t real) induction hi from lo trigger {rabove(ss, lo, hi, t)} props C11 :
  (forall j: lo <= j < hi ==> ss[j] <= t) ==> rabove(ss, lo, hi, t) == 0
lemma rsame_none(ws arr(int,string), ss arr(int,real), lo int, hi int, w string, s real) induction hi from lo trigger {rsame(ws, ss, lo, hi, w, s)} props C11 :
  (forall j: lo <= j < hi ==> ss[j] != s) ==> rsame(ws, ss, lo, hi, w, s) == 0
lemma rabove_tail(ss arr(int,real), lo int, hi int, t real, m int) induction hi from m trigger {rabove(ss, lo, hi, t), rabove(ss, lo, m, t)} props C11 :
  lo <= m && m <= hi && (forall j: m <= j < hi ==> ss[j] <= t) ==> rabove(ss, lo, hi, t) == rabove(ss, lo, m, t)
lemma rsame_tail(ws arr(int,string), ss arr(int,real), lo int, hi int, w string, s real, m int) induction hi from m
  trigger {rsame(ws, ss, lo, hi, w, s), rsame(ws, ss, lo, m, w, s)} props C11 :
  lo <= m && m <= hi && s > 0.0 && (forall j: m <= j < hi ==> ss[j] <= 0.0) ==> rsame(ws, ss, lo, hi, w, s) == rsame(ws, ss, lo, m, w, s)

# the same counts with at most one ignored word
rec nabove1(items []emb.Embedding, H arr(int,arr(int,real)), q []float64, qn real, w string, n int, t real) int =
  n <= 0 ? 0 : nabove1(items, H, q, qn, w, n - 1, t) + (items[n-1].Word != w && score(H, q, qn, items[n-1]) > t ? 1 : 0)
rec nabove0(items []emb.Embedding, H arr(int,arr(int,real)), q []float64, qn real, n int, t real) int =
  n <= 0 ? 0 : nabove0(items, H, q, qn, n - 1, t) + (score(H, q, qn, items[n-1]) > t ? 1 : 0)
lemma nabove_one(items []emb.Embedding, H arr(int,arr(int,real)), q []float64, qn real, ign []string, n int, t real) induction n
  trigger {nabove(items, H, q, qn, ign, n, t)} manual props C11 :
  len(ign) == 1 ==> nabove(items, H, q, qn, ign, n, t) == nabove1(items, H, q, qn, ign[0], n, t)
lemma nabove_none(items []emb.Embedding, H arr(int,arr(int,real)), q []float64, qn real, ign []string, n int, t real) induction n
  trigger {nabove(items, H, q, qn, ign, n, t)} manual props C11 :
  len(ign) == 0 ==> nabove(items, H, q, qn, ign, n, t) == nabove0(items, H, q, qn, n, t)
# an ignored word has no eligible item
lemma nsame_ignored(items []emb.Embedding, H arr(int,arr(int,real)), q []float64, qn real, ign []string, n int, w string, s real) induction n
  trigger {nsame(items, H, q, qn, ign, n, w, s)} props C11 :
  cnt(ign, len(ign), w) > 0 ==> nsame(items, H, q, qn, ign, n, w, s) == 0
macro embwf(items, dim) = forall i: 0 <= i < len(items) ==> items[i].Word != "" && len(items[i].Vector) == dim && items[i].Dim == dim

contract search.(*Searcher).Search(s, query, k, ignoreWord)(res, err) {
  props C11
  requires embwf(s.Items, len(query.Vector))
  ensures [no-error] err == nil
  ensures [none-for-k-0] k <= 0 ==> len(res) == 0
  ensures [ranked] k > 0 ==> forall j: 0 <= j < len(res) ==> res[j].Similarity > 0.0 && res[j].Word != "" && res[j].Rank == j + 1
  ensures [sorted] k > 0 ==> forall a, b: 0 <= a < b && b < len(res) ==> res[a].Similarity >= res[b].Similarity
  ensures [count] k > 0 ==> len(res) == min(k, nabove(s.Items, heapof("float64"), query.Vector, query.Norm, ignoreWord, len(s.Items), 0.0))
  ensures [top-k] k > 0 ==> forall t real: t >= 0.0 ==> rabove(row(res, "Similarity"), off(res), off(res) + len(res), t) ==
      min(k, nabove(s.Items, heapof("float64"), query.Vector, query.Norm, ignoreWord, len(s.Items), t))
  ensures [own-similarity-once] k > 0 ==> forall w string, x real: x > 0.0 ==> rsame(row(res, "Word"), row(res, "Similarity"), off(res), off(res) + len(res), w, x) <=
      nsame(s.Items, heapof("float64"), query.Vector, query.Norm, ignoreWord, len(s.Items), w, x)
  ensures [never-ignored] forall j: 0 <= j < len(res) ==> cnt(ignoreWord, len(ignoreWord), res[j].Word) == 0
  ensures fresh(res)
  inv [ns []search.Neighbor] forall j: 0 <= j < k ==> ns[j].Word == "" || cnt(ignoreWord, len(ignoreWord), ns[j].Word) == 0
  inv [temp search.Neighbor] temp.Word == "" || cnt(ignoreWord, len(ignoreWord), temp.Word) == 0
  # ignore set
  inv [m map[string]int] forall w string: (w in m) == (cnt(ignoreWord, it, w) > 0)
  # result under construction
  inv [ns []search.Neighbor] len(ns) == k
  inv [ns []search.Neighbor] forall a, b: 0 <= a < b && b < k ==> ns[a].Similarity >= ns[b].Similarity
  inv [ns []search.Neighbor] forall j: 0 <= j < k ==> ns[j].Similarity >= 0.0 && (ns[j].Similarity == 0.0) == (ns[j].Word == "") && (ns[j].Similarity > 0.0 ==> ns[j].Rank == j + 1)
  inv [ns []search.Neighbor, low float64] low == ns[k-1].Similarity
  inv [ns []search.Neighbor] forall t real: t >= 0.0 ==> rabove(row(ns, "Similarity"), off(ns), off(ns) + k, t) == min(k, nabove(s.Items, heapof("float64"), query.Vector, query.Norm, ignoreWord, it, t))
  inv [ns []search.Neighbor] forall w string, x real: x > 0.0 ==> rsame(row(ns, "Word"), row(ns, "Similarity"), off(ns), off(ns) + k, w, x) <=
      nsame(s.Items, heapof("float64"), query.Vector, query.Norm, ignoreWord, it, w, x)
  # bubbling one entry down
  inv [temp search.Neighbor] temp.Similarity >= 0.0 && (temp.Similarity == 0.0) == (temp.Word == "")
  inv [temp search.Neighbor, ns []search.Neighbor, i int] forall a: 0 <= a < i && a < k ==> ns[a].Similarity >= temp.Similarity
  inv [temp search.Neighbor, ns []search.Neighbor] temp.Similarity >= entry(ns[k-1].Similarity)
  inv [temp search.Neighbor, ns []search.Neighbor, i int] (i >= k ==> temp.Similarity <= entry(ns[k-1].Similarity)) && (i < k ==> ns[k-1].Similarity == entry(ns[k-1].Similarity))
  inv [temp search.Neighbor, ns []search.Neighbor] forall t real:
    rabove(row(ns, "Similarity"), off(ns), off(ns) + k, t) + (temp.Similarity > t ? 1 : 0) == entry(rabove(row(ns, "Similarity"), off(ns), off(ns) + k, t)) + (entry(temp.Similarity) > t ? 1 : 0)
  inv [temp search.Neighbor, ns []search.Neighbor] forall w string, x real:
    rsame(row(ns, "Word"), row(ns, "Similarity"), off(ns), off(ns) + k, w, x) + (temp.Word == w && temp.Similarity == x ? 1 : 0) ==
    entry(rsame(row(ns, "Word"), row(ns, "Similarity"), off(ns), off(ns) + k, w, x)) + (entry(temp.Word) == w && entry(temp.Similarity) == x ? 1 : 0)
  # trimming
  inv [ns []search.Neighbor, i int] forall j: 0 <= j < i && j < k ==> ns[j].Word != ""
  inv [ns []search.Neighbor, i int] 0 <= i && i <= k && rabove(row(ns, "Similarity"), off(ns), off(ns) + i, 0.0) == i
  modifies nothing
}

macro ranked(res) = forall j: 0 <= j < len(res) ==> res[j].Similarity > 0.0 && res[j].Word != "" && res[j].Rank == j + 1
macro sorted(res) = forall a, b: 0 <= a < b && b < len(res) ==> res[a].Similarity >= res[b].Similarity
macro itemswf(s) = forall i: 0 <= i < len(s.Items) ==> s.Items[i].Word != "" && len(s.Items[i].Vector) == s.Items[i].Dim && s.Items[i].Dim == s.Items[0].Dim

contract search.(*Searcher).SearchInternal(s, word, k)(res, err) {
  props C11
  uses nabove_one
  requires itemswf(s)
  ensures [unknown-word] (forall i: 0 <= i < len(s.Items) ==> s.Items[i].Word != word) ==> err != nil && len(res) == 0
  ensures [known-word] (exists i: 0 <= i < len(s.Items) && s.Items[i].Word == word) ==> err == nil
  ensures [none-for-k-0] k <= 0 ==> len(res) == 0
  ensures [not-itself] forall j: 0 <= j < len(res) ==> res[j].Word != word
  ensures [ranked] err == nil && k > 0 ==> ranked(res)
  ensures [sorted] err == nil && k > 0 ==> sorted(res)
  ensures [top-k] k > 0 ==> forall i: 0 <= i < len(s.Items) && s.Items[i].Word == word && (forall j: 0 <= j < i ==> s.Items[j].Word != word) ==>
      len(res) == min(k, nabove1(s.Items, heapof("float64"), s.Items[i].Vector, s.Items[i].Norm, word, len(s.Items), 0.0)) &&
      forall t real: t >= 0.0 ==> rabove(row(res, "Similarity"), off(res), off(res) + len(res), t) ==
        min(k, nabove1(s.Items, heapof("float64"), s.Items[i].Vector, s.Items[i].Norm, word, len(s.Items), t))
  inv forall j: 0 <= j < it ==> s.Items[j].Word != word
  modifies nothing
}

contract search.(*Searcher).SearchVector(s, query, k)(res, err) {
  props C11
  uses nabove_none
  requires itemswf(s)
  requires len(s.Items) > 0 ==> len(query) == s.Items[0].Dim
  ensures [no-error] err == nil
  ensures [none-for-k-0] k <= 0 ==> len(res) == 0
  ensures [ranked] k > 0 ==> ranked(res)
  ensures [sorted] k > 0 ==> sorted(res)
  ensures [top-k] k > 0 ==> len(res) == min(k, nabove0(s.Items, heapof("float64"), query, sqrt(sumsq(query, len(query))), len(s.Items), 0.0)) &&
      forall t real: t >= 0.0 ==> rabove(row(res, "Similarity"), off(res), off(res) + len(res), t) ==
        min(k, nabove0(s.Items, heapof("float64"), query, sqrt(sumsq(query, len(query))), len(s.Items), t))
  modifies nothing
}

contract emb.(Embeddings).Validate(embs)(err) {
  props C11 C09
  ensures [same-dim] (err == nil) == (forall i: 0 <= i < len(embs) ==> embs[i].Dim == embs[0].Dim)
  inv forall i: 0 <= i < it ==> embs[i].Dim == embs[0].Dim
  modifies nothing
}
contract emb.(Embedding).Validate(e)(err) {
  props C09
  ensures [valid] (err == nil) == (e.Word != "" && e.Dim != 0 && e.Dim == len(e.Vector))
  modifies nothing
}
contract emb.(Embeddings).Find(embs, word)(e, ok) {
  props C13
  ensures [found] ok == (exists i: 0 <= i < len(embs) && embs[i].Word == word)
  ensures [item] ok ==> exists i: 0 <= i < len(embs) && embs[i].Word == word && (forall j: 0 <= j < i ==> embs[j].Word != word) && e == embs[i]
  inv forall i: 0 <= i < it ==> embs[i].Word != word
  modifies nothing
}
contract emb.(Embeddings).Empty(embs)(r) {
  props C13
  ensures [empty] r == (len(embs) == 0)
  modifies nothing
}
contract search.New(embs)(s, err) {
  props C11
  ensures [valid] (err == nil) == (forall i: 0 <= i < len(embs) ==> embs[i].Dim == embs[0].Dim)
  ensures [items] err == nil ==> s != nil && len(s.Items) == len(embs) && forall i: 0 <= i < len(embs) ==> s.Items[i] == embs[i]
  modifies nothing
}
