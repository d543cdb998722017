# C01: the vocabulary.
alias dict = pkg/corpus/dictionary

# number of times w occurs among the first n words
rec cnt(ws []string, n int, w string) int = n <= 0 ? 0 : cnt(ws, n - 1, w) + (ws[n-1] == w ? 1 : 0)
# number of first appearances among the first n words, given the words already known
rec nfirst(m map[string]int, ws []string, n int) int = n <= 0 ? 0 : nfirst(m, ws, n - 1) + (!(ws[n-1] in m) && cnt(ws, n - 1, ws[n-1]) == 0 ? 1 : 0)

macro dictwf(d) = d != nil && d.word2id != nil && d.maxid >= 0 && len(d.id2word) == d.maxid && len(d.cfs) == d.maxid &&
  (forall i: 0 <= i < d.maxid ==> d.id2word[i] in d.word2id && d.word2id[d.id2word[i]] == i) &&
  (forall w string: w in d.word2id ==> 0 <= d.word2id[w] < d.maxid && d.id2word[d.word2id[w]] == w) &&
  (forall i: 0 <= i < d.maxid ==> d.cfs[i] >= 1)
macro wfreq(d, w) = w in d.word2id ? d.cfs[d.word2id[w]] : 0

lemma cnt_nonneg(ws []string, n int, w string) induction n trigger {cnt(ws, n, w)} props C01 : cnt(ws, n, w) >= 0
lemma nfirst_nonneg(m map[string]int, ws []string, n int) induction n trigger {nfirst(m, ws, n)} props C01 : nfirst(m, ws, n) >= 0

contract dict.New()(d) {
  props C01
  ensures [wf] dictwf(d)
  ensures [empty] d.maxid == 0 && forall w string: !(w in d.word2id)
  ensures fresh(d) && fresh(d.word2id) && fresh(d.id2word) && fresh(d.cfs)
  modifies nothing
}
contract dict.(*Dictionary).Len(d)(n) {
  props C01
  ensures n == d.maxid
  modifies nothing
}
contract dict.(*Dictionary).ID(d, word)(id, ok) {
  props C01
  requires dictwf(d)
  ensures [known] ok == (word in d.word2id)
  ensures [id] ok ==> id == d.word2id[word] && 0 <= id < d.maxid && d.id2word[id] == word
  modifies nothing
}
contract dict.(*Dictionary).Word(d, id)(w, ok) {
  props C01
  requires dictwf(d) && id >= 0
  ensures [known] ok == (id < d.maxid)
  ensures [word] ok ==> w == d.id2word[id] && w in d.word2id && d.word2id[w] == id
  modifies nothing
}
contract dict.(*Dictionary).WordFreq(d, word)(f) {
  props C01
  requires dictwf(d)
  ensures [freq] f == wfreq(d, word)
  modifies nothing
}
contract dict.(*Dictionary).IDFreq(d, id)(f) {
  props C01
  requires dictwf(d) && id >= 0
  ensures [freq] f == (id < d.maxid ? d.cfs[id] : 0)
  modifies nothing
}
contract dict.(*Dictionary).Add(d, words) {
  props C01
  requires dictwf(d) && ref(words) != ref(d.id2word)
  ensures [wf] dictwf(d)
  ensures [kept] forall i: 0 <= i < old(d.maxid) ==> d.id2word[i] == old(d.id2word[i])
  ensures [kept-ids] forall w string: old(w in d.word2id) ==> w in d.word2id && d.word2id[w] == old(d.word2id[w])
  ensures [exactly-these-words] forall w string: (w in d.word2id) == (old(w in d.word2id) || old(cnt(words, len(words), w)) > 0)
  ensures [exact-frequency] forall w string: wfreq(d, w) == old(wfreq(d, w)) + old(cnt(words, len(words), w))
  ensures [size] d.maxid == old(d.maxid) + old(nfirst(d.word2id, words, len(words)))
  ensures [first-appearance-order] forall n: 0 <= n < len(words) && old(!(words[n] in d.word2id) && cnt(words, n, words[n]) == 0) ==>
      d.word2id[old(words[n])] == old(d.maxid) + old(nfirst(d.word2id, words, n))
  ensures d.word2id == old(d.word2id)
  ensures (ref(d.id2word) == old(ref(d.id2word)) || fresh(d.id2word)) && (ref(d.cfs) == old(ref(d.cfs)) || fresh(d.cfs))
  inv d.word2id == old(d.word2id)
  inv (ref(d.id2word) == old(ref(d.id2word)) || fresh(d.id2word)) && (ref(d.cfs) == old(ref(d.cfs)) || fresh(d.cfs))
  inv len(d.id2word) == d.maxid && len(d.cfs) == d.maxid && d.maxid >= old(d.maxid)
  inv (forall i: 0 <= i < d.maxid ==> d.id2word[i] in d.word2id && d.word2id[d.id2word[i]] == i)
  inv (forall w string: w in d.word2id ==> 0 <= d.word2id[w] < d.maxid && d.id2word[d.word2id[w]] == w)
  inv (forall i: 0 <= i < d.maxid ==> d.cfs[i] >= 1)
  inv d.maxid == old(d.maxid) + old(nfirst(d.word2id, words, it))
  inv forall i: 0 <= i < old(d.maxid) ==> d.id2word[i] == old(d.id2word[i])
  inv forall w string: old(w in d.word2id) ==> w in d.word2id && d.word2id[w] == old(d.word2id[w])
  inv forall w string: (w in d.word2id) == (old(w in d.word2id) || old(cnt(words, it, w)) > 0)
  inv forall w string: wfreq(d, w) == old(wfreq(d, w)) + old(cnt(words, it, w))
  inv forall n: 0 <= n < it ==> old(words[n]) in d.word2id
  inv forall n: 0 <= n < it && old(!(words[n] in d.word2id) && cnt(words, n, words[n]) == 0) ==>
      d.word2id[old(words[n])] == old(d.maxid) + old(nfirst(d.word2id, words, n))
  modifies d.maxid, d.id2word, d.cfs, d.word2id[*], d.cfs[**], d.id2word[**]
}
