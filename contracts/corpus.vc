# the corpus interface
alias corpus = pkg/corpus
alias fs = pkg/corpus/fs
alias mem = pkg/corpus/memory
alias co = pkg/corpus/cooccurrence

macro corpuswf(c) = istype(c, "*fs.Corpus") && as(c, "*fs.Corpus") != nil || istype(c, "*mem.Corpus") && as(c, "*mem.Corpus") != nil
macro dicof(c) = istype(c, "*fs.Corpus") ? as(c, "*fs.Corpus").dic : as(c, "*mem.Corpus").dic
macro coocof(c) = istype(c, "*fs.Corpus") ? as(c, "*fs.Corpus").cooc : as(c, "*mem.Corpus").cooc

macro lenof(c) = istype(c, "*fs.Corpus") ? as(c, "*fs.Corpus").maxLen : as(c, "*mem.Corpus").maxLen

iface corpus.Corpus.Len(c)(n) {
  requires corpuswf(c)
  ensures n == lenof(c)
  modifies nothing
}
contract fs.(*Corpus).Len(c)(n) {
  props C02
  refines corpus.Corpus.Len
  ensures [length] n == c.maxLen
  modifies nothing
}
contract mem.(*Corpus).Len(c)(n) {
  props C02
  refines corpus.Corpus.Len
  ensures [length] n == c.maxLen
  modifies nothing
}
iface corpus.Corpus.Dictionary(c)(d) {
  requires corpuswf(c)
  ensures d == dicof(c)
  modifies nothing
}
iface corpus.Corpus.Cooccurrence(c)(d) {
  requires corpuswf(c)
  ensures d == coocof(c)
  modifies nothing
}
contract fs.(*Corpus).Dictionary(c)(d) {
  props C02
  refines corpus.Corpus.Dictionary
  ensures [dictionary] d == c.dic
  modifies nothing
}
contract mem.(*Corpus).Dictionary(c)(d) {
  props C02
  refines corpus.Corpus.Dictionary
  ensures [dictionary] d == c.dic
  modifies nothing
}
contract fs.(*Corpus).Cooccurrence(c)(d) {
  props C04
  refines corpus.Corpus.Cooccurrence
  ensures [counts] d == c.cooc
  modifies nothing
}
contract mem.(*Corpus).Cooccurrence(c)(d) {
  props C04
  refines corpus.Corpus.Cooccurrence
  ensures [counts] d == c.cooc
  modifies nothing
}
contract co.(*Cooccurrence).EncodedMatrix(c)(m) {
  props C04 C14 C16
  ensures [matrix] m == c.ma
  modifies nothing
}

# every word id the corpus hands out lies below n
macro corpusids(c, n) = dicof(c) != nil && dictwf(dicof(c)) && dicof(c).maxid == n && (istype(c, "*mem.Corpus") ==> (forall i: 0 <= i < len(as(c, "*mem.Corpus").idoc) ==> 0 <= as(c, "*mem.Corpus").idoc[i] < n))
iface corpus.Corpus.IndexedDoc(c)(doc) {
  requires corpuswf(c)
  ensures [known-words] corpusids(c, dicof(c).maxid) ==> (forall i: 0 <= i < len(doc) ==> 0 <= doc[i] < dicof(c).maxid)
  modifies nothing
}
iface corpus.Corpus.BatchWords(c, ch, size)(err) {
  requires corpuswf(c) && size >= 1
  modifies any
}
contract fs.(*Corpus).IndexedDoc(c)(doc) {
  props C03
  refines corpus.Corpus.IndexedDoc
  ensures [nothing-in-memory] len(doc) == 0
  modifies nothing
}

# C02, C03, C04: the text as a sequence of words ------------------------------
# word i of the stream s, lower-cased when low
macro tok(s, low, i) = low ? lower(wordat(s, i)) : wordat(s, i)
# how often w occurs among the first n words
rec tcnt(s int, low bool, n int, w string) int = n <= 0 ? 0 : tcnt(s, low, n - 1, w) + (tok(s, low, n - 1) == w ? 1 : 0)
# how many distinct words there are among the first n
rec tfirst(s int, low bool, n int) int = n <= 0 ? 0 : tfirst(s, low, n - 1) + (tcnt(s, low, n - 1, tok(s, low, n - 1)) == 0 ? 1 : 0)
lemma tcnt_nonneg(s int, low bool, n int, w string) induction n trigger {tcnt(s, low, n, w)} props C02 : tcnt(s, low, n, w) >= 0
# the id of word i
macro tid(m, s, low, i) = m[tok(s, low, i)]
# how many of the positions i+1 .. j-1 make, with position i, the pair with the key k
rec pin(m map[string]int, s int, low bool, i int, j int, k int) int = j <= i + 1 ? 0 : pin(m, s, low, i, j - 1, k) + (pairkey(tid(m, s, low, i), tid(m, s, low, j - 1)) == k ? 1 : 0)
# the same over the positions 0 .. i-1, each with the up to n positions after it, of l
rec pout(m map[string]int, s int, low bool, l int, n int, i int, k int) int = i <= 0 ? 0 : pout(m, s, low, l, n, i - 1, k) + pin(m, s, low, i - 1, min(l, i + n), k)
lemma pin_nonneg(m map[string]int, s int, low bool, i int, j int, k int) induction j from i + 1 trigger {pin(m, s, low, i, j, k)} manual props C04 : pin(m, s, low, i, j, k) >= 0

macro fresh2(d) = dictwf(d) && d.maxid == 0 && (forall w string: !(w in d.word2id))
macro cval(ma, k) = k in ma ? ma[k] : 0

contract co.New(typ)(c, err) {
  props C04 C28
  maynil(c)
  ensures [known-type] (err == nil) == (typ == co.Increment || typ == co.Proximity)
  ensures [empty] err == nil ==> c != nil && fresh(c) && c.typ == typ && c.ma != nil && fresh(c.ma) && (forall k: !(k in c.ma))
  modifies nothing
}
contract co.(*Cooccurrence).Add(c, left, right)(err) {
  props C04
  requires c.ma != nil && 0 <= left && left < 4294967296 && 0 <= right && right < 4294967296
  given k int
  ensures [accepted] c.typ == co.Increment ==> err == nil
  ensures [rejected] c.typ != co.Increment && c.typ != co.Proximity ==> err != nil
  ensures [only-this-pair] k != pairkey(left, right) || err != nil ==> (k in c.ma) == old(k in c.ma) && c.ma[k] == old(c.ma[k])
  ensures [this-pair] err == nil && k == pairkey(left, right) ==> k in c.ma
  ensures [one-each] err == nil && k == pairkey(left, right) && c.typ == co.Increment ==> c.ma[k] == old(cval(c.ma, k)) + 1
  modifies c.ma[*]
}

contract mem.(*Corpus).Load(c, with, verbose, logBatch)(err) {
  props C02 C04
  maynil(with)
  requires c != nil && c.doc != nil && fresh2(c.dic) && c.maxLen == 0 && len(c.idoc) == 0 && verbose != nil && logBatch >= 1 && ref(c.idoc) != ref(c.dic.cfs)
  requires with != nil ==> with.Window >= 0
  # fewer than 2^32 words (pair keys hold 32-bit ids)
  requires nwords(stream0(c.doc)) < 4294967296
  let s = stream0(c.doc)
  let low = c.toLower
  let m = c.dic.word2id
  let n = with.Window
  given w string, i int, k int
  ghost f0 int = 0
  on call dict.(*Dictionary).Add(d, ws) {
    set f0 = wfreq(c.dic, w)
  }
  on call dict.(*Dictionary).Add(d, ws)() {
    assert [one-more] d == c.dic && len(ws) == 1 && wfreq(c.dic, w) == f0 + (ws[0] == w ? 1 : 0)
  }
  ensures [read-error-reported] rfails(s) || toolong(s, 1, 65536) ==> err != nil
  ensures [no-other-error] !(rfails(s) || toolong(s, 1, 65536)) && (with == nil || with.CountType == co.Increment) ==> err == nil
  ensures [length] err == nil ==> c.maxLen == nwords(s)
  ensures [words] err == nil ==> (w in c.dic.word2id) == (tcnt(s, low, nwords(s), w) > 0)
  ensures [counts] err == nil ==> wfreq(c.dic, w) == tcnt(s, low, nwords(s), w)
  ensures [first-appearance-order] err == nil && 0 <= i < nwords(s) && tcnt(s, low, i, tok(s, low, i)) == 0 ==> c.dic.word2id[tok(s, low, i)] == tfirst(s, low, i)
  ensures [id-sequence] err == nil ==> len(c.idoc) == nwords(s) && (0 <= i < nwords(s) ==> c.idoc[i] == c.dic.word2id[tok(s, low, i)])
  ensures [same-dictionary] c.dic == old(c.dic) && c.dic.word2id == m
  ensures [well-formed] dictwf(c.dic)
  ensures [unknown-count-type] with != nil && with.CountType != co.Increment && with.CountType != co.Proximity ==> err != nil
  ensures [pair-counts] err == nil && with != nil && with.CountType == co.Increment ==> c.cooc != nil && c.cooc.ma != nil && cval(c.cooc.ma, k) == real(pout(m, s, low, nwords(s), n, nwords(s), k))
  ensures [exactly-these-pairs] err == nil && with != nil && with.CountType == co.Increment ==> (k in c.cooc.ma) == (pout(m, s, low, nwords(s), n, nwords(s), k) > 0)
  inv [sc *bufio.Scanner] g("scstream", "int", sc) == s && g("scmode", "int", sc) == 1 && g("sclim", "int", sc) == 65536 && !g("scfail", "bool", sc) && g("scpos", "int", sc) == it && it <= nwords(s)
  inv [sc *bufio.Scanner] dictwf(c.dic) && c.dic == old(c.dic) && c.dic.word2id == old(c.dic.word2id)
  inv [sc *bufio.Scanner] c.maxLen == it && len(c.idoc) == it && ref(c.idoc) != ref(c.dic.cfs)
  inv [sc *bufio.Scanner] forall v string: (v in c.dic.word2id) == (tcnt(s, low, it, v) > 0)
  inv [sc *bufio.Scanner] wfreq(c.dic, w) == tcnt(s, low, it, w)
  inv [sc *bufio.Scanner] c.dic.maxid == tfirst(s, low, it) && c.dic.maxid <= it
  inv [sc *bufio.Scanner] 0 <= i < it ==> tok(s, low, i) in c.dic.word2id
  inv [sc *bufio.Scanner] 0 <= i < it && tcnt(s, low, i, tok(s, low, i)) == 0 ==> c.dic.word2id[tok(s, low, i)] == tfirst(s, low, i)
  inv [sc *bufio.Scanner] forall q: 0 <= q < it ==> tok(s, low, q) in c.dic.word2id && c.idoc[q] == c.dic.word2id[tok(s, low, q)]
  # counting pairs
  inv c.cooc != nil && c.cooc.ma != nil && c.cooc.typ == with.CountType
  inv with.CountType == co.Increment ==> cval(c.cooc.ma, k) == real(pout(m, s, low, nwords(s), n, it, k))
  inv with.CountType == co.Increment ==> (k in c.cooc.ma) == (pout(m, s, low, nwords(s), n, it, k) > 0)
  inv with.CountType == co.Increment ==> cval(c.cooc.ma, k) == real(pout(m, s, low, nwords(s), n, it1, k) + pin(m, s, low, it1, it1 + 1 + it, k))
  inv with.CountType == co.Increment ==> (k in c.cooc.ma) == (pout(m, s, low, nwords(s), n, it1, k) + pin(m, s, low, it1, it1 + 1 + it, k) > 0)
  modifies any
}
