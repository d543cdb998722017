# LexVec: C06, C16, C17, C23, C26.
alias lexvec = pkg/model/lexvec

# C26 --------------------------------------------------------------------
contract lexvec.(*lexvec).WordVector(g, typ)(m) {
  props C26
  requires corpuswf(g.corpus) && dicof(g.corpus) != nil && dicof(g.corpus).maxid >= 0 && matwf(g.param)
  requires g.opts.Dim >= 1 && g.param.row == 2 * dicof(g.corpus).maxid && g.param.col == g.opts.Dim
  given w int, k int
  let n = dicof(g.corpus).maxid
  ensures [one-row-per-word] matwf(m) && m.row == n && m.col == g.opts.Dim
  ensures [own-storage] fresh(m) && fresh(m.array)
  ensures [single] typ != vector.Agg && 0 <= w < n && 0 <= k < g.opts.Dim ==> mrow(m, w)[k] == mrow(g.param, w)[k]
  ensures [sum] typ == vector.Agg && 0 <= w < n && 0 <= k < g.opts.Dim ==> mrow(m, w)[k] == mrow(g.param, w)[k] + mrow(g.param, w + n)[k]
  inv [m *matrix.Matrix] typ != vector.Agg && 0 <= w < it && 0 <= k < g.opts.Dim ==> mrow(m, w)[k] == mrow(g.param, w)[k]
  inv [m *matrix.Matrix] typ == vector.Agg && 0 <= w < it && 0 <= k < g.opts.Dim ==> mrow(m, w)[k] == mrow(g.param, w)[k] + mrow(g.param, w + n)[k]
  inv [v []float64] typ != vector.Agg && off(v) == w * g.opts.Dim && 0 <= w < n && 0 <= k < it ==> v[k] == mrow(g.param, w)[k]
  inv [v []float64] typ == vector.Agg && off(v) == w * g.opts.Dim && 0 <= w < n && 0 <= k < it ==> v[k] == mrow(g.param, w)[k] + mrow(g.param, w + n)[k]
  modifies nothing
}

# C16 --------------------------------------------------------------------
macro pmi(c, f1, f2, s, ltf) = log(c) - log(real(f1)) - log(pow(real(f2), s)) + ltf
macro idf(d, id) = id < d.maxid ? d.cfs[id] : 0
macro relval(typ, c, f1, f2, s, ltf) = typ == lexvec.PPMI ? (c == 0 ? 0 : max(0, pmi(c, f1, f2, s, ltf))) : typ == lexvec.PMI ? (c == 0 ? 1 : pmi(c, f1, f2, s, ltf)) : typ == lexvec.Collocation ? c : log(c)
macro knownrel(typ) = typ == lexvec.PPMI || typ == lexvec.PMI || typ == lexvec.Collocation || typ == lexvec.LogCollocation

contract lexvec.(*lexvec).calculateRelation(l, typ, l1, l2, co, ltf)(v, err) {
  props C16
  requires corpuswf(l.corpus) && dictwf(dicof(l.corpus)) && l1 >= 0 && l2 >= 0
  let d = dicof(l.corpus)
  ensures [unknown-relation] (err == nil) == knownrel(typ)
  ensures [configured-relation] err == nil ==> v == relval(typ, co, idf(d, l1), idf(d, l2), l.opts.Smooth, ltf)
  ensures [ppmi-not-negative] err == nil && typ == lexvec.PPMI ==> v >= 0
  modifies nothing
}
macro pairrel(l, d, k, c) = relval(l.opts.RelationType, c, idf(d, k - idiv(k, 4294967296) * 4294967296), idf(d, idiv(k, 4294967296)), l.opts.Smooth, log(pow(real(lenof(l.corpus)), l.opts.Smooth)))

contract lexvec.(*lexvec).makeItems(l, cooc)(res, err) {
  props C16
  requires corpuswf(l.corpus) && dictwf(dicof(l.corpus)) && cooc != nil && cooc.ma != nil && l.verbose != nil && l.opts.LogBatch >= 1
  requires forall k: k in cooc.ma ==> k >= 0
  let d = dicof(l.corpus)
  let em = old(cooc.ma)
  given k int
  ensures [unknown-relation] k in em && !knownrel(l.opts.RelationType) ==> err != nil
  ensures [known-relation] knownrel(l.opts.RelationType) ==> err == nil
  ensures [own-map] err == nil ==> fresh(res)
  ensures [recorded-pairs-only] err == nil ==> (k in res) == (k in em)
  ensures [targets] err == nil && k in em ==> res[k] == pairrel(l, d, k, em[k])
  inv [res map[uint64]float64] (k in res) == visited(k)
  inv [res map[uint64]float64] visited(k) ==> k in em && res[k] == pairrel(l, d, k, em[k])
  inv visited(k) ==> knownrel(l.opts.RelationType)
  modifies nothing
}

# C17 --------------------------------------------------------------------
contract lexvec.(*lexvec).update(l, l1, l2, f) {
  props C17
  requires matwf(l.param) && l.param.col == l.opts.Dim && 0 <= l1 < l.param.row && 0 <= l2 < l.param.row
  let v1 = mrow(l.param, l1)
  let v2 = mrow(l.param, l2)
  let d = l.opts.Dim
  let g = old((dotp(v1, v2, d) - f) * l.currentlr)
  ensures [first-row] l1 != l2 ==> forall i: 0 <= i < d ==> v1[i] == old(v1[i]) - g * old(v2[i])
  ensures [second-row] l1 != l2 ==> forall i: 0 <= i < d ==> v2[i] == old(v2[i]) - g * old(v1[i])
  ensures [same-row] l1 == l2 ==> forall i: 0 <= i < d ==> v1[i] == old(v1[i]) - g * old(v1[i]) - g * old(v1[i])
  inv [s float64] s == dotp(v1, v2, it)
  inv l1 != l2 ==> forall i: 0 <= i < it ==> v1[i] == old(v1[i]) - g * old(v2[i])
  inv l1 != l2 ==> forall i: 0 <= i < it ==> v2[i] == old(v2[i]) - g * old(v1[i])
  inv l1 == l2 ==> forall i: 0 <= i < it ==> v1[i] == old(v1[i]) - g * old(v1[i]) - g * old(v1[i])
  inv forall i: it <= i < d ==> v1[i] == old(v1[i])
  inv forall i: it <= i < d ==> v2[i] == old(v2[i])
  modifies v1[*], v2[*]
}
macro pairkey(a, b) = min(a, b) + max(a, b) * 4294967296
macro lexwf(l) = corpuswf(l.corpus) && dictwf(dicof(l.corpus)) && 1 <= dicof(l.corpus).maxid < 4294967296 && matwf(l.param) && l.param.row == 2 * dicof(l.corpus).maxid && l.param.col == l.opts.Dim && l.opts.Window >= 1

contract lexvec.(*lexvec).trainOne(l, doc, pos, items) {
  props C17
  requires lexwf(l) && 0 <= pos < len(doc) && items != nil
  let n = dicof(l.corpus).maxid
  requires forall i: 0 <= i < len(doc) ==> 0 <= doc[i] < n
  on call lexvec.(*lexvec).update(l0, l1, l2, f) {
    assert [pairs-of-this-word] l0 == l && l1 == doc[pos]
    assert [window-or-sample] 0 <= l2 < 2 * n && (l2 < n ==> exists c: 0 <= c < len(doc) && c != pos && pos - l.opts.Window <= c <= pos + l.opts.Window && l2 == doc[c])
    assert [own-target] l2 < n ==> f == (pairkey(l1, l2) in items ? items[pairkey(l1, l2)] : 0)
    assert [own-target-sample] l2 >= n ==> f == (pairkey(l1, l2 - n) in items ? items[pairkey(l1, l2 - n)] : 0)
  }
  modifies heap("E:float64"), mutil.next
}
macro lexdoc(l, doc) = forall i: 0 <= i < len(doc) ==> 0 <= doc[i] < dicof(l.corpus).maxid

contract lexvec.(*lexvec).trainPerThread(l, doc, items, trained, sem, wg)(err) {
  props C06 C17
  requires lexwf(l) && subwf(l.subsampler, dicof(l.corpus).maxid) && lexdoc(l, doc) && items != nil
  requires !g("chclosed", "bool", trained)
  ghost seen int = 0
  ghost sent int = 0
  on call subsample.(*Subsampler).Trial(s, id) {
    assert [in-order-each-once] seen < len(doc) && id == doc[seen] && s == l.subsampler
    set seen = seen + 1
  }
  on call lexvec.(*lexvec).trainOne(l0, d, pos, its) {
    assert [trains-at-its-position] l0 == l && pos == seen - 1 && d == doc && its == items
  }
  on send (ch, v) {
    assert [reported-after-training] ch == trained && seen == sent + 1
    set sent = sent + 1
  }
  ensures [all-elements] err == nil ==> seen == len(doc) && sent == len(doc)
  inv seen == it && sent == it
  modifies heap("E:float64"), mutil.next
}

# C23 --------------------------------------------------------------------
macro lexlr(l) = l.opts.MinLR <= l.opts.Initlr && l.opts.Initlr >= 0 && l.opts.MinLR <= l.currentlr && l.currentlr <= l.opts.Initlr

contract lexvec.(*lexvec).observe(l, trained, clk) {
  props C23
  requires l != nil && corpuswf(l.corpus) && l.verbose != nil && l.opts.LogBatch >= 1 && l.opts.UpdateLRBatch >= 1 && clk != nil
  requires lexlr(l)
  let n = lenof(l.corpus)
  let b = l.opts.UpdateLRBatch
  ghost words int = 0
  on recv (ch, v) {
    assert [current-before-next] ch == trained && l.currentlr == (words - words % b == 0 ? old(l.currentlr) : decayed(l.opts.MinLR, l.opts.Initlr, words - words % b, n))
    assert [always-in-range] l.opts.MinLR <= l.currentlr && l.currentlr <= l.opts.Initlr
    # a signal is sent for a word of the corpus
    assume n >= 1
    set words = words + 1
  }
  on store lexvec.lexvec.currentlr (o, v) {
    assert [always-in-range] o == l && l.opts.MinLR <= v && v <= l.opts.Initlr
    assert [only-at-multiples] words % b == 0 && words >= 1 && v == decayed(l.opts.MinLR, l.opts.Initlr, words, n)
  }
  ensures [never-outside] l.opts.MinLR <= l.currentlr && l.currentlr <= l.opts.Initlr
  inv [c int] c == words && words >= 0
  inv l.currentlr == (words - words % b == 0 ? old(l.currentlr) : decayed(l.opts.MinLR, l.opts.Initlr, words - words % b, n))
  inv l.opts.MinLR <= l.currentlr && l.currentlr <= l.opts.Initlr
  modifies l.currentlr
}

# C06, C17, C23: the training loop ------------------------------------------
macro coocok(c) = coocof(c) != nil && coocof(c).ma != nil && (forall k: k in coocof(c).ma ==> k >= 0)

contract lexvec.(*lexvec).train(l)(err) {
  props C06 C17 C23
  requires lexwf(l) && subwf(l.subsampler, dicof(l.corpus).maxid) && lexlr(l) && coocok(l.corpus)
  requires l.verbose != nil && l.opts.LogBatch >= 1 && l.opts.UpdateLRBatch >= 1 && 1 <= l.opts.Goroutines <= 1000000000
  requires corpusids(l.corpus, dicof(l.corpus).maxid)
  ghost started int = 0
  ghost base int = 0
  ghost first int = 0
  ghost total int = 0
  ghost watching int = 0
  ghost table int = 0
  on call lexvec.(*lexvec).makeItems(l0, c)(res, err) {
    assert [items-of-this-corpus] l0 == l && c == coocof(l.corpus)
    set table = id(res)
  }
  on call corpus.Corpus.IndexedDoc(c)(doc) {
    # no memory holds more words
    assume len(doc) <= 4000000000000000
    set base = ref(doc)
    set first = off(doc)
    set total = len(doc)
  }
  on go lexvec.(*lexvec).observe(l1, ch, clk) {
    assert [one-observer] l1 == l && watching == 0
    set watching = id(ch)
  }
  on go lexvec.(*lexvec).trainPerThread(l2, doc, its, ch, sem, wg) {
    assert [own-range] l2 == l && ref(doc) == base && off(doc) == first + part(started, l.opts.Goroutines, total) && off(doc) + len(doc) == first + part(started + 1, l.opts.Goroutines, total)
    assert [the-items] id(its) == table
    assert [reports-to-the-observer] id(ch) == watching
    set started = started + 1
  }
  on call sync.(*WaitGroup).Wait(wg) {
    assert [every-range-started] started == l.opts.Goroutines
    set started = 0
  }
  on close (ch) {
    assert [observer-ended-after-the-workers] started == 0 && id(ch) == watching
    set watching = 0
  }
  inv started == 0 && watching == 0
  inv started == it
  modifies nothing
}

contract lexvec.(*lexvec).batchTrain(l)(err) {
  props C06 C17 C23
  requires lexwf(l) && subwf(l.subsampler, dicof(l.corpus).maxid) && lexlr(l) && coocok(l.corpus)
  requires l.verbose != nil && l.opts.LogBatch >= 1 && l.opts.UpdateLRBatch >= 1 && 1 <= l.opts.Goroutines <= 1000000000 && l.opts.BatchSize >= 1
  requires corpusids(l.corpus, dicof(l.corpus).maxid)
  ghost got int = 0
  ghost pend int = 0
  ghost batches int = 0
  ghost inch int = 0
  ghost watching int = 0
  ghost table int = 0
  on call lexvec.(*lexvec).makeItems(l0, c)(res, err) {
    assert [items-of-this-corpus] l0 == l && c == coocof(l.corpus)
    set table = id(res)
  }
  on go lexvec.(*lexvec).observe(l1, ch, clk) {
    assert [one-observer] l1 == l && watching == 0
    set watching = id(ch)
  }
  on go corpus.Corpus.BatchWords(c, ch, size) {
    assert [one-reader] c == l.corpus && size == l.opts.BatchSize && batches == 0
    set batches = 1
    set inch = id(ch)
  }
  on recv (ch, v) {
    assert [batch-in-order] id(ch) == inch && pend == 0
    assume lexdoc(l, v)
    set pend = 1
    set got = ref(v)
  }
  on go lexvec.(*lexvec).trainPerThread(l2, doc, its, ch, sem, wg) {
    assert [each-batch-once] l2 == l && pend == 1 && ref(doc) == got
    assert [the-items] id(its) == table
    assert [reports-to-the-observer] id(ch) == watching
    set pend = 0
  }
  on call sync.(*WaitGroup).Wait(wg) {
    assert [every-batch-started] pend == 0 && batches == 1
    set batches = 0
  }
  on close (ch) {
    assert [observer-ended-after-the-workers] batches == 0 && id(ch) == watching
    set watching = 0
  }
  inv pend == 0 && batches == 0 && watching == 0
  inv pend == 0 && batches == 1 && watching == entry(watching) && inch == entry(inch)
  modifies nothing
}
