# word2vec: C06, C18, C19, C21, C22, C23, C26.
alias w2v = pkg/model/word2vec

# C26 --------------------------------------------------------------------
macro isneg(o) = istype(o, "*w2v.negativeSampling")
macro ctxof(o) = as(o, "*w2v.negativeSampling").ctx
contract w2v.(*word2vec).WordVector(g, typ)(m) {
  props C26
  requires corpuswf(g.corpus) && dicof(g.corpus) != nil && dicof(g.corpus).maxid >= 0 && matwf(g.param)
  requires g.opts.Dim >= 1 && g.param.row == dicof(g.corpus).maxid && g.param.col == g.opts.Dim
  requires isneg(g.optimizer) ==> as(g.optimizer, "*w2v.negativeSampling") != nil && matwf(ctxof(g.optimizer)) && ctxof(g.optimizer).row == g.param.row && ctxof(g.optimizer).col == g.param.col
  given w int, k int
  let n = dicof(g.corpus).maxid
  ensures [one-row-per-word] matwf(m) && m.row == n && m.col == g.opts.Dim
  ensures [own-storage] fresh(m) && fresh(m.array)
  ensures [single] (typ != vector.Agg || !isneg(g.optimizer)) && 0 <= w < n && 0 <= k < g.opts.Dim ==> mrow(m, w)[k] == mrow(g.param, w)[k]
  ensures [sum] typ == vector.Agg && isneg(g.optimizer) && 0 <= w < n && 0 <= k < g.opts.Dim ==> mrow(m, w)[k] == mrow(g.param, w)[k] + mrow(ctxof(g.optimizer), w)[k]
  inv [m *matrix.Matrix] (typ != vector.Agg || !isneg(g.optimizer)) && 0 <= w < it && 0 <= k < g.opts.Dim ==> mrow(m, w)[k] == mrow(g.param, w)[k]
  inv [m *matrix.Matrix] typ == vector.Agg && isneg(g.optimizer) && 0 <= w < it && 0 <= k < g.opts.Dim ==> mrow(m, w)[k] == mrow(g.param, w)[k] + mrow(ctxof(g.optimizer), w)[k]
  inv [v []float64] (typ != vector.Agg || !isneg(g.optimizer)) && off(v) == w * g.opts.Dim && 0 <= w < n && 0 <= k < it ==> v[k] == mrow(g.param, w)[k]
  inv [v []float64] typ == vector.Agg && isneg(g.optimizer) && off(v) == w * g.opts.Dim && 0 <= w < n && 0 <= k < it ==> v[k] == mrow(g.param, w)[k] + mrow(ctxof(g.optimizer), w)[k]
  modifies nothing
}

# C18 --------------------------------------------------------------------
# logistic factor: label minus sigmoid (0 below and 1 above the table), times the rate
macro lfac(st, x, label, lr) = x <= -6 ? label * lr : (x >= 6 ? (label - 1.0) * lr : (label - tabval(st, x)) * lr)
macro negstat(o) = o != nil && o.sampleSize >= 0 && matwf(o.ctx) && o.ctx.row >= 1 && sigstat(o.sigtable) && ref(o.sigtable.expTable) != ref(o.ctx.array)
macro negwf(o) = negstat(o) && sigok(o.sigtable.expTable, 1000)

# an optimiser, its dimension and number of words, and the arrays it does not own
macro asneg(o) = as(o, "*w2v.negativeSampling")
macro ashs(o) = as(o, "*w2v.hierarchicalSoftmax")
macro ishs(o) = istype(o, "*w2v.hierarchicalSoftmax")
omacro paths(o) = !isneg(o) ==> (forall i: 0 <= i < len(ashs(o).nodeset) ==> ashs(o).nodeset[i] != nil && pathwf(ashs(o).nodeset[i]))
omacro optstat(o) = (isneg(o) || ishs(o)) && (isneg(o) ==> negstat(asneg(o))) && (!isneg(o) ==> ashs(o) != nil && sigstat(ashs(o).sigtable) && hssep(ashs(o)))
macro tabok(o) = sigok((isneg(o) ? asneg(o).sigtable.expTable : ashs(o).sigtable.expTable), 1000)
macro optimok(o) = optstat(o) && tabok(o) && paths(o)
macro tabref(o) = isneg(o) ? ref(asneg(o).sigtable.expTable) : ref(ashs(o).sigtable.expTable)
macro optsize(o) = isneg(o) ? asneg(o).ctx.row : len(ashs(o).nodeset)
omacro optdim(o, d) = (isneg(o) ==> asneg(o).ctx.col == d) && (!isneg(o) ==> (forall i, k: 0 <= i < len(ashs(o).nodeset) && k >= 1 && ancof(ashs(o).nodeset[i], k) != 0 ==> veclen(ancof(ashs(o).nodeset[i], k)) == d))
omacro notstate(o, r) = (isneg(o) ==> r != ref(ctxof(o).array)) && (!isneg(o) ==> (forall i, k: 0 <= i < len(ashs(o).nodeset) && k >= 1 && ancof(ashs(o).nodeset[i], k) != 0 ==> vecref(ancof(ashs(o).nodeset[i], k)) != r))
macro apart(o, r) = r != tabref(o) && notstate(o, r)

iface w2v.optimizer.optim(o, id, lr, ctx, tmp) {
  requires optimok(o) && 0 <= id < optsize(o) && optdim(o, len(ctx))
  requires len(tmp) == len(ctx) && ref(tmp) != ref(ctx) && apart(o, ref(ctx)) && apart(o, ref(tmp))
  given other int
  ensures [nothing-else] other != ref(tmp) && apart(o, other) ==> sel(heapof("float64"), other) == old(sel(heapof("float64"), other))
  ensures [table-intact] sel(heapof("float64"), tabref(o)) == old(sel(heapof("float64"), tabref(o)))
  ensures [paths-intact] paths(o)
  modifies heap("E:float64"), heap("F:pkg/corpus/dictionary/node.Node.cache"), mutil.next
}

contract w2v.(*negativeSampling).optim(opt, id, lr, ctx, tmp) {
  reveal paths, optstat, optdim, notstate
  seal sigok
  props C18
  refines w2v.optimizer.optim
  mode mul=opaque
  given k int, other int
  requires negwf(opt) && 0 <= id < opt.ctx.row && len(ctx) == opt.ctx.col && len(tmp) == opt.ctx.col
  requires ref(ctx) != ref(opt.ctx.array) && ref(tmp) != ref(opt.ctx.array) && ref(tmp) != ref(ctx)
  requires ref(opt.sigtable.expTable) != ref(tmp)
  let d = opt.ctx.col
  let all = opt.ctx.array
  let in = 0 <= k && k < d
  # the row being updated, its factor, and component k of the row and of tmp before the update
  ghost pk int = id
  ghost fac real = 0.0
  ghost rk real = 0.0
  ghost tk real = 0.0
  ghost steps int = 0
  ghost draws int = 0
  ghost drawn int = id
  on call mutil.NextRandom(v)(r) {
    assert [one-draw-at-a-time] steps >= 1 && drawn == id
    set drawn = r
    set draws = draws + 1
  }
  on call matrix.(*Matrix).Slice(m, row)(s) {
    assert [positive-first-then-samples] m == opt.ctx && (steps == 0 ? row == id && draws == 0 : row == drawn && row != id)
    assert [gradient-step] in && steps > 0 ==> tmp[k] == tk + fac * rk && mrow(opt.ctx, pk)[k] == rk + fac * ctx[k]
    set fac = lfac(opt.sigtable, dotp(mrow(opt.ctx, row), ctx, d), (steps == 0 ? 1.0 : 0.0), lr)
    set rk = mrow(opt.ctx, row)[k]
    set tk = tmp[k]
    set drawn = id
    set pk = row
    set steps = steps + 1
  }
  ensures [positive-example] steps >= 1
  ensures [every-sample-used] drawn == id && draws == opt.sampleSize
  ensures [last-gradient-step] in ==> tmp[k] == tk + fac * rk && mrow(opt.ctx, pk)[k] == rk + fac * ctx[k]
  inv drawn == id
  inv (steps == 0) == (it == 0) && steps >= 0
  inv draws == max(0, it - 1)
  inv 0 <= pk < opt.ctx.row
  inv in && steps > 0 ==> tmp[k] == tk + fac * rk && mrow(opt.ctx, pk)[k] == rk + fac * ctx[k]
  inv [s float64] s == dotp(mrow(opt.ctx, pk), ctx, it)
  inv [s float64] s == fac
  inv in && k < it ==> tmp[k] == tk + fac * rk
  inv in && k < it ==> mrow(opt.ctx, pk)[k] == rk + fac * ctx[k]
  inv in && k >= it ==> tmp[k] == tk
  inv in && k >= it ==> mrow(opt.ctx, pk)[k] == rk
  modifies opt.ctx.array[*], tmp[*], mutil.next
}

# C19 --------------------------------------------------------------------
macro ancof(n, k) = anc(fieldheap("node.Node", "Parent"), id(n), k)
macro veclen(r) = sel(fieldheap("node.Node", "Vector#len"), r)
macro vecref(r) = sel(fieldheap("node.Node", "Vector#ref"), r)
# every ancestor of a leaf has a vector of the dimension d that is none of the arrays e, f, g
macro hswf(o) = o != nil && sigwf(o.sigtable) && (forall i: 0 <= i < len(o.nodeset) ==> o.nodeset[i] != nil && pathwf(o.nodeset[i]))
macro hssep(o) = forall i, k: 0 <= i < len(o.nodeset) && k >= 1 && ancof(o.nodeset[i], k) != 0 ==> vecref(ancof(o.nodeset[i], k)) != ref(o.sigtable.expTable)
macro hsvec(o, d, e, f, g) = forall i, k: 0 <= i < len(o.nodeset) && k >= 1 && ancof(o.nodeset[i], k) != 0 ==>
     veclen(ancof(o.nodeset[i], k)) == d && vecref(ancof(o.nodeset[i], k)) != e && vecref(ancof(o.nodeset[i], k)) != f && vecref(ancof(o.nodeset[i], k)) != g

contract w2v.(*hierarchicalSoftmax).optim(opt, id, lr, ctx, tmp) {
  reveal paths, optstat, optdim, notstate
  props C19
  seal chainok, anc, sigok
  refines w2v.optimizer.optim
  mode mul=opaque
  requires hswf(opt) && 0 <= id < len(opt.nodeset) && len(tmp) == len(ctx) && ref(tmp) != ref(ctx)
  requires hsvec(opt, len(ctx), ref(ctx), ref(tmp), ref(opt.sigtable.expTable)) && ref(opt.sigtable.expTable) != ref(tmp)
  given k int, other int
  let d = len(ctx)
  let n = opt.nodeset[id]
  let in = 0 <= k && k < d
  ghost plen int = 0
  ghost steps int = 0
  ghost fac real = 0.0
  ghost rk real = 0.0
  ghost tk real = 0.0
  on call node.(*Node).GetPath(n0, depth)(p) {
    assert [path-of-the-word] n0 == n && depth == opt.maxDepth && steps == 0
    set plen = len(p)
  }
  on call w2v.(*sigmoidTable).sigmoid(s, x)(r) {
    assert [next-inner-node] steps < plen - 1 && x == dotp(ctx, n.cache[steps].Vector, d)
    assert [rows-apart] len(n.cache[steps].Vector) == d && ref(n.cache[steps].Vector) != ref(ctx) && ref(n.cache[steps].Vector) != ref(tmp) && ref(n.cache[steps].Vector) != ref(opt.sigtable.expTable)
    assert [gradient-step] in && steps > 0 ==> tmp[k] == tk + fac * rk && n.cache[steps - 1].Vector[k] == rk + fac * ctx[k]
    set fac = (1 - real(n.cache[steps + 1].Code) - r) * lr
    set rk = n.cache[steps].Vector[k]
    set tk = tmp[k]
    set steps = steps + 1
  }
  ensures [full-or-limited-path] plen == (opt.maxDepth <= 0 || opt.maxDepth > len(n.cache) ? len(n.cache) : opt.maxDepth)
  ensures [last-gradient-step] in && steps > 0 ==> tmp[k] == tk + fac * rk && n.cache[steps - 1].Vector[k] == rk + fac * ctx[k]
  ensures [stops-at-end-or-saturation] steps == plen - 1 || 0 <= steps && steps < plen - 1 && (dotp(ctx, n.cache[steps].Vector, d) <= -6 || dotp(ctx, n.cache[steps].Vector, d) >= 6)
  ensures [nothing-else] other != ref(tmp) && (forall i: 0 <= i < plen - 1 ==> ref(n.cache[i].Vector) != other) ==> sel(heapof("float64"), other) == old(sel(heapof("float64"), other))
  inv steps == it
  inv sel(heapof("float64"), ref(opt.sigtable.expTable)) == old(sel(heapof("float64"), ref(opt.sigtable.expTable)))
  inv forall i: 0 <= i < len(n.cache) - 1 ==> len(n.cache[i].Vector) == d
  inv forall i: 0 <= i < len(n.cache) - 1 ==> ref(n.cache[i].Vector) != ref(ctx) && ref(n.cache[i].Vector) != ref(tmp) && ref(n.cache[i].Vector) != ref(opt.sigtable.expTable)
  inv in && steps > 0 ==> tmp[k] == tk + fac * rk && n.cache[steps - 1].Vector[k] == rk + fac * ctx[k]
  inv [s float64] s == dotp(ctx, n.cache[steps].Vector, it)
  inv [s float64] s == fac
  inv in && k < it ==> tmp[k] == tk + fac * rk
  inv in && k < it ==> n.cache[steps - 1].Vector[k] == rk + fac * ctx[k]
  inv in && k >= it ==> tmp[k] == tk
  inv in && k >= it ==> n.cache[steps - 1].Vector[k] == rk
  inv other != ref(tmp) && (forall i: 0 <= i < plen - 1 ==> ref(n.cache[i].Vector) != other) ==> sel(heapof("float64"), other) == old(sel(heapof("float64"), other))
  modifies heap("E:float64"), opt.nodeset[id].cache
}

# C22 --------------------------------------------------------------------
# context positions for half-width h around pos: lo..hi without pos itself
macro ctxlo(pos, h) = max(0, pos - h)
macro ctxhi(doc, pos, h) = min(len(doc) - 1, pos + h)
# the s-th context position, and how many lie below q
macro ctxpos(lo, pos, s) = lo + s + (lo + s >= pos ? 1 : 0)
macro ctxcnt(lo, hi, pos, q) = max(0, min(q, hi + 1) - lo) - (pos < q ? 1 : 0)
macro modok(m) = istype(m, "*w2v.skipGram") && as(m, "*w2v.skipGram") != nil && as(m, "*w2v.skipGram").window >= 1 && !g("chclosed", "bool", as(m, "*w2v.skipGram").ch) ||
  istype(m, "*w2v.cbow") && as(m, "*w2v.cbow") != nil && as(m, "*w2v.cbow").window >= 1 && !g("chclosed", "bool", as(m, "*w2v.cbow").ch)
macro traindoc(doc, param) = matwf(param) && forall i: 0 <= i < len(doc) ==> 0 <= doc[i] < param.row
macro trainopt(o, param) = optimok(o) && optsize(o) == param.row && optdim(o, param.col) && apart(o, ref(param.array))

iface w2v.mod.trainOne(mod, doc, pos, lr, param, optimizer) {
  requires modok(mod) && 0 <= pos < len(doc) && traindoc(doc, param) && trainopt(optimizer, param)
  ensures [table-intact] sel(heapof("float64"), tabref(optimizer)) == old(sel(heapof("float64"), tabref(optimizer)))
  ensures [paths-intact] paths(optimizer)
  modifies heap("E:float64"), heap("F:pkg/corpus/dictionary/node.Node.cache"), mutil.next
}

contract w2v.(*skipGram).trainOne(mod, doc, pos, lr, param, optimizer) {
  props C22
  refines w2v.mod.trainOne
  requires mod != nil && mod.window >= 1 && !g("chclosed", "bool", mod.ch) && 0 <= pos < len(doc) && traindoc(doc, param) && trainopt(optimizer, param)
  given k int, w int, other int
  let in = 0 <= k && k < param.col
  let row = 0 <= w && w < param.row
  let par = param.array
  ghost hw int = 0
  ghost tref int = 0
  ghost toff int = 0
  ghost cnt int = 0
  # expected value of component k of word w's vector
  ghost acc real = mrow(param, w)[k]
  ghost lastid int = 0 - 1
  ghost tk real = 0.0
  on recv (ch, v) {
    assert [own-correction-vector] ch == mod.ch && tref == 0
    assume len(v) == param.col && ref(v) != 0 && ref(v) != ref(param.array) && apart(optimizer, ref(v))
    set tref = ref(v)
    set toff = off(v)
  }
  on send (ch, v) {
    assert [correction-vector-returned] ch == mod.ch && ref(v) == tref && off(v) == toff && len(v) == param.col
  }
  on call mutil.NextRandom(v)(r) {
    assert [one-draw-per-position] hw == 0 && v == mod.window
    set hw = mod.window - r
  }
  on call w2v.optimizer.optim(o, id, l, ctx, tmp) {
    assert [own-word] o == optimizer && id == doc[pos] && l == lr
    assert [next-context-word] ctxpos(ctxlo(pos, hw), pos, cnt) <= ctxhi(doc, pos, hw) && ref(ctx) == ref(param.array) && off(ctx) == off(param.array) + doc[ctxpos(ctxlo(pos, hw), pos, cnt)] * param.col && len(ctx) == param.col
    assert [cleared-correction] ref(tmp) == tref && off(tmp) == toff && len(tmp) == param.col && (in ==> tmp[k] == 0)
    assert [updated-before-next] in && row ==> mrow(param, w)[k] == acc
  }
  on call w2v.optimizer.optim(o, id, l, ctx, tmp)() {
    set lastid = doc[ctxpos(ctxlo(pos, hw), pos, cnt)]
    set tk = tmp[k]
    set acc = acc + (doc[ctxpos(ctxlo(pos, hw), pos, cnt)] == w ? tmp[k] : 0.0)
    set cnt = cnt + 1
  }
  ensures [half-width] 1 <= hw && hw <= mod.window
  ensures [every-context-position] cnt == ctxhi(doc, pos, hw) - ctxlo(pos, hw)
  ensures [context-words-moved] in && row ==> mrow(param, w)[k] == acc
  ensures [others-unchanged] in && row && (forall c: 0 <= c < len(doc) && c != pos && pos - hw <= c && c <= pos + hw ==> doc[c] != w) ==> mrow(param, w)[k] == old(mrow(param, w)[k])
  ensures [nothing-else] other != tref && other != ref(param.array) && apart(optimizer, other) ==> sel(heapof("float64"), other) == old(sel(heapof("float64"), other))
  inv cnt == ctxcnt(ctxlo(pos, hw), ctxhi(doc, pos, hw), pos, pos - hw + it)
  inv [c int] cnt == ctxcnt(ctxlo(pos, hw), ctxhi(doc, pos, hw), pos, c)
  inv cnt == ctxcnt(ctxlo(pos, hw), ctxhi(doc, pos, hw), pos, pos - hw + it1)
  inv [c int] cnt == ctxcnt(ctxlo(pos, hw), ctxhi(doc, pos, hw), pos, c + 1)
  inv cnt == ctxcnt(ctxlo(pos, hw), ctxhi(doc, pos, hw), pos, pos - hw + it1 + 1)
  inv in && row ==> mrow(param, w)[k] == acc
  inv in && row && (lastid != w || k < it) ==> mrow(param, w)[k] == acc
  inv in && row && lastid == w && k >= it ==> mrow(param, w)[k] + tk == acc
  inv sel(sel(heapof("float64"), tref), toff + k) == tk
  inv in && k < it ==> sel(sel(heapof("float64"), tref), toff + k) == 0.0
  inv (forall c: 0 <= c < len(doc) && c != pos && pos - hw <= c && c <= pos + hw ==> doc[c] != w) ==> acc == old(mrow(param, w)[k])
  inv paths(optimizer)
  inv sel(heapof("float64"), tabref(optimizer)) == old(sel(heapof("float64"), tabref(optimizer)))
  inv other != tref && other != ref(param.array) && apart(optimizer, other) ==> sel(heapof("float64"), other) == old(sel(heapof("float64"), other))
  modifies heap("E:float64"), heap("F:pkg/corpus/dictionary/node.Node.cache"), mutil.next
}

contract w2v.(*cbow).dowith(mod, doc, pos, del, param, agg, tmp, fn) {
  inline
}
contract w2v.(*cbow).aggregate(c, ctx, agg, x) {
  inline
}
contract w2v.(*cbow).update(c, ctx, x, tmp) {
  inline
}
contract w2v.(*cbow).trainOne(mod, doc, pos, lr, param, optimizer) {
  props C22
  refines w2v.mod.trainOne
  requires mod != nil && mod.window >= 1 && !g("chclosed", "bool", mod.ch) && 0 <= pos < len(doc) && traindoc(doc, param) && trainopt(optimizer, param)
  given k int, w int, other int
  let in = 0 <= k && k < param.col
  let row = 0 <= w && w < param.row
  ghost hw int = 0
  ghost aref int = 0
  ghost aoff int = 0
  ghost tref int = 0
  ghost toff int = 0
  # context words summed, context words moved, calls of the optimiser
  ghost cnt int = 0
  ghost cnt2 int = 0
  ghost steps int = 0
  # expected component k of the sum, and of word w's vector
  ghost sum real = 0.0
  ghost acc real = mrow(param, w)[k]
  ghost lastid int = 0 - 1
  ghost lastk real = 0.0
  ghost tk real = 0.0
  on recv (ch, v) {
    assert [own-work-vectors] ch == mod.ch && tref == 0
    assume len(v.agg) == param.col && len(v.tmp) == param.col && ref(v.agg) != 0 && ref(v.tmp) != 0 && ref(v.agg) != ref(v.tmp)
    assume ref(v.agg) != ref(param.array) && ref(v.tmp) != ref(param.array) && apart(optimizer, ref(v.agg)) && apart(optimizer, ref(v.tmp))
    set aref = ref(v.agg)
    set aoff = off(v.agg)
    set tref = ref(v.tmp)
    set toff = off(v.tmp)
  }
  on send (ch, v) {
    assert [work-vectors-returned] ch == mod.ch && ref(v.agg) == aref && off(v.agg) == aoff && len(v.agg) == param.col && ref(v.tmp) == tref && off(v.tmp) == toff && len(v.tmp) == param.col
  }
  on call mutil.NextRandom(v)(r) {
    assert [one-draw-per-position] hw == 0 && v == mod.window
    set hw = mod.window - r
  }
  on call matrix.(*Matrix).Slice(m, id)(s) {
    assert [next-context-word] m == param && ctxpos(ctxlo(pos, hw), pos, steps == 0 ? cnt : cnt2) <= ctxhi(doc, pos, hw) && id == doc[ctxpos(ctxlo(pos, hw), pos, steps == 0 ? cnt : cnt2)]
    set lastid = id
    set lastk = mrow(param, id)[k]
    set sum = sum + (steps == 0 ? mrow(param, id)[k] : 0.0)
    set acc = acc + (steps != 0 && id == w ? tk : 0.0)
    set cnt = cnt + (steps == 0 ? 1 : 0)
    set cnt2 = cnt2 + (steps == 0 ? 0 : 1)
  }
  on call w2v.optimizer.optim(o, id, l, ctx, tmp) {
    assert [own-word-once] o == optimizer && id == doc[pos] && l == lr && steps == 0 && 1 <= hw && hw <= mod.window
    assert [sum-of-the-context] cnt == ctxhi(doc, pos, hw) - ctxlo(pos, hw) && ref(ctx) == aref && off(ctx) == aoff && len(ctx) == param.col && (in ==> ctx[k] == sum)
    assert [cleared-correction] ref(tmp) == tref && off(tmp) == toff && len(tmp) == param.col && (in ==> tmp[k] == 0)
  }
  on call w2v.optimizer.optim(o, id, l, ctx, tmp)() {
    set tk = tmp[k]
    set steps = steps + 1
  }
  ensures [every-context-position] steps == 1 && cnt == ctxhi(doc, pos, hw) - ctxlo(pos, hw) && cnt2 == cnt
  ensures [context-words-moved] in && row ==> mrow(param, w)[k] == acc
  ensures [others-unchanged] in && row && (forall c: 0 <= c < len(doc) && c != pos && pos - hw <= c && c <= pos + hw ==> doc[c] != w) ==> mrow(param, w)[k] == old(mrow(param, w)[k])
  ensures [nothing-else] other != aref && other != tref && other != ref(param.array) && apart(optimizer, other) ==> sel(heapof("float64"), other) == old(sel(heapof("float64"), other))
  inv in && k < it ==> sel(sel(heapof("float64"), aref), aoff + k) == 0.0
  inv in && k < it ==> sel(sel(heapof("float64"), tref), toff + k) == 0.0
  inv in ==> sel(sel(heapof("float64"), tref), toff + k) == 0.0
  inv in ==> sel(sel(heapof("float64"), tref), toff + k) == tk
  inv cnt == ctxcnt(ctxlo(pos, hw), ctxhi(doc, pos, hw), pos, pos - hw + it)
  inv cnt2 == ctxcnt(ctxlo(pos, hw), ctxhi(doc, pos, hw), pos, pos - hw + it)
  inv cnt == ctxcnt(ctxlo(pos, hw), ctxhi(doc, pos, hw), pos, pos - hw + it1 + 1)
  inv cnt2 == ctxcnt(ctxlo(pos, hw), ctxhi(doc, pos, hw), pos, pos - hw + it1 + 1)
  inv [c int] cnt == ctxcnt(ctxlo(pos, hw), ctxhi(doc, pos, hw), pos, c)
  inv [c int] cnt2 == ctxcnt(ctxlo(pos, hw), ctxhi(doc, pos, hw), pos, c)
  inv [c int] cnt == ctxcnt(ctxlo(pos, hw), ctxhi(doc, pos, hw), pos, c + 1)
  inv [c int] cnt2 == ctxcnt(ctxlo(pos, hw), ctxhi(doc, pos, hw), pos, c + 1)
  inv in ==> sel(sel(heapof("float64"), aref), aoff + k) == sum
  inv in && k < it ==> sel(sel(heapof("float64"), aref), aoff + k) == sum
  inv in && k >= it ==> sel(sel(heapof("float64"), aref), aoff + k) + lastk == sum
  inv in && row ==> mrow(param, w)[k] == acc
  inv in && row && (lastid != w || k < it) ==> mrow(param, w)[k] == acc
  inv in && row && lastid == w && k >= it ==> mrow(param, w)[k] + tk == acc
  inv (forall c: 0 <= c < len(doc) && c != pos && pos - hw <= c && c <= pos + hw ==> doc[c] != w) ==> acc == old(mrow(param, w)[k])
  inv paths(optimizer)
  inv sel(heapof("float64"), tabref(optimizer)) == old(sel(heapof("float64"), tabref(optimizer)))
  inv other != aref && other != tref && other != ref(param.array) && apart(optimizer, other) ==> sel(heapof("float64"), other) == old(sel(heapof("float64"), other))
  modifies heap("E:float64"), heap("F:pkg/corpus/dictionary/node.Node.cache"), mutil.next
}

contract w2v.newSkipGram(opts)(m) {
  props C22
  requires opts.Goroutines >= 1 && opts.Dim >= 1 && opts.Window >= 1
  ghost sent int = 0
  on send (ch, v) {
    assert [vector-per-thread] fresh(v) && len(v) == opts.Dim && ch != nil
    set sent = sent + 1
  }
  ensures [one-vector-per-thread] sent == opts.Goroutines
  ensures [usable] modok(m) && istype(m, "*w2v.skipGram") && fresh(as(m, "*w2v.skipGram")) && as(m, "*w2v.skipGram").window == opts.Window
  inv sent == it
  modifies nothing
}
contract w2v.newCbow(opts)(m) {
  props C22
  requires opts.Goroutines >= 1 && opts.Dim >= 1 && opts.Window >= 1
  ghost sent int = 0
  on send (ch, v) {
    assert [vectors-per-thread] fresh(v.agg) && len(v.agg) == opts.Dim && fresh(v.tmp) && len(v.tmp) == opts.Dim && ref(v.agg) != ref(v.tmp)
    set sent = sent + 1
  }
  ensures [one-pair-per-thread] sent == opts.Goroutines
  ensures [usable] modok(m) && istype(m, "*w2v.cbow") && fresh(as(m, "*w2v.cbow")) && as(m, "*w2v.cbow").window == opts.Window
  inv sent == it
  modifies nothing
}

# C23 --------------------------------------------------------------------
# learning rate after cnt words: the initial rate linearly decayed at the last multiple
# of the update interval, never below the minimum
macro decayed(min0, init, cnt, n) = max(min0, init * (1.0 - real(cnt) / real(n)))

contract w2v.(*word2vec).observe(w, trained, clk) {
  props C23
  requires w != nil && corpuswf(w.corpus) && w.verbose != nil && w.opts.LogBatch >= 1 && w.opts.UpdateLRBatch >= 1 && clk != nil
  requires w.opts.MinLR <= w.opts.Initlr && w.opts.Initlr >= 0 && w.opts.MinLR <= w.currentlr && w.currentlr <= w.opts.Initlr
  let n = lenof(w.corpus)
  let b = w.opts.UpdateLRBatch
  ghost words int = 0
  ghost stores int = 0
  on recv (ch, v) {
    assert [current-before-next] ch == trained && w.currentlr == (words - words % b == 0 ? old(w.currentlr) : decayed(w.opts.MinLR, w.opts.Initlr, words - words % b, n))
    assert [always-in-range] w.opts.MinLR <= w.currentlr && w.currentlr <= w.opts.Initlr
    # a signal is sent for a word of the corpus
    assume n >= 1
    set words = words + 1
  }
  on store w2v.word2vec.currentlr (o, v) {
    assert [always-in-range] o == w && w.opts.MinLR <= v && v <= w.opts.Initlr
    assert [only-at-multiples] words % b == 0 && words >= 1 && v == decayed(w.opts.MinLR, w.opts.Initlr, words, n)
    set stores = stores + 1
  }
  ensures [never-outside] w.opts.MinLR <= w.currentlr && w.currentlr <= w.opts.Initlr
  inv [c int] c == words && words >= 0
  inv w.currentlr == (words - words % b == 0 ? old(w.currentlr) : decayed(w.opts.MinLR, w.opts.Initlr, words - words % b, n))
  inv w.opts.MinLR <= w.currentlr && w.currentlr <= w.opts.Initlr
  modifies w.currentlr
}

# C06, C22, C23: the training loop -----------------------------------------
macro w2vwf(w) = w != nil && corpuswf(w.corpus) && dicof(w.corpus) != nil && dicof(w.corpus).maxid >= 1 && matwf(w.param) && w.param.row == dicof(w.corpus).maxid && w.param.col == w.opts.Dim && modok(w.mod) && trainopt(w.optimizer, w.param) && subwf(w.subsampler, w.param.row)
macro w2vdoc(w, doc) = forall i: 0 <= i < len(doc) ==> 0 <= doc[i] < w.param.row
macro lrok(w) = w.opts.MinLR <= w.opts.Initlr && w.opts.Initlr >= 0 && w.opts.MinLR <= w.currentlr && w.currentlr <= w.opts.Initlr

contract w2v.(*word2vec).trainPerThread(w, doc, trained, sem, wg)(err) {
  props C06 C22 C23
  requires w2vwf(w) && w2vdoc(w, doc) && trained != nil && sem != nil && wg != nil
  requires !g("chclosed", "bool", trained)
  ghost seen int = 0
  ghost sent int = 0
  on call subsample.(*Subsampler).Trial(s, id) {
    assert [in-order-each-once] seen < len(doc) && id == doc[seen] && s == w.subsampler
    set seen = seen + 1
  }
  on call w2v.mod.trainOne(m, d, pos, lr, p, o) {
    assert [trains-at-its-position] m == w.mod && pos == seen - 1 && ref(d) == ref(doc) && off(d) == off(doc) && len(d) == len(doc) && p == w.param && o == w.optimizer
    assert [current-rate] lr == w.currentlr
  }
  on send (ch, v) {
    assert [reported-after-training] ch == trained && seen == sent + 1
    set sent = sent + 1
  }
  ensures [all-elements] err == nil ==> seen == len(doc) && sent == len(doc)
  inv seen == it && sent == it
  inv paths(w.optimizer)
  inv sel(heapof("float64"), tabref(w.optimizer)) == old(sel(heapof("float64"), tabref(w.optimizer)))
  modifies heap("E:float64"), heap("F:pkg/corpus/dictionary/node.Node.cache"), mutil.next
}

contract w2v.(*word2vec).train(w)(err) {
  props C06 C22 C23
  requires w2vwf(w) && lrok(w) && w.verbose != nil && w.opts.LogBatch >= 1 && w.opts.UpdateLRBatch >= 1 && 1 <= w.opts.Goroutines <= 1000000000
  requires corpusids(w.corpus, w.param.row)
  ghost started int = 0
  ghost base int = 0
  ghost first int = 0
  ghost total int = 0
  ghost watching int = 0
  on call corpus.Corpus.IndexedDoc(c)(doc) {
    # no memory holds more words
    assume len(doc) <= 4000000000000000
    set base = ref(doc)
    set first = off(doc)
    set total = len(doc)
  }
  on go w2v.(*word2vec).observe(w1, ch, clk) {
    assert [one-observer] w1 == w && watching == 0
    set watching = id(ch)
  }
  on go w2v.(*word2vec).trainPerThread(w2, doc, ch, sem, wg) {
    assert [own-range] w2 == w && ref(doc) == base && off(doc) == first + part(started, w.opts.Goroutines, total) && off(doc) + len(doc) == first + part(started + 1, w.opts.Goroutines, total)
    assert [reports-to-the-observer] id(ch) == watching
    set started = started + 1
  }
  on call sync.(*WaitGroup).Wait(wg) {
    assert [every-range-started] started == w.opts.Goroutines
    set started = 0
  }
  on close (ch) {
    assert [observer-ended-after-the-workers] started == 0 && id(ch) == watching
    set watching = 0
  }
  inv started == 0 && watching == 0
  inv started == it
  modifies nothing
}

contract w2v.(*word2vec).batchTrain(w)(err) {
  props C06 C22 C23
  requires w2vwf(w) && lrok(w) && w.verbose != nil && w.opts.LogBatch >= 1 && w.opts.UpdateLRBatch >= 1 && 1 <= w.opts.Goroutines <= 1000000000 && w.opts.BatchSize >= 1
  requires corpusids(w.corpus, w.param.row)
  ghost started int = 0
  ghost got int = 0
  ghost pend int = 0
  ghost batches int = 0
  ghost inch int = 0
  ghost watching int = 0
  on go w2v.(*word2vec).observe(w1, ch, clk) {
    assert [one-observer] w1 == w && watching == 0
    set watching = id(ch)
  }
  on go corpus.Corpus.BatchWords(c, ch, size) {
    assert [one-reader] c == w.corpus && size == w.opts.BatchSize && batches == 0
    set batches = 1
    set inch = id(ch)
  }
  on recv (ch, v) {
    assert [batch-in-order] id(ch) == inch && pend == 0
    assume w2vdoc(w, v)
    set pend = 1
    set got = ref(v)
  }
  on go w2v.(*word2vec).trainPerThread(w2, doc, ch, sem, wg) {
    assert [each-batch-once] w2 == w && pend == 1 && ref(doc) == got
    assert [reports-to-the-observer] id(ch) == watching
    set pend = 0
  }
  on call sync.(*WaitGroup).Wait(wg) {
    assert [every-batch-started] pend == 0 && batches == 1
    set batches = 0
  }
  on close (ch) {
    assert [observer-ended-after-the-workers] batches == 0 && id(ch) == watching
    set watching = 0
  }
  inv pend == 0 && batches == 0 && watching == 0
  inv pend == 0 && batches == 1 && watching == entry(watching) && inch == entry(inch)
  modifies nothing
}
