# C14, C15: GloVe.
alias glove = pkg/model/glove

# C15 --------------------------------------------------------------------
macro gstep(v1, v2, d, f, coef, lr) = (dotp(v1, v2, d) + v1[d] + v2[d] - f) * (coef * lr)

contract glove.(*stochastic).trainOne(sol, l1, l2, param, f, coef) {
  props C15
  requires matwf(param) && param.col >= 1 && 0 <= l1 < param.row && 0 <= l2 < param.row && l1 != l2
  let v1 = mrow(param, l1)
  let v2 = mrow(param, l2)
  let d = param.col - 1
  let g = old(gstep(v1, v2, d, f, coef, sol.initlr))
  ensures [first-row] forall i: 0 <= i < d ==> v1[i] == old(v1[i]) - g * old(v2[i])
  ensures [second-row] forall i: 0 <= i < d ==> v2[i] == old(v2[i]) - g * old(v1[i])
  ensures [biases] v1[d] == old(v1[d]) - g && v2[d] == old(v2[d]) - g
  inv [s float64] s == dotp(v1, v2, it)
  inv [s float64] s == g
  inv forall i: 0 <= i < it ==> v1[i] == old(v1[i]) - g * old(v2[i]) && v2[i] == old(v2[i]) - g * old(v1[i])
  inv forall i: it <= i <= d ==> v1[i] == old(v1[i]) && v2[i] == old(v2[i])
  modifies v1[*], v2[*]
}
contract glove.(*adaGrad).trainOne(sol, l1, l2, param, f, coef) {
  props C15
  requires matwf(param) && param.col >= 1 && 0 <= l1 < param.row && 0 <= l2 < param.row && l1 != l2
  requires matwf(sol.gradsq) && sol.gradsq.row == param.row && sol.gradsq.col == param.col && ref(sol.gradsq.array) != ref(param.array)
  let v1 = mrow(param, l1)
  let v2 = mrow(param, l2)
  let q1 = mrow(sol.gradsq, l1)
  let q2 = mrow(sol.gradsq, l2)
  let d = param.col - 1
  let g = old(gstep(v1, v2, d, f, coef, sol.initlr))
  ensures [first-row] forall i: 0 <= i < d ==> q1[i] == old(q1[i]) + (g * old(v2[i])) * (g * old(v2[i])) && v1[i] == old(v1[i]) - g * old(v2[i]) / sqrt(q1[i])
  ensures [second-row] forall i: 0 <= i < d ==> q2[i] == old(q2[i]) + (g * old(v1[i])) * (g * old(v1[i])) && v2[i] == old(v2[i]) - g * old(v1[i]) / sqrt(q2[i])
  ensures [biases] v1[d] == old(v1[d] - g / sqrt(q1[d])) && v2[d] == old(v2[d] - g / sqrt(q2[d])) && q1[d] == old(q1[d]) + g * g && q2[d] == old(q2[d]) + g * g
  ensures [accumulators-grow] forall i: 0 <= i <= d ==> q1[i] >= old(q1[i]) && q2[i] >= old(q2[i])
  inv [s float64] s == dotp(v1, v2, it)
  inv [s float64] s == g
  inv forall i: 0 <= i < it ==> q1[i] == old(q1[i]) + (g * old(v2[i])) * (g * old(v2[i]))
  inv forall i: 0 <= i < it ==> q2[i] == old(q2[i]) + (g * old(v1[i])) * (g * old(v1[i]))
  inv forall i: 0 <= i < it ==> v1[i] == old(v1[i]) - g * old(v2[i]) / sqrt(q1[i])
  inv forall i: 0 <= i < it ==> v2[i] == old(v2[i]) - g * old(v1[i]) / sqrt(q2[i])
  inv forall i: 0 <= i <= d ==> q1[i] >= old(q1[i])
  inv forall i: 0 <= i <= d ==> q2[i] >= old(q2[i])
  inv forall i: it <= i <= d ==> v1[i] == old(v1[i])
  inv forall i: it <= i <= d ==> v2[i] == old(v2[i])
  inv forall i: it <= i <= d ==> q1[i] == old(q1[i])
  inv forall i: it <= i <= d ==> q2[i] == old(q2[i])
  modifies v1[*], v2[*], q1[*], q2[*]
}

# C14 --------------------------------------------------------------------
contract glove.(*glove).makeItems(g, cooc)(res) {
  props C14
  requires cooc != nil && cooc.ma != nil && g.verbose != nil && g.opts.LogBatch >= 1
  let em = old(cooc.ma)
  let xmax = real(g.opts.Xmax)
  ensures [one-per-pair] len(res) == len(em)
  ensures [recorded-pairs] forall i: 0 <= i < len(res) ==> 0 <= res[i].l1 < 4294967296 && 0 <= res[i].l2 < 4294967296 && (res[i].l1 + res[i].l2 * 4294967296) in em
  ensures [distinct] forall i, j: 0 <= i < j && j < len(res) ==> res[i].l1 != res[j].l1 || res[i].l2 != res[j].l2
  ensures [targets] forall i: 0 <= i < len(res) ==> res[i].f == log(em[res[i].l1 + res[i].l2 * 4294967296])
  ensures [weights] forall i: 0 <= i < len(res) ==> res[i].coef == (em[res[i].l1 + res[i].l2 * 4294967296] < xmax ? pow(em[res[i].l1 + res[i].l2 * 4294967296] / xmax, g.opts.Alpha) : 1)
  inv [r []glove.item] forall i: 0 <= i < it ==> 0 <= r[i].l1 < 4294967296 && 0 <= r[i].l2 < 4294967296 && (r[i].l1 + r[i].l2 * 4294967296) in em
  inv [r []glove.item] forall i: 0 <= i < it ==> visited(r[i].l1 + r[i].l2 * 4294967296)
  inv [r []glove.item] forall i, j: 0 <= i < j && j < it ==> r[i].l1 != r[j].l1 || r[i].l2 != r[j].l2
  inv [r []glove.item] forall i: 0 <= i < it ==> r[i].f == log(em[r[i].l1 + r[i].l2 * 4294967296])
  inv [r []glove.item] forall i: 0 <= i < it ==> r[i].coef == (em[r[i].l1 + r[i].l2 * 4294967296] < xmax ? pow(em[r[i].l1 + r[i].l2 * 4294967296] / xmax, g.opts.Alpha) : 1)
  inv [r []glove.item] len(r) == len(em)
  modifies nothing
}

# C06, C14, C15: the training loop -----------------------------------------
macro solverwf(s, p) = istype(s, "*glove.stochastic") && as(s, "*glove.stochastic") != nil ||
  istype(s, "*glove.adaGrad") && as(s, "*glove.adaGrad") != nil && matwf(as(s, "*glove.adaGrad").gradsq) && as(s, "*glove.adaGrad").gradsq.row == p.row && as(s, "*glove.adaGrad").gradsq.col == p.col && ref(as(s, "*glove.adaGrad").gradsq.array) != ref(p.array)

iface glove.solver.trainOne(s, l1, l2, param, f, coef) {
  requires matwf(param) && param.col >= 1 && 0 <= l1 < param.row && 0 <= l2 < param.row && l1 != l2
  requires solverwf(s, param)
  modifies heap("E:float64")
}
macro glovewf(g) = g != nil && corpuswf(g.corpus) && dicof(g.corpus) != nil && dicof(g.corpus).maxid >= 0 && matwf(g.param) && g.param.row == 2 * dicof(g.corpus).maxid && g.param.col >= 1 && solverwf(g.solver, g.param)

contract glove.(*glove).trainPerThread(g, items, trained, sem, wg)(err) {
  props C06 C15
  requires glovewf(g) && trained != nil && sem != nil && wg != nil
  let n = dicof(g.corpus).maxid
  requires !g("chclosed", "bool", trained)
  requires forall i: 0 <= i < len(items) ==> 0 <= items[i].l1 < n && 0 <= items[i].l2 < n
  ghost steps int = 0
  ghost sent int = 0
  on call glove.solver.trainOne(s, l1, l2, p, f, c) {
    assert [in-order-each-once] steps < 2 * len(items)
    assert [item-in-both-directions] (steps % 2 == 0 ? l1 == items[idiv(steps, 2)].l1 && l2 == items[idiv(steps, 2)].l2 + n : l1 == items[idiv(steps, 2)].l1 + n && l2 == items[idiv(steps, 2)].l2)
    assert [own-target-and-weight] f == items[idiv(steps, 2)].f && c == items[idiv(steps, 2)].coef && p == g.param && s == g.solver
    set steps = steps + 1
  }
  on send (ch, v) {
    assert [reported-after-training] ch == trained && steps == 2 * (sent + 1)
    set sent = sent + 1
  }
  ensures [all-items] err == nil ==> steps == 2 * len(items) && sent == len(items)
  inv steps == 2 * it && sent == it
  modifies heap("E:float64")
}
contract glove.(*glove).train(g)(err) {
  props C06 C14 C15
  requires glovewf(g) && g.verbose != nil && g.opts.LogBatch >= 1 && 1 <= g.opts.Goroutines <= 1000000000
  requires coocof(g.corpus) != nil && coocof(g.corpus).ma != nil && len(coocof(g.corpus).ma) <= 4000000000000000
  requires forall k: k in coocof(g.corpus).ma ==> (exists a, b: 0 <= a < dicof(g.corpus).maxid && 0 <= b < dicof(g.corpus).maxid && k == a + b * 4294967296)
  ghost started int = 0
  ghost base int = 0
  ghost first int = 0
  ghost total int = 0
  on call glove.(*glove).makeItems(g1, cooc)(its) {
    set base = ref(its)
    set first = off(its)
    set total = len(its)
  }
  on go glove.(*glove).trainPerThread(g2, its, ch, sem, wg) {
    assert [own-range] ref(its) == base && off(its) == first + part(started, g.opts.Goroutines, total) && off(its) + len(its) == first + part(started + 1, g.opts.Goroutines, total)
    set started = started + 1
  }
  on call sync.(*WaitGroup).Wait(wg) {
    assert [every-range-started] started == g.opts.Goroutines
    set started = 0
  }
  inv started == 0
  inv started == it
  modifies heap("E:float64")
}

# C26 --------------------------------------------------------------------

contract glove.(*glove).WordVector(g, typ)(m) {
  props C26
  requires corpuswf(g.corpus) && dicof(g.corpus) != nil && dicof(g.corpus).maxid >= 0 && matwf(g.param)
  requires g.opts.Dim >= 1 && g.param.row == 2 * dicof(g.corpus).maxid && g.param.col == g.opts.Dim + 1
  given w int, k int
  let n = dicof(g.corpus).maxid
  ensures [one-row-per-word] matwf(m) && m.row == n && m.col == g.opts.Dim
  ensures [own-storage] fresh(m) && fresh(m.array)
  ensures [single] typ != vector.Agg && 0 <= w < n && 0 <= k < g.opts.Dim ==> mrow(m, w)[k] == mrow(g.param, w)[k]
  ensures [sum] typ == vector.Agg && 0 <= w < n && 0 <= k < g.opts.Dim ==> mrow(m, w)[k] == mrow(g.param, w)[k] + mrow(g.param, w + n)[k]
  inv [m *matrix.Matrix] typ != vector.Agg && 0 <= w < it && 0 <= k < g.opts.Dim ==> mrow(m, w)[k] == mrow(g.param, w)[k]
  inv [m *matrix.Matrix] typ == vector.Agg && 0 <= w < it && 0 <= k < g.opts.Dim ==> mrow(m, w)[k] == mrow(g.param, w)[k] + mrow(g.param, w + n)[k]
  inv [v []float64] typ != vector.Agg && off(v) == w * g.opts.Dim && 0 <= w < n && 0 <= k < it ==> v[k] == mrow(g.param, w)[k]
  inv [v []float64] typ == vector.Agg && off(v) == w * g.opts.Dim && 0 <= w < n && 0 <= k < it ==> v[k] == mrow(g.param, w)[k] + mrow(g.param, w + n)[k]
  modifies nothing
}
