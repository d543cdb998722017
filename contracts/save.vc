# C08: the text of a saved model.
rec comps(t text, s []float64, n int) text = n <= 0 ? t : tchar(tf6(comps(t, s, n - 1), s[n-1]), " ")
rec filetext(d *dict.Dictionary, m *matrix.Matrix, n int) text =
   n <= 0 ? tempty() : tchar(comps(tchar(tstr(filetext(d, m, n - 1), d.id2word[n-1]), " "), mrow(m, n - 1), m.col), "\n")

contract vector.Save(f, dic, mat, verbose, logBatch)(err) {
  props C08
  requires dictwf(dic) && dic.maxid >= 0 && matwf(mat) && logBatch >= 1
  ensures [sizes-must-agree] dic.maxid != mat.row ==> err != nil && out(f) == old(out(f))
  ensures [complete-or-error] err == nil ==> out(f) == tapp(old(out(f)), filetext(dic, mat, dic.maxid))
  inv [b *bytes.Buffer, i int] i == it && g("btext", "text", b) == filetext(dic, mat, it)
  inv [b *bytes.Buffer, i int] 0 <= i < dic.maxid && g("btext", "text", b) == comps(tchar(tstr(filetext(dic, mat, i), dic.id2word[i]), " "), mrow(mat, i), it)
  modifies g("out", "text", f)
}
contract w2v.(*word2vec).Save(g, f, typ)(err) {
  props C08
  requires corpuswf(g.corpus) && dictwf(dicof(g.corpus)) && dicof(g.corpus).maxid >= 0 && matwf(g.param) && g.opts.LogBatch >= 1
  requires g.opts.Dim >= 1 && g.param.row == dicof(g.corpus).maxid && g.param.col == g.opts.Dim
  requires isneg(g.optimizer) ==> as(g.optimizer, "*w2v.negativeSampling") != nil && matwf(ctxof(g.optimizer)) && ctxof(g.optimizer).row == g.param.row && ctxof(g.optimizer).col == g.param.col
  ghost want text
  ghost asked bool = false
  ghost saved bool = false
  on call w2v.(*word2vec).WordVector(g0, t)(m) {
    assert [of-this-model-and-kind] g0 == g && t == typ
    set want = filetext(dicof(g.corpus), m, dicof(g.corpus).maxid)
    set asked = true
  }
  on call vector.Save(f0, d, m, v, lb) {
    assert [the-exported-table] asked && filetext(d, m, d.maxid) == want
  }
  ensures [complete-or-error] err == nil ==> asked && out(f) == tapp(old(out(f)), want)
  modifies g("out", "text", f)
}
contract glove.(*glove).Save(g, f, typ)(err) {
  props C08
  requires corpuswf(g.corpus) && dictwf(dicof(g.corpus)) && dicof(g.corpus).maxid >= 0 && matwf(g.param) && g.opts.LogBatch >= 1
  requires g.opts.Dim >= 1 && g.param.row == 2 * dicof(g.corpus).maxid && g.param.col == g.opts.Dim + 1
  ghost want text
  ghost asked bool = false
  ghost saved bool = false
  on call glove.(*glove).WordVector(g0, t)(m) {
    assert [of-this-model-and-kind] g0 == g && t == typ
    set want = filetext(dicof(g.corpus), m, dicof(g.corpus).maxid)
    set asked = true
  }
  on call vector.Save(f0, d, m, v, lb) {
    assert [the-exported-table] asked && filetext(d, m, d.maxid) == want
  }
  ensures [complete-or-error] err == nil ==> asked && out(f) == tapp(old(out(f)), want)
  modifies g("out", "text", f)
}
contract lexvec.(*lexvec).Save(g, f, typ)(err) {
  props C08
  requires corpuswf(g.corpus) && dictwf(dicof(g.corpus)) && dicof(g.corpus).maxid >= 0 && matwf(g.param) && g.opts.LogBatch >= 1
  requires g.opts.Dim >= 1 && g.param.row == 2 * dicof(g.corpus).maxid && g.param.col == g.opts.Dim
  ghost want text
  ghost asked bool = false
  ghost saved bool = false
  on call lexvec.(*lexvec).WordVector(g0, t)(m) {
    assert [of-this-model-and-kind] g0 == g && t == typ
    set want = filetext(dicof(g.corpus), m, dicof(g.corpus).maxid)
    set asked = true
  }
  on call vector.Save(f0, d, m, v, lb) {
    assert [the-exported-table] asked && filetext(d, m, d.maxid) == want
  }
  ensures [complete-or-error] err == nil ==> asked && out(f) == tapp(old(out(f)), want)
  modifies g("out", "text", f)
}
