# C27: the training commands and their files.
alias cmdw2v = cmd/model/word2vec
alias cmdglove = cmd/model/glove
alias cmdlexvec = cmd/model/lexvec
alias model = pkg/model

# Nothing is assumed about training and saving, except that they return.
iface model.Model.Train(m, r)(err) {
  modifies any
}
iface model.Model.Save(m, w, t)(err) {
  modifies any
}
contract w2v.NewForOptions(opts)(m, err) {
  props C25 C27
  ensures [made] err == nil && m != nil && fresh(m)
  checks [own-implementation] istype(m, "*w2v.word2vec")
  checks [uses-the-given-BatchSize] as(m, "*w2v.word2vec").opts.BatchSize == opts.BatchSize
  checks [uses-the-given-Dim] as(m, "*w2v.word2vec").opts.Dim == opts.Dim
  checks [uses-the-given-DocInMemory] as(m, "*w2v.word2vec").opts.DocInMemory == opts.DocInMemory
  checks [uses-the-given-Goroutines] as(m, "*w2v.word2vec").opts.Goroutines == opts.Goroutines
  checks [uses-the-given-Initlr] as(m, "*w2v.word2vec").opts.Initlr == opts.Initlr
  checks [uses-the-given-Iter] as(m, "*w2v.word2vec").opts.Iter == opts.Iter
  checks [uses-the-given-LogBatch] as(m, "*w2v.word2vec").opts.LogBatch == opts.LogBatch
  checks [uses-the-given-MaxCount] as(m, "*w2v.word2vec").opts.MaxCount == opts.MaxCount
  checks [uses-the-given-MaxDepth] as(m, "*w2v.word2vec").opts.MaxDepth == opts.MaxDepth
  checks [uses-the-given-MinCount] as(m, "*w2v.word2vec").opts.MinCount == opts.MinCount
  checks [uses-the-given-MinLR] as(m, "*w2v.word2vec").opts.MinLR == opts.MinLR
  checks [uses-the-given-ModelType] as(m, "*w2v.word2vec").opts.ModelType == opts.ModelType
  checks [uses-the-given-NegativeSampleSize] as(m, "*w2v.word2vec").opts.NegativeSampleSize == opts.NegativeSampleSize
  checks [uses-the-given-OptimizerType] as(m, "*w2v.word2vec").opts.OptimizerType == opts.OptimizerType
  checks [uses-the-given-SubsampleThreshold] as(m, "*w2v.word2vec").opts.SubsampleThreshold == opts.SubsampleThreshold
  checks [uses-the-given-ToLower] as(m, "*w2v.word2vec").opts.ToLower == opts.ToLower
  checks [uses-the-given-UpdateLRBatch] as(m, "*w2v.word2vec").opts.UpdateLRBatch == opts.UpdateLRBatch
  checks [uses-the-given-Verbose] as(m, "*w2v.word2vec").opts.Verbose == opts.Verbose
  checks [uses-the-given-Window] as(m, "*w2v.word2vec").opts.Window == opts.Window
  modifies nothing
}
contract cmdw2v.execute(opts)(err) {
  props C27
  given path string
  let outp = old(cmdw2v.outputFile)
  let inp = old(cmdw2v.inputFile)
  let oe = old(exists_file(cmdw2v.outputFile))
  let ie = old(exists_file(cmdw2v.inputFile))
  ghost made bool = false
  ghost outf int = 0
  ghost inf int = 0
  ghost trained bool = false
  ghost saved bool = false
  on call os.MkdirAll(p, perm) {
    assert [only-after-both-checks] !oe && ie
    assert [directory-of-the-output] p == dirof(outp)
  }
  on call os.Create(p) {
    assert [only-after-both-checks] !oe && ie
    assert [the-named-output] p == outp || p == "cpu.prof" && cmdw2v.prof
  }
  on call os.Create(p)(f, e) {
    set outf = p == outp && e == nil ? ref(f) : outf
    set made = made || p == outp && e == nil
  }
  on call os.Open(p) {
    assert [only-after-both-checks] !oe && ie
    assert [the-named-input] p == inp
  }
  on call os.Open(p)(f, e) {
    set inf = e == nil ? ref(f) : inf
  }
  on call w2v.NewForOptions(o) {
    assert [configured-BatchSize] o.BatchSize == opts.BatchSize
    assert [configured-Dim] o.Dim == opts.Dim
    assert [configured-DocInMemory] o.DocInMemory == opts.DocInMemory
    assert [configured-Goroutines] o.Goroutines == opts.Goroutines
    assert [configured-Initlr] o.Initlr == opts.Initlr
    assert [configured-Iter] o.Iter == opts.Iter
    assert [configured-LogBatch] o.LogBatch == opts.LogBatch
    assert [configured-MaxCount] o.MaxCount == opts.MaxCount
    assert [configured-MaxDepth] o.MaxDepth == opts.MaxDepth
    assert [configured-MinCount] o.MinCount == opts.MinCount
    assert [configured-MinLR] o.MinLR == opts.MinLR
    assert [configured-ModelType] o.ModelType == opts.ModelType
    assert [configured-NegativeSampleSize] o.NegativeSampleSize == opts.NegativeSampleSize
    assert [configured-OptimizerType] o.OptimizerType == opts.OptimizerType
    assert [configured-SubsampleThreshold] o.SubsampleThreshold == opts.SubsampleThreshold
    assert [configured-ToLower] o.ToLower == opts.ToLower
    assert [configured-UpdateLRBatch] o.UpdateLRBatch == opts.UpdateLRBatch
    assert [configured-Verbose] o.Verbose == opts.Verbose
    assert [configured-Window] o.Window == opts.Window
  }
  on call model.Model.Train(m, r) {
    assert [output-created-first] made
    assert [trains-on-the-input] inf != 0 && ref(r) == inf
    assert [once] !trained && !saved
  }
  on call model.Model.Train(m, r)(e) {
    set trained = e == nil
  }
  on call model.Model.Save(m, w, t) {
    assert [after-training] trained
    assert [saves-to-the-output] outf != 0 && ref(w) == outf
  }
  on call model.Model.Save(m, w, t)(e) {
    set saved = e == nil
  }
  ensures [existing-output-fails] oe ==> err != nil
  ensures [missing-input-fails] !ie ==> err != nil
  ensures [errors-returned] err == nil ==> made && trained && saved
  modifies any
}
contract glove.NewForOptions(opts)(m, err) {
  props C25 C27
  ensures [made] err == nil && m != nil && fresh(m)
  checks [own-implementation] istype(m, "*glove.glove")
  checks [uses-the-given-Alpha] as(m, "*glove.glove").opts.Alpha == opts.Alpha
  checks [uses-the-given-BatchSize] as(m, "*glove.glove").opts.BatchSize == opts.BatchSize
  checks [uses-the-given-CountType] as(m, "*glove.glove").opts.CountType == opts.CountType
  checks [uses-the-given-Dim] as(m, "*glove.glove").opts.Dim == opts.Dim
  checks [uses-the-given-DocInMemory] as(m, "*glove.glove").opts.DocInMemory == opts.DocInMemory
  checks [uses-the-given-Goroutines] as(m, "*glove.glove").opts.Goroutines == opts.Goroutines
  checks [uses-the-given-Initlr] as(m, "*glove.glove").opts.Initlr == opts.Initlr
  checks [uses-the-given-Iter] as(m, "*glove.glove").opts.Iter == opts.Iter
  checks [uses-the-given-LogBatch] as(m, "*glove.glove").opts.LogBatch == opts.LogBatch
  checks [uses-the-given-MaxCount] as(m, "*glove.glove").opts.MaxCount == opts.MaxCount
  checks [uses-the-given-MinCount] as(m, "*glove.glove").opts.MinCount == opts.MinCount
  checks [uses-the-given-SolverType] as(m, "*glove.glove").opts.SolverType == opts.SolverType
  checks [uses-the-given-SubsampleThreshold] as(m, "*glove.glove").opts.SubsampleThreshold == opts.SubsampleThreshold
  checks [uses-the-given-ToLower] as(m, "*glove.glove").opts.ToLower == opts.ToLower
  checks [uses-the-given-Verbose] as(m, "*glove.glove").opts.Verbose == opts.Verbose
  checks [uses-the-given-Window] as(m, "*glove.glove").opts.Window == opts.Window
  checks [uses-the-given-Xmax] as(m, "*glove.glove").opts.Xmax == opts.Xmax
  modifies nothing
}
contract cmdglove.execute(opts)(err) {
  props C27
  given path string
  let outp = old(cmdglove.outputFile)
  let inp = old(cmdglove.inputFile)
  let oe = old(exists_file(cmdglove.outputFile))
  let ie = old(exists_file(cmdglove.inputFile))
  ghost made bool = false
  ghost outf int = 0
  ghost inf int = 0
  ghost trained bool = false
  ghost saved bool = false
  on call os.MkdirAll(p, perm) {
    assert [only-after-both-checks] !oe && ie
    assert [directory-of-the-output] p == dirof(outp)
  }
  on call os.Create(p) {
    assert [only-after-both-checks] !oe && ie
    assert [the-named-output] p == outp || p == "cpu.prof" && cmdglove.prof
  }
  on call os.Create(p)(f, e) {
    set outf = p == outp && e == nil ? ref(f) : outf
    set made = made || p == outp && e == nil
  }
  on call os.Open(p) {
    assert [only-after-both-checks] !oe && ie
    assert [the-named-input] p == inp
  }
  on call os.Open(p)(f, e) {
    set inf = e == nil ? ref(f) : inf
  }
  on call glove.NewForOptions(o) {
    assert [configured-Alpha] o.Alpha == opts.Alpha
    assert [configured-BatchSize] o.BatchSize == opts.BatchSize
    assert [configured-CountType] o.CountType == opts.CountType
    assert [configured-Dim] o.Dim == opts.Dim
    assert [configured-DocInMemory] o.DocInMemory == opts.DocInMemory
    assert [configured-Goroutines] o.Goroutines == opts.Goroutines
    assert [configured-Initlr] o.Initlr == opts.Initlr
    assert [configured-Iter] o.Iter == opts.Iter
    assert [configured-LogBatch] o.LogBatch == opts.LogBatch
    assert [configured-MaxCount] o.MaxCount == opts.MaxCount
    assert [configured-MinCount] o.MinCount == opts.MinCount
    assert [configured-SolverType] o.SolverType == opts.SolverType
    assert [configured-SubsampleThreshold] o.SubsampleThreshold == opts.SubsampleThreshold
    assert [configured-ToLower] o.ToLower == opts.ToLower
    assert [configured-Verbose] o.Verbose == opts.Verbose
    assert [configured-Window] o.Window == opts.Window
    assert [configured-Xmax] o.Xmax == opts.Xmax
  }
  on call model.Model.Train(m, r) {
    assert [output-created-first] made
    assert [trains-on-the-input] inf != 0 && ref(r) == inf
    assert [once] !trained && !saved
  }
  on call model.Model.Train(m, r)(e) {
    set trained = e == nil
  }
  on call model.Model.Save(m, w, t) {
    assert [after-training] trained
    assert [saves-to-the-output] outf != 0 && ref(w) == outf
  }
  on call model.Model.Save(m, w, t)(e) {
    set saved = e == nil
  }
  ensures [existing-output-fails] oe ==> err != nil
  ensures [missing-input-fails] !ie ==> err != nil
  ensures [errors-returned] err == nil ==> made && trained && saved
  modifies any
}
contract lexvec.NewForOptions(opts)(m, err) {
  props C25 C27
  ensures [made] err == nil && m != nil && fresh(m)
  checks [own-implementation] istype(m, "*lexvec.lexvec")
  checks [uses-the-given-BatchSize] as(m, "*lexvec.lexvec").opts.BatchSize == opts.BatchSize
  checks [uses-the-given-Dim] as(m, "*lexvec.lexvec").opts.Dim == opts.Dim
  checks [uses-the-given-DocInMemory] as(m, "*lexvec.lexvec").opts.DocInMemory == opts.DocInMemory
  checks [uses-the-given-Goroutines] as(m, "*lexvec.lexvec").opts.Goroutines == opts.Goroutines
  checks [uses-the-given-Initlr] as(m, "*lexvec.lexvec").opts.Initlr == opts.Initlr
  checks [uses-the-given-Iter] as(m, "*lexvec.lexvec").opts.Iter == opts.Iter
  checks [uses-the-given-LogBatch] as(m, "*lexvec.lexvec").opts.LogBatch == opts.LogBatch
  checks [uses-the-given-MaxCount] as(m, "*lexvec.lexvec").opts.MaxCount == opts.MaxCount
  checks [uses-the-given-MinCount] as(m, "*lexvec.lexvec").opts.MinCount == opts.MinCount
  checks [uses-the-given-MinLR] as(m, "*lexvec.lexvec").opts.MinLR == opts.MinLR
  checks [uses-the-given-NegativeSampleSize] as(m, "*lexvec.lexvec").opts.NegativeSampleSize == opts.NegativeSampleSize
  checks [uses-the-given-RelationType] as(m, "*lexvec.lexvec").opts.RelationType == opts.RelationType
  checks [uses-the-given-Smooth] as(m, "*lexvec.lexvec").opts.Smooth == opts.Smooth
  checks [uses-the-given-SubsampleThreshold] as(m, "*lexvec.lexvec").opts.SubsampleThreshold == opts.SubsampleThreshold
  checks [uses-the-given-ToLower] as(m, "*lexvec.lexvec").opts.ToLower == opts.ToLower
  checks [uses-the-given-UpdateLRBatch] as(m, "*lexvec.lexvec").opts.UpdateLRBatch == opts.UpdateLRBatch
  checks [uses-the-given-Verbose] as(m, "*lexvec.lexvec").opts.Verbose == opts.Verbose
  checks [uses-the-given-Window] as(m, "*lexvec.lexvec").opts.Window == opts.Window
  modifies nothing
}
contract cmdlexvec.execute(opts)(err) {
  props C27
  given path string
  let outp = old(cmdlexvec.outputFile)
  let inp = old(cmdlexvec.inputFile)
  let oe = old(exists_file(cmdlexvec.outputFile))
  let ie = old(exists_file(cmdlexvec.inputFile))
  ghost made bool = false
  ghost outf int = 0
  ghost inf int = 0
  ghost trained bool = false
  ghost saved bool = false
  on call os.MkdirAll(p, perm) {
    assert [only-after-both-checks] !oe && ie
    assert [directory-of-the-output] p == dirof(outp)
  }
  on call os.Create(p) {
    assert [only-after-both-checks] !oe && ie
    assert [the-named-output] p == outp || p == "cpu.prof" && cmdlexvec.prof
  }
  on call os.Create(p)(f, e) {
    set outf = p == outp && e == nil ? ref(f) : outf
    set made = made || p == outp && e == nil
  }
  on call os.Open(p) {
    assert [only-after-both-checks] !oe && ie
    assert [the-named-input] p == inp
  }
  on call os.Open(p)(f, e) {
    set inf = e == nil ? ref(f) : inf
  }
  on call lexvec.NewForOptions(o) {
    assert [configured-BatchSize] o.BatchSize == opts.BatchSize
    assert [configured-Dim] o.Dim == opts.Dim
    assert [configured-DocInMemory] o.DocInMemory == opts.DocInMemory
    assert [configured-Goroutines] o.Goroutines == opts.Goroutines
    assert [configured-Initlr] o.Initlr == opts.Initlr
    assert [configured-Iter] o.Iter == opts.Iter
    assert [configured-LogBatch] o.LogBatch == opts.LogBatch
    assert [configured-MaxCount] o.MaxCount == opts.MaxCount
    assert [configured-MinCount] o.MinCount == opts.MinCount
    assert [configured-MinLR] o.MinLR == opts.MinLR
    assert [configured-NegativeSampleSize] o.NegativeSampleSize == opts.NegativeSampleSize
    assert [configured-RelationType] o.RelationType == opts.RelationType
    assert [configured-Smooth] o.Smooth == opts.Smooth
    assert [configured-SubsampleThreshold] o.SubsampleThreshold == opts.SubsampleThreshold
    assert [configured-ToLower] o.ToLower == opts.ToLower
    assert [configured-UpdateLRBatch] o.UpdateLRBatch == opts.UpdateLRBatch
    assert [configured-Verbose] o.Verbose == opts.Verbose
    assert [configured-Window] o.Window == opts.Window
  }
  on call model.Model.Train(m, r) {
    assert [output-created-first] made
    assert [trains-on-the-input] inf != 0 && ref(r) == inf
    assert [once] !trained && !saved
  }
  on call model.Model.Train(m, r)(e) {
    set trained = e == nil
  }
  on call model.Model.Save(m, w, t) {
    assert [after-training] trained
    assert [saves-to-the-output] outf != 0 && ref(w) == outf
  }
  on call model.Model.Save(m, w, t)(e) {
    set saved = e == nil
  }
  ensures [existing-output-fails] oe ==> err != nil
  ensures [missing-input-fails] !ie ==> err != nil
  ensures [errors-returned] err == nil ==> made && trained && saved
  modifies any
}
