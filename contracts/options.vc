# C25: functional options, defaults and flags. One contract per option: applying it to any settings o
# sets the named setting and (frame) nothing else.
alias cmdu = cmd/model/cmdutil
alias corp = pkg/corpus
alias filt = pkg/corpus/filter

contract w2v.BatchSize(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.BatchSize == v
  modifies o.BatchSize
}
contract w2v.DocInMemory()(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.DocInMemory == true
  modifies o.DocInMemory
}
contract w2v.Goroutines(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.Goroutines == v
  modifies o.Goroutines
}
contract w2v.Dim(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.Dim == v
  modifies o.Dim
}
contract w2v.Initlr(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.Initlr == v
  modifies o.Initlr
}
contract w2v.Iter(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.Iter == v
  modifies o.Iter
}
contract w2v.LogBatch(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.LogBatch == v
  modifies o.LogBatch
}
contract w2v.MaxCount(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.MaxCount == v
  modifies o.MaxCount
}
contract w2v.MaxDepth(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.MaxDepth == v
  modifies o.MaxDepth
}
contract w2v.MinCount(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.MinCount == v
  modifies o.MinCount
}
contract w2v.MinLR(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.MinLR == v
  modifies o.MinLR
}
contract w2v.Model(typ)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.ModelType == typ
  modifies o.ModelType
}
contract w2v.NegativeSampleSize(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.NegativeSampleSize == v
  modifies o.NegativeSampleSize
}
contract w2v.Optimizer(typ)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.OptimizerType == typ
  modifies o.OptimizerType
}
contract w2v.SubsampleThreshold(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.SubsampleThreshold == v
  modifies o.SubsampleThreshold
}
contract w2v.ToLower()(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.ToLower == true
  modifies o.ToLower
}
contract w2v.UpdateLRBatch(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.UpdateLRBatch == v
  modifies o.UpdateLRBatch
}
contract w2v.Verbose()(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.Verbose == true
  modifies o.Verbose
}
contract w2v.Window(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.Window == v
  modifies o.Window
}
contract w2v.LoadForCmd(cmd, opts)() {
  props C25
  ensures [flag-batch] flagptr("batch") == addr(opts.BatchSize)
  ensures [flag-dim] flagptr("dim") == addr(opts.Dim)
  ensures [flag-goroutines] flagptr("goroutines") == addr(opts.Goroutines)
  ensures [flag-in-memory] flagptr("in-memory") == addr(opts.DocInMemory)
  ensures [flag-initlr] flagptr("initlr") == addr(opts.Initlr)
  ensures [flag-iter] flagptr("iter") == addr(opts.Iter)
  ensures [flag-log-batch] flagptr("log-batch") == addr(opts.LogBatch)
  ensures [flag-max-count] flagptr("max-count") == addr(opts.MaxCount)
  ensures [flag-max-depth] flagptr("max-depth") == addr(opts.MaxDepth)
  ensures [flag-min-count] flagptr("min-count") == addr(opts.MinCount)
  ensures [flag-min-lr] flagptr("min-lr") == addr(opts.MinLR)
  ensures [flag-model] flagptr("model") == addr(opts.ModelType)
  ensures [flag-sample] flagptr("sample") == addr(opts.NegativeSampleSize)
  ensures [flag-optimizer] flagptr("optimizer") == addr(opts.OptimizerType)
  ensures [flag-threshold] flagptr("threshold") == addr(opts.SubsampleThreshold)
  ensures [flag-to-lower] flagptr("to-lower") == addr(opts.ToLower)
  ensures [flag-update-lr-batch] flagptr("update-lr-batch") == addr(opts.UpdateLRBatch)
  ensures [flag-verbose] flagptr("verbose") == addr(opts.Verbose)
  ensures [flag-window] flagptr("window") == addr(opts.Window)
  ensures [default-batch] opts.BatchSize == 10000
  ensures [default-dim] opts.Dim == 10
  ensures [default-in-memory] opts.DocInMemory == false
  ensures [default-initlr] opts.Initlr == flt(0.025)
  ensures [default-iter] opts.Iter == 15
  ensures [default-log-batch] opts.LogBatch == 100000
  ensures [default-max-count] opts.MaxCount == -1
  ensures [default-max-depth] opts.MaxDepth == 100
  ensures [default-min-count] opts.MinCount == 5
  ensures [default-model] opts.ModelType == w2v.Cbow
  ensures [default-sample] opts.NegativeSampleSize == 5
  ensures [default-optimizer] opts.OptimizerType == w2v.NegativeSampling
  ensures [default-threshold] opts.SubsampleThreshold == flt(0.001)
  ensures [default-to-lower] opts.ToLower == false
  ensures [default-update-lr-batch] opts.UpdateLRBatch == 100000
  ensures [default-verbose] opts.Verbose == false
  ensures [default-window] opts.Window == 5
  modifies opts.BatchSize, opts.Dim, opts.Goroutines, opts.DocInMemory, opts.Initlr, opts.Iter, opts.LogBatch, opts.MaxCount, opts.MaxDepth, opts.MinCount, opts.MinLR, opts.ModelType, opts.NegativeSampleSize, opts.OptimizerType, opts.SubsampleThreshold, opts.ToLower, opts.UpdateLRBatch, opts.Verbose, opts.Window
}
contract w2v.DefaultOptions()(o) {
  props C25
  ensures [default-BatchSize] o.BatchSize == 10000
  ensures [default-Dim] o.Dim == 10
  ensures [default-DocInMemory] o.DocInMemory == false
  ensures [default-Initlr] o.Initlr == flt(0.025)
  ensures [default-Iter] o.Iter == 15
  ensures [default-LogBatch] o.LogBatch == 100000
  ensures [default-MaxCount] o.MaxCount == -1
  ensures [default-MaxDepth] o.MaxDepth == 100
  ensures [default-MinCount] o.MinCount == 5
  ensures [default-ModelType] o.ModelType == w2v.Cbow
  ensures [default-NegativeSampleSize] o.NegativeSampleSize == 5
  ensures [default-OptimizerType] o.OptimizerType == w2v.NegativeSampling
  ensures [default-SubsampleThreshold] o.SubsampleThreshold == flt(0.001)
  ensures [default-ToLower] o.ToLower == false
  ensures [default-UpdateLRBatch] o.UpdateLRBatch == 100000
  ensures [default-Verbose] o.Verbose == false
  ensures [default-Window] o.Window == 5
  modifies nothing
}
functype w2v.ModelOption(f, o)() {
  requires o != nil
  modifies o.BatchSize, o.Dim, o.DocInMemory, o.Goroutines, o.Initlr, o.Iter, o.LogBatch, o.MaxCount, o.MaxDepth, o.MinCount, o.MinLR, o.ModelType, o.NegativeSampleSize, o.OptimizerType, o.SubsampleThreshold, o.ToLower, o.UpdateLRBatch, o.Verbose, o.Window
}
contract w2v.New(opts)(m, err) {
  props C25
  ghost n int = 0
  ghost cBatchSize int = 10000
  ghost cDim int = 10
  ghost cDocInMemory bool = false
  ghost cGoroutines int
  ghost cInitlr real = flt(0.025)
  ghost cIter int = 15
  ghost cLogBatch int = 100000
  ghost cMaxCount int = -1
  ghost cMaxDepth int = 100
  ghost cMinCount int = 5
  ghost cMinLR real
  ghost cModelType string = w2v.Cbow
  ghost cNegativeSampleSize int = 5
  ghost cOptimizerType string = w2v.NegativeSampling
  ghost cSubsampleThreshold real = flt(0.001)
  ghost cToLower bool = false
  ghost cUpdateLRBatch int = 100000
  ghost cVerbose bool = false
  ghost cWindow int = 5
  on call w2v.ModelOption(f, o) {
    assert [in-the-given-order] n < len(opts) && f == opts[n]
    assert [over-the-defaults-and-earlier-options-BatchSize] o.BatchSize == cBatchSize
    assert [over-the-defaults-and-earlier-options-Dim] o.Dim == cDim
    assert [over-the-defaults-and-earlier-options-DocInMemory] o.DocInMemory == cDocInMemory
    assert [over-the-defaults-and-earlier-options-Goroutines] n > 0 ==> o.Goroutines == cGoroutines
    assert [over-the-defaults-and-earlier-options-Initlr] o.Initlr == cInitlr
    assert [over-the-defaults-and-earlier-options-Iter] o.Iter == cIter
    assert [over-the-defaults-and-earlier-options-LogBatch] o.LogBatch == cLogBatch
    assert [over-the-defaults-and-earlier-options-MaxCount] o.MaxCount == cMaxCount
    assert [over-the-defaults-and-earlier-options-MaxDepth] o.MaxDepth == cMaxDepth
    assert [over-the-defaults-and-earlier-options-MinCount] o.MinCount == cMinCount
    assert [over-the-defaults-and-earlier-options-MinLR] n > 0 ==> o.MinLR == cMinLR
    assert [over-the-defaults-and-earlier-options-ModelType] o.ModelType == cModelType
    assert [over-the-defaults-and-earlier-options-NegativeSampleSize] o.NegativeSampleSize == cNegativeSampleSize
    assert [over-the-defaults-and-earlier-options-OptimizerType] o.OptimizerType == cOptimizerType
    assert [over-the-defaults-and-earlier-options-SubsampleThreshold] o.SubsampleThreshold == cSubsampleThreshold
    assert [over-the-defaults-and-earlier-options-ToLower] o.ToLower == cToLower
    assert [over-the-defaults-and-earlier-options-UpdateLRBatch] o.UpdateLRBatch == cUpdateLRBatch
    assert [over-the-defaults-and-earlier-options-Verbose] o.Verbose == cVerbose
    assert [over-the-defaults-and-earlier-options-Window] o.Window == cWindow
  }
  on call w2v.ModelOption(f, o)() {
    set n = n + 1
    set cBatchSize = o.BatchSize
    set cDim = o.Dim
    set cDocInMemory = o.DocInMemory
    set cGoroutines = o.Goroutines
    set cInitlr = o.Initlr
    set cIter = o.Iter
    set cLogBatch = o.LogBatch
    set cMaxCount = o.MaxCount
    set cMaxDepth = o.MaxDepth
    set cMinCount = o.MinCount
    set cMinLR = o.MinLR
    set cModelType = o.ModelType
    set cNegativeSampleSize = o.NegativeSampleSize
    set cOptimizerType = o.OptimizerType
    set cSubsampleThreshold = o.SubsampleThreshold
    set cToLower = o.ToLower
    set cUpdateLRBatch = o.UpdateLRBatch
    set cVerbose = o.Verbose
    set cWindow = o.Window
  }
  on call w2v.NewForOptions(x) {
    assert [all-applied] n == len(opts)
    assert [used-as-set-BatchSize] x.BatchSize == cBatchSize
    assert [used-as-set-Dim] x.Dim == cDim
    assert [used-as-set-DocInMemory] x.DocInMemory == cDocInMemory
    assert [used-as-set-Goroutines] n > 0 ==> x.Goroutines == cGoroutines
    assert [used-as-set-Initlr] x.Initlr == cInitlr
    assert [used-as-set-Iter] x.Iter == cIter
    assert [used-as-set-LogBatch] x.LogBatch == cLogBatch
    assert [used-as-set-MaxCount] x.MaxCount == cMaxCount
    assert [used-as-set-MaxDepth] x.MaxDepth == cMaxDepth
    assert [used-as-set-MinCount] x.MinCount == cMinCount
    assert [used-as-set-MinLR] n > 0 ==> x.MinLR == cMinLR
    assert [used-as-set-ModelType] x.ModelType == cModelType
    assert [used-as-set-NegativeSampleSize] x.NegativeSampleSize == cNegativeSampleSize
    assert [used-as-set-OptimizerType] x.OptimizerType == cOptimizerType
    assert [used-as-set-SubsampleThreshold] x.SubsampleThreshold == cSubsampleThreshold
    assert [used-as-set-ToLower] x.ToLower == cToLower
    assert [used-as-set-UpdateLRBatch] x.UpdateLRBatch == cUpdateLRBatch
    assert [used-as-set-Verbose] x.Verbose == cVerbose
    assert [used-as-set-Window] x.Window == cWindow
  }
  inv n == it && it <= len(opts)
  inv [o *w2v.Options] o.BatchSize == cBatchSize
  inv [o *w2v.Options] o.Dim == cDim
  inv [o *w2v.Options] o.DocInMemory == cDocInMemory
  inv [o *w2v.Options] n > 0 ==> o.Goroutines == cGoroutines
  inv [o *w2v.Options] o.Initlr == cInitlr
  inv [o *w2v.Options] o.Iter == cIter
  inv [o *w2v.Options] o.LogBatch == cLogBatch
  inv [o *w2v.Options] o.MaxCount == cMaxCount
  inv [o *w2v.Options] o.MaxDepth == cMaxDepth
  inv [o *w2v.Options] o.MinCount == cMinCount
  inv [o *w2v.Options] n > 0 ==> o.MinLR == cMinLR
  inv [o *w2v.Options] o.ModelType == cModelType
  inv [o *w2v.Options] o.NegativeSampleSize == cNegativeSampleSize
  inv [o *w2v.Options] o.OptimizerType == cOptimizerType
  inv [o *w2v.Options] o.SubsampleThreshold == cSubsampleThreshold
  inv [o *w2v.Options] o.ToLower == cToLower
  inv [o *w2v.Options] o.UpdateLRBatch == cUpdateLRBatch
  inv [o *w2v.Options] o.Verbose == cVerbose
  inv [o *w2v.Options] o.Window == cWindow
  modifies nothing
}
contract glove.Alpha(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.Alpha == v
  modifies o.Alpha
}
contract glove.BatchSize(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.BatchSize == v
  modifies o.BatchSize
}
contract glove.DocInMemory()(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.DocInMemory == true
  modifies o.DocInMemory
}
contract glove.Goroutines(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.Goroutines == v
  modifies o.Goroutines
}
contract glove.Dim(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.Dim == v
  modifies o.Dim
}
contract glove.Initlr(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.Initlr == v
  modifies o.Initlr
}
contract glove.Iter(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.Iter == v
  modifies o.Iter
}
contract glove.MaxCount(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.MaxCount == v
  modifies o.MaxCount
}
contract glove.MinCount(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.MinCount == v
  modifies o.MinCount
}
contract glove.Solver(typ)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.SolverType == typ
  modifies o.SolverType
}
contract glove.SubsampleThreshold(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.SubsampleThreshold == v
  modifies o.SubsampleThreshold
}
contract glove.ToLower()(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.ToLower == true
  modifies o.ToLower
}
contract glove.Verbose()(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.Verbose == true
  modifies o.Verbose
}
contract glove.Window(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.Window == v
  modifies o.Window
}
contract glove.Xmax(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.Xmax == v
  modifies o.Xmax
}
contract glove.LoadForCmd(cmd, opts)() {
  props C25
  ensures [flag-alpha] flagptr("alpha") == addr(opts.Alpha)
  ensures [flag-batch] flagptr("batch") == addr(opts.BatchSize)
  ensures [flag-cnt] flagptr("cnt") == addr(opts.CountType)
  ensures [flag-dim] flagptr("dim") == addr(opts.Dim)
  ensures [flag-goroutines] flagptr("goroutines") == addr(opts.Goroutines)
  ensures [flag-in-memory] flagptr("in-memory") == addr(opts.DocInMemory)
  ensures [flag-initlr] flagptr("initlr") == addr(opts.Initlr)
  ensures [flag-iter] flagptr("iter") == addr(opts.Iter)
  ensures [flag-log-batch] flagptr("log-batch") == addr(opts.LogBatch)
  ensures [flag-max-count] flagptr("max-count") == addr(opts.MaxCount)
  ensures [flag-min-count] flagptr("min-count") == addr(opts.MinCount)
  ensures [flag-solver] flagptr("solver") == addr(opts.SolverType)
  ensures [flag-threshold] flagptr("threshold") == addr(opts.SubsampleThreshold)
  ensures [flag-to-lower] flagptr("to-lower") == addr(opts.ToLower)
  ensures [flag-verbose] flagptr("verbose") == addr(opts.Verbose)
  ensures [flag-window] flagptr("window") == addr(opts.Window)
  ensures [flag-xmax] flagptr("xmax") == addr(opts.Xmax)
  ensures [default-alpha] opts.Alpha == 0.75
  ensures [default-batch] opts.BatchSize == 10000
  ensures [default-cnt] opts.CountType == co.Increment
  ensures [default-dim] opts.Dim == 10
  ensures [default-in-memory] opts.DocInMemory == false
  ensures [default-initlr] opts.Initlr == flt(0.025)
  ensures [default-iter] opts.Iter == 15
  ensures [default-log-batch] opts.LogBatch == 100000
  ensures [default-max-count] opts.MaxCount == -1
  ensures [default-min-count] opts.MinCount == 5
  ensures [default-solver] opts.SolverType == glove.Stochastic
  ensures [default-threshold] opts.SubsampleThreshold == flt(0.001)
  ensures [default-to-lower] opts.ToLower == false
  ensures [default-verbose] opts.Verbose == false
  ensures [default-window] opts.Window == 5
  ensures [default-xmax] opts.Xmax == 100
  modifies opts.Alpha, opts.BatchSize, opts.CountType, opts.Dim, opts.Goroutines, opts.DocInMemory, opts.Initlr, opts.Iter, opts.LogBatch, opts.MaxCount, opts.MinCount, opts.SolverType, opts.SubsampleThreshold, opts.ToLower, opts.Verbose, opts.Window, opts.Xmax
}
contract glove.DefaultOptions()(o) {
  props C25
  ensures [default-Alpha] o.Alpha == 0.75
  ensures [default-BatchSize] o.BatchSize == 10000
  ensures [default-CountType] o.CountType == co.Increment
  ensures [default-Dim] o.Dim == 10
  ensures [default-DocInMemory] o.DocInMemory == false
  ensures [default-Initlr] o.Initlr == flt(0.025)
  ensures [default-Iter] o.Iter == 15
  ensures [default-LogBatch] o.LogBatch == 100000
  ensures [default-MaxCount] o.MaxCount == -1
  ensures [default-MinCount] o.MinCount == 5
  ensures [default-SolverType] o.SolverType == glove.Stochastic
  ensures [default-SubsampleThreshold] o.SubsampleThreshold == flt(0.001)
  ensures [default-ToLower] o.ToLower == false
  ensures [default-Verbose] o.Verbose == false
  ensures [default-Window] o.Window == 5
  ensures [default-Xmax] o.Xmax == 100
  modifies nothing
}
functype glove.ModelOption(f, o)() {
  requires o != nil
  modifies o.Alpha, o.BatchSize, o.CountType, o.Dim, o.DocInMemory, o.Goroutines, o.Initlr, o.Iter, o.LogBatch, o.MaxCount, o.MinCount, o.SolverType, o.SubsampleThreshold, o.ToLower, o.Verbose, o.Window, o.Xmax
}
contract glove.New(opts)(m, err) {
  props C25
  ghost n int = 0
  ghost cAlpha real = 0.75
  ghost cBatchSize int = 10000
  ghost cCountType string = co.Increment
  ghost cDim int = 10
  ghost cDocInMemory bool = false
  ghost cGoroutines int
  ghost cInitlr real = flt(0.025)
  ghost cIter int = 15
  ghost cLogBatch int = 100000
  ghost cMaxCount int = -1
  ghost cMinCount int = 5
  ghost cSolverType string = glove.Stochastic
  ghost cSubsampleThreshold real = flt(0.001)
  ghost cToLower bool = false
  ghost cVerbose bool = false
  ghost cWindow int = 5
  ghost cXmax int = 100
  on call glove.ModelOption(f, o) {
    assert [in-the-given-order] n < len(opts) && f == opts[n]
    assert [over-the-defaults-and-earlier-options-Alpha] o.Alpha == cAlpha
    assert [over-the-defaults-and-earlier-options-BatchSize] o.BatchSize == cBatchSize
    assert [over-the-defaults-and-earlier-options-CountType] o.CountType == cCountType
    assert [over-the-defaults-and-earlier-options-Dim] o.Dim == cDim
    assert [over-the-defaults-and-earlier-options-DocInMemory] o.DocInMemory == cDocInMemory
    assert [over-the-defaults-and-earlier-options-Goroutines] n > 0 ==> o.Goroutines == cGoroutines
    assert [over-the-defaults-and-earlier-options-Initlr] o.Initlr == cInitlr
    assert [over-the-defaults-and-earlier-options-Iter] o.Iter == cIter
    assert [over-the-defaults-and-earlier-options-LogBatch] o.LogBatch == cLogBatch
    assert [over-the-defaults-and-earlier-options-MaxCount] o.MaxCount == cMaxCount
    assert [over-the-defaults-and-earlier-options-MinCount] o.MinCount == cMinCount
    assert [over-the-defaults-and-earlier-options-SolverType] o.SolverType == cSolverType
    assert [over-the-defaults-and-earlier-options-SubsampleThreshold] o.SubsampleThreshold == cSubsampleThreshold
    assert [over-the-defaults-and-earlier-options-ToLower] o.ToLower == cToLower
    assert [over-the-defaults-and-earlier-options-Verbose] o.Verbose == cVerbose
    assert [over-the-defaults-and-earlier-options-Window] o.Window == cWindow
    assert [over-the-defaults-and-earlier-options-Xmax] o.Xmax == cXmax
  }
  on call glove.ModelOption(f, o)() {
    set n = n + 1
    set cAlpha = o.Alpha
    set cBatchSize = o.BatchSize
    set cCountType = o.CountType
    set cDim = o.Dim
    set cDocInMemory = o.DocInMemory
    set cGoroutines = o.Goroutines
    set cInitlr = o.Initlr
    set cIter = o.Iter
    set cLogBatch = o.LogBatch
    set cMaxCount = o.MaxCount
    set cMinCount = o.MinCount
    set cSolverType = o.SolverType
    set cSubsampleThreshold = o.SubsampleThreshold
    set cToLower = o.ToLower
    set cVerbose = o.Verbose
    set cWindow = o.Window
    set cXmax = o.Xmax
  }
  on call glove.NewForOptions(x) {
    assert [all-applied] n == len(opts)
    assert [used-as-set-Alpha] x.Alpha == cAlpha
    assert [used-as-set-BatchSize] x.BatchSize == cBatchSize
    assert [used-as-set-CountType] x.CountType == cCountType
    assert [used-as-set-Dim] x.Dim == cDim
    assert [used-as-set-DocInMemory] x.DocInMemory == cDocInMemory
    assert [used-as-set-Goroutines] n > 0 ==> x.Goroutines == cGoroutines
    assert [used-as-set-Initlr] x.Initlr == cInitlr
    assert [used-as-set-Iter] x.Iter == cIter
    assert [used-as-set-LogBatch] x.LogBatch == cLogBatch
    assert [used-as-set-MaxCount] x.MaxCount == cMaxCount
    assert [used-as-set-MinCount] x.MinCount == cMinCount
    assert [used-as-set-SolverType] x.SolverType == cSolverType
    assert [used-as-set-SubsampleThreshold] x.SubsampleThreshold == cSubsampleThreshold
    assert [used-as-set-ToLower] x.ToLower == cToLower
    assert [used-as-set-Verbose] x.Verbose == cVerbose
    assert [used-as-set-Window] x.Window == cWindow
    assert [used-as-set-Xmax] x.Xmax == cXmax
  }
  inv n == it && it <= len(opts)
  inv [o *glove.Options] o.Alpha == cAlpha
  inv [o *glove.Options] o.BatchSize == cBatchSize
  inv [o *glove.Options] o.CountType == cCountType
  inv [o *glove.Options] o.Dim == cDim
  inv [o *glove.Options] o.DocInMemory == cDocInMemory
  inv [o *glove.Options] n > 0 ==> o.Goroutines == cGoroutines
  inv [o *glove.Options] o.Initlr == cInitlr
  inv [o *glove.Options] o.Iter == cIter
  inv [o *glove.Options] o.LogBatch == cLogBatch
  inv [o *glove.Options] o.MaxCount == cMaxCount
  inv [o *glove.Options] o.MinCount == cMinCount
  inv [o *glove.Options] o.SolverType == cSolverType
  inv [o *glove.Options] o.SubsampleThreshold == cSubsampleThreshold
  inv [o *glove.Options] o.ToLower == cToLower
  inv [o *glove.Options] o.Verbose == cVerbose
  inv [o *glove.Options] o.Window == cWindow
  inv [o *glove.Options] o.Xmax == cXmax
  modifies nothing
}
contract lexvec.BatchSize(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.BatchSize == v
  modifies o.BatchSize
}
contract lexvec.DocInMemory()(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.DocInMemory == true
  modifies o.DocInMemory
}
contract lexvec.Goroutines(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.Goroutines == v
  modifies o.Goroutines
}
contract lexvec.Dim(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.Dim == v
  modifies o.Dim
}
contract lexvec.Initlr(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.Initlr == v
  modifies o.Initlr
}
contract lexvec.Iter(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.Iter == v
  modifies o.Iter
}
contract lexvec.LogBatch(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.LogBatch == v
  modifies o.LogBatch
}
contract lexvec.MaxCount(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.MaxCount == v
  modifies o.MaxCount
}
contract lexvec.MinCount(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.MinCount == v
  modifies o.MinCount
}
contract lexvec.MinLR(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.MinLR == v
  modifies o.MinLR
}
contract lexvec.NegativeSampleSize(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.NegativeSampleSize == v
  modifies o.NegativeSampleSize
}
contract lexvec.Relation(typ)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.RelationType == typ
  modifies o.RelationType
}
contract lexvec.Smooth(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.Smooth == v
  modifies o.Smooth
}
contract lexvec.SubsampleThreshold(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.SubsampleThreshold == v
  modifies o.SubsampleThreshold
}
contract lexvec.ToLower()(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.ToLower == true
  modifies o.ToLower
}
contract lexvec.UpdateLRBatch(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.UpdateLRBatch == v
  modifies o.UpdateLRBatch
}
contract lexvec.Verbose()(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.Verbose == true
  modifies o.Verbose
}
contract lexvec.Window(v)(f) {
  props C25
  apply (o)
  ensures [sets-its-setting] o.Window == v
  modifies o.Window
}
contract lexvec.LoadForCmd(cmd, opts)() {
  props C25
  ensures [flag-batch] flagptr("batch") == addr(opts.BatchSize)
  ensures [flag-dim] flagptr("dim") == addr(opts.Dim)
  ensures [flag-goroutines] flagptr("goroutines") == addr(opts.Goroutines)
  ensures [flag-in-memory] flagptr("in-memory") == addr(opts.DocInMemory)
  ensures [flag-initlr] flagptr("initlr") == addr(opts.Initlr)
  ensures [flag-iter] flagptr("iter") == addr(opts.Iter)
  ensures [flag-log-batch] flagptr("log-batch") == addr(opts.LogBatch)
  ensures [flag-max-count] flagptr("max-count") == addr(opts.MaxCount)
  ensures [flag-min-count] flagptr("min-count") == addr(opts.MinCount)
  ensures [flag-min-lr] flagptr("min-lr") == addr(opts.MinLR)
  ensures [flag-sample] flagptr("sample") == addr(opts.NegativeSampleSize)
  ensures [flag-rel] flagptr("rel") == addr(opts.RelationType)
  ensures [flag-smooth] flagptr("smooth") == addr(opts.Smooth)
  ensures [flag-threshold] flagptr("threshold") == addr(opts.SubsampleThreshold)
  ensures [flag-to-lower] flagptr("to-lower") == addr(opts.ToLower)
  ensures [flag-update-lr-batch] flagptr("update-lr-batch") == addr(opts.UpdateLRBatch)
  ensures [flag-verbose] flagptr("verbose") == addr(opts.Verbose)
  ensures [flag-window] flagptr("window") == addr(opts.Window)
  ensures [default-batch] opts.BatchSize == 10000
  ensures [default-dim] opts.Dim == 10
  ensures [default-in-memory] opts.DocInMemory == false
  ensures [default-initlr] opts.Initlr == flt(0.025)
  ensures [default-iter] opts.Iter == 15
  ensures [default-log-batch] opts.LogBatch == 100000
  ensures [default-max-count] opts.MaxCount == -1
  ensures [default-min-count] opts.MinCount == 5
  ensures [default-sample] opts.NegativeSampleSize == 5
  ensures [default-rel] opts.RelationType == lexvec.PPMI
  ensures [default-smooth] opts.Smooth == 0.75
  ensures [default-threshold] opts.SubsampleThreshold == flt(0.001)
  ensures [default-to-lower] opts.ToLower == false
  ensures [default-update-lr-batch] opts.UpdateLRBatch == 100000
  ensures [default-verbose] opts.Verbose == false
  ensures [default-window] opts.Window == 5
  modifies opts.BatchSize, opts.Dim, opts.Goroutines, opts.DocInMemory, opts.Initlr, opts.Iter, opts.LogBatch, opts.MaxCount, opts.MinCount, opts.MinLR, opts.NegativeSampleSize, opts.RelationType, opts.Smooth, opts.SubsampleThreshold, opts.ToLower, opts.UpdateLRBatch, opts.Verbose, opts.Window
}
contract lexvec.DefaultOptions()(o) {
  props C25
  ensures [default-BatchSize] o.BatchSize == 10000
  ensures [default-Dim] o.Dim == 10
  ensures [default-DocInMemory] o.DocInMemory == false
  ensures [default-Initlr] o.Initlr == flt(0.025)
  ensures [default-Iter] o.Iter == 15
  ensures [default-LogBatch] o.LogBatch == 100000
  ensures [default-MaxCount] o.MaxCount == -1
  ensures [default-MinCount] o.MinCount == 5
  ensures [default-NegativeSampleSize] o.NegativeSampleSize == 5
  ensures [default-RelationType] o.RelationType == lexvec.PPMI
  ensures [default-Smooth] o.Smooth == 0.75
  ensures [default-SubsampleThreshold] o.SubsampleThreshold == flt(0.001)
  ensures [default-ToLower] o.ToLower == false
  ensures [default-UpdateLRBatch] o.UpdateLRBatch == 100000
  ensures [default-Verbose] o.Verbose == false
  ensures [default-Window] o.Window == 5
  modifies nothing
}
functype lexvec.ModelOption(f, o)() {
  requires o != nil
  modifies o.BatchSize, o.Dim, o.DocInMemory, o.Goroutines, o.Initlr, o.Iter, o.LogBatch, o.MaxCount, o.MinCount, o.MinLR, o.NegativeSampleSize, o.RelationType, o.Smooth, o.SubsampleThreshold, o.ToLower, o.UpdateLRBatch, o.Verbose, o.Window
}
contract lexvec.New(opts)(m, err) {
  props C25
  ghost n int = 0
  ghost cBatchSize int = 10000
  ghost cDim int = 10
  ghost cDocInMemory bool = false
  ghost cGoroutines int
  ghost cInitlr real = flt(0.025)
  ghost cIter int = 15
  ghost cLogBatch int = 100000
  ghost cMaxCount int = -1
  ghost cMinCount int = 5
  ghost cMinLR real
  ghost cNegativeSampleSize int = 5
  ghost cRelationType string = lexvec.PPMI
  ghost cSmooth real = 0.75
  ghost cSubsampleThreshold real = flt(0.001)
  ghost cToLower bool = false
  ghost cUpdateLRBatch int = 100000
  ghost cVerbose bool = false
  ghost cWindow int = 5
  on call lexvec.ModelOption(f, o) {
    assert [in-the-given-order] n < len(opts) && f == opts[n]
    assert [over-the-defaults-and-earlier-options-BatchSize] o.BatchSize == cBatchSize
    assert [over-the-defaults-and-earlier-options-Dim] o.Dim == cDim
    assert [over-the-defaults-and-earlier-options-DocInMemory] o.DocInMemory == cDocInMemory
    assert [over-the-defaults-and-earlier-options-Goroutines] n > 0 ==> o.Goroutines == cGoroutines
    assert [over-the-defaults-and-earlier-options-Initlr] o.Initlr == cInitlr
    assert [over-the-defaults-and-earlier-options-Iter] o.Iter == cIter
    assert [over-the-defaults-and-earlier-options-LogBatch] o.LogBatch == cLogBatch
    assert [over-the-defaults-and-earlier-options-MaxCount] o.MaxCount == cMaxCount
    assert [over-the-defaults-and-earlier-options-MinCount] o.MinCount == cMinCount
    assert [over-the-defaults-and-earlier-options-MinLR] n > 0 ==> o.MinLR == cMinLR
    assert [over-the-defaults-and-earlier-options-NegativeSampleSize] o.NegativeSampleSize == cNegativeSampleSize
    assert [over-the-defaults-and-earlier-options-RelationType] o.RelationType == cRelationType
    assert [over-the-defaults-and-earlier-options-Smooth] o.Smooth == cSmooth
    assert [over-the-defaults-and-earlier-options-SubsampleThreshold] o.SubsampleThreshold == cSubsampleThreshold
    assert [over-the-defaults-and-earlier-options-ToLower] o.ToLower == cToLower
    assert [over-the-defaults-and-earlier-options-UpdateLRBatch] o.UpdateLRBatch == cUpdateLRBatch
    assert [over-the-defaults-and-earlier-options-Verbose] o.Verbose == cVerbose
    assert [over-the-defaults-and-earlier-options-Window] o.Window == cWindow
  }
  on call lexvec.ModelOption(f, o)() {
    set n = n + 1
    set cBatchSize = o.BatchSize
    set cDim = o.Dim
    set cDocInMemory = o.DocInMemory
    set cGoroutines = o.Goroutines
    set cInitlr = o.Initlr
    set cIter = o.Iter
    set cLogBatch = o.LogBatch
    set cMaxCount = o.MaxCount
    set cMinCount = o.MinCount
    set cMinLR = o.MinLR
    set cNegativeSampleSize = o.NegativeSampleSize
    set cRelationType = o.RelationType
    set cSmooth = o.Smooth
    set cSubsampleThreshold = o.SubsampleThreshold
    set cToLower = o.ToLower
    set cUpdateLRBatch = o.UpdateLRBatch
    set cVerbose = o.Verbose
    set cWindow = o.Window
  }
  on call lexvec.NewForOptions(x) {
    assert [all-applied] n == len(opts)
    assert [used-as-set-BatchSize] x.BatchSize == cBatchSize
    assert [used-as-set-Dim] x.Dim == cDim
    assert [used-as-set-DocInMemory] x.DocInMemory == cDocInMemory
    assert [used-as-set-Goroutines] n > 0 ==> x.Goroutines == cGoroutines
    assert [used-as-set-Initlr] x.Initlr == cInitlr
    assert [used-as-set-Iter] x.Iter == cIter
    assert [used-as-set-LogBatch] x.LogBatch == cLogBatch
    assert [used-as-set-MaxCount] x.MaxCount == cMaxCount
    assert [used-as-set-MinCount] x.MinCount == cMinCount
    assert [used-as-set-MinLR] n > 0 ==> x.MinLR == cMinLR
    assert [used-as-set-NegativeSampleSize] x.NegativeSampleSize == cNegativeSampleSize
    assert [used-as-set-RelationType] x.RelationType == cRelationType
    assert [used-as-set-Smooth] x.Smooth == cSmooth
    assert [used-as-set-SubsampleThreshold] x.SubsampleThreshold == cSubsampleThreshold
    assert [used-as-set-ToLower] x.ToLower == cToLower
    assert [used-as-set-UpdateLRBatch] x.UpdateLRBatch == cUpdateLRBatch
    assert [used-as-set-Verbose] x.Verbose == cVerbose
    assert [used-as-set-Window] x.Window == cWindow
  }
  inv n == it && it <= len(opts)
  inv [o *lexvec.Options] o.BatchSize == cBatchSize
  inv [o *lexvec.Options] o.Dim == cDim
  inv [o *lexvec.Options] o.DocInMemory == cDocInMemory
  inv [o *lexvec.Options] n > 0 ==> o.Goroutines == cGoroutines
  inv [o *lexvec.Options] o.Initlr == cInitlr
  inv [o *lexvec.Options] o.Iter == cIter
  inv [o *lexvec.Options] o.LogBatch == cLogBatch
  inv [o *lexvec.Options] o.MaxCount == cMaxCount
  inv [o *lexvec.Options] o.MinCount == cMinCount
  inv [o *lexvec.Options] n > 0 ==> o.MinLR == cMinLR
  inv [o *lexvec.Options] o.NegativeSampleSize == cNegativeSampleSize
  inv [o *lexvec.Options] o.RelationType == cRelationType
  inv [o *lexvec.Options] o.Smooth == cSmooth
  inv [o *lexvec.Options] o.SubsampleThreshold == cSubsampleThreshold
  inv [o *lexvec.Options] o.ToLower == cToLower
  inv [o *lexvec.Options] o.UpdateLRBatch == cUpdateLRBatch
  inv [o *lexvec.Options] o.Verbose == cVerbose
  inv [o *lexvec.Options] o.Window == cWindow
  modifies nothing
}
contract cmdu.AddInputFlags(cmd, input)() {
  props C25
  ensures [flag] flagptr("input") == addr(*input)
  ensures [default] *input == "example/input.txt"
  modifies *input
}
contract cmdu.AddOutputFlags(cmd, output)() {
  props C25
  ensures [flag] flagptr("output") == addr(*output)
  ensures [default] *output == "example/word_vectors.txt"
  modifies *output
}
contract cmdu.AddProfFlags(cmd, prof)() {
  props C25
  ensures [flag] flagptr("prof") == addr(*prof)
  ensures [default] *prof == false
  modifies *prof
}
contract cmdu.AddVectorTypeFlags(cmd, typ)() {
  props C25
  ensures [flag] flagptr("vec-type") == addr(*typ)
  ensures [default] *typ == vector.Single
  modifies *typ
}
contract corp.LoadForCmd(cmd, opts)() {
  props C25
  ensures [flag-in-memory] flagptr("in-memory") == addr(opts.DocInMemory)
  ensures [flag-lower] flagptr("lower") == addr(opts.ToLower)
  ensures [defaults] opts.DocInMemory == false && opts.ToLower == false
  modifies opts.DocInMemory, opts.ToLower
}
contract corp.DefaultOptions()(o) {
  props C25
  ensures [defaults] o.DocInMemory == false && o.ToLower == false
  modifies nothing
}
contract filt.LoadForCmd(cmd, opts)() {
  props C25
  ensures [flag-max-count] flagptr("max-count") == addr(opts.MaxCount)
  ensures [flag-min-count] flagptr("min-count") == addr(opts.MinCount)
  ensures [defaults] opts.MaxCount == -1 && opts.MinCount == 5
  modifies opts.MaxCount, opts.MinCount
}
contract filt.DefaultOption()(o) {
  props C25
  ensures [defaults] o.MaxCount == -1 && o.MinCount == 5
  modifies nothing
}
