alias vector = pkg/model/modelutil/vector
alias subsample = pkg/model/modelutil/subsample
alias verb = pkg/util/verbose
