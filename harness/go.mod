module verif

go 1.24.3

require github.com/justyntemme/vst3go v0.0.0

replace github.com/justyntemme/vst3go => /repo
