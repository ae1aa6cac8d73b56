module vdriver

go 1.22

require github.com/bearcove/styx/implementations/styx-go v0.0.0

replace github.com/bearcove/styx/implementations/styx-go => /repo/implementations/styx-go
