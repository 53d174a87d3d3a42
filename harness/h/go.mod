module verifh

go 1.25

require github.com/miniLCT/gosb v0.0.0

replace github.com/miniLCT/gosb => ../gosb
