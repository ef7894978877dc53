module vmc.local/mc

go 1.21

require (
	github.com/go-ego/gse v0.0.0
	github.com/vcaesar/cedar v0.0.0
	vmc.local/rt v0.0.0
)

replace (
	github.com/go-ego/gse => ../../build/w/gse
	github.com/vcaesar/cedar => ../../build/w/cedar
	vmc.local/rt => ../rt
)
