module vmc.local/rt

go 1.21
