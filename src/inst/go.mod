module vmc.local/inst

go 1.21
