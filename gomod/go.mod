module github.com/skycoin/cxo

go 1.23

require (
	github.com/DiSiqueira/GoTree v0.0.0
	github.com/boltdb/bolt v1.3.1
	github.com/kr/pretty v0.1.0
	github.com/skycoin/net v0.0.0
	github.com/skycoin/skycoin v0.0.0
)

require github.com/kr/text v0.1.0 // indirect

replace (
	github.com/DiSiqueira/GoTree => /verif/stubs/gotree
	github.com/skycoin/net => /verif/stubs/net
	github.com/skycoin/skycoin => /verif/stubs/skycoin
)
