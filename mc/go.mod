module verifmc

go 1.23

require (
	github.com/eaburns/peggy v1.0.0
	github.com/eaburns/pretty v1.0.0
	github.com/eaburns/toaq v0.0.0
)

require (
	github.com/gorilla/websocket v1.4.1 // indirect
	github.com/velour/chat v0.0.0-20180713122344-fd1d1606cb89 // indirect
)

replace github.com/eaburns/toaq => /repo

require verifsched v0.0.0

replace verifsched => ./testdata/verifsched
