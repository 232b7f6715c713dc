module verif/harness

go 1.23

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/companyzero/sntrup4591761 v0.0.0-20200131011700-2b0d299dbd22
	github.com/companyzero/zkc v0.0.0
	github.com/davecgh/go-xdr v0.0.0-20161123171359-e6a2ba005892
	golang.org/x/crypto v0.0.0-20210220033148-5ea612d1eb83
)

require github.com/companyzero/zkcreleased v0.0.0

replace github.com/companyzero/zkcreleased => ../released

require github.com/vaughan0/go-ini v0.0.0-20130923145212-a98ad7ee00ec // indirect

replace github.com/companyzero/zkc => /repo
