module verif/coord

go 1.23

require (
	github.com/dchest/bcrypt_pbkdf v0.0.0-20150205184540-83f37f9c154a
	golang.org/x/crypto v0.0.0-20190530122614-20be4c3c3ed5
	verif/sim v0.0.0
)

replace verif/sim => ../sim
