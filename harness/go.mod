module verifharness

go 1.21

require (
	github.com/blocktree/go-owcrypt v0.0.0
	github.com/drand/kyber v1.1.4
	github.com/phoreproject/bls v0.0.0-20200525203911-a88a5ae26844
	golang.org/x/crypto v0.0.0-20200728195943-123391ffb6de
)

require golang.org/x/sys v0.0.0-20200812155832-6a926be9bd1d // indirect

replace github.com/blocktree/go-owcrypt => /repo
