package verif_pki

import (
	"github.com/c2FmZQ/tpm"
	"github.com/google/go-tpm-tools/simulator"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// All the keys of this part are kept in a (simulated) TPM.
func init() {
	rwc, err := simulator.Get()
	if err != nil {
		kit.Infra("simulator.Get: %v", err)
	}
	if theTPM, err = tpm.New(tpm.WithTPM(rwc)); err != nil {
		kit.Infra("tpm.New: %v", err)
	}
	keyTypes = []string{"", "ecdsa-p256", "ecdsa-p384", "ecdsa-p256", "ecdsa-p384", "ecdsa-p384", "rsa-2048"}
}
