package verif_oidc

import (
	"io"
	"log"
	"net/http"
	"os"
	"strings"
	"sync"
	"testing"

	"github.com/c2FmZQ/storage"
	scrypto "github.com/c2FmZQ/storage/crypto"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

type nopLogger struct{}

func (nopLogger) Errorf(string, ...any) {}

type nopRecorder struct{}

func (nopRecorder) Record(string) {}

var theTM = sync.OnceValue(func() *tokenmanager.TokenManager {
	dir, err := os.MkdirTemp("", "tm")
	if err != nil {
		kit.Infra("%v", err)
	}
	mk, err := scrypto.CreateAESMasterKeyForTest()
	if err != nil {
		kit.Infra("%v", err)
	}
	tm, err := tokenmanager.New(storage.New(dir, mk), nil, nopLogger{})
	if err != nil {
		panic(err)
	}
	return tm
})

// jar is the cookies of one browser for one site.
type jar map[string]string

func (j jar) header() string {
	var out []string
	for _, k := range []string{"TLSPROXYNONCE", "TLSPROXYAUTH", "TLSPROXYSID"} {
		if v, ok := j[k]; ok {
			out = append(out, k+"="+v)
		}
	}
	return strings.Join(out, "; ")
}

func (j jar) update(h http.Header) {
	for _, c := range (&http.Response{Header: h}).Cookies() {
		if c.MaxAge < 0 {
			delete(j, c.Name)
		} else {
			j[c.Name] = c.Value
		}
	}
}
