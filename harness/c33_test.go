package harness

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
)

type tlsClient struct {
	Proto string `json:"proto"`          // http, https or nothing, which is the right one
	Cert  string `json:"cert,omitempty"` // the certificate that the client has
	Max   int    `json:"max,omitempty"`  // version of TLS
	Key   string `json:"key"`
}

type tlsCase struct {
	Cert    string      `json:"cert"` // the certificate of the server
	CA      string      `json:"ca,omitempty"`
	Verify  bool        `json:"verify,omitempty"`
	Equals  bool        `json:"equals,omitempty"`
	Clients []tlsClient `json:"clients"`
}

var tlsClientCerts = []string{``, `ca1`, `ca1`, `ca2`, `self`, `expired`, `future`, `serverauth`, `chain`, `nochain`, `wrongkey`}

func genTLS(t *rapid.T) tlsCase {
	c := tlsCase{Cert: `good`}
	if chance(t, 2, `othercert`) {
		c.Cert = pick(t, `cert`, `none`, `none`, `chain`, `nocert`, `nokey`, `badcert`, `badkey`, `mismatch`, `swapped`)
	}
	switch rapid.IntRange(0, 9).Draw(t, `caform`) {
	case 0, 1:
	case 2:
		c.CA = pick(t, `badca`, `missing`, `text`, `empty`, `key`, `dir`)
	case 3:
		c.CA = pick(t, `ca2`, `both`, `two`, `commented`)
	default:
		c.CA = `one`
	}
	c.Verify = chance(t, 6, `verify`)
	if c.Cert == `none` {
		// it isn't defined what these do without a certificate
		c.Verify, c.CA = false, ``
	}
	c.Equals = rapid.Bool().Draw(t, `equals`)
	for i := rapid.IntRange(3, 8).Draw(t, `clients`); i > 0; i-- {
		cl := tlsClient{Cert: pick(t, `client`, tlsClientCerts...), Max: pick(t, `max`, 12, 13, 13), Key: pick(t, `key`, `k`, `k`, `missing`, `bad`)}
		if chance(t, 1, `wrongproto`) {
			cl.Proto = pick(t, `proto`, `http`, `https`)
		}
		c.Clients = append(c.Clients, cl)
	}
	return c
}

// pki has everything that servers and clients need. It's created once, as it's the same for all cases.
type pki struct {
	certs map[string]tls.Certificate
	pem   map[string][]byte
	roots *x509.CertPool // to verify the server
}

var thePki *pki
var pkiOnce sync.Once

func pemOf(typ string, der []byte) []byte {
	return pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: der})
}

func newPki() *pki {
	p := &pki{certs: map[string]tls.Certificate{}, pem: map[string][]byte{}, roots: x509.NewCertPool()}
	serial := int64(1)
	parsed := map[string]*x509.Certificate{}
	keys := map[string]crypto.Signer{}
	create := func(name, parent string, ca bool, from, to time.Duration, use x509.ExtKeyUsage) {
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		must(err)
		serial++
		tpl := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(from), NotAfter: time.Now().Add(to),
			KeyUsage: x509.KeyUsageDigitalSignature, BasicConstraintsValid: true, IsCA: ca, DNSNames: []string{`localhost`}}
		if ca {
			tpl.KeyUsage = x509.KeyUsageCertSign
		} else {
			tpl.ExtKeyUsage = []x509.ExtKeyUsage{use}
		}
		signer, signCert := crypto.Signer(key), tpl
		if parent != `` {
			signer, signCert = keys[parent], parsed[parent]
		}
		der, err := x509.CreateCertificate(rand.Reader, tpl, signCert, key.Public(), signer)
		must(err)
		parsed[name], err = x509.ParseCertificate(der)
		must(err)
		keys[name] = key
		kd, err := x509.MarshalECPrivateKey(key)
		must(err)
		p.pem[name], p.pem[name+`.key`] = pemOf(`CERTIFICATE`, der), pemOf(`EC PRIVATE KEY`, kd)
		p.certs[name] = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	}
	const past, future = -time.Hour, 24 * time.Hour
	client, srv := x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageServerAuth
	create(`srvca`, ``, true, past, future, srv)
	create(`srvsub`, `srvca`, true, past, future, srv)
	create(`good`, `srvca`, false, past, future, srv)
	create(`other`, `srvca`, false, past, future, srv)
	create(`leaf`, `srvsub`, false, past, future, srv)
	create(`CA1`, ``, true, past, future, client)
	create(`CA2`, ``, true, past, future, client)
	create(`sub`, `CA1`, true, past, future, client)
	create(`ca1`, `CA1`, false, past, future, client)
	create(`ca2`, `CA2`, false, past, future, client)
	create(`self`, ``, false, past, future, client)
	create(`expired`, `CA1`, false, -48*time.Hour, -24*time.Hour, client)
	create(`future`, `CA1`, false, 24*time.Hour, 48*time.Hour, client)
	create(`serverauth`, `CA1`, false, past, future, srv)
	create(`nochain`, `sub`, false, past, future, client)
	p.certs[`chain`] = tls.Certificate{Certificate: append(append([][]byte{}, p.certs[`nochain`].Certificate...), p.certs[`sub`].Certificate...), PrivateKey: p.certs[`nochain`].PrivateKey}
	p.certs[`wrongkey`] = tls.Certificate{Certificate: p.certs[`ca1`].Certificate, PrivateKey: p.certs[`ca2`].PrivateKey}
	p.pem[`chain`] = append(append([]byte{}, p.pem[`leaf`]...), p.pem[`srvsub`]...)
	p.pem[`both`] = append(append([]byte{}, p.pem[`CA1`]...), p.pem[`CA2`]...)
	p.roots.AddCert(parsed[`srvca`])
	return p
}

// starts tells if the server is able to use what it's given
func (c *tlsCase) starts() bool {
	switch c.Cert {
	case `good`, `chain`, `none`:
	default:
		return false
	}
	switch c.CA {
	case `missing`, `text`, `empty`, `key`, `dir`:
		return false
	}
	return true
}

// accepts tells if a client with the given certificate gets an answer
func (c *tlsCase) accepts(cert string) bool {
	if cert == `wrongkey` {
		// the proof that the client has the key is always checked
		return false
	}
	if !c.Verify {
		return true
	}
	switch c.CA {
	case `one`, `commented`:
		return cert == `ca1` || cert == `chain`
	case `two`:
		return cert == `ca2`
	case `both`:
		return cert == `ca1` || cert == `chain` || cert == `ca2`
	}
	// must be verified by a CA of the system, none of which knows these clients
	return false
}

func (c *tlsCase) args(dir string, p *pki) []string {
	file := func(name string, data []byte) string {
		f := filepath.Join(dir, `ssl`, name)
		writeFile(f, string(data))
		return f
	}
	cert, key := ``, ``
	switch c.Cert {
	case `none`:
	case `chain`:
		cert, key = file(`cert.pem`, p.pem[`chain`]), file(`key.pem`, p.pem[`leaf.key`])
	case `nocert`:
		cert, key = filepath.Join(dir, `nowhere.pem`), file(`key.pem`, p.pem[`good.key`])
	case `nokey`:
		cert, key = file(`cert.pem`, p.pem[`good`]), filepath.Join(dir, `nowhere.pem`)
	case `badcert`:
		cert, key = file(`cert.pem`, p.pem[`good`][:100]), file(`key.pem`, p.pem[`good.key`])
	case `badkey`:
		cert, key = file(`cert.pem`, p.pem[`good`]), file(`key.pem`, []byte(`not a key`))
	case `mismatch`:
		cert, key = file(`cert.pem`, p.pem[`good`]), file(`key.pem`, p.pem[`other.key`])
	case `swapped`:
		cert, key = file(`cert.pem`, p.pem[`good.key`]), file(`key.pem`, p.pem[`good`])
	default:
		cert, key = file(`cert.pem`, p.pem[`good`]), file(`key.pem`, p.pem[`good.key`])
	}
	ca := ``
	switch c.CA {
	case ``:
	case `missing`:
		ca = filepath.Join(dir, `noca.pem`)
	case `text`:
		ca = file(`ca.pem`, []byte("this is not a certificate\n"))
	case `empty`:
		ca = file(`ca.pem`, nil)
	case `key`:
		ca = file(`ca.pem`, p.pem[`CA1.key`])
	case `dir`:
		ca = filepath.Join(dir, `ca.d`)
		must(os.MkdirAll(ca, 0755))
	case `both`:
		ca = file(`ca.pem`, p.pem[`both`])
	case `two`:
		ca = file(`ca.pem`, p.pem[`CA2`])
	case `commented`:
		ca = file(`ca.pem`, append([]byte("# The CA\n\n"), append(p.pem[`CA1`], "\n# the end\n"...)...))
	default:
		ca = file(`ca.pem`, p.pem[`CA1`])
	}
	var args []string
	add := func(n, v string) {
		if v == `` {
			return
		}
		if c.Equals {
			args = append(args, `--`+n+`=`+v)
		} else {
			args = append(args, `--`+n, v)
		}
	}
	add(`ssl-cert`, cert)
	add(`ca`, ca)
	if c.Verify {
		if c.Equals {
			args = append(args, `--clientCertVerify=true`)
		} else {
			args = append(args, `--clientCertVerify`)
		}
	}
	add(`ssl-key`, key)
	return args
}

func runTLS(x *X, c tlsCase) error {
	pkiOnce.Do(func() { thePki = newPki() })
	p := thePki
	dir := x.Dir()
	writeFile(filepath.Join(dir, `hiera.yaml`), "version: 5\nhierarchy:\n  - name: a\n    path: a.yaml\n")
	writeFile(filepath.Join(dir, `data`, `a.yaml`), "k: [secret]\nbad: \"%{nosuch('x')}\"\n")
	args := append([]string{`--config`, filepath.Join(dir, `hiera.yaml`)}, c.args(dir, p)...)
	var s server
	startErr := s.start(args...)
	defer s.stop()
	if !c.starts() {
		x.Label(`cert %s, ca %s: doesn't start`, c.Cert, c.CA)
		x.NonTrivial()
		if startErr == nil {
			return fmt.Errorf(`the server starts with arguments %q`, args)
		}
		return nil
	}
	if startErr != nil {
		return startErr
	}
	right := `https`
	if c.Cert == `none` {
		right = `http`
	}
	accepted, rejected := 0, 0
	for _, cl := range c.Clients {
		proto := right
		if cl.Proto != `` {
			proto = cl.Proto
		}
		tc := &tls.Config{RootCAs: p.roots, ServerName: `localhost`, MinVersion: tls.VersionTLS12, MaxVersion: tls.VersionTLS12}
		if cl.Max == 13 {
			tc.MaxVersion = tls.VersionTLS13
		}
		if cert, ok := p.certs[cl.Cert]; ok && cl.Cert != `` {
			// sent even when the server doesn't know the CA
			tc.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &cert, nil }
		}
		tr := &http.Transport{TLSClientConfig: tc}
		client := &http.Client{Transport: tr, Timeout: 30 * time.Second}
		u := proto + strings.TrimPrefix(s.base, `http`) + `/lookup/` + cl.Key
		resp, err := client.Get(u)
		var body []byte
		status := 0
		var peer *tls.ConnectionState
		if err == nil {
			status, peer = resp.StatusCode, resp.TLS
			if body, err = io.ReadAll(resp.Body); err != nil {
				status = 0
			}
			_ = resp.Body.Close()
		}
		tr.CloseIdleConnections()
		what := fmt.Sprintf(`a client with certificate %q (CA %q, verify %t, TLS 1.%d-) that gets %s`, cl.Cert, c.CA, c.Verify, cl.Max-10, u)
		wantStatus := map[string]int{`k`: 200, `missing`: 404, `bad`: 500}[cl.Key]
		ok := proto == right && (right == `http` || c.accepts(cl.Cert) || cl.Cert == `wrongkey` && !c.Verify)
		switch {
		case ok && status != wantStatus:
			if d := s.died(); d != nil {
				err = d
			}
			return fmt.Errorf(`%s gets status %d %q, error %v, want %d`, what, status, body, err, wantStatus)
		case ok && cl.Key == `k` && !bytes.Equal(bytes.TrimSpace(body), []byte(`["secret"]`)):
			return fmt.Errorf(`%s gets %q`, what, body)
		case ok && right == `https` && (peer == nil || peer.PeerCertificates[0].Subject.CommonName != map[string]string{`good`: `good`, `chain`: `leaf`}[c.Cert]):
			return fmt.Errorf(`%s sees another certificate`, what)
		case !ok && (status == 200 || status == 404 || status == 500 || bytes.Contains(body, []byte(`secret`))):
			return fmt.Errorf(`%s gets status %d %q but must not get an answer`, what, status, body)
		}
		if ok {
			accepted++
		} else {
			rejected++
		}
	}
	if err := s.died(); err != nil {
		return err
	}
	x.Label(`verify=%t ca=%t`, c.Verify, c.CA != ``)
	if accepted > 0 {
		x.Label(`accepted`)
	}
	if rejected > 0 {
		x.Label(`rejected`)
	}
	if rejected > 0 || c.Cert != `none` {
		x.NonTrivial()
	}
	return nil
}

func init() {
	register(&Property{
		ID: `C33`,
		Rule: `The REST server is started with a random choice of key, certificate and CA files, of which some are missing, malformed or don't belong
together, and with or without client verification. Clients without a certificate, or with one that is signed by the CA, directly or not, by another CA
or by itself, expired, not valid yet, for servers only, or of somebody else, and clients that use the wrong protocol, then make requests. A model tells
whether the server starts and which of the clients get the answer. Non-trivial unless the server uses plain HTTP and all clients too.`,
		Assumptions: []string{`it isn't defined what --clientCertVerify and --ca mean for a server without certificate, or what a key without certificate means`},
		Subs: []subCheck{
			Spec[tlsCase]{Name: `clients`, Quick: 120, Thorough: 3000, Gen: genTLS, Run: runTLS},
		},
	})
}
