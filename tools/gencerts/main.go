// gencerts writes sim/harness/props/tlsdata.go: the certificates and keys of
// the TLS scenario. They are generated once and committed, so that runs repeat.
package main

import (
	"crypto/ed25519"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"time"
)

type ca struct {
	crt *x509.Certificate
	key ed25519.PrivateKey
}

var serial int64

func date(y int) time.Time { return time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC) }

func make1(name, cn string, hosts []string, from, to int, by *ca, isCA, client bool) *ca {
	pub, key, err := ed25519.GenerateKey(rand.Reader)
	check(err)
	serial++
	var dns []string
	var ips []net.IP
	for _, h := range hosts {
		if ip := net.ParseIP(h); ip != nil {
			ips = append(ips, ip)
		} else {
			dns = append(dns, h)
		}
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: cn}, NotBefore: date(from), NotAfter: date(to), DNSNames: dns, IPAddresses: ips, KeyUsage: x509.KeyUsageDigitalSignature, BasicConstraintsValid: true}
	if isCA {
		t.IsCA = true
		t.KeyUsage |= x509.KeyUsageCertSign
	} else if client {
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
	} else {
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
	}
	parent, signer := t, key
	if by != nil {
		parent, signer = by.crt, by.key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, parent, pub, signer)
	check(err)
	c, err := x509.ParseCertificate(der)
	check(err)
	k, err := x509.MarshalPKCS8PrivateKey(key)
	check(err)
	fmt.Printf("\t%q: {\n\t\tcert: `%s`,\n\t\tkey: `%s`,\n\t},\n", name, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: k}))
	return &ca{c, key}
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

func main() {
	fmt.Print("//go:build go1.22\n\n// Code generated by tools/gencerts. DO NOT EDIT.\n\npackage props\n\n// Test keys of simulated machines; they protect nothing.\nvar pems = map[string]struct{ cert, key string }{\n")
	names := [][]string{{"db0", "localhost", "127.0.0.1", "10.0.0.5", "::1"}, {"db1", "127.0.0.2", "10.0.0.6", "fd00::6"}}
	both := append(append([]string{}, names[0]...), names[1]...)
	pub := make1("pub", "Simulated Public CA", nil, 1990, 2040, nil, true, false)
	for j := 0; j < 2; j++ {
		make1(fmt.Sprintf("pub-db%d", j), fmt.Sprintf("db%d", j), names[j], 1999, 2009, pub, false, false)
	}
	for i := 0; i < 2; i++ {
		c := make1(fmt.Sprintf("ca%d", i), fmt.Sprintf("Simulated CA %d", i), nil, 1990, 2040, nil, true, false)
		for j := 0; j < 2; j++ {
			make1(fmt.Sprintf("ca%d-db%d", i, j), fmt.Sprintf("db%d", j), names[j], 1999, 2009, c, false, false)
			make1(fmt.Sprintf("ca%d-client%d", i, j), fmt.Sprintf("client%d", j), nil, 1999, 2039, c, false, true)
		}
		make1(fmt.Sprintf("ca%d-old", i), "db0", both, 1990, 1999, c, false, false)
		make1(fmt.Sprintf("ca%d-other", i), "other", []string{"other", "db0.example.com", "*.db1", "127.0.0.9"}, 1999, 2009, c, false, false)
		make1(fmt.Sprintf("ca%d-asclient", i), "db0", both, 1999, 2009, c, false, true)
		in := make1(fmt.Sprintf("ca%d-int", i), fmt.Sprintf("Simulated Intermediate CA %d", i), nil, 1990, 2040, c, true, false)
		make1(fmt.Sprintf("ca%d-intdb", i), "db0", both, 1999, 2009, in, false, false)
	}
	make1("self", "db0", both, 1999, 2009, nil, false, false)
	fmt.Print("}\n")
}
