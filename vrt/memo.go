package vrt

import (
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/pem"
	"io"
	"math/big"
	"os"
	"sync"
)

// Pure functions of the crypto libraries are memoised: the explorer replays the
// same messages thousands of times.

type memoTab[T any] struct {
	mu sync.Mutex
	m  map[[32]byte]T
}

func (t *memoTab[T]) get(k [32]byte, f func() T) T {
	if RaceBuild {
		return f()
	}
	raceDisable()
	t.mu.Lock()
	if t.m == nil {
		t.m = map[[32]byte]T{}
	}
	v, ok := t.m[k]
	t.mu.Unlock()
	raceEnable()
	if ok {
		return v
	}
	v = f()
	raceDisable()
	t.mu.Lock()
	t.m[k] = v
	t.mu.Unlock()
	raceEnable()
	return v
}

func hkey(parts ...[]byte) (k [32]byte) {
	h := sha256.New()
	for _, p := range parts {
		var l [4]byte
		n := len(p)
		l[0], l[1], l[2], l[3] = byte(n), byte(n>>8), byte(n>>16), byte(n>>24)
		h.Write(l[:])
		h.Write(p)
	}
	h.Sum(k[:0])
	return
}

func nBytes(n *big.Int) []byte {
	if n == nil {
		return nil
	}
	return n.Bytes()
}

type sigRes struct {
	b   []byte
	err error
}

var verTab memoTab[sigRes]
var signTab memoTab[sigRes]

func RSAVerifyPKCS1v15(pub *rsa.PublicKey, h crypto.Hash, hashed, sig []byte) error {
	if pub.N == nil { // unknown key: never memoised, behaves as the library does
		return rsa.VerifyPKCS1v15(pub, h, hashed, sig)
	}
	return verTab.get(hkey(nBytes(pub.N), []byte{byte(pub.E), byte(pub.E >> 8), byte(pub.E >> 16), byte(h)}, hashed, sig), func() sigRes {
		return sigRes{nil, rsa.VerifyPKCS1v15(pub, h, hashed, sig)}
	}).err
}

func RSASignPKCS1v15(r io.Reader, priv *rsa.PrivateKey, h crypto.Hash, hashed []byte) ([]byte, error) {
	if priv.N == nil {
		return rsa.SignPKCS1v15(r, priv, h, hashed)
	}
	v := signTab.get(hkey(nBytes(priv.N), nBytes(priv.D), []byte{byte(h)}, hashed), func() sigRes {
		b, err := rsa.SignPKCS1v15(rand.Reader, priv, h, hashed)
		return sigRes{b, err}
	})
	return append([]byte{}, v.b...), v.err
}

var keyOnce sync.Once
var keyPool []*rsa.PrivateKey

// KeyPool loads the committed RSA test keys.
func KeyPool() []*rsa.PrivateKey {
	keyOnce.Do(func() {
		data, err := os.ReadFile(os.Getenv("VERIF_KEYS"))
		if err != nil {
			panic(err)
		}
		for {
			var b *pem.Block
			b, data = pem.Decode(data)
			if b == nil {
				break
			}
			k, err := x509.ParsePKCS1PrivateKey(b.Bytes)
			if err != nil {
				panic(err)
			}
			keyPool = append(keyPool, k)
		}
	})
	return keyPool
}

var globalKey int

// ResetKeys rewinds the key pool (deterministic key generation).
func ResetKeys() { globalKey = 0 }

// RSAGenerateKey hands out pool keys in order; 2048-bit requests only.
func RSAGenerateKey(r io.Reader, bits int) (*rsa.PrivateKey, error) {
	if bits != 2048 {
		return rsa.GenerateKey(rand.Reader, bits)
	}
	lockMu.Lock()
	defer lockMu.Unlock()
	p := KeyPool()
	k := p[globalKey%len(p)]
	globalKey++
	c := *k
	return &c, nil
}

type detReader struct{}

func (detReader) Read(b []byte) (int, error) {
	w := Cur()
	if w == nil {
		return rand.Read(b)
	}
	lockMu.Lock()
	defer lockMu.Unlock()
	for i := range b {
		w.rnd ^= w.rnd << 13
		w.rnd ^= w.rnd >> 7
		w.rnd ^= w.rnd << 17
		b[i] = byte(w.rnd >> 11)
	}
	return len(b), nil
}

// RandReader replaces crypto/rand.Reader with a per-execution deterministic stream.
var RandReader io.Reader = detReader{}
