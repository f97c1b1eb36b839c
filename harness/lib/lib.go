//go:build go1.25

// Package lib checks the building blocks of the database: placement of blocks, the
// membership filter, the text encodings and the encryption of payloads.
package lib

import (
	"bytes"
	"encoding/base32"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/unit-io/unitdb/crypto"
	"github.com/unit-io/unitdb/encoding"
	"github.com/unit-io/unitdb/filter"
	"github.com/unit-io/unitdb/hash"
	scrypto "github.com/unit-io/unitdb/server/internal/pkg/crypto"
	sencoding "github.com/unit-io/unitdb/server/internal/pkg/encoding"
	"github.com/unit-io/unitdb/server/zzverif/vh"
)

// Bounded runs f and fails if it does not return.
func bounded(f func() error) error {
	ch := make(chan error, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				ch <- fmt.Errorf("panic: %v", p)
			}
		}()
		ch <- f()
	}()
	select {
	case err := <-ch:
		return err
	case <-time.After(30 * time.Second):
		return errors.New("a call does not return")
	}
}

// ACase is a history of a consistent hash: op -1 adds a block, others remove block op.
type ACase struct {
	Blocks int   `json:"blocks"`
	Used   int   `json:"used"`
	Seed   int64 `json:"seed"`
	Keys   int   `json:"keys"`
	Ops    []int `json:"ops"`
}

func genAnchor(r *rand.Rand, tier string, n int) ACase {
	c := ACase{Blocks: 1 + r.Intn(1<<uint(1+r.Intn(6))), Seed: r.Int63()}
	if r.Intn(30) == 0 {
		c.Blocks = 100 + r.Intn(2000)
	}
	c.Used = c.Blocks
	if r.Intn(2) == 0 {
		c.Used = 1 + r.Intn(c.Blocks)
	}
	c.Keys = 50 + r.Intn(400)
	for i := r.Intn(40); i > 0; i-- {
		if r.Intn(5) < 2 {
			c.Ops = append(c.Ops, -1)
		} else {
			c.Ops = append(c.Ops, r.Intn(c.Blocks))
		}
	}
	return c
}

func runAnchor(in *vh.Info, c ACase) error {
	return bounded(func() error {
		h := hash.InitConsistent(c.Blocks, c.Used)
		twin := hash.InitConsistent(c.Blocks, c.Used)
		r := rand.New(rand.NewSource(c.Seed))
		keys := make([]uint64, c.Keys)
		for i := range keys {
			switch r.Intn(4) {
			case 0:
				keys[i] = uint64(i)
			case 1:
				keys[i] = uint64(r.Intn(1 << 20))
			default:
				keys[i] = r.Uint64()
			}
		}
		work := map[int]bool{}
		for i := 0; i < c.Used; i++ {
			work[i] = true
		}
		find := func() ([]int, error) {
			out := make([]int, len(keys))
			for i, k := range keys {
				b := int(h.FindBlock(k))
				if !work[b] {
					return nil, fmt.Errorf("key %d is placed in block %d, which is not in use", k, b)
				}
				if p := h.GetPath(k, nil); len(p) == 0 || int(p[len(p)-1]) != b {
					return nil, fmt.Errorf("the path of key %d is %v but its block is %d", k, p, b)
				}
				if t := int(twin.FindBlock(k)); t != b {
					return nil, fmt.Errorf("key %d is in block %d, and in block %d of an instance with the same history", k, b, t)
				}
				out[i] = b
			}
			return out, nil
		}
		type removed struct {
			block int
			pos   []int
		}
		var stack []removed
		cur, err := find()
		if err != nil {
			return err
		}
		fresh := c.Blocks - c.Used
		adds, rems := 0, 0
		for n, op := range c.Ops {
			if op < 0 {
				if len(stack) == 0 && fresh == 0 {
					continue
				}
				adds++
				b := int(h.AddBlock())
				twin.AddBlock()
				if work[b] || b < 0 || b >= c.Blocks {
					return fmt.Errorf("op %d: block %d was added, which is in use or out of range", n, b)
				}
				work[b] = true
				next, err := find()
				if err != nil {
					return fmt.Errorf("op %d (add %d): %v", n, b, err)
				}
				for i := range next {
					if next[i] != cur[i] && next[i] != b {
						return fmt.Errorf("op %d: adding block %d moved key %d from block %d to block %d", n, b, keys[i], cur[i], next[i])
					}
				}
				if len(stack) > 0 {
					in.Hit("readd")
					top := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if top.block != b {
						return fmt.Errorf("op %d: block %d was added, the one removed last is %d", n, b, top.block)
					}
					for i := range next {
						if next[i] != top.pos[i] {
							return fmt.Errorf("op %d: after block %d is back, key %d is in block %d and not in %d as before", n, b, keys[i], next[i], top.pos[i])
						}
					}
				} else {
					in.Hit("grow")
					fresh--
				}
				cur = next
				continue
			}
			if work[op] && len(work) == 1 {
				continue
			}
			h.RemoveBlock(uint16(op))
			twin.RemoveBlock(uint16(op))
			if !work[op] {
				in.Hit("noop")
			} else {
				rems++
				delete(work, op)
				stack = append(stack, removed{op, cur})
			}
			next, err := find()
			if err != nil {
				return fmt.Errorf("op %d (remove %d): %v", n, op, err)
			}
			for i := range next {
				if cur[i] != op && next[i] != cur[i] {
					return fmt.Errorf("op %d: removing block %d moved key %d from block %d to block %d", n, op, keys[i], cur[i], next[i])
				}
			}
			cur = next
		}
		if len(work) <= 16 {
			in.Hit("spread")
			cnt := map[int]int{}
			for i := 0; i < 100*len(work); i++ {
				cnt[int(h.FindBlock(r.Uint64()))]++
			}
			for b := range work {
				if len(work) > 1 && cnt[b] == 0 {
					return fmt.Errorf("block %d of %d in use gets none of %d random keys", b, len(work), 100*len(work))
				}
			}
		}
		if adds > 0 && rems > 0 {
			in.NonTrivial()
		}
		return nil
	})
}

func shrinkAnchor(c ACase) []ACase {
	var out []ACase
	for _, ops := range vh.Chunks(c.Ops) {
		d := c
		d.Ops = ops
		out = append(out, d)
	}
	return out
}

// BCase is a set of keys put in a filter.
type BCase struct {
	Seed int64 `json:"seed"`
	N    int   `json:"n"`
	Mode int   `json:"mode"`
}

func genBloom(r *rand.Rand, tier string, n int) BCase {
	return BCase{Seed: r.Int63(), N: r.Intn(1 << uint(1+r.Intn(13))), Mode: r.Intn(4)}
}

func runBloom(in *vh.Info, c BCase) error {
	r := rand.New(rand.NewSource(c.Seed))
	g := filter.NewFilterGenerator()
	set := map[uint64]bool{}
	var keys []uint64
	base := r.Uint64()
	for i := 0; i < c.N; i++ {
		var k uint64
		switch c.Mode {
		case 0:
			k = r.Uint64()
		case 1:
			k = uint64(i)
		case 2:
			k = base + uint64(i)*uint64(r.Intn(1000))
		case 3:
			k = ^uint64(0) - uint64(r.Intn(c.N*2))
		}
		keys = append(keys, k)
		set[k] = true
	}
	for i, k := range keys {
		g.Append(k)
		if i == len(keys)/2 {
			b := filter.NewFilterBlock(g.Bytes())
			for _, k := range keys[:i+1] {
				if !b.Test(k) {
					return fmt.Errorf("key %d was added and is not found in a filter of %d keys", k, i+1)
				}
			}
		}
	}
	raw := g.Finish()
	b := filter.NewFilterBlock(append([]byte(nil), raw...))
	for _, k := range keys {
		if !b.Test(k) {
			return fmt.Errorf("key %d was added and is not found in a filter of %d keys", k, c.N)
		}
	}
	in.Hit(fmt.Sprintf("mode%d", c.Mode))
	fp := 0
	for i := 0; i < 1000; i++ {
		if k := r.Uint64(); !set[k] && b.Test(k) {
			fp++
		}
	}
	if fp > 100 {
		return fmt.Errorf("%d of 1000 keys never added are found in a filter of %d keys", fp, c.N)
	}
	if c.N >= 10 {
		in.NonTrivial()
	}
	return nil
}

// ECase is an identifier to encode.
type ECase struct {
	B []byte `json:"b"` // 32 bytes
}

func genEnc(r *rand.Rand, tier string, n int) ECase {
	b := make([]byte, 32)
	switch r.Intn(4) {
	case 0:
		b[r.Intn(32)] = 1 << uint(r.Intn(8))
	case 1:
		for i := range b {
			b[i] = 0xff
		}
		b[r.Intn(32)] ^= 1 << uint(r.Intn(8))
	default:
		r.Read(b)
	}
	return ECase{b}
}

type codec struct {
	name       string
	n, m       int
	enc        func(dst, src []byte)
	dec        func(dst, src []byte)
	compatible *base32.Encoding
}

var std = base32.NewEncoding("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdef").WithPadding(base32.NoPadding)

var codecs = []codec{
	{"database 32", 32, 52, encoding.Encode32, encoding.Decode32, std},
	{"database 8", 8, 13, encoding.Encode8, encoding.Decode8, std},
	{"server 32", 32, 52, sencoding.Encode32, sencoding.Decode32, std},
	{"server 8", 8, 13, sencoding.Encode8, sencoding.Decode8, std},
}

func runEnc(in *vh.Info, c ECase) error {
	for _, k := range codecs {
		if len(c.B) < k.n {
			return nil
		}
		src := append([]byte(nil), c.B[:k.n]...)
		text := make([]byte, k.m)
		k.enc(text, src)
		if !bytes.Equal(src, c.B[:k.n]) {
			return fmt.Errorf("%s: encoding changed its input", k.name)
		}
		if want := k.compatible.EncodeToString(src); string(text) != want {
			return fmt.Errorf("%s: %x encodes as %q, base32 over the same alphabet gives %q", k.name, src, text, want)
		}
		back := make([]byte, k.n)
		k.dec(back, text)
		if !bytes.Equal(back, src) {
			return fmt.Errorf("%s: %x is decoded as %x", k.name, src, back)
		}
		k.dec(text, text)
		if !bytes.Equal(text[:k.n], src) {
			return fmt.Errorf("%s: %x is decoded in place as %x", k.name, src, text[:k.n])
		}
	}
	in.NonTrivial()
	return nil
}

// MCase is a payload to encrypt.
type MCase struct {
	Seed int64 `json:"seed"`
	Len  int   `json:"len"`
	Dst  int   `json:"dst"`
	Cap  int   `json:"cap"`
	Fill int   `json:"fill"` // -1 random bytes
	Bit  int   `json:"bit"`
	Cut  int   `json:"cut"`
	Conc bool  `json:"conc"`
}

func genMac(r *rand.Rand, tier string, n int) MCase {
	c := MCase{Seed: r.Int63(), Fill: -1, Bit: r.Int(), Cut: 1 + r.Intn(20), Conc: r.Intn(8) == 0}
	switch r.Intn(4) {
	case 0:
		c.Len = r.Intn(24)
	case 1:
		c.Len = r.Intn(5)
	default:
		c.Len = r.Intn(1 << uint(1+r.Intn(15)))
	}
	if r.Intn(3) == 0 {
		c.Dst = r.Intn(40)
	}
	if r.Intn(3) == 0 {
		c.Cap = r.Intn(100)
	}
	if r.Intn(4) == 0 {
		c.Fill = r.Intn(256)
	}
	return c
}

type mac interface {
	Encrypt(dst, src []byte) []byte
	Decrypt(dst, src []byte) ([]byte, error)
	Overhead() int
}

func newMac(server bool, key []byte) (mac, error) {
	if server {
		return scrypto.New(key)
	}
	return crypto.New(key)
}

func runMac(in *vh.Info, c MCase) error {
	for _, server := range []bool{false, true} {
		if err := macCase(in, c, server); err != nil {
			return fmt.Errorf("server=%v: %v", server, err)
		}
	}
	return nil
}

func macCase(in *vh.Info, c MCase, server bool) error {
	r := rand.New(rand.NewSource(c.Seed))
	key := make([]byte, 32)
	r.Read(key)
	m, err := newMac(server, append([]byte(nil), key...))
	if err != nil {
		return err
	}
	for _, n := range []int{0, 16, 31, 33} {
		if _, err := newMac(server, make([]byte, n)); err == nil {
			return fmt.Errorf("a key of %d bytes is accepted", n)
		}
	}
	payload := func(n int) []byte {
		b := make([]byte, n)
		r.Read(b)
		if c.Fill >= 0 {
			for i := range b {
				b[i] = byte(c.Fill)
			}
		}
		return b
	}
	round := func(m mac, src []byte, prefix []byte, spare int) ([]byte, error) {
		orig := append([]byte(nil), src...)
		dst := append(make([]byte, 0, len(prefix)+spare), prefix...)
		ct := m.Encrypt(dst, src)
		if !bytes.Equal(src, orig) {
			return nil, fmt.Errorf("encryption changed its input of %d bytes", len(src))
		}
		if !bytes.HasPrefix(ct, prefix) {
			return nil, fmt.Errorf("encryption did not append to the %d bytes given", len(prefix))
		}
		ct = ct[len(prefix):]
		if len(ct) > len(src)+m.Overhead() {
			return nil, fmt.Errorf("%d bytes are encrypted as %d bytes, more than the overhead of %d", len(src), len(ct), m.Overhead())
		}
		ct = append([]byte(nil), ct...)
		keep := append([]byte(nil), ct...)
		dst = append(make([]byte, 0, len(prefix)+spare), prefix...)
		pt, err := m.Decrypt(dst, ct)
		if err != nil {
			return nil, fmt.Errorf("%d bytes: decryption with the same key failed: %v", len(src), err)
		}
		if !bytes.Equal(ct, keep) {
			return nil, fmt.Errorf("decryption of %d bytes changed its input", len(src))
		}
		if !bytes.Equal(pt, append(append([]byte{}, prefix...), orig...)) {
			return nil, fmt.Errorf("%d bytes: decryption returned other bytes", len(src))
		}
		// reading twice works
		pt, err = m.Decrypt(nil, ct)
		if err != nil || !bytes.Equal(pt, orig) {
			return nil, fmt.Errorf("%d bytes: a second decryption failed: %v", len(src), err)
		}
		return ct, nil
	}
	src := payload(c.Len)
	ct, err := round(m, src, payload(c.Dst), c.Cap)
	if err != nil {
		return err
	}
	if c.Len >= 16 && bytes.Contains(ct, src[4:16]) && c.Fill < 0 {
		return errors.New("the plain text is readable in the cipher text")
	}
	// changes are noticed
	bad := append([]byte(nil), ct...)
	i := c.Bit % (8 * len(bad))
	bad[i/8] ^= 1 << uint(i%8)
	if _, err := m.Decrypt(nil, bad); err == nil {
		return fmt.Errorf("%d bytes: bit %d was changed and decryption succeeds", c.Len, i)
	}
	cut := c.Cut
	if cut > len(ct) {
		cut = len(ct)
	}
	if _, err := m.Decrypt(nil, append([]byte(nil), ct[:len(ct)-cut]...)); err == nil {
		return fmt.Errorf("%d bytes: the last %d bytes are missing and decryption succeeds", c.Len, cut)
	}
	if _, err := m.Decrypt(nil, append(append([]byte(nil), ct...), payload(c.Cut)...)); err == nil {
		return fmt.Errorf("%d bytes: there are %d bytes too many and decryption succeeds", c.Len, c.Cut)
	}
	// another key does not open it
	other := append([]byte(nil), key...)
	other[r.Intn(32)] ^= 1 << uint(r.Intn(8))
	m2, err := newMac(server, other)
	if err != nil {
		return err
	}
	if _, err := m2.Decrypt(nil, append([]byte(nil), ct...)); err == nil {
		return errors.New("another key decrypts the text")
	}
	// and the same key, made again, does
	m3, _ := newMac(server, append([]byte(nil), key...))
	if pt, err := m3.Decrypt(nil, append([]byte(nil), ct...)); err != nil || !bytes.Equal(pt, src) {
		return fmt.Errorf("%d bytes: the same key does not decrypt in another instance: %v", c.Len, err)
	}
	if c.Conc {
		in.Hit("concurrent")
		var wg sync.WaitGroup
		errs := make([]error, 4)
		for g := range errs {
			p := make([][]byte, 20)
			for i := range p {
				p[i] = payload(4 + r.Intn(200))
			}
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						errs[g] = fmt.Errorf("panic: %v", p)
					}
				}()
				for _, s := range p {
					if _, err := round(m, s, nil, 0); err != nil {
						errs[g] = fmt.Errorf("with concurrent use: %v", err)
						return
					}
				}
			}(g)
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return err
			}
		}
	}
	if c.Len < 4 {
		in.Hit("short")
	} else if c.Len > 1000 {
		in.Hit("long")
	}
	in.NonTrivial()
	return nil
}

// Suites lists the checks of the building blocks.
func Suites() []*vh.Suite {
	return []*vh.Suite{
		vh.New("L01", "anchor", "a history with a block added and a block removed", false, genAnchor, runAnchor, shrinkAnchor),
		vh.New("L02", "bloom", "a filter of at least ten keys", false, genBloom, runBloom, func(c BCase) (out []BCase) {
			for n := c.N / 2; n > 0; n /= 2 {
				d := c
				d.N = c.N - n
				out = append(out, d)
			}
			return
		}),
		vh.New("L05", "metrics", "a history of at least two steps", false, genMetrics, runMetrics, shrinkMetrics),
		vh.New("L03", "encodings", "every case: an identifier is encoded and decoded by all codecs", false, genEnc, runEnc, nil),
		vh.New("L04", "mac", "every case: a payload is encrypted, decrypted and damaged", false, genMac, runMac, func(c MCase) (out []MCase) {
			for n := c.Len / 2; n > 0; n /= 2 {
				d := c
				d.Len = c.Len - n
				out = append(out, d)
			}
			for _, f := range []func(*MCase){func(d *MCase) { d.Dst = 0 }, func(d *MCase) { d.Cap = 0 }, func(d *MCase) { d.Conc = false }, func(d *MCase) { d.Fill = 7 }} {
				d := c
				f(&d)
				if d != c {
					out = append(out, d)
				}
			}
			return
		}),
	}
}
