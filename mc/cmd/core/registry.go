package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"

	"github.com/ndau/ndaumath/pkg/signature"
	"verif/mc/engine"
)

// The registry of algorithms is a global of the process, with no way back: so
// every history runs in a process of its own.

type base struct{}

func (base) PublicKeySize() int           { return 3 }
func (base) PrivateKeySize() int          { return 4 }
func (base) SignatureSize() int           { return 5 }
func (base) Public(private []byte) []byte { return []byte{1, 2, 3} }
func (base) Generate(io.Reader) (public, private []byte, err error) {
	return []byte{1, 2, 3}, []byte{1, 2, 3, 4}, nil
}
func (base) Sign(private, message []byte) []byte     { return []byte{1, 2, 3, 4, 5} }
func (base) Verify(public, message, sig []byte) bool { return len(message) == 1 }

type alpha struct{ base }
type beta struct{ base }

// a custom algorithm may have the name of a built in one
type ed25519 struct{ base }

var customs = []struct {
	name string
	al   signature.Algorithm
}{
	{"alpha", alpha{}},
	{"alpha", &alpha{}},
	{"beta", &beta{}},
	{"ed25519", ed25519{}},
	{"beta", beta{}},
}

type regOp struct{ ID, Alg int }

// regSeen is what can be seen after an operation
type regSeen struct {
	Refused bool
	Writes  []string // per custom algorithm: a key and a signature as bytes, or "error"
	Reads   []string // per id: what a key of that id reads as
	Same    string   // the matrix of SameAlgorithm over the built in and custom ones
	Builtin []string
}

var regIDs = []int{0, 1, 2, 3, 127, 128, 129, 200, 255}

func observe() regSeen {
	var o regSeen
	for _, x := range customs {
		pub, err := signature.RawPublicKey(x.al, []byte{7, 8, 9}, []byte{6})
		var b []byte
		if err == nil {
			b, err = pub.Marshal()
		}
		sig, err2 := signature.RawSignature(x.al, []byte{1, 2, 3, 4, 5})
		var sb []byte
		if err2 == nil {
			sb, err2 = sig.Marshal()
		}
		o.Writes = append(o.Writes, fmt.Sprintf("%x %v %x %v %s", b, err != nil, sb, err2 != nil, signature.NameOf(x.al)))
	}
	for _, id := range regIDs {
		var s string
		for _, n := range []int{3, 32, 33, 0} {
			pub := new(signature.PublicKey)
			err := pub.Unmarshal(refKeyBytes(byte(id), testData(n, 2), nil))
			if err == nil {
				s += fmt.Sprintf("%d:%s ", n, signature.NameOf(pub.Algorithm()))
			}
		}
		o.Reads = append(o.Reads, s)
	}
	all := []signature.Algorithm{signature.Null, signature.Ed25519, signature.Secp256k1}
	for _, x := range customs {
		all = append(all, x.al)
	}
	for _, a := range all {
		for _, b := range all {
			if signature.SameAlgorithm(a, b) {
				o.Same += "1"
			} else {
				o.Same += "0"
			}
		}
		o.Same += " "
	}
	for _, a := range algos {
		pub, _ := signature.RawPublicKey(a.al, testData(a.pub, 2), nil)
		b, err := pub.Marshal()
		o.Builtin = append(o.Builtin, fmt.Sprintf("%x %v", b, err))
	}
	return o
}

// registryChild performs a history and prints what it saw
func registryChild(arg string) {
	var ops []regOp
	if err := json.Unmarshal([]byte(arg), &ops); err != nil {
		panic(err)
	}
	var out []regSeen
	seen := observe()
	out = append(out, seen)
	for _, op := range ops {
		err := signature.RegisterAlgorithm(signature.AlgorithmID(op.ID), customs[op.Alg].al)
		s := observe()
		s.Refused = err != nil
		out = append(out, s)
		for i := 0; i < 6; i++ {
			// once more the same: nothing may change
			err := signature.RegisterAlgorithm(signature.AlgorithmID(op.ID), customs[op.Alg].al)
			s2 := observe()
			s2.Refused = err != nil
			if fmt.Sprint(s2) != fmt.Sprint(s) {
				out[len(out)-1] = s2
				break
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

// regModel is what must be seen
type regModel map[int]string

func (m regModel) idOf(name string) (int, bool) {
	for id, n := range m {
		if n == name {
			return id, true
		}
	}
	return 0, false
}

func (m regModel) see(refused bool) regSeen {
	o := regSeen{Refused: refused}
	for _, x := range customs {
		id, ok := m.idOf(x.name)
		if x.name == "ed25519" {
			id, ok = 1, true
		}
		if !ok {
			o.Writes = append(o.Writes, fmt.Sprintf(" true  true %s", x.name))
			continue
		}
		o.Writes = append(o.Writes, fmt.Sprintf("%x false %x false %s", refKeyBytes(byte(id), []byte{7, 8, 9}, []byte{6}), refContainer(byte(id), []byte{1, 2, 3, 4, 5}), x.name))
	}
	for _, id := range regIDs {
		s := ""
		switch n := m[id]; {
		case id == 0:
			s = "0:null "
		case id == 1:
			s = "32:ed25519 "
		case id == 2:
			s = "33:secp256k1 "
		case n != "":
			s = "3:" + n + " "
		}
		o.Reads = append(o.Reads, s)
	}
	names := []string{"null", "ed25519", "secp256k1"}
	for _, x := range customs {
		names = append(names, x.name)
	}
	for _, a := range names {
		for _, b := range names {
			_, known := m.idOf(a)
			if a == b && (known || a == "null" || a == "ed25519" || a == "secp256k1") {
				o.Same += "1"
			} else {
				o.Same += "0"
			}
		}
		o.Same += " "
	}
	for _, a := range algos {
		o.Builtin = append(o.Builtin, fmt.Sprintf("%x <nil>", refKeyBytes(a.id, testData(a.pub, 2), nil)))
	}
	return o
}

// do returns whether the registration must be refused
func (m regModel) do(op regOp) bool {
	name := customs[op.Alg].name
	if op.ID < 128 || name == "ed25519" {
		return true
	}
	if n, used := m[op.ID]; used && n != name {
		return true
	}
	if id, used := m.idOf(name); used && id != op.ID {
		return true
	}
	m[op.ID] = name
	return false
}

func init() {
	register(&engine.Property{ID: "S05", Level: "model_checking", Harnesses: func(tier string) []engine.Harness {
		depth := 2
		if tier == "thorough" {
			depth = 3
		}
		self, err := os.Executable()
		if err != nil {
			panic(err)
		}
		run := func(c *engine.Ctx, ops []regOp) {
			arg, _ := json.Marshal(ops)
			cmd := exec.Command(self, "__registry", string(arg))
			var out, errOut bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &errOut
			err := cmd.Run()
			c.Logf("%s", arg)
			if err != nil {
				if strings.Contains(errOut.String(), "panic:") {
					c.Fail("panic", "history %s: %.1500s", arg, errOut.String())
				}
				panic(fmt.Sprintf("engine: the child process failed: %v %.300s", err, errOut.String()))
			}
			var seen []regSeen
			if err := json.Unmarshal(out.Bytes(), &seen); err != nil || len(seen) != len(ops)+1 {
				panic(fmt.Sprintf("engine: the child process wrote %q", out.String()))
			}
			m := regModel{}
			for i := range seen {
				refused := false
				if i > 0 {
					refused = m.do(ops[i-1])
				}
				want := m.see(refused)
				g, w := fmt.Sprintf("%+v", seen[i]), fmt.Sprintf("%+v", want)
				c.Check(g == w, "registry", "history %s, after step %d:\n got %s\nwant %s", arg, i, g, w)
				c.State(w)
			}
		}
		return []engine.Harness{
			{Name: "histories", About: fmt.Sprintf("every history of %d registrations of %d algorithms (values, pointers, one with the name of a built-in one) under %d ids, each in a process of its own, each step repeated", depth, len(customs), len(regIDs)), Body: func(c *engine.Ctx) {
				var ops []regOp
				for i := 0; i < depth; i++ {
					ops = append(ops, regOp{regIDs[c.Pick(len(regIDs))], c.Pick(len(customs))})
				}
				run(c, ops)
			}},
			{Name: "all-ids", About: "one registration under every id 0..255", Body: func(c *engine.Ctx) {
				run(c, []regOp{{c.Pick(256), 0}})
			}},
			{Name: "long", About: "histories of 4 registrations over 3 ids and 3 algorithms", Body: func(c *engine.Ctx) {
				var ops []regOp
				for i := 0; i < 4; i++ {
					if tier != "thorough" && i == 3 {
						break
					}
					ops = append(ops, regOp{[]int{128, 129, 255}[c.Pick(3)], []int{0, 2, 3}[c.Pick(3)]})
				}
				run(c, ops)
			}},
		}
	}})
}
