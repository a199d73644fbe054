package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/ndau/ndaumath/pkg/keyaddr"
	"github.com/ndau/ndaumath/pkg/words"
	"verif/mc/engine"
)

// jsArg is a JavaScript value; T "" is a string
type jsArg struct {
	T string `json:"t"`
	V string `json:"v"`
}

type jsCall struct {
	Fn   string  `json:"fn"`
	Args []jsArg `json:"args"`
	CB   bool    `json:"cb"`
	Then *jsCall `json:"then,omitempty"`
}

type jsAnswer struct {
	Err    string
	IsErr  bool
	Object bool
	Type   string
	N      int
	Value  string
}

type jsOut struct {
	Answers []jsAnswer
	Threw   string
}

type jsResult struct {
	Out     []jsOut
	Handled []string
	Alive   bool
	Logged  []string
	Handler string
	Level   string
	Levels  string
}

// jsPage is what the page has set before it loads the module
type jsPage struct {
	Handler string `json:"handler"`
	Level   string `json:"level"`
}

type jsProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

var jsPool = make(chan *jsProc, 64)

func jsStart() *jsProc {
	p := &jsProc{}
	p.cmd = exec.Command("node", filepath.Join(os.Getenv("VERIF_DIR"), "mc/js/driver.js"), os.Getenv("WASM_EXEC"), os.Getenv("KEYADDR_WASM"))
	if os.Getenv("JS_DEBUG") != "" {
		p.cmd.Stderr = os.Stderr
	}
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		panic("engine: " + err.Error())
	}
	o, err := p.cmd.StdoutPipe()
	if err != nil {
		panic("engine: " + err.Error())
	}
	p.out = bufio.NewReader(o)
	if err := p.cmd.Start(); err != nil {
		panic("engine: node: " + err.Error())
	}
	return p
}

// jsRun performs calls one after the other, in one turn of the event loop
func jsRun(c *engine.Ctx, fresh bool, level string, calls ...jsCall) jsResult {
	return jsOn(c, nil, fresh, level, calls...)
}

func jsOn(c *engine.Ctx, page *jsPage, fresh bool, level string, calls ...jsCall) jsResult {
	var p *jsProc
	select {
	case p = <-jsPool:
	default:
		p = jsStart()
	}
	for i := range calls {
		if calls[i].Args == nil {
			calls[i].Args = []jsArg{}
		}
	}
	req, _ := json.Marshal(map[string]interface{}{"start": page, "fresh": fresh, "level": level, "calls": calls})
	type res struct {
		line string
		err  error
	}
	ch := make(chan res, 1)
	go func() {
		if _, err := p.in.Write(append(req, '\n')); err != nil {
			ch <- res{"", err}
			return
		}
		l, err := p.out.ReadString('\n')
		ch <- res{l, err}
	}()
	var r jsResult
	select {
	case x := <-ch:
		if x.err != nil || json.Unmarshal([]byte(x.line), &r) != nil {
			p.cmd.Process.Kill()
			p.cmd.Wait()
			c.Fail("died", "the JavaScript engine ended during %s: %v", req, x.err)
		}
	case <-time.After(60 * time.Second):
		p.cmd.Process.Kill()
		p.cmd.Wait()
		c.Fail("hang", "no end of %s", req)
	}
	select {
	case jsPool <- p:
	default:
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
	return r
}

// jsArity is the number of arguments besides the callback
var jsArity = map[string]int{"newKey": 1, "wordsToBytes": 2, "deriveFrom": 3, "ndauAddress": 1, "toPublic": 1, "child": 2, "sign": 2,
	"hardenedChild": 2, "wordsFromPrefix": 3, "isPrivate": 1, "wordsFromBytes": 2, "fromString": 1, "exit": 0}

var jsNames = []string{"newKey", "wordsToBytes", "deriveFrom", "ndauAddress", "toPublic", "child", "sign", "hardenedChild", "wordsFromPrefix", "isPrivate", "wordsFromBytes", "fromString"}

func jsStr(s ...string) (out []jsArg) {
	for _, x := range s {
		out = append(out, jsArg{"str", x})
	}
	return
}

// jsWant is what a call is to answer: text, or failure; known is false where
// any single answer will do.
func jsWant(call jsCall) (want, typ string, ok, known bool) {
	a := call.Args
	s := func(i int) string { return a[i].V }
	// the types
	for i, x := range a {
		isNum := (call.Fn == "child" || call.Fn == "hardenedChild") && i == 1 || call.Fn == "wordsFromPrefix" && i == 2
		if x.T == "big" {
			return "", "", false, true
		}
		if isNum {
			if x.T != "num" {
				return "", "", false, true
			}
			continue
		}
		if call.Fn == "wordsToBytes" && i == 0 && x.T == "undefined" {
			a = append([]jsArg{{"str", "en"}}, a[1:]...)
			continue
		}
		if x.T != "str" {
			// not documented, but no key, seed or path can come of it
			return "", "", false, call.Fn != "wordsFromPrefix"
		}
	}
	num := func(i int) (int32, bool, bool) {
		switch s(i) {
		case "NaN", "0.5", "-0.5", "1e-300", "-0":
			return 0, false, false
		}
		var f float64
		fmt.Sscan(s(i), &f)
		if f != float64(int64(f)) && f < 1e18 && f > -1e18 {
			return 0, false, false
		}
		return int32(int64(f)), f >= -(1<<31) && f < 1<<31, true
	}
	k := &keyaddr.Key{}
	if len(a) > 0 {
		k.Key = s(0)
	}
	fromKey := func(k *keyaddr.Key, err error) (string, string, bool, bool) {
		if err != nil {
			return "", "", false, true
		}
		return k.Key, "string", true, true
	}
	text := func(s string, err error) (string, string, bool, bool) { return s, "string", err == nil, true }
	switch call.Fn {
	case "newKey":
		return fromKey(keyaddr.NewKey(s(0)))
	case "wordsToBytes":
		return text(keyaddr.WordsToBytes(s(0), s(1)))
	case "deriveFrom":
		return fromKey(keyaddr.DeriveFrom(s(0), s(1), s(2)))
	case "ndauAddress":
		x, err := k.NdauAddress()
		if err != nil {
			return "", "", false, true
		}
		return x.Address, "string", true, true
	case "toPublic":
		return fromKey(k.ToPublic())
	case "child", "hardenedChild":
		n, fits, known := num(1)
		if !known {
			return "", "", false, false
		}
		if !fits {
			return "", "", false, true
		}
		if call.Fn == "child" {
			return fromKey(k.Child(n))
		}
		return fromKey(k.HardenedChild(n))
	case "sign":
		x, err := k.Sign(s(1))
		if err != nil {
			return "", "", false, true
		}
		return x.Signature, "string", true, true
	case "wordsFromPrefix":
		n, fits, known := num(2)
		if !known || !fits {
			return "", "", false, false
		}
		return text(keyaddr.WordsFromPrefix(s(0), s(1), int(n)), nil)
	case "isPrivate":
		x, err := k.IsPrivate()
		return fmt.Sprint(x), "boolean", err == nil, true
	case "wordsFromBytes":
		return text(keyaddr.WordsFromBytes(s(0), s(1)))
	case "fromString":
		x, err := keyaddr.FromString(s(0))
		if err != nil {
			return "", "", false, true
		}
		b, _ := json.Marshal(map[string]string{"key": x.Key})
		return string(b), "object", true, true
	}
	panic("engine: " + call.Fn)
}

// jsCheck compares what a call did with what it should do
func jsCheck(c *engine.Ctx, call jsCall, o jsOut, what string) {
	c.Check(o.Threw == "", "threw:"+call.Fn, "%s: the call threw %s", what, o.Threw)
	if !call.CB {
		c.Check(len(o.Answers) == 0, "handler:"+call.Fn, "%s: it was answered", what)
		return
	}
	c.Check(len(o.Answers) == 1, "answers:"+call.Fn, "%s: answered %d times", what, len(o.Answers))
	a := o.Answers[0]
	failed := func() {
		c.Check(a.IsErr && a.Err != "" && a.Type == "null", "accepted:"+call.Fn, "%s: must fail, but the answer is (%q, %s %q)", what, a.Err, a.Type, a.Value)
	}
	if len(call.Args) != jsArity[call.Fn] {
		failed()
		return
	}
	want, typ, ok, known := jsWant(call)
	if !known {
		c.Check(a.N == 2, "answer:"+call.Fn, "%s: the answer has %d parts", what, a.N)
		return
	}
	if !ok {
		failed()
		return
	}
	c.Check(!a.IsErr && a.Type == typ && a.Value == want, "answer:"+call.Fn, "%s: answer (%q, %s %q), want %s %q", what, a.Err, a.Type, a.Value, typ, want)
}

// jsLogs checks what was logged: entries of the level asked for, and every error
// which a callback got as an Error
func jsLogs(c *engine.Ctx, r jsResult, level, what string) {
	order := map[string]int{"I": 1, "E": 2}
	var errs []string
	for _, l := range r.Logged {
		if !strings.HasPrefix(l, "{") {
			continue // said to the console, not logged
		}
		var e struct {
			Lvl, Msg, Src string
			Ts            float64
		}
		err := json.Unmarshal([]byte(l), &e)
		c.Check(err == nil && strings.Contains("DIE", e.Lvl) && len(e.Lvl) == 1 && e.Src == "KEYADDR" && e.Msg != "" && e.Ts != 0, "log", "%s: logged %s: %v", what, l, err)
		c.Check(order[e.Lvl] >= order[level], "log", "%s: %s was logged at level %s", what, l, level)
		if e.Lvl == "E" {
			errs = append(errs, e.Msg)
		}
	}
	for _, o := range r.Out {
		for _, a := range o.Answers {
			if !a.IsErr || !a.Object {
				continue
			}
			found := false
			for _, m := range errs {
				found = found || m == a.Err
			}
			c.Check(found, "log", "%s: the error %q was not logged: %q", what, a.Err, r.Logged)
		}
	}
}

func jsText(call jsCall) string {
	b, _ := json.Marshal(call)
	return string(b)
}

func init() {
	master := func() node { return mustMaster(3) }
	values := func() []jsArg {
		n := master()
		return []jsArg{{"str", n.text()}, {"str", n.neuter().text()}, {"str", n.oldText(oldPriv)}, {"str", ""}, {"str", "AAECAwQFBgcICQoLDA0ODw=="}, {"str", "en"}, {"str", "%d%s"},
			{"str", "/"}, {"num", "0"}, {"num", "1"}, {"undefined", ""}, {"null", ""}, {"bool", "true"}, {"big", "5"}, {"sym", ""}, {"obj", "x"}, {"arr", "x"}, {"fn", ""}}
	}
	good := func() []jsCall {
		n := master()
		t, p := n.text(), n.neuter().text()
		mk := func(fn string, args ...jsArg) jsCall { return jsCall{Fn: fn, Args: args, CB: true} }
		s := func(x string) jsArg { return jsArg{"str", x} }
		return []jsCall{
			mk("newKey", s("AAECAwQFBgcICQoLDA0ODw==")), mk("wordsToBytes", jsArg{"undefined", ""}, s("abandon amount liar amount expire adjust cage candy arch gather drum bundle")),
			mk("deriveFrom", s(t), s("/"), s("/44'/20036'/100/1")), mk("ndauAddress", s(p)), mk("toPublic", s(t)), mk("child", s(p), jsArg{"num", "7"}), mk("sign", s(t), s("AQID")),
			mk("hardenedChild", s(t), jsArg{"num", "7"}), mk("wordsFromPrefix", s("en"), s("ac"), jsArg{"num", "3"}), mk("isPrivate", s(p)), mk("wordsFromBytes", s("en"), s("AAECAwQFBgcICQoLDA0ODw==")),
			mk("fromString", s(n.oldText(oldPriv))),
		}
	}
	bad := func() []jsCall {
		n := master()
		p := n.neuter().text()
		mk := func(fn string, args ...jsArg) jsCall { return jsCall{Fn: fn, Args: args, CB: true} }
		s := func(x string) jsArg { return jsArg{"str", x} }
		return []jsCall{
			{Fn: "newKey"}, {Fn: "child", Args: []jsArg{s(p), {"num", "1"}}}, {Fn: "sign", Args: []jsArg{{"big", "1"}}}, mk("newKey", jsArg{"big", "1"}), mk("wordsFromPrefix", s("en"), s("a"), s("x")),
			mk("hardenedChild", s(p), jsArg{"num", "1"}), mk("sign", s(p), s("AQID")), mk("child", s(p), jsArg{"num", "2147483648"}), mk("exit", s("x")), mk("toPublic"), mk("wordsToBytes", s("xx"), s("abandon")), mk("fromString", s("%s")),
		}
	}
	register(&engine.Property{
		ID: "J01", Level: "model_checking",
		Rule:   "What the compiled WebAssembly module, run by node, answers to a JavaScript call is what the Go API answers to the same arguments: one callback invocation with an error or with the value; without a callback, one report to the error handler. No call stops the module or throws.",
		Assume: []string{"node's WebAssembly and Go's js/wasm runtime", "callbacks return: one which throws into the module is the caller's error", "exit is not called from within a callback", "non-integer numbers as child numbers: only that there is one answer"},
		Harnesses: func(tier string) []engine.Harness {
			depth := 2
			if tier == "thorough" {
				depth = 3
			}
			if os.Getenv("KEYADDR_WASM") == "" {
				panic("engine: KEYADDR_WASM is not set: use run.sh")
			}
			step := func(c *engine.Ctx, level string, calls ...jsCall) {
				r := jsRun(c, false, level, calls...)
				var flat []jsCall
				var add func(x jsCall)
				add = func(x jsCall) {
					flat = append(flat, x)
					if x.Then != nil {
						add(*x.Then)
					}
				}
				for _, x := range calls {
					add(x)
				}
				c.Check(r.Alive, "stopped:"+calls[len(calls)-1].Fn, "the module has stopped after %s", jsText(calls[len(calls)-1]))
				c.Check(len(r.Out) == len(flat), "calls", "%d of %d calls were made", len(r.Out), len(flat))
				told := append([]string{}, r.Handled...)
				for _, x := range flat {
					if x.CB {
						continue
					}
					found := false
					for i, m := range told {
						if strings.Contains(m, x.Fn) {
							told = append(told[:i:i], told[i+1:]...)
							found = true
							break
						}
					}
					c.Check(found, "handler:"+x.Fn, "%s: a call without a callback must be reported to the error handler: %q", jsText(x), r.Handled)
				}
				c.Check(len(told) == 0, "handler:"+calls[0].Fn, "%s ...: the error handler was also told %q", jsText(calls[0]), told)
				for i, x := range flat {
					c.Logf("%s -> %+v", jsText(x), r.Out[i])
					jsCheck(c, x, r.Out[i], jsText(x))
				}
			}
			return []engine.Harness{
				{Name: "arguments", About: "every function with every combination of its arguments out of 18 values of all JavaScript types, with a callback", Body: func(c *engine.Ctx) {
					call := jsCall{Fn: jsNames[c.Pick(len(jsNames))], CB: true}
					vs := values()
					for i := 0; i < jsArity[call.Fn]; i++ {
						call.Args = append(call.Args, vs[c.Pick(len(vs))])
					}
					step(c, "E", call)
				}},
				{Name: "counts", About: "every function with 0..5 arguments, without a callback, with a callback last, and with one in another place", Body: func(c *engine.Ctx) {
					call := jsCall{Fn: append(jsNames, "exit")[c.Pick(13)]}
					n := c.Pick(6)
					vs := values()
					v := vs[c.Pick(len(vs))]
					for i := 0; i < n; i++ {
						call.Args = append(call.Args, v)
					}
					call.CB = c.Bool()
					if !call.CB && v.T == "fn" && n > 0 {
						return // it is a callback, and throws
					}
					if call.Fn == "exit" && call.CB && n == 0 {
						return
					}
					step(c, []string{"E", "D", "I", "zz"}[c.Pick(4)], call)
				}},
				{Name: "numbers", About: "child and hardenedChild of private and public keys and wordsFromPrefix, with every boundary of int32 and of JavaScript's numbers", Body: func(c *engine.Ctx) {
					nums := []string{"0", "-0", "1", "-1", "44", "2147483647", "2147483648", "2147483646", "-2147483648", "-2147483649", "4294967295", "4294967296", "4294967297", "9007199254740992", "1e308", "-1e308", "Infinity", "-Infinity", "NaN", "0.5", "-0.5", "2147483647.5", "1e-300", "65536", "8589934592", "-4294967296", "4294967340"}
					x := jsArg{"num", nums[c.Pick(len(nums))]}
					n := master()
					if c.Bool() {
						n = n.neuter()
					}
					switch c.Pick(3) {
					case 0:
						step(c, "E", jsCall{Fn: "child", Args: append(jsStr(n.text()), x), CB: true})
					case 1:
						step(c, "E", jsCall{Fn: "hardenedChild", Args: append(jsStr(n.text()), x), CB: true})
					case 2:
						step(c, "E", jsCall{Fn: "wordsFromPrefix", Args: append(jsStr("en", "ac"), x), CB: true})
					}
				}},
				{Name: "histories", About: fmt.Sprintf("every sequence of %d calls out of 12 right and 12 wrong ones, in one turn of the event loop, followed by a right one", depth), Body: func(c *engine.Ctx) {
					all := append(good(), bad()...)
					var calls []jsCall
					for i := 0; i < depth; i++ {
						calls = append(calls, all[c.Pick(len(all))])
					}
					calls = append(calls, good()[0])
					step(c, []string{"E", "D"}[c.Pick(2)], calls...)
				}},
				{Name: "nested", About: "every pair of calls, the second made from the callback of the first, followed by a third", Body: func(c *engine.Ctx) {
					all := append(good(), bad()...)
					a := all[c.Pick(len(all))]
					b := all[c.Pick(len(all))]
					if !a.CB {
						return
					}
					a.Then = &b
					step(c, "E", a, good()[c.Pick(2)])
				}},
				{Name: "texts", About: "paths of up to 4 characters over /, 0, 1 and ' for deriveFrom; word prefixes of 1 and 2 letters; messages of 0..70 bytes; seeds of 0..70 bytes", Body: func(c *engine.Ctx) {
					n := master()
					switch c.Pick(4) {
					case 0:
						p := ""
						for i := c.Pick(5); i > 0; i-- {
							p += []string{"/", "0", "1", "'"}[c.Pick(4)]
						}
						step(c, "E", jsCall{Fn: "deriveFrom", Args: jsStr(n.text(), "/", p), CB: true})
					case 1:
						p := string(rune('a' + c.Pick(26)))
						if i := c.Pick(27); i > 0 {
							p += string(rune('a' + i - 1))
						}
						step(c, "E", jsCall{Fn: "wordsFromPrefix", Args: append(jsStr("en", p), jsArg{"num", "0"}), CB: true})
					case 2:
						step(c, "E", jsCall{Fn: "sign", Args: jsStr(n.text(), b64(testData(c.Pick(71), 1))), CB: true})
					case 3:
						b := b64(testData(c.Pick(71), 2))
						step(c, "E", jsCall{Fn: "newKey", Args: jsStr(b), CB: true}, jsCall{Fn: "wordsFromBytes", Args: jsStr("en", b), CB: true})
					}
				}},
				{Name: "uses", About: "14 uses of each of 11 keys (private, public, derived, old, damaged); word lists of 0..40 bytes, right and in 6 ways wrong, in 5 languages; wordsFromPrefix of 7 prefixes, 5 languages and 8 limits; seeds and messages which are not base64", Body: func(c *engine.Ctx) {
					langs := []jsArg{{"str", "en"}, {"undefined", ""}, {"str", "xx"}, {"str", "EN"}, {"str", ""}}
					n := master()
					num := func(s string) jsArg { return jsArg{"num", s} }
					switch c.Pick(4) {
					case 0:
						one, _ := refChild(n, 1)
						hard, _ := refChild(n, 1<<31+44)
						deep, _ := refChild(hard, 7)
						bad := n.text()
						keys := []string{n.text(), n.neuter().text(), one.text(), one.neuter().text(), hard.text(), hard.neuter().text(), deep.text(),
							n.oldText(oldPriv), n.neuter().oldText(oldPubl), bad[:len(bad)-1] + string(bad[len(bad)-1]^1), strings.ToUpper(bad)}
						k := keys[c.Pick(len(keys))]
						call := []jsCall{
							{Fn: "isPrivate", Args: jsStr(k)}, {Fn: "toPublic", Args: jsStr(k)}, {Fn: "ndauAddress", Args: jsStr(k)}, {Fn: "fromString", Args: jsStr(k)},
							{Fn: "child", Args: append(jsStr(k), num("3"))}, {Fn: "hardenedChild", Args: append(jsStr(k), num("3"))},
							{Fn: "sign", Args: jsStr(k, "AQID")}, {Fn: "sign", Args: jsStr(k, "")}, {Fn: "sign", Args: jsStr(k, "AQI")},
							{Fn: "deriveFrom", Args: jsStr(k, "/", "/1")}, {Fn: "deriveFrom", Args: jsStr(k, "/44'", "/44'/5/6")}, {Fn: "deriveFrom", Args: jsStr(k, "/1", "/2/3")},
							{Fn: "deriveFrom", Args: jsStr(k, "/1/2", "/1")}, {Fn: "deriveFrom", Args: jsStr(k, "/1", "/1/2'")},
						}[c.Pick(14)]
						call.CB = true
						step(c, "E", call)
					case 1:
						lang := langs[c.Pick(len(langs))]
						ws, err := words.FromBytes("en", testData(c.Pick(41), 5))
						if err != nil {
							panic("engine: " + err.Error())
						}
						t := strings.Join(ws, " ")
						switch c.Pick(7) {
						case 1:
							t += " zoo"
						case 2:
							t = strings.Join(ws[:len(ws)-1], " ")
						case 3:
							t = strings.ToUpper(t)
						case 4:
							t = " " + t
						case 5:
							t = strings.Join(ws, "  ")
						case 6:
							t = strings.Join(append([]string{"zzz"}, ws[1:]...), " ")
						}
						step(c, "D", jsCall{Fn: "wordsToBytes", Args: []jsArg{lang, {"str", t}}, CB: true})
					case 2:
						lang := langs[c.Pick(len(langs))]
						p := []string{"", "a", "zo", "abandon", "zzz", "A", " "}[c.Pick(7)]
						x := []string{"0", "-1", "1", "2", "3", "2048", "2049", "1000000"}[c.Pick(8)]
						step(c, "E", jsCall{Fn: "wordsFromPrefix", Args: []jsArg{lang, {"str", p}, num(x)}, CB: true})
					case 3:
						lang := langs[c.Pick(len(langs))]
						b := []string{"AAECAwQFBgcICQoLDA0ODw==", "AAECAwQFBgcICQoLDA0ODw", "AAECAwQFBgcICQoLDA0ODw=", "!", "AA==", "A", "_-AC", "AAEC\nAwQF"}[c.Pick(8)]
						step(c, "E", jsCall{Fn: "wordsFromBytes", Args: []jsArg{lang, {"str", b}}, CB: true}, jsCall{Fn: "newKey", Args: jsStr(b), CB: true})
					}
				}},
				{Name: "log", About: "every pair of 24 calls at each of 4 log levels: only entries of that level and above are logged, as JSON with source and time, and errors given to a callback are", Body: func(c *engine.Ctx) {
					all := append(good(), bad()...)
					level := []string{"E", "D", "I", "zz"}[c.Pick(4)]
					calls := []jsCall{all[c.Pick(len(all))], all[c.Pick(len(all))]}
					r := jsRun(c, false, level, calls...)
					jsLogs(c, r, level, level+": "+jsText(calls[0])+", "+jsText(calls[1]))
				}},
				{Name: "start", About: "loaded with an error handler, without, with null and undefined for one, and with each log level or none: the page's are kept, else there are a default handler, which logs, and level I; 24 calls after each", Body: func(c *engine.Ctx) {
					page := &jsPage{[]string{"own", "none", "null", "undefined"}[c.Pick(4)], []string{"none", "D", "I", "E"}[c.Pick(4)]}
					all := append(good(), bad()...)
					call := all[c.Pick(len(all))]
					r := jsOn(c, page, false, "", call, good()[3])
					what := fmt.Sprintf("%+v: %s", *page, jsText(call))
					c.Check(r.Alive && len(r.Out) == 2, "start", "%s: alive %v, %d calls", what, r.Alive, len(r.Out))
					level := page.Level
					if level == "none" {
						level = "I"
					}
					c.Check(r.Level == level && r.Levels == "D,I,E", "start", "%s: log level %q, of %s", what, r.Level, r.Levels)
					if page.Handler == "own" {
						c.Check(r.Handler == "own", "start", "%s: the page's error handler was replaced", what)
					} else {
						c.Check(r.Handler == "function" && len(r.Handled) == 0, "start", "%s: the error handler is %q", what, r.Handler)
					}
					jsCheck(c, call, r.Out[0], what)
					jsCheck(c, good()[3], r.Out[1], what)
					if page.Handler != "own" && !call.CB {
						found := false
						for _, l := range r.Logged {
							found = found || strings.Contains(l, call.Fn) && !strings.HasPrefix(l, "{")
						}
						c.Check(found, "start", "%s: the error was not logged: %q", what, r.Logged)
					}
					jsLogs(c, r, level, what)
				}},
				{Name: "exit", Serial: true, About: "exit with wrong arguments leaves the module running; exit with a callback is answered once and ends it, after every other call", Body: func(c *engine.Ctx) {
					all := append(good(), bad()...)
					first := all[c.Pick(len(all))]
					ex := jsCall{Fn: "exit", CB: true}
					switch c.Pick(2) {
					case 0:
						step(c, "E", first, jsCall{Fn: "exit", Args: jsStr("x"), CB: true}, jsCall{Fn: "exit"}, good()[3])
					case 1:
						r := jsRun(c, true, "E", first, ex)
						c.Check(len(r.Out) == 2, "exit", "%d calls", len(r.Out))
						jsCheck(c, first, r.Out[0], jsText(first))
						o := r.Out[1]
						c.Check(o.Threw == "" && len(o.Answers) == 1 && !o.Answers[0].IsErr && !r.Alive, "exit", "exit: %+v, alive afterwards: %v", o, r.Alive)
					}
				}},
			}
		},
	})
}
