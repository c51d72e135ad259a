package mon

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"
	"sync"

	"github.com/golang-jwt/jwt"
	"github.com/pojol/braid/lib/token"
)

func init() {
	reg(Scenario{Prop: "C24", Name: "tokens", Quick: 6000, Thorough: 300000, Run: runToken, NoNoise: true,
		Rule: "a token for a random id, and ten forgeries of it: characters changed, inserted or removed, parts swapped with those of another " +
			"token, claims or header rewritten and signed with no, another or the real key and other algorithms; an outcome is the kind of " +
			"forgery and its verdict"})
	reg(Scenario{Prop: "C24", Name: "together", Quick: 300, Thorough: 20000, Run: runTokensTogether, Races: true, Hot: true,
		Rule: "2-6 goroutines create and parse 1-12 tokens each at a time, of ids of their own, and parse each other's; an outcome is the order of the calls"})
}

func (c *Case) genID() string {
	switch c.pick(6) {
	case 0:
		return strings.Repeat("x", 1+c.pick(3000))
	case 1:
		b := make([]rune, 1+c.pick(12))
		for i := range b {
			b[i] = rune(c.pick(0xd7ff))
		}
		return string(b)
	case 2:
		return []string{" ", "\x00", "\"", "\\", "null", "0", "{}", "a.b.c", "\u2028", "<&>", "\n"}[c.pick(11)]
	default:
		const al = "abcdefghijklmnopqrstuvwxyz0123456789-_:."
		b := make([]byte, 1+c.pick(40))
		for i := range b {
			b[i] = al[c.pick(len(al))]
		}
		return string(b)
	}
}

func runTokensTogether(c *Case) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	pool := map[string]string{}
	var order []int
	for g := 0; g < 2+c.pick(5); g++ {
		rr := c.Rand()
		n := 1 + rr.Intn(12)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				id := fmt.Sprintf("%d.%d%s", g, i, strings.Repeat("x", rr.Intn(40)))
				s, err := token.Create(id)
				if !c.Check(err == nil, "create", "Create(%q): %v", id, err) {
					return
				}
				got, err := token.Parse(s)
				if !c.Check(err == nil && got == id, "roundtrip", "Parse(Create(%q)) = %q, %v, while others create and parse", id, got, err) {
					return
				}
				mu.Lock()
				pool[s] = id
				order = append(order, g)
				var other, oid string
				for other, oid = range pool {
					break
				}
				mu.Unlock()
				got, err = token.Parse(other)
				c.Check(err == nil && got == oid, "roundtrip", "Parse of another's token of %q: %q, %v", oid, got, err)
			}
		}()
	}
	wg.Wait()
	c.N("tokens", len(order))
	c.Sig(order)
}

func b64(s string) (string, bool) {
	b, err := base64.RawURLEncoding.DecodeString(s)
	return string(b), err == nil
}

func enc(s string) string { return base64.RawURLEncoding.EncodeToString([]byte(s)) }

func runToken(c *Case) {
	id, id2 := c.genID(), c.genID()
	parse := func(s string) (got string, err error, ok bool) {
		defer func() {
			if r := recover(); r != nil {
				c.Check(false, "panic", "Parse(%q) panics: %v", s, r)
			}
		}()
		got, err = token.Parse(s)
		return got, err, true
	}
	tk, err := token.Create(id)
	if !c.Check(err == nil, "create", "Create(%q): %v", id, err) {
		return
	}
	tk2, err := token.Create(id2)
	if !c.Check(err == nil, "create", "Create(%q): %v", id2, err) {
		return
	}
	got, err, ok := parse(tk)
	if !ok || !c.Check(err == nil && got == id, "roundtrip", "Parse(Create(%q)) = %q, %v", id, got, err) {
		return
	}
	if s, err := token.Create(""); !c.Check(err != nil && s == "", "empty", "Create of an empty id: %q, %v", s, err) {
		return
	}
	parts, parts2 := strings.Split(tk, "."), strings.Split(tk2, ".")
	c.Check(len(parts) == 3, "shape", "a token has %d parts", len(parts))
	if len(parts) != 3 || len(parts2) != 3 {
		return
	}
	header, _ := b64(parts[0])
	claims, _ := b64(parts[1])
	sign := func(m jwt.SigningMethod, hd, cl string, key interface{}) string {
		s := enc(hd) + "." + enc(cl)
		sig, err := m.Sign(s, key)
		if err != nil {
			return s + "."
		}
		return s + "." + sig
	}
	alphabet := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.=+/ \n\x00%"
	// no signature key of an attacker may work, and the real key is only used for what a creator never signs
	forge := func() (kind, s string, never bool) {
		switch k := c.pick(22); k {
		case 0, 1, 2, 3:
			i := c.pick(len(tk))
			return "change", tk[:i] + string(alphabet[c.pick(len(alphabet))]) + tk[i+1:], false
		case 4:
			i := c.pick(len(tk) + 1)
			return "insert", tk[:i] + string(alphabet[c.pick(len(alphabet))]) + tk[i:], false
		case 5:
			i := c.pick(len(tk))
			return "remove", tk[:i] + tk[i+1:], false
		case 6:
			return "truncate", tk[:c.pick(len(tk))], false
		case 7:
			return "splice-claims", parts[0] + "." + parts2[1] + "." + parts[2], false
		case 8:
			return "splice-sig", parts[0] + "." + parts[1] + "." + parts2[2], false
		case 9:
			return "nosig", parts[0] + "." + parts[1] + ".", true
		case 10:
			hd := []string{`{"alg":"none","typ":"JWT"}`, `{"alg":"None"}`, `{"alg":"NONE"}`, `{"typ":"JWT"}`, `{"alg":""}`, `{"alg":null}`, `{"alg":"none"}`}[c.pick(7)]
			return "none", enc(hd) + "." + enc(claims) + "." + []string{"", parts[2], enc("x")}[c.pick(3)], true
		case 11:
			key := []string{"", "tokens", "Token", "toke", "secret", "\x00"}[c.pick(6)]
			return "otherkey", sign(jwt.SigningMethodHS256, header, claims, []byte(key)), true
		case 12:
			m := []jwt.SigningMethod{jwt.SigningMethodHS384, jwt.SigningMethodHS512}[c.pick(2)]
			return "otheralg", sign(m, `{"alg":"`+m.Alg()+`","typ":"JWT"}`, claims, []byte("token")), true
		case 13:
			m := []jwt.SigningMethod{jwt.SigningMethodHS384, jwt.SigningMethodHS512}[c.pick(2)]
			return "algmix", sign(m, header, claims, []byte("token")), true
		case 14:
			cl := []string{`{}`, `{"EntityID":""}`, `{"EntityID":null}`, `{"entity":"x"}`, `{"sub":"x"}`, `null`, `[]`, `""`, `{"EntityID":7}`, `{"EntityID":{}}`, ``, `{`}[c.pick(12)]
			return "noid", sign(jwt.SigningMethodHS256, header, cl, []byte("token")), true
		case 15:
			var cl map[string]interface{}
			json.Unmarshal([]byte(claims), &cl)
			for k := range cl {
				cl[k] = id + "x"
			}
			b, _ := json.Marshal(cl)
			return "rewrite", parts[0] + "." + enc(string(b)) + "." + parts[2], true
		case 16:
			return "parts", strings.Repeat(tk+".", 1+c.pick(3)), true
		case 17:
			return "prefix", []string{"Bearer ", " ", ".", ".."}[c.pick(4)] + tk, true
		case 18:
			b := make([]byte, c.pick(60))
			c.R.Read(b)
			return "random", string(b), true
		case 19:
			return "claims-bit", func() string {
				b := []byte(claims)
				b[c.pick(len(b))] ^= 1 << c.pick(7)
				return parts[0] + "." + enc(string(b)) + "." + parts[2]
			}(), true
		case 20:
			sig, _ := b64(parts[2])
			b := []byte(sig)
			b[c.pick(len(b))] ^= 1 << c.pick(8)
			return "sig-bit", parts[0] + "." + parts[1] + "." + enc(string(b)), true
		default:
			return "short-sig", parts[0] + "." + parts[1] + "." + enc(func() string { s, _ := b64(parts[2]); return s[:c.pick(len(s))] }()), true
		}
	}
	for i := 0; i < 10; i++ {
		kind, s, never := forge()
		if s == tk || s == tk2 {
			continue
		}
		got, err, ok := parse(s)
		if !ok {
			return
		}
		c.N("forgeries", 1)
		c.Sig(kind, err == nil, len(s)%16)
		if err != nil {
			c.Check(got == "", "leak", "Parse of a %s forgery fails but gives id %q", kind, got)
			continue
		}
		// accepted: that is right only if every decoded part is the original's
		same := false
		if p := strings.Split(s, "."); !never && len(p) == 3 {
			for _, o := range [][]string{parts, parts2} {
				eq := true
				for k := range p {
					a, ok1 := b64(p[k])
					b, ok2 := b64(o[k])
					eq = eq && ok1 && ok2 && a == b
				}
				same = same || eq
			}
		}
		c.Check(same, "forged:"+kind, "a %s forgery of the token for %q is accepted as %q: %q", kind, id, got, s)
	}
	c.Sample("token for %q: 10 forgeries rejected", id)
}
