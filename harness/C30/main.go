package main

import (
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strconv"
	"strings"

	"github.com/keyfuse/tokucore/xrpc"
	"github.com/keyfuse/tokucore/zzverif/h"
)

type answer struct {
	status int
	body   string
	ctype  string
	raw    string // written to the connection as is
	hang   bool
}

const (
	mustFail = iota
	mustGive
	either
)

// expect is what a call whose result has the shape of sample must do.
func expect(a answer, sample interface{}) (int, interface{}) {
	if a.raw != "" {
		return mustFail, nil
	}
	if a.status >= 400 {
		return mustFail, nil
	}
	var m map[string]json.RawMessage
	if a.body == "" {
		return mustFail, nil
	}
	if !json.Valid([]byte(a.body)) {
		// A first value followed by something else may be read or refused.
		d := json.NewDecoder(strings.NewReader(a.body))
		var x interface{}
		if d.Decode(&x) == nil {
			return either, nil
		}
		return mustFail, nil
	}
	if json.Unmarshal([]byte(a.body), &m) != nil {
		return mustFail, nil
	}
	seen := map[string]int{}
	for k := range m {
		seen[strings.ToLower(k)]++
	}
	if strings.Count(a.body, `"error"`) > 1 || strings.Count(a.body, `"result"`) > 1 || len(seen) != len(m) {
		return either, nil
	}
	for k, v := range m {
		if strings.EqualFold(k, "error") && string(v) != "null" {
			if k == "error" {
				return mustFail, nil
			}
			return either, nil
		}
		if strings.EqualFold(k, "id") {
			if _, err := strconv.ParseUint(string(v), 10, 64); err != nil && string(v) != "null" {
				return either, nil
			}
		}
	}
	if _, ok := m["result"]; !ok && seen["result"] > 0 {
		return either, nil
	}
	r, ok := m["result"]
	if !ok || string(r) == "null" {
		return mustFail, nil
	}
	p := reflect.New(reflect.TypeOf(sample))
	if json.Unmarshal(r, p.Interface()) != nil {
		return mustFail, nil
	}
	if a.status != 200 {
		return either, nil
	}
	return mustGive, p.Elem().Interface()
}

func main() {
	h.Main("C30", func(t *h.T) {
		var cur answer
		ts := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			a := cur
			if a.raw != "" || a.hang {
				c, _, err := w.(http.Hijacker).Hijack()
				if err == nil {
					c.Write([]byte(a.raw))
					c.Close()
				}
				return
			}
			if a.ctype != "" {
				w.Header().Set("Content-Type", a.ctype)
			}
			if a.status >= 300 && a.status < 400 {
				w.Header().Set("Location", "/again")
			}
			w.WriteHeader(a.status)
			w.Write([]byte(a.body))
		}))
		defer ts.Close()
		host := ts.URL[7:]
		hdr, blk := xrpc.BlockHeaderResult{}, xrpc.BlockResult{}
		calls := []struct {
			name   string
			sample interface{}
			f      func(c *xrpc.Client) (interface{}, error)
		}{
			{"GetBlockHash", "", func(c *xrpc.Client) (interface{}, error) { return c.GetBlockHash(5) }},
			{"GetBlockCount", 0, func(c *xrpc.Client) (interface{}, error) { return c.GetBlockCount() }},
			{"GetBlockHeader", hdr, func(c *xrpc.Client) (interface{}, error) {
				r, err := c.GetBlockHeader("00")
				if r == nil {
					return nil, err
				}
				return *r, err
			}},
			{"GetBlock", blk, func(c *xrpc.Client) (interface{}, error) {
				r, err := c.GetBlock("00")
				if r == nil {
					return nil, err
				}
				return *r, err
			}},
		}
		try := func(a answer) {
			for _, c := range calls {
				want, val := expect(a, c.sample)
				t.Case(c.name, fmt.Sprintf("status %d body %s raw %q", a.status, a.body, a.raw), func() string {
					cur = a
					cl := xrpc.NewClient(host, "user", "pass")
					got, err := c.f(cl)
					if err == nil && got == nil {
						return "neither a result nor an error"
					}
					switch want {
					case mustFail:
						if err == nil {
							return fmt.Sprintf("succeeded with %+v", got)
						}
					case mustGive:
						if err != nil {
							return "failed: " + err.Error()
						}
						if !reflect.DeepEqual(got, val) {
							return fmt.Sprintf("gave %+v, should be %+v", got, val)
						}
					}
					return ""
				})
			}
		}
		str := func(s string) string { b, _ := json.Marshal(s); return string(b) }
		hex64 := func() string { return fmt.Sprintf("%x", t.Bytes(32)) }
		headers := func() (string, map[string]interface{}) {
			m := map[string]interface{}{
				"hash": hex64(), "confirmations": int64(t.R.Uint64() >> 1), "height": t.R.Int63n(1 << 40), "version": t.R.Int63n(1 << 31),
				"versionHex": fmt.Sprintf("%08x", t.R.Uint32()), "merkleroot": hex64(), "time": t.R.Uint32(), "mediantime": t.R.Uint32(),
				"nonce": t.R.Uint32(), "bits": "1d00ffff", "difficulty": t.R.Float64() * 1e6, "chainwork": hex64(),
				"previousblockhash": hex64(), "nextblockhash": hex64(),
			}
			b, _ := json.Marshal(m)
			return string(b), m
		}
		blocks := func() string {
			var txs []map[string]interface{}
			for i := 0; i < t.R.Intn(4); i++ {
				txs = append(txs, map[string]interface{}{"txid": hex64(), "hex": "00", "version": 1, "size": t.R.Uint32(), "vsize": t.R.Uint32(), "weight": t.R.Uint32(), "locktime": t.R.Uint32(),
					"vin":  []interface{}{map[string]interface{}{"coinbase": "00", "txid": hex64(), "vout": t.R.Intn(10), "sequence": t.R.Uint32(), "scriptSig": map[string]string{"asm": "a", "hex": "b"}}},
					"vout": []interface{}{map[string]interface{}{"value": t.R.Float64(), "n": t.R.Intn(4), "scriptPubKey": map[string]interface{}{"asm": "x", "type": "pubkeyhash", "reqSigs": 1, "addresses": []string{"a", "b"}}}}})
			}
			b, _ := json.Marshal(map[string]interface{}{"hash": hex64(), "confirmations": t.R.Uint32(), "size": t.R.Int31(), "strippedsize": t.R.Int31(), "weight": t.R.Int31(), "height": t.R.Int63n(1 << 33), "version": 2,
				"merkleroot": hex64(), "tx": txs, "nTx": t.R.Uint32(), "time": t.R.Uint32(), "nonce": t.R.Uint32(), "bits": "1b24a835", "difficulty": 1.5, "chainwork": hex64(), "previousblockhash": hex64(), "nextblockhash": hex64()})
			return string(b)
		}
		results := []string{"null", "0", "1", "-1", "1.5", "1e3", "99999999999999999999", "true", "false", `""`, str(hex64()), `"null"`, "[]", "{}", `[1]`, `{"hash":5}`, `{"hash":null}`, `{"tx":null}`, `{"tx":[null]}`, `{"tx":{}}`, `{"height":"1"}`, `{"time":-1}`, "2147483648", "9223372036854775807", "9223372036854775808"}
		for i := 0; i < 4; i++ {
			s, _ := headers()
			results = append(results, s, blocks())
		}
		errs := []string{"null", `{"code":-5,"message":"not found"}`, "{}", `{"code":0,"message":""}`, `{"code":null,"message":null}`, `{"message":"x"}`, `"failed"`, `""`, "0", "1", "false", "true", "[]", `[1]`, `{"code":"x"}`, `{"other":1}`}
		statuses := []int{200, 500, 404, 401, 403, 400, 503, 201, 202}
		for _, r := range results {
			for _, e := range errs {
				st := statuses[0]
				if t.R.Intn(4) == 0 {
					st = statuses[t.R.Intn(len(statuses))]
				}
				for _, b := range []string{
					fmt.Sprintf(`{"result":%s,"error":%s,"id":0}`, r, e),
					fmt.Sprintf(`{"id":7,"error":%s,"result":%s}`, e, r),
				} {
					try(answer{status: st, body: b})
				}
			}
			try(answer{status: 200, body: fmt.Sprintf(`{"result":%s}`, r)})
			try(answer{status: 200, body: r})
			for _, st := range statuses {
				try(answer{status: st, body: fmt.Sprintf(`{"result":%s,"error":null,"id":0}`, r)})
			}
		}
		for _, e := range errs {
			try(answer{status: 200, body: fmt.Sprintf(`{"error":%s}`, e)})
			try(answer{status: 500, body: fmt.Sprintf(`{"error":%s,"id":0,"result":null}`, e)})
		}
		full := `{"result":` + str(hex64()) + `,"error":null,"id":1}`
		for i := 0; i <= len(full); i++ {
			try(answer{status: 200, body: full[:i]})
		}
		for _, b := range []string{"", "null", "[]", "{}", "0", `""`, "nonsense", "<html>Unauthorized</html>", " ", "\n", "{", "}", `{"result"}`, `{"result":}`, `{"result":1}{"error":{"code":1}}`, `{"result":1} x`, `{"result":1,"id":"a"}`, `{"result":1,"id":-1}`, `{"result":1,"id":null}`, `{"result":1,"id":1.5}`, `{"Result":1}`, `{"result":1,"Error":{"code":1}}`, "\xff\xfe", `{"result":"` + strings.Repeat("a", 100000) + `"}`, strings.Repeat("[", 20000)} {
			for _, st := range statuses {
				try(answer{status: st, body: b, ctype: []string{"application/json", "text/html", ""}[t.R.Intn(3)]})
			}
		}
		try(answer{status: 204})
		try(answer{status: 304})
		try(answer{status: 302, body: full})
		try(answer{status: 307, body: full})
		ok := "HTTP/1.1 200 OK\r\nContent-Length: %d\r\nContent-Type: application/json\r\n\r\n%s"
		for _, r := range []string{"x", "HTTP/1.1\r\n\r\n", "HTTP/1.1 abc\r\n\r\n", "\r\n", fmt.Sprintf(ok, 500, full[:30]), fmt.Sprintf(ok, 20, full), fmt.Sprintf(ok, 0, ""), "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5\r\n{\"res"} {
			try(answer{raw: r})
		}
		// Nothing listens, or the name does not parse.
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err == nil {
			addr := l.Addr().String()
			l.Close()
			for _, hst := range []string{addr, "127.0.0.1:0", "%zz", "a b"} {
				for _, c := range calls {
					t.Case(c.name, "host "+hst, func() string {
						if v, err := c.f(xrpc.NewClient(hst, "", "")); err == nil {
							return fmt.Sprintf("succeeded with %+v", v)
						}
						return ""
					})
				}
			}
		}
		// What is decoded is what was sent, field by field.
		for i := 0; i < t.N(100) && t.Time(0.9); i++ {
			s, m := headers()
			t.Case("header fields", s, func() string {
				cur = answer{status: 200, body: `{"result":` + s + `,"error":null,"id":0}`}
				r, err := xrpc.NewClient(host, "", "").GetBlockHeader("00")
				if err != nil {
					return err.Error()
				}
				b, _ := json.Marshal(r)
				var back map[string]interface{}
				json.Unmarshal(b, &back)
				for _, k := range []string{"hash", "merkleroot", "versionHex", "bits", "chainwork", "previousblockhash", "nextblockhash"} {
					if back[k] != m[k] {
						return fmt.Sprintf("%s is %v, the server sent %v", k, back[k], m[k])
					}
				}
				return ""
			})
			try(answer{status: 200, body: `{"result":` + blocks() + `,"error":null,"id":0}`})
			n := t.R.Int63n(1 << 40)
			try(answer{status: 200, body: fmt.Sprintf(`{"result":%d,"error":null,"id":0}`, n)})
		}
	})
}
