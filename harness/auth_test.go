package zzverif

import (
	"crypto"
	"encoding/json"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"testing"

	"github.com/lestrrat-go/jwx/v3/jws"

	oidfed "github.com/go-oidfed/lib"
)

type roundTripper func(r *http.Request) (*http.Response, error)

func (f roundTripper) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

type authDoc struct {
	Keys   []string          `json:"keys"`
	Alg    string            `json:"alg"`
	Iat    int               `json:"iat"`
	Exp    int               `json:"exp"`
	JTI    string            `json:"jti"`
	Claims map[string]string `json:"claims"`
}

func text(v any) string { return unescape.Replace(sortedJSON(v)) }

var partyNames = []string{"issuer", "owner", "nobody"}

func observeAuthDoc(jwt []byte) authDoc {
	d := authDoc{Keys: []string{}, Claims: map[string]string{}}
	h := jwtPart(string(jwt), 0)
	d.Alg, _ = h["alg"].(string)
	for _, n := range partyNames {
		pub := algKey(d.Alg, n).Public()
		if _, err := jws.Verify(jwt, jws.WithKey(jwaAlg(d.Alg), pub)); err == nil {
			d.Keys = append(d.Keys, n)
		}
	}
	for c, v := range jwtPart(string(jwt), 1) {
		switch c {
		case "iat", "exp":
			f, ok := v.(float64)
			n := int(int64(f) - baseTime.Unix())
			if !ok || f != float64(int64(f)) {
				n = -7
			}
			if c == "iat" {
				d.Iat = n
			} else {
				d.Exp = n
			}
		case "jti":
			d.JTI = text(v)
		default:
			d.Claims[c] = text(v)
		}
	}
	return d
}

// TestAuth lets relying parties talk to providers
func TestAuth(t *testing.T) {
	type val struct {
		N string   `json:"n"`
		V []string `json:"v"`
	}
	type step struct {
		T        int     `json:"t"`
		Op       string  `json:"op"`
		P        int     `json:"p"`
		Map      int     `json:"map"`
		Params   []claim `json:"params"`
		IsNil    bool    `json:"isnil"`
		Aud      string  `json:"aud"`
		N        int     `json:"n"`
		E        string  `json:"e"`
		Redirect string  `json:"redirect"`
		State    string  `json:"state"`
		Scope    string  `json:"scope"`
		Vals     []val   `json:"vals"`
		Code     string  `json:"code"`
		Ans      string  `json:"ans"`
	}
	type obs struct {
		Panic    string              `json:"panic"`
		Err      bool                `json:"err"`
		Docs     []authDoc           `json:"docs"`
		MD       pmetadata           `json:"md"`
		Base     string              `json:"base"`
		Query    map[string][]string `json:"query"`
		Form     map[string][]string `json:"form"`
		TokErr   string              `json:"tokerr"`
		Access   string              `json:"access"`
		Requests int                 `json:"requests"`
	}
	split := func(raw string) (string, map[string][]string) {
		u, err := url.Parse(raw)
		if err != nil {
			return "?" + raw, map[string][]string{}
		}
		q := u.Query()
		u.RawQuery = ""
		return u.String(), q
	}
	old := http.DefaultTransport
	defer func() { http.DefaultTransport = old }()
	runScenarios(t, func(t *testing.T, raw []byte) any {
		var sc struct {
			World   worldSpec `json:"world"`
			Parties []struct {
				ID      string       `json:"id"`
				Key     string       `json:"key"`
				Alg     string       `json:"alg"`
				Life    int          `json:"life"`
				Leaf    bool         `json:"leaf"`
				Anchors []anchorSpec `json:"anchors"`
			} `json:"parties"`
			Steps []step `json:"steps"`
		}
		if err := json.Unmarshal(raw, &sc); err != nil {
			t.Fatal(err)
		}
		out := []obs{}
		inBubble(t, sc.World.Now, func(t *testing.T) {
			w := newWorld(sc.World)
			defer w.close()
			var producers []*oidfed.RequestObjectProducer
			var leaves []*oidfed.FederationLeaf
			for _, p := range sc.Parties {
				if !p.Leaf {
					leaves = append(leaves, nil)
					producers = append(producers, oidfed.NewRequestObjectProducer(p.ID, algKey(p.Alg, p.Key), jwaAlg(p.Alg), int64(p.Life)))
					continue
				}
				var fedKey crypto.Signer = getKey("kLeaf").priv
				l, err := oidfed.NewFederationLeaf(
					p.ID, []string{w.eid("TA")}, w.anchors(p.Anchors), nil,
					oidfed.NewEntityStatementSigner(fedKey, jwaAlg("ES256")), 3600, algKey(p.Alg, p.Key), jwaAlg(p.Alg), nil,
				)
				if err != nil {
					t.Fatal(err)
				}
				leaves = append(leaves, l)
				producers = append(producers, l.RequestObjectProducer())
			}
			maps := map[int]map[string]any{}
			vals := map[int]url.Values{}
			for _, s := range sc.Steps {
				sleepUntilTick(s.T)
				o := obs{Docs: []authDoc{}, MD: pmetadata{}, Query: map[string][]string{}, Form: map[string][]string{}}
				ro := producers[s.P-1]
				leaf := leaves[s.P-1]
				doc := func(jwt []byte, err error) {
					o.Err = err != nil
					if err == nil {
						o.Docs = append(o.Docs, observeAuthDoc(jwt))
					}
				}
				params := func() map[string]any {
					if s.IsNil {
						return nil
					}
					if m, ok := maps[s.Map]; ok && s.Map > 0 {
						return m
					}
					m := extraMap(s.Params)
					if m == nil {
						m = map[string]any{}
					}
					maps[s.Map] = m
					return m
				}
				values := func() url.Values {
					if s.IsNil {
						return nil
					}
					if v, ok := vals[s.Map]; ok && s.Map > 0 {
						return v
					}
					v := url.Values{}
					for _, x := range s.Vals {
						v[x.N] = x.V
					}
					vals[s.Map] = v
					return v
				}
				http.DefaultTransport = roundTripper(func(r *http.Request) (*http.Response, error) {
					if r.URL.Host == "" {
						return nil, errUnreachable // as the transport of net/http does
					}
					o.Requests++
					o.Base, o.Query = split(r.URL.String())
					body := ""
					if r.Body != nil {
						d, _ := io.ReadAll(r.Body)
						body = string(d)
					}
					form, err := url.ParseQuery(body)
					if err != nil || r.Method != http.MethodPost || !strings.HasPrefix(r.Header.Get("Content-Type"), "application/x-www-form-urlencoded") {
						form = url.Values{"?": {r.Method, r.Header.Get("Content-Type"), body}}
					}
					if a := form["client_assertion"]; len(a) == 1 {
						o.Docs = append(o.Docs, observeAuthDoc([]byte(a[0])))
						form["client_assertion"] = []string{"<assertion>"}
					}
					o.Form = form
					answer := func(status int, ct, body string) (*http.Response, error) {
						return &http.Response{
							StatusCode: status, Status: http.StatusText(status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
							Header: http.Header{"Content-Type": {ct}}, Body: io.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body)), Request: r,
						}, nil
					}
					switch s.Ans {
					case "token":
						return answer(200, "application/json", `{"access_token":"at","token_type":"Bearer","expires_in":300,"id_token":"idt","more":1}`)
					case "error":
						return answer(400, "application/json", `{"error":"invalid_grant","error_description":"no"}`)
					case "garbage":
						return answer(200, "text/html", "<html>")
					}
					return nil, errUnreachable
				})
				o.Panic = guarded(func() {
					switch s.Op {
					case "ro":
						doc(ro.RequestObject(params()))
					case "ca":
						doc(ro.ClientAssertion(s.Aud))
					case "burst":
						docs := make([][]byte, 2*s.N)
						var wg sync.WaitGroup
						for i := range docs {
							wg.Add(1)
							go func() {
								defer wg.Done()
								if i < s.N {
									docs[i], _ = ro.RequestObject(extraMap(s.Params))
								} else {
									docs[i], _ = ro.ClientAssertion(s.Aud)
								}
							}()
						}
						wg.Wait()
						for _, d := range docs {
							if d != nil {
								o.Docs = append(o.Docs, observeAuthDoc(d))
							}
						}
					case "opmd":
						md, err := leaf.ResolveOPMetadata(w.eid(s.E))
						o.Err = err != nil
						if err == nil {
							o.MD = observeMetadata(map[string]any{"openid_provider": md})
						}
					case "url":
						u, err := leaf.GetAuthorizationURL(w.eid(s.E), s.Redirect, s.State, s.Scope, values())
						o.Err = err != nil
						if err == nil {
							o.Base, o.Query = split(u)
							if r := o.Query["request"]; len(r) == 1 {
								doc([]byte(r[0]), nil)
								o.Query["request"] = []string{"<request>"}
							}
						}
					case "code":
						res, errRes, err := leaf.CodeExchange(w.eid(s.E), s.Code, s.Redirect, values())
						o.Err = err != nil
						if errRes != nil {
							o.TokErr = errRes.Error
						}
						if res != nil {
							o.Access = res.AccessToken
						}
					}
				})
				out = append(out, o)
			}
		})
		return out
	})
}
