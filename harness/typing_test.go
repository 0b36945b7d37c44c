package zzverif

import (
	"encoding/json"
	"net/http"
	"net/url"
	"testing"

	"github.com/lestrrat-go/jwx/v3/jwa"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

type sigSpec struct {
	Prot   string `json:"prot"`
	Unprot string `json:"unprot"`
	Signer string `json:"signer"`
}

type docSpec struct {
	Ser  string    `json:"ser"`
	From string    `json:"from"`
	Sigs []sigSpec `json:"sigs"`
}

// headerType returns the value of a typ header; nil if there is none
func headerType(t string) any {
	switch t {
	case "no":
		return nil
	case "empty":
		return ""
	case "js":
		return "jwk-set+jwt"
	case "er":
		return "explicit-registration-response+jwt"
	case "upper":
		return "Entity-Statement+JWT"
	case "prefix":
		return "application/entity-statement+jwt"
	case "space":
		return " entity-statement+jwt"
	case "list":
		return []string{"entity-statement+jwt"}
	}
	return typHeader(t)
}

// makeDoc creates a JWS in any serialization
func makeDoc(d docSpec, payload []byte) string {
	type sig struct {
		Protected string         `json:"protected"`
		Header    map[string]any `json:"header,omitempty"`
		Signature string         `json:"signature"`
	}
	sigs := []sig{}
	for _, s := range d.Sigs {
		k := getKey(s.Signer)
		head := map[string]any{"alg": "ES256", "kid": k.kid}
		if t := headerType(s.Prot); t != nil {
			head["typ"] = t
		}
		o := sig{Protected: b64(mustJSON(head))}
		if t := headerType(s.Unprot); t != nil {
			o.Header = map[string]any{"typ": t}
		}
		o.Signature = b64(es256(k, o.Protected+"."+b64(payload)))
		sigs = append(sigs, o)
	}
	switch d.Ser {
	case "compact":
		return sigs[0].Protected + "." + b64(payload) + "." + sigs[0].Signature
	case "flat":
		m := map[string]any{"payload": b64(payload), "protected": sigs[0].Protected, "signature": sigs[0].Signature}
		if sigs[0].Header != nil {
			m["header"] = sigs[0].Header
		}
		return string(mustJSON(m))
	default:
		return string(mustJSON(map[string]any{"payload": b64(payload), "signatures": sigs}))
	}
}

// TestTyping presents documents to all parsers
func TestTyping(t *testing.T) {
	type use struct {
		Use      string `json:"use"`
		Purpose  string `json:"purpose"`
		Acc      bool   `json:"acc"`
		Ver      bool   `json:"ver"`
		Verifies bool   `json:"verifies"`
		Panic    string `json:"panic"`
	}
	runScenarios(t, func(t *testing.T, raw []byte) (res any) {
		var d docSpec
		if err := json.Unmarshal(raw, &d); err != nil {
			t.Fatal(err)
		}
		uses := []use{}
		inBubble(t, 10, func(t *testing.T) {
			w := newWorld(worldSpec{})
			defer w.close()
			x, y, z := w.eid("x"), w.eid("y"), w.eid("z")
			own := jwksOf([]string{"own"})
			payload := map[string]any{
				"iss": x, "sub": x, "iat": tick(0), "exp": tick(1000), "jwks": jwksJSON([]string{"own"}), "trust_mark_type": z,
				"metadata":    map[string]any{"openid_relying_party": map[string]any{"client_name": "n"}},
				"trust_chain": []string{},
			}
			doc := func(p map[string]any) string { return makeDoc(d, mustJSON(p)) }
			if d.From == "library" {
				s := oidfed.NewGeneralJWTSigner(getKey("own").priv, jwa.ES256())
				doc = func(p map[string]any) string {
					var j []byte
					var err error
					switch d.Sigs[0].Prot {
					case "es":
						j, err = s.EntityStatementSigner().JWT(p)
					case "tm":
						j, err = s.TrustMarkSigner().JWT(p)
					case "td":
						j, err = s.TrustMarkDelegationSigner().JWT(p)
					case "rr":
						j, err = s.ResolveResponseSigner().JWT(p)
					case "ro":
						j, err = oidfed.NewRequestObjectProducer(x, getKey("own").priv, jwa.ES256(), 60).RequestObject(p)
						if err != nil {
							p["aud"] = z
							j, err = oidfed.NewRequestObjectProducer(x, getKey("own").priv, jwa.ES256(), 60).RequestObject(p)
						}
					case "ca":
						j, err = oidfed.NewRequestObjectProducer(x, getKey("own").priv, jwa.ES256(), 60).ClientAssertion(z)
					}
					if err != nil {
						t.Fatal(err)
					}
					return string(j)
				}
			}
			body := doc(payload)
			with := func(k string, v any) string {
				p := map[string]any{}
				for kk, vv := range payload {
					p[kk] = vv
				}
				p[k] = v
				return doc(p)
			}
			sub := with("sub", y)
			mark := func(delegation string) string {
				return makeJWT(
					map[string]any{
						"iss": x, "sub": y, "iat": tick(0), "exp": tick(1000), "trust_mark_type": z, "delegation": delegation,
					}, typHeaders["tm"], "markIssuer", "ok",
				)
			}
			try := func(name, purpose string, verifies bool, f func(u *use)) {
				u := use{Use: name, Purpose: purpose, Verifies: verifies}
				u.Panic = guarded(func() { f(&u) })
				uses = append(uses, u)
			}
			w.handler = func(name, path string, q url.Values, r *http.Request) (int, string, string, bool) {
				switch path {
				case ".well-known/openid-federation":
					return 200, ctES, body, true
				case "fetch":
					return 200, ctES, sub, true
				case "resolve":
					return 200, "application/resolve-response+jwt", body, true
				}
				return 0, "", "", false
			}
			try("ParseEntityStatement", "es", true, func(u *use) {
				e, err := oidfed.ParseEntityStatement([]byte(body))
				u.Acc = err == nil && e != nil
				u.Ver = u.Acc && e.Verify(own)
			})
			try("GetEntityConfiguration", "es", true, func(u *use) {
				e, err := oidfed.GetEntityConfiguration(x)
				u.Acc = err == nil && e != nil
				u.Ver = u.Acc && e.Verify(own)
			})
			try("cached GetEntityConfiguration", "es", true, func(u *use) {
				e, err := oidfed.GetEntityConfiguration(x)
				u.Acc = err == nil && e != nil
				u.Ver = u.Acc && e.Verify(own)
			})
			try("FetchEntityStatement", "es", true, func(u *use) {
				e, err := oidfed.FetchEntityStatement(x+"/fetch", y, x)
				u.Acc = err == nil && e != nil
				u.Ver = u.Acc && e.Verify(own)
			})
			try("ParseTrustMark", "tm", true, func(u *use) {
				m, err := oidfed.ParseTrustMark([]byte(body))
				u.Acc = err == nil && m != nil
				u.Ver = u.Acc && m.VerifyExternal(own) == nil
			})
			try("TrustMarkInfo", "tm", true, func(u *use) {
				i := oidfed.TrustMarkInfo{TrustMarkType: z, TrustMarkJWT: body}
				m, err := i.TrustMark()
				u.Acc = err == nil && m != nil
				u.Ver = i.VerifyExternal(own) == nil
				u.Acc = u.Acc || u.Ver
			})
			try("TrustMarkInfos", "tm", true, func(u *use) {
				u.Acc = len(oidfed.TrustMarkInfos{{TrustMarkType: z, TrustMarkJWT: body}}.VerifiedExternal(jwksOf([]string{"own", "other"}))) == 1
				u.Ver = len(oidfed.TrustMarkInfos{{TrustMarkType: z, TrustMarkJWT: body}}.VerifiedExternal(own)) == 1
			})
			try("Delegation", "td", true, func(u *use) {
				m, err := oidfed.ParseTrustMark([]byte(mark(body)))
				if err != nil {
					t.Fatal(err)
				}
				e, err := m.Delegation()
				u.Acc = err == nil && e != nil
				u.Ver = u.Acc && e.VerifyExternal(own) == nil
			})
			try("mark with delegation", "td", true, func(u *use) {
				verify := func(keys []string) bool {
					m, err := oidfed.ParseTrustMark([]byte(mark(with("sub", x))))
					if err != nil {
						t.Fatal(err)
					}
					return m.VerifyExternal(jwksOf([]string{"markIssuer"}), oidfed.TrustMarkOwnerSpec{ID: x, JWKS: jwksOf(keys)}) == nil
				}
				u.Acc = verify([]string{"own", "other"})
				u.Ver = verify([]string{"own"})
			})
			try("ParseResolveResponse", "rr", false, func(u *use) {
				r, err := oidfed.ParseResolveResponse([]byte(body))
				u.Acc = err == nil && r != nil
			})
			try("remote Resolve", "rr", false, func(u *use) {
				m, err := oidfed.SimpleRemoteMetadataResolver{ResolveEndpoint: x + "/resolve"}.Resolve(apimodel.ResolveRequest{Subject: x, TrustAnchor: []string{y}})
				u.Acc = err == nil && m != nil
			})
		})
		return map[string]any{"uses": uses}
	})
}
