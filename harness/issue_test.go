package zzverif

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"encoding/base64"
	"encoding/json"
	"math"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/lestrrat-go/jwx/v3/jwa"
	"gopkg.in/yaml.v3"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/jwks"
	"github.com/go-oidfed/lib/unixtime"
)

// unescape undoes the escaping of characters that have a meaning in html
var unescape = strings.NewReplacer(`\u0026`, "&", `\u003c`, "<", `\u003e`, ">")

var algKeys = map[string]crypto.Signer{}

// algKey returns a key for a signature algorithm
func algKey(alg, name string) crypto.Signer {
	keysMu.Lock()
	defer keysMu.Unlock()
	family := alg
	if strings.HasSuffix(alg, "S256") && alg[0] != 'E' || alg == "RS512" {
		family = "RSA"
		// these are expensive
		if name != "issuer" && name != "owner" && name != "nobody" {
			name = "any"
		}
	}
	id := family + " " + name
	if k, ok := algKeys[id]; ok {
		return k
	}
	var k crypto.Signer
	var err error
	switch family {
	case "ES256":
		k, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	case "ES384":
		k, err = ecdsa.GenerateKey(elliptic.P384(), rand.Reader)
	case "ES512":
		k, err = ecdsa.GenerateKey(elliptic.P521(), rand.Reader)
	case "EdDSA":
		_, k, err = ed25519.GenerateKey(rand.Reader)
	default:
		k, err = rsa.GenerateKey(rand.Reader, 2048)
	}
	if err != nil {
		panic(err)
	}
	algKeys[id] = k
	return k
}

func jwaAlg(alg string) jwa.SignatureAlgorithm {
	a, ok := jwa.LookupSignatureAlgorithm(alg)
	if !ok {
		panic("unknown algorithm " + alg)
	}
	return a
}

type claim struct {
	N string `json:"n"`
	V string `json:"v"`
}

type markSpec struct {
	Type       string  `json:"type"`
	Life       int     `json:"life"`
	Ref        string  `json:"ref"`
	Logo       string  `json:"logo"`
	Delegation int     `json:"delegation"`
	Extra      []claim `json:"extra"`
	InInfo     bool    `json:"inInfo"`
	Via        string  `json:"via"`
}

func extraMap(cs []claim) map[string]any {
	if len(cs) == 0 {
		return nil
	}
	m := map[string]any{}
	for _, c := range cs {
		var v any
		if err := json.Unmarshal([]byte(c.V), &v); err != nil {
			panic(err)
		}
		m[c.N] = v
	}
	return m
}

func halfs(n int) time.Duration { return time.Duration(n) * 500 * time.Millisecond }

func (s markSpec) spec(docs []string) (out oidfed.TrustMarkSpec) {
	deleg := ""
	if s.Delegation > 0 {
		deleg = docs[s.Delegation-1]
	}
	m := map[string]any{}
	for k, v := range extraMap(s.Extra) {
		m[k] = v
	}
	m["trust_mark_type"] = s.Type
	m["lifetime"] = float64(s.Life) / 2
	if s.Ref != "" {
		m["ref"] = s.Ref
	}
	m["logo_uri"] = s.Logo
	if s.InInfo {
		m["include_extra_claims_in_info"] = true
	}
	m["delegation_jwt"] = deleg
	var err error
	switch s.Via {
	case "json":
		err = json.Unmarshal(mustJSON(m), &out)
	case "yaml":
		var y []byte
		if y, err = yaml.Marshal(m); err == nil {
			err = yaml.Unmarshal(y, &out)
		}
	default:
		out = oidfed.TrustMarkSpec{
			TrustMarkType: s.Type, Lifetime: unixtime.NewDurationInSeconds(float64(s.Life) / 2), Ref: s.Ref, LogoURI: s.Logo,
			Extra: extraMap(s.Extra), IncludeExtraClaimsInInfo: s.InInfo, DelegationJWT: deleg,
		}
	}
	if err != nil {
		panic(err)
	}
	return
}

func (s markSpec) owned() oidfed.OwnedTrustMark {
	return oidfed.OwnedTrustMark{ID: s.Type, DelegationLifetime: halfs(s.Life), Ref: s.Ref, Extra: extraMap(s.Extra)}
}

func jwtPart(jwt string, n int) map[string]any {
	d, err := base64.RawURLEncoding.DecodeString(strings.Split(jwt, ".")[n])
	if err != nil {
		panic(err)
	}
	var m map[string]any
	if err = json.Unmarshal(d, &m); err != nil {
		panic(err)
	}
	return m
}

// TestIssue issues and verifies documents
func TestIssue(t *testing.T) {
	type step struct {
		T     int      `json:"t"`
		Op    string   `json:"op"`
		Spec  markSpec `json:"spec"`
		Type  string   `json:"type"`
		Sub   string   `json:"sub"`
		Over  []int    `json:"over"`
		Iss   string   `json:"iss"`
		Key   string   `json:"key"`
		Life  int      `json:"life"`
		C     []claim  `json:"c"`
		Doc   int      `json:"doc"`
		How   string   `json:"how"`
		Keys  string   `json:"keys"`
		Start string   `json:"start"`
		Ancor string   `json:"anchor"`
	}
	type obs struct {
		Panic  string            `json:"panic"`
		Err    string            `json:"err"`
		Typ    string            `json:"typ"`
		Iat    int               `json:"iat"`
		Exp    int               `json:"exp"`
		Claims map[string]string `json:"claims"`
		Info   map[string]string `json:"info"`
		Types  []string          `json:"types"`
		OK     bool              `json:"ok"`
	}
	runScenarios(t, func(t *testing.T, raw []byte) (res any) {
		var sc struct {
			Alg    string     `json:"alg"`
			Issuer string     `json:"issuer"`
			Owner  string     `json:"owner"`
			Marks  []markSpec `json:"marks"`
			Delegs []markSpec `json:"delegs"`
			Steps  []step     `json:"steps"`
		}
		out := []obs{}
		inBubble(t, 0, func(t *testing.T) {
			w := newWorld(worldSpec{})
			defer w.close()
			prefix := "https://issue.test/" + w.id + "/"
			if err := json.Unmarshal([]byte(strings.ReplaceAll(string(raw), "@", prefix)), &sc); err != nil {
				t.Fatal(err)
			}
			alg := jwaAlg(sc.Alg)
			// signers are made in either way; signers of one key take turns with documents of different kinds
			direct := len(sc.Steps)%2 == 0
			general := map[string]*oidfed.GeneralJWTSigner{}
			signer := func(name string) *oidfed.GeneralJWTSigner {
				g, ok := general[name]
				if !ok {
					g = oidfed.NewGeneralJWTSigner(algKey(sc.Alg, name), alg)
					general[name] = g
				}
				return g
			}
			markSigner := func(name string) *oidfed.TrustMarkSigner {
				if direct {
					return oidfed.NewTrustMarkSigner(algKey(sc.Alg, name), alg)
				}
				return signer(name).TrustMarkSigner()
			}
			delegationSigner := func(name string) *oidfed.TrustMarkDelegationSigner {
				if direct {
					return oidfed.NewTrustMarkDelegationSigner(algKey(sc.Alg, name), alg)
				}
				return signer(name).TrustMarkDelegationSigner()
			}
			statementSigner := func(name string) *oidfed.EntityStatementSigner {
				if direct {
					return oidfed.NewEntityStatementSigner(algKey(sc.Alg, name), alg)
				}
				return signer(name).EntityStatementSigner()
			}
			respond := func(name string, r any) ([]byte, error) {
				if direct {
					return oidfed.NewResolveResponseSigner(algKey(sc.Alg, name), alg).JWT(r)
				}
				if len(sc.Steps)%4 == 1 {
					return signer(name).Typed("resolve-response+jwt").JWT(r)
				}
				return signer(name).ResolveResponseSigner().JWT(r)
			}
			keySet := func(name string) jwks.JWKS {
				if direct {
					return statementSigner(name).JWKS()
				}
				return jwks.KeyToJWKS(algKey(sc.Alg, name).Public(), alg)
			}
			var docs, signers []string
			var infos []*oidfed.TrustMarkInfo
			keyNames := map[string]string{}
			text := func(v any) string {
				s := sortedJSON(v)
				if n, ok := keyNames[s]; ok {
					return n
				}
				if str, ok := v.(string); ok {
					for i, d := range docs {
						if str == d {
							return `"doc:` + strconv.Itoa(i+1) + `"`
						}
					}
				}
				return strings.ReplaceAll(unescape.Replace(s), prefix, "@")
			}
			texts := func(m map[string]any) map[string]string {
				o := map[string]string{}
				for k, v := range m {
					o[k] = text(v)
				}
				return o
			}
			when := func(v any) int {
				if v == nil {
					return -1000000000
				}
				f, ok := v.(float64)
				if !ok {
					return -999
				}
				r := (f - float64(baseTime.Unix())) * 2
				if r != math.Round(r) {
					return -998
				}
				return int(r)
			}
			specs := []oidfed.TrustMarkSpec{}
			for _, s := range sc.Marks {
				specs = append(specs, s.spec(nil))
			}
			owned := []oidfed.OwnedTrustMark{}
			for _, s := range sc.Delegs {
				owned = append(owned, s.owned())
			}
			issuer := oidfed.NewTrustMarkIssuer(sc.Issuer, markSigner("issuer"), specs)
			owner := oidfed.NewTrustMarkOwner(sc.Owner, delegationSigner("owner"), owned)
			published := map[string]string{}
			w.handler = func(name, path string, q url.Values, r *http.Request) (int, string, string, bool) {
				k := prefix + name
				if path == "fetch" {
					k += " " + q.Get("sub")
				}
				if d, ok := published[k]; ok {
					return 200, ctES, d, true
				}
				return 404, "text/plain", "", true
			}
			ta := func(s step, owners bool) *oidfed.EntityStatementPayload {
				name := "issuer"
				if s.Keys == "wrong" {
					name = "nobody"
				}
				p := &oidfed.EntityStatementPayload{Issuer: sc.Issuer, Subject: sc.Issuer, JWKS: keySet(name)}
				if owners {
					o := keySet("owner")
					if s.How != "fedowner" && s.Keys == "wrong" {
						o = keySet("nobody")
					}
					p.TrustMarkOwners = oidfed.TrustMarkOwners{}
					for _, ty := range []string{"t1", "t2", "t3"} {
						p.TrustMarkOwners[prefix+ty] = oidfed.TrustMarkOwnerSpec{ID: sc.Owner, JWKS: o}
					}
				}
				return p
			}
			for _, s := range sc.Steps {
				sleepUntil(baseTime.Add(halfs(s.T)))
				o := obs{Claims: map[string]string{}, Info: map[string]string{}, Types: []string{}}
				var over []time.Duration
				for _, x := range s.Over {
					over = append(over, halfs(x))
				}
				issued := func(jwt []byte, err error, key string) bool {
					if err != nil {
						o.Err = err.Error()
						return false
					}
					docs = append(docs, string(jwt))
					signers = append(signers, key)
					infos = append(infos, nil)
					head, p := jwtPart(string(jwt), 0), jwtPart(string(jwt), 1)
					o.Typ, _ = head["typ"].(string)
					o.Iat, o.Exp = when(p["iat"]), when(p["exp"])
					delete(p, "iat")
					delete(p, "exp")
					o.Claims = texts(p)
					return true
				}
				payload := func(cs []claim) map[string]any {
					m := map[string]any{}
					for _, c := range cs {
						var v any
						if strings.HasPrefix(c.V, "key:") {
							j := mustJSON(keySet(strings.TrimPrefix(c.V, "key:")))
							if err := json.Unmarshal(j, &v); err != nil {
								t.Fatal(err)
							}
							keyNames[sortedJSON(v)] = c.V
						} else if err := json.Unmarshal([]byte(c.V), &v); err != nil {
							t.Fatal(err)
						}
						m[c.N] = v
					}
					return m
				}
				o.Panic = guarded(func() {
					switch s.Op {
					case "addmark":
						issuer.AddTrustMark(s.Spec.spec(docs))
					case "adddeleg":
						owner.AddTrustMark(s.Spec.owned())
					case "types":
						for _, ty := range issuer.TrustMarkTypes() {
							o.Types = append(o.Types, strings.ReplaceAll(ty, prefix, "@"))
						}
					case "mark":
						info, err := issuer.IssueTrustMark(s.Type, s.Sub, over...)
						if err == nil && issued([]byte(info.TrustMarkJWT), nil, "issuer") {
							infos[len(infos)-1] = info
							o.Info = texts(generic(info).(map[string]any))
						} else {
							issued(nil, err, "")
						}
					case "deleg":
						d, err := owner.DelegationJWT(s.Type, s.Sub, over...)
						issued(d, err, "owner")
					case "ec":
						var p oidfed.EntityStatementPayload
						if err := json.Unmarshal(mustJSON(payload(s.C)), &p); err != nil {
							t.Fatal(err)
						}
						e, err := oidfed.NewFederationEntity(
							s.Iss, p.AuthorityHints, p.Metadata, statementSigner(s.Key), int64(s.Life/2), p.Extra,
						)
						if err != nil {
							t.Fatal(err)
						}
						e.TrustMarkIssuers, e.TrustMarkOwners = p.TrustMarkIssuers, p.TrustMarkOwners
						d, err := e.EntityConfigurationJWT()
						if issued(d, err, s.Key) {
							published[s.Iss] = string(d)
						}
					case "es":
						var p oidfed.EntityStatementPayload
						if err := json.Unmarshal(mustJSON(payload(s.C)), &p); err != nil {
							t.Fatal(err)
						}
						p.Issuer, p.Subject = s.Iss, s.Sub
						p.IssuedAt = unixtime.Now()
						p.ExpiresAt = unixtime.Unixtime{Time: time.Now().Add(halfs(s.Life))}
						e, err := oidfed.NewFederationEntity(s.Iss, nil, nil, statementSigner(s.Key), 0, nil)
						if err != nil {
							t.Fatal(err)
						}
						d, err := e.SignEntityStatement(p)
						if issued(d, err, s.Key) {
							published[s.Iss+" "+s.Sub] = string(d)
						}
					case "rr":
						var r oidfed.ResolveResponse
						if err := json.Unmarshal(mustJSON(payload(s.C)), &r); err != nil {
							t.Fatal(err)
						}
						r.Issuer, r.Subject, r.IssuedAt = s.Iss, s.Sub, unixtime.Now()
						r.ExpiresAt = unixtime.Unixtime{Time: time.Now().Add(halfs(s.Life))}
						d, err := respond(s.Key, r)
						issued(d, err, s.Key)
					case "chain":
						r := oidfed.TrustResolver{TrustAnchors: oidfed.NewTrustAnchorsFromEntityIDs(s.Ancor), StartingEntity: s.Start}
						cs := r.ResolveToValidChains()
						o.OK = len(cs) == 1 && len(cs[0]) == 3
					case "check":
						jwt := docs[s.Doc-1]
						name := signers[s.Doc-1]
						if s.Keys == "wrong" {
							name = "nobody"
						}
						keys := keySet(name)
						switch jwtPart(jwt, 0)["typ"] {
						case "trust-mark+jwt":
							m, err := oidfed.ParseTrustMark([]byte(jwt))
							if err != nil {
								return
							}
							switch s.How {
							case "external":
								o.OK = m.VerifyExternal(keys) == nil
							case "info":
								o.OK = infos[s.Doc-1].VerifyExternal(keys) == nil
							case "owner":
								o.OK = m.VerifyExternal(keys, oidfed.TrustMarkOwnerSpec{ID: sc.Owner, JWKS: keySet("owner")}) == nil
							case "otherowner":
								o.OK = m.VerifyExternal(keys, oidfed.TrustMarkOwnerSpec{ID: prefix + "nobody", JWKS: keySet("owner")}) == nil
							case "ownerkeys":
								o.OK = m.VerifyExternal(keys, oidfed.TrustMarkOwnerSpec{ID: sc.Owner, JWKS: keySet("nobody")}) == nil
							case "federation":
								o.OK = m.VerifyFederation(ta(s, false)) == nil
							case "fedowner":
								o.OK = m.VerifyFederation(ta(s, true)) == nil
							}
						case "trust-mark-delegation+jwt":
							m, err := oidfed.ParseTrustMark([]byte(makeJWT(map[string]any{"delegation": jwt}, typHeaders["tm"], "x", "ok")))
							if err != nil {
								t.Fatal(err)
							}
							d, err := m.Delegation()
							if err != nil {
								return
							}
							if s.How == "federation" {
								o.OK = d.VerifyFederation(ta(s, true)) == nil
							} else {
								o.OK = d.VerifyExternal(keys) == nil
							}
						case "entity-statement+jwt":
							e, err := oidfed.ParseEntityStatement([]byte(jwt))
							o.OK = err == nil && e.TimeValid() && e.Verify(keys)
						case "resolve-response+jwt":
							_, err := oidfed.ParseResolveResponse([]byte(jwt))
							o.OK = err == nil
						}
					}
				})
				out = append(out, o)
			}
		})
		return out
	})
}
