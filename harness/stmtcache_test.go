package zzverif

import (
	"encoding/json"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	oidfed "github.com/go-oidfed/lib"
)

type cacheVersion struct {
	V   int    `json:"v"`
	Iat int    `json:"iat"`
	Exp int    `json:"exp"`
	OK  bool   `json:"ok"`
	How string `json:"how"` // what is answered if not ok
}
type cacheEvent struct {
	T   int          `json:"t"`
	Op  string       `json:"op"`
	L   string       `json:"l"`
	ID  int          `json:"id"`
	Ver cacheVersion `json:"ver"`
}
type cacheRet struct {
	ID     int  `json:"id"`
	At     int  `json:"at"`
	V      int  `json:"v"`
	Intact bool `json:"intact"`
}

// halfTicks is the current time in half seconds
func halfTicks() int { return int(time.Since(baseTime) / (time.Second / 2)) }

// TestStmtCache performs a history of lookups; a location is "issuer>subject"
func TestStmtCache(t *testing.T) {
	runScenarios(t, func(t *testing.T, raw []byte) any {
		var sc struct {
			P struct {
				Grace  int `json:"grace"`
				Factor int `json:"factor"`
				Lat    int `json:"lat"`
			} `json:"p"`
			Redis  bool                    `json:"redis"`
			Init   map[string]cacheVersion `json:"init"`
			Events []cacheEvent            `json:"events"`
			Finish int                     `json:"finish"`
		}
		if err := json.Unmarshal(raw, &sc); err != nil {
			t.Fatal(err)
		}
		var obs struct {
			Rets  []cacheRet `json:"rets"`
			Reqs  [][]any    `json:"reqs"`
			Panic string     `json:"panic"`
		}
		obs.Rets, obs.Reqs = []cacheRet{}, [][]any{}
		oldGrace, oldFactor := oidfed.ResolverCacheGracePeriod, oidfed.ResolverCacheLifetimeElapsedGraceFactor
		defer func() {
			oidfed.ResolverCacheGracePeriod, oidfed.ResolverCacheLifetimeElapsedGraceFactor = oldGrace, oldFactor
		}()
		oidfed.ResolverCacheGracePeriod = time.Duration(sc.P.Grace) * time.Second
		oidfed.ResolverCacheLifetimeElapsedGraceFactor = float64(sc.P.Factor) / 100
		inBubble(t, 0, func(t *testing.T) {
			if sc.Redis {
				f := useRedis(t)
				defer f.close()
			}
			ents := map[string]entity{}
			for l := range sc.Init {
				for _, e := range strings.Split(l, ">") {
					ents[e] = entity{Host: []string{"h", "example"}}
				}
			}
			w := newWorld(worldSpec{Ents: ents})
			defer w.close()
			var mu sync.Mutex
			pub := map[string]cacheVersion{}
			for l, v := range sc.Init {
				pub[l] = v
			}
			content := func(l string, v cacheVersion) stmt {
				iss, sub, _ := strings.Cut(l, ">")
				return stmt{
					SID: v.V, Iss: iss, Sub: sub, Iat: v.Iat, Exp: v.Exp, Keys: []string{"k" + sub}, Signer: "k" + iss, Sig: "ok", Typ: "es",
					Types: []string{"openid_provider", "federation_entity"}, Fetch: iss, Con: constraints{MPL: v.V % 3},
					Claims: map[string]any{"x_claim": []any{l, float64(v.V)}},
				}
			}
			w.handler = func(name, path string, q url.Values, r *http.Request) (int, string, string, bool) {
				l := name + ">" + name
				if path == "fetch" {
					l = name + ">" + w.name(q.Get("sub"))
				}
				mu.Lock()
				obs.Reqs = append(obs.Reqs, []any{halfTicks(), l})
				v, ok := pub[l]
				mu.Unlock()
				time.Sleep(time.Duration(sc.P.Lat) * time.Second / 2)
				if !ok {
					return 404, "application/json", `{"error":"not_found"}`, true
				}
				if !v.OK {
					switch v.How {
					case "notfound":
						return 404, "application/json", `{"error":"not_found"}`, true
					case "servererror":
						return 500, "text/html", "<html>oops</html>", true
					case "errjson":
						return 200, "application/json", `{"error":"server_error"}`, true
					}
					return 200, ctES, "this is not a jwt", true
				}
				s := content(l, v)
				return 200, ctES, makeJWT(w.payload(s), "entity-statement+jwt", s.Signer, "ok"), true
			}
			reference := map[int]string{}
			get := func(e cacheEvent) {
				iss, sub, _ := strings.Cut(e.L, ">")
				var st *oidfed.EntityStatement
				var err error
				p := guarded(func() {
					if iss == sub {
						st, err = oidfed.GetEntityConfiguration(w.eid(iss))
					} else {
						st, err = oidfed.FetchEntityStatement(w.eid(iss)+"/fetch", w.eid(sub), w.eid(iss))
					}
				})
				mu.Lock()
				defer mu.Unlock()
				ret := cacheRet{ID: e.ID, At: halfTicks(), V: -1}
				if p != "" {
					obs.Panic = p
				} else if err == nil && st != nil {
					ret.V = -2
					if id, ok := st.Extra["stmt_id"].(float64); ok {
						ret.V = int(id)
					} else if id, ok := generic(st.Extra["stmt_id"]).(float64); ok {
						ret.V = int(id)
					}
					have := sortedJSON(st.EntityStatementPayload)
					want, ok := reference[ret.V]
					if !ok {
						// what a statement that was never cached looks like
						s := content(e.L, cacheVersion{V: ret.V, Iat: verOf(sc.Init, sc.Events, ret.V).Iat, Exp: verOf(sc.Init, sc.Events, ret.V).Exp})
						parsed, err := oidfed.ParseEntityStatement([]byte(makeJWT(w.payload(s), "entity-statement+jwt", s.Signer, "ok")))
						if err == nil {
							want = sortedJSON(parsed.EntityStatementPayload)
							reference[ret.V] = want
						}
					}
					ret.Intact = have == want
					if msgs := (oidfed.TrustChain{st}).Messages(); len(msgs) != 1 || msgs[0] == nil || len(msgs[0].RawJWT) == 0 {
						ret.Intact = false
					}
					// what we were given is ours
					st.Subject = "https://modified.example"
					if st.Metadata != nil && st.Metadata.OpenIDProvider != nil {
						st.Metadata.OpenIDProvider.OrganizationName = "modified"
					}
					if st.Constraints != nil && st.Constraints.MaxPathLength != nil {
						*st.Constraints.MaxPathLength = 77
					}
					st.Extra["x_claim"] = "modified"
				}
				obs.Rets = append(obs.Rets, ret)
			}
			for _, e := range sc.Events {
				sleepUntilTick(e.T)
				synctest.Wait()
				switch e.Op {
				case "get":
					go get(e)
				case "publish":
					mu.Lock()
					pub[e.L] = e.Ver
					mu.Unlock()
				}
				synctest.Wait()
			}
			sleepUntilTick(sc.Finish)
			synctest.Wait()
		})
		sort.SliceStable(obs.Rets, func(i, j int) bool { return obs.Rets[i].At < obs.Rets[j].At })
		return obs
	})
}

func verOf(init map[string]cacheVersion, events []cacheEvent, v int) cacheVersion {
	for _, x := range init {
		if x.V == v {
			return x
		}
	}
	for _, e := range events {
		if e.Ver.V == v {
			return e.Ver
		}
	}
	return cacheVersion{}
}
