package zzverif

import (
	"encoding/json"
	"slices"
	"testing"

	oidfed "github.com/go-oidfed/lib"
)

// TestChainOps filters, sorts and looks at trust chains
func TestChainOps(t *testing.T) {
	type stmtSpec struct {
		Iss      string   `json:"iss"`
		Exp      int      `json:"exp"`
		HasMD    bool     `json:"hasmd"`
		Name     string   `json:"name"`
		Contacts []string `json:"contacts"`
		PName    string   `json:"pname"`
		PAdd     []string `json:"padd"`
		Crit     bool     `json:"crit"`
	}
	type filterSpec struct {
		Kind   string `json:"kind"`
		Anchor string `json:"anchor"`
		N      int    `json:"n"`
	}
	type chainObs struct {
		Plen     int      `json:"plen"`
		Exp      int      `json:"exp"`
		Err      bool     `json:"err"`
		Name     string   `json:"name"`
		Contacts []string `json:"contacts"`
	}
	type obs struct {
		Panic  string     `json:"panic"`
		Lists  [][]int    `json:"lists"`
		Chains []chainObs `json:"chains"`
	}
	runScenarios(t, func(t *testing.T, raw []byte) any {
		var sc struct {
			Stmts  []stmtSpec `json:"stmts"`
			Chains [][]int    `json:"chains"`
			Init   []int      `json:"init"`
			Steps  []struct {
				T     int          `json:"t"`
				Op    string       `json:"op"`
				Src   int          `json:"src"`
				Fs    []filterSpec `json:"fs"`
				Score string       `json:"score"`
				Desc  bool         `json:"desc"`
			} `json:"steps"`
		}
		if err := json.Unmarshal(raw, &sc); err != nil {
			t.Fatal(err)
		}
		out := []obs{}
		inBubble(t, 0, func(t *testing.T) {
			w := newWorld(worldSpec{})
			defer w.close()
			var stmts []*oidfed.EntityStatement
			for _, s := range sc.Stmts {
				p := map[string]any{"iss": w.eid(s.Iss), "sub": w.eid("s"), "iat": tick(0), "jwks": jwksOf([]string{"k"})}
				if s.Exp != 0 {
					p["exp"] = tick(s.Exp)
				}
				if s.HasMD {
					m := map[string]any{"client_registration_types": []string{"automatic"}}
					if s.Name != "" {
						m["client_name"] = s.Name
					}
					if len(s.Contacts) > 0 {
						m["contacts"] = s.Contacts
					}
					p["metadata"] = map[string]any{"openid_relying_party": m}
				}
				pol := map[string]any{}
				if s.PName != "" {
					pol["client_name"] = map[string]any{"value": s.PName}
				}
				if len(s.PAdd) > 0 {
					pol["contacts"] = map[string]any{"add": s.PAdd}
				}
				if len(pol) > 0 {
					p["metadata_policy"] = map[string]any{"openid_relying_party": pol}
				}
				if s.Crit {
					p["metadata_policy_crit"] = []string{"regexp"}
				}
				e, err := oidfed.ParseEntityStatement([]byte(makeJWT(p, typHeaders["es"], "k", "ok")))
				if err != nil {
					t.Fatal(err)
				}
				stmts = append(stmts, e)
			}
			var chains oidfed.TrustChains
			ids := map[**oidfed.EntityStatement]int{}
			empty := 0
			for n, c := range sc.Chains {
				chain := oidfed.TrustChain{}
				for _, i := range c {
					chain = append(chain, stmts[i-1])
				}
				chains = append(chains, chain)
				if len(chain) > 0 {
					ids[&chain[0]] = n + 1
				} else {
					empty = n + 1
				}
			}
			list := oidfed.TrustChains{}
			for _, n := range sc.Init {
				list = append(list, chains[n-1])
			}
			lists := []oidfed.TrustChains{list}
			for _, s := range sc.Steps {
				sleepUntilTick(s.T)
				o := obs{Lists: [][]int{}, Chains: []chainObs{}}
				o.Panic = guarded(func() {
					switch s.Op {
					case "look":
						for _, c := range chains {
							co := chainObs{Plen: c.PathLen(), Contacts: []string{}}
							if e := c.ExpiresAt(); !e.IsZero() {
								co.Exp = int(e.Sub(baseTime).Seconds())
							}
							m, err := c.Metadata()
							if err != nil {
								co.Err = true
							} else if m != nil && m.RelyingParty != nil {
								co.Name = m.RelyingParty.ClientName
								co.Contacts = append(co.Contacts, m.RelyingParty.Contacts...)
							}
							o.Chains = append(o.Chains, co)
						}
					case "filter":
						var fs []oidfed.TrustChainsFilter
						for _, f := range s.Fs {
							switch f.Kind {
							case "anchor":
								fs = append(fs, oidfed.TrustChainsFilterTrustAnchor(w.eid(f.Anchor)))
							case "max":
								fs = append(fs, oidfed.TrustChainsFilterMaxPathLength(f.N))
							case "min":
								fs = append(fs, oidfed.TrustChainsFilterMinPathLength)
							case "valid":
								fs = append(fs, oidfed.TrustChainsFilterValidMetadata)
							case "long":
								fs = append(fs, oidfed.NewTrustChainsFilterFromCheckerFnc(func(c oidfed.TrustChain) bool { return len(c) >= f.N }))
							}
						}
						lists = append(lists, lists[s.Src-1].Filter(fs...))
					case "sort":
						scorer := map[string]oidfed.TrustChainScoringFnc{
							"path": oidfed.TrustChainScoringPathLen,
							"len":  func(c oidfed.TrustChain) int { return len(c) },
							"expiry": func(c oidfed.TrustChain) int {
								if e := c.ExpiresAt(); !e.IsZero() {
									return int(e.Sub(baseTime).Seconds())
								}
								return 0
							},
							"flat": func(oidfed.TrustChain) int { return 0 },
							"neg":  func(c oidfed.TrustChain) int { return -len(c) },
						}[s.Score]
						if s.Desc {
							lists = append(lists, lists[s.Src-1].SortDesc(scorer))
						} else {
							lists = append(lists, lists[s.Src-1].SortAsc(scorer))
						}
					}
				})
				for _, l := range lists {
					x := []int{}
					for _, c := range l {
						if len(c) == 0 {
							x = append(x, empty)
							continue
						}
						n := ids[&c[0]]
						if n > 0 && !slices.Equal(c, chains[n-1]) {
							n = -n
						}
						x = append(x, n)
					}
					o.Lists = append(o.Lists, x)
				}
				out = append(out, o)
			}
		})
		return out
	})
}
