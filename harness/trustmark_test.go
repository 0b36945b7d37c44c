package zzverif

import (
	"encoding/json"
	"sort"
	"testing"
	"testing/synctest"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

type delegation struct {
	Kind   string `json:"kind"`
	Iss    string `json:"iss"`
	Sub    string `json:"sub"`
	Type   string `json:"type"`
	Iat    int    `json:"iat"`
	Exp    int    `json:"exp"`
	Signer string `json:"signer"`
	Sig    string `json:"sig"`
	Typ    string `json:"typ"`
}
type trustMark struct {
	MID    int        `json:"mid"`
	Iss    string     `json:"iss"`
	Sub    string     `json:"sub"`
	Type   string     `json:"type"`
	Iat    int        `json:"iat"`
	Exp    int        `json:"exp"`
	Signer string     `json:"signer"`
	Sig    string     `json:"sig"`
	Typ    string     `json:"typ"`
	Del    delegation `json:"del"`
}
type pubMark struct {
	Info string    `json:"info"`
	Mark trustMark `json:"mark"`
}
type tmIssuers struct {
	Type string   `json:"type"`
	IDs  []string `json:"ids"`
}
type tmOwner struct {
	Type string   `json:"type"`
	ID   string   `json:"id"`
	Keys []string `json:"keys"`
}

// markType returns the identifier of a type; they differ in little, but every difference counts
func markType(t string) string {
	switch t {
	case "t2":
		return "https://marks.test/T1"
	case "t3":
		return "https://marks.test/t1/"
	}
	return "https://marks.test/" + t
}

// markJWT returns the jwt of a mark, always the same one for the same mark; w.mu must be held
func (w *world) markJWT(m trustMark) string {
	if j, ok := w.marks[m.MID]; ok {
		return j
	}
	p := map[string]any{"iss": w.eid(m.Iss), "sub": w.eid(m.Sub), "trust_mark_type": markType(m.Type), "iat": tick(m.Iat), "mid": m.MID}
	if m.Exp != 0 {
		p["exp"] = tick(m.Exp)
	}
	switch d := m.Del; d.Kind {
	case "garbage":
		p["delegation"] = "this is not a jwt"
	case "jwt":
		dp := map[string]any{"iss": w.eid(d.Iss), "sub": w.eid(d.Sub), "trust_mark_type": markType(d.Type), "iat": tick(d.Iat)}
		if d.Exp != 0 {
			dp["exp"] = tick(d.Exp)
		}
		p["delegation"] = makeJWT(dp, typHeader(d.Typ), d.Signer, d.Sig)
	}
	j := makeJWT(p, typHeader(m.Typ), m.Signer, m.Sig)
	w.marks[m.MID] = j
	return j
}

// trustMarkClaims adds the claims about trust marks to a payload; w.mu must be held
func (w *world) trustMarkClaims(st stmt, p map[string]any) {
	if len(st.TMI) > 0 {
		c := map[string]any{}
		for _, i := range st.TMI {
			c[markType(i.Type)] = w.eids(i.IDs)
		}
		p["trust_mark_issuers"] = c
	}
	if len(st.TMO) > 0 {
		c := map[string]any{}
		for _, o := range st.TMO {
			c[markType(o.Type)] = map[string]any{"sub": w.eid(o.ID), "jwks": jwksJSON(o.Keys)}
		}
		p["trust_mark_owners"] = c
	}
	if len(st.Marks) > 0 {
		c := make([]any, 0, len(st.Marks))
		for _, m := range st.Marks {
			c = append(c, map[string]any{"trust_mark_type": markType(m.Info), "trust_mark": w.markJWT(m.Mark)})
		}
		p["trust_marks"] = c
	}
}

// TestTrustMarks verifies, resolves and collects trust marks
func TestTrustMarks(t *testing.T) {
	runScenarios(t, func(t *testing.T, raw []byte) any {
		var sc struct {
			World worldSpec `json:"world"`
			TA    string    `json:"ta"`
			Items []struct {
				E string `json:"e"`
				pubMark
			} `json:"items"`
			Ext []struct {
				Keys   []string  `json:"keys"`
				Owners []tmOwner `json:"owners"`
			} `json:"ext"`
			Types []string `json:"types"`
			Nows  []int    `json:"nows"`
			Smart bool     `json:"smart"`
		}
		if err := json.Unmarshal(raw, &sc); err != nil {
			t.Fatal(err)
		}
		type marksOf struct {
			E     string `json:"e"`
			OK    bool   `json:"ok"`
			Marks []int  `json:"marks"`
		}
		type collection struct {
			Types   []string  `json:"types"`
			Claimed bool      `json:"claimed"`
			Res     []marksOf `json:"res"`
		}
		type step struct {
			Now       int          `json:"now"`
			Panic     string       `json:"panic"`
			Fed       []bool       `json:"fed"`
			Bare      []bool       `json:"bare"`
			List      []int        `json:"list"`
			Ext       []bool       `json:"ext"`
			ExtList   []int        `json:"extlist"`
			Resolved  []marksOf    `json:"resolved"`
			Base      []string     `json:"base"`
			Collected []collection `json:"collected"`
		}
		obs := make([]step, len(sc.Nows))
		inBubble(t, sc.World.Now, func(t *testing.T) {
			if sc.Smart {
				oidfed.DefaultMetadataResolver = oidfed.SmartRemoteMetadataResolver{}
			}
			defer func() { oidfed.DefaultMetadataResolver = oidfed.LocalMetadataResolver{} }()
			w := newWorld(sc.World)
			defer w.close()
			infos := make(oidfed.TrustMarkInfos, len(sc.Items))
			w.mu.Lock()
			for i, it := range sc.Items {
				infos[i] = oidfed.TrustMarkInfo{TrustMarkType: markType(it.Info), TrustMarkJWT: w.markJWT(it.Mark)}
			}
			w.mu.Unlock()
			// positions of marks, optionally only considering those an entity publishes
			positions := func(ms oidfed.TrustMarkInfos, e string) []int {
				out := []int{}
				used := map[int]bool{}
				for _, m := range ms {
					pos := -1
					for i, it := range sc.Items {
						if !used[i] && (e == "" || it.E == e) && infos[i].TrustMarkJWT == m.TrustMarkJWT && infos[i].TrustMarkType == m.TrustMarkType {
							pos = i
							break
						}
					}
					used[pos] = true
					out = append(out, pos+1)
				}
				return out
			}
			names := make([]string, 0, len(sc.World.Ents))
			for n := range sc.World.Ents {
				names = append(names, n)
			}
			sort.Strings(names)
			// kept over time, as are the infos: what is remembered in them must not be relied upon
			var ta *oidfed.EntityStatement
			for si, now := range sc.Nows {
				sleepUntilTick(now)
				o := &obs[si]
				o.Now = now
				o.Fed, o.Bare, o.Ext = []bool{}, []bool{}, []bool{}
				o.List, o.ExtList = []int{}, []int{}
				o.Resolved, o.Base, o.Collected = []marksOf{}, []string{}, []collection{}
				o.Panic = guarded(func() {
					if ta == nil {
						var err error
						if ta, err = oidfed.GetEntityConfiguration(w.eid(sc.TA)); err != nil {
							ta = nil
							return
						}
					}
					payload := &ta.EntityStatementPayload
					for i := range infos {
						o.Fed = append(o.Fed, infos[i].VerifyFederation(payload) == nil)
						m, err := infos[i].TrustMark()
						o.Bare = append(o.Bare, err == nil && m.VerifyFederation(payload) == nil)
						var owners []oidfed.TrustMarkOwnerSpec
						for _, ow := range sc.Ext[i].Owners {
							owners = append(owners, oidfed.TrustMarkOwnerSpec{ID: w.eid(ow.ID), JWKS: jwksOf(ow.Keys)})
						}
						o.Ext = append(o.Ext, infos[i].VerifyExternal(jwksOf(sc.Ext[i].Keys), owners...) == nil)
						if len(oidfed.TrustMarkInfos{infos[i]}.VerifiedExternal(jwksOf(sc.Ext[i].Keys), owners...)) > 0 {
							o.ExtList = append(o.ExtList, i+1)
						}
					}
					o.List = positions(infos.VerifiedFederation(payload), "")
					for _, e := range names {
						res, err := oidfed.DefaultMetadataResolver.ResolveResponsePayload(
							apimodel.ResolveRequest{Subject: w.eid(e), TrustAnchor: []string{w.eid(sc.TA)}},
						)
						o.Resolved = append(o.Resolved, marksOf{e, err == nil, positions(res.TrustMarks, e)})
					}
					collect := func(types, claims []string) []marksOf {
						req := apimodel.EntityCollectionRequest{TrustAnchor: w.eid(sc.TA), Claims: claims}
						for _, ty := range types {
							req.TrustMarkTypes = append(req.TrustMarkTypes, markType(ty))
						}
						out := []marksOf{}
						for _, c := range (&oidfed.SimpleEntityCollector{}).CollectEntities(req) {
							n := w.name(c.EntityID)
							out = append(out, marksOf{n, true, positions(c.TrustMarks, n)})
						}
						return out
					}
					for _, c := range collect(nil, nil) {
						o.Base = append(o.Base, c.E)
					}
					for _, v := range []struct{ types, claims []string }{
						{sc.Types, nil}, {nil, []string{"trust_marks"}}, {nil, []string{"trust_marks", "metadata"}}, {sc.Types, []string{"trust_marks", "entity_types"}},
					} {
						o.Collected = append(o.Collected, collection{append([]string{}, v.types...), v.claims != nil, collect(v.types, v.claims)})
					}
				})
				synctest.Wait()
			}
		})
		return obs
	})
}
