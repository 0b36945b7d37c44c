package zzverif

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"testing"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

// pval is a value as in spec/Policy.tla
type pval struct {
	K string   `json:"k"`
	V []string `json:"v"`
}

// objMap is a map that is also read from an empty sequence, the empty function of TLA+
type objMap[T any] map[string]T

func (m *objMap[T]) UnmarshalJSON(d []byte) error {
	if len(d) > 0 && d[0] == '[' {
		*m = objMap[T]{}
		return nil
	}
	x := map[string]T{}
	if err := json.Unmarshal(d, &x); err != nil {
		return err
	}
	*m = x
	return nil
}

type pentry = objMap[pval]
type ppolicy = objMap[pentry]
type ppolicies = objMap[ppolicy]
type pmetadata = objMap[objMap[pval]]

func atomJSON(a string) any {
	kind, rest, _ := strings.Cut(a, ":")
	switch kind {
	case "s":
		return rest
	case "n":
		if n, err := strconv.Atoi(rest); err == nil {
			return n
		}
		f, err := strconv.ParseFloat(rest, 64)
		if err != nil {
			panic(err)
		}
		return f
	case "b":
		return rest == "true"
	}
	var x any
	if err := json.Unmarshal([]byte(rest), &x); err != nil {
		panic(err)
	}
	return x
}
func jsonAtom(v any) string {
	switch x := v.(type) {
	case string:
		return "s:" + x
	case float64:
		return "n:" + strconv.FormatFloat(x, 'f', -1, 64)
	case bool:
		return "b:" + strconv.FormatBool(x)
	}
	return "o:" + string(mustJSON(v))
}
func (p pval) toJSON() any {
	switch p.K {
	case "null":
		return nil
	case "s":
		return atomJSON(p.V[0])
	}
	out := make([]any, 0, len(p.V))
	for _, a := range p.V {
		out = append(out, atomJSON(a))
	}
	return out
}
func toPval(v any) pval {
	switch x := v.(type) {
	case nil:
		return pval{"null", []string{}}
	case []any:
		p := pval{"l", []string{}}
		for _, e := range x {
			p.V = append(p.V, jsonAtom(e))
		}
		return p
	}
	return pval{"s", []string{jsonAtom(v)}}
}

// generic gives the json representation of something
func generic(v any) any {
	var out any
	if err := json.Unmarshal(mustJSON(v), &out); err != nil {
		panic(err)
	}
	return out
}

func isScope(typ, claim string) bool {
	return claim == "scope" && (typ == "openid_relying_party" || typ == "oauth_client")
}

func metadataJSON(md pmetadata) map[string]any {
	out := map[string]any{}
	for t, claims := range md {
		m := map[string]any{}
		for c, v := range claims {
			if isScope(t, c) && v.K == "l" {
				words := []string{}
				for _, a := range v.V {
					words = append(words, atomJSON(a).(string))
				}
				m[c] = strings.Join(words, " ")
				continue
			}
			m[c] = v.toJSON()
		}
		out[t] = m
	}
	return out
}

func policiesJSON(ps ppolicies) map[string]any {
	out := map[string]any{}
	for t, pol := range ps {
		p := map[string]any{}
		for c, e := range pol {
			ee := map[string]any{}
			for op, v := range e {
				ee[op] = v.toJSON()
			}
			p[c] = ee
		}
		out[t] = p
	}
	return out
}

type mdObs struct {
	Err   bool      `json:"err"`
	MD    pmetadata `json:"md"`
	Panic string    `json:"panic"`
	// Possible tells what is confirmed when asked whether this can be resolved
	Possible string `json:"possible"`
}

// observeMetadata represents metadata as in the specification; absent and null claims are left out
func observeMetadata(m any) pmetadata {
	out := pmetadata{}
	g, ok := generic(m).(map[string]any)
	if !ok {
		return out
	}
	for t, x := range g {
		claims := objMap[pval]{}
		cm, ok := x.(map[string]any)
		if !ok {
			if x == nil {
				continue
			}
			cm = map[string]any{"?": x}
		}
		for c, v := range cm {
			if v == nil {
				continue
			}
			if s, isStr := v.(string); isStr && isScope(t, c) {
				p := pval{"l", []string{}}
				for _, w := range strings.Fields(s) {
					p.V = append(p.V, "s:"+w)
				}
				claims[c] = p
				continue
			}
			claims[c] = toPval(v)
		}
		out[t] = claims
	}
	return out
}

type mergeObs struct {
	Err bool      `json:"err"`
	P   ppolicies `json:"p"`
}

func observeMerge(ps ...*oidfed.MetadataPolicies) mergeObs {
	out := mergeObs{P: ppolicies{}}
	m, err := oidfed.MergeMetadataPolicies(ps...)
	if err != nil {
		out.Err = true
		return out
	}
	g, _ := generic(m).(map[string]any)
	for t, x := range g {
		pol, ok := x.(map[string]any)
		if !ok {
			continue
		}
		pp := ppolicy{}
		for c, e := range pol {
			ee := pentry{}
			for op, v := range e.(map[string]any) {
				ee[op] = toPval(v)
			}
			pp[c] = ee
		}
		out.P[t] = pp
	}
	return out
}

func sortedJSON(v any) string {
	return string(mustJSON(generic(v)))
}

// TestPolicy resolves the metadata of an entity with policies of all its superiors
func TestPolicy(t *testing.T) {
	runScenarios(t, func(t *testing.T, raw []byte) (res any) {
		var sc struct {
			MD    pmetadata   `json:"md"`
			Pols  []ppolicies `json:"pols"`
			Crits [][]string  `json:"crits"`
			Types []string    `json:"types"`
		}
		if err := json.Unmarshal(raw, &sc); err != nil {
			t.Fatal(err)
		}
		var obs struct {
			Full    []mdObs  `json:"full"`
			Limited []mdObs  `json:"limited"`
			Direct  []mdObs  `json:"direct"`
			Merged  mergeObs `json:"merged"`
			Rev     mergeObs `json:"rev"`
			Chains  int      `json:"chains"`
			Trusted int      `json:"trusted"`
			Changed []string `json:"changed"`
			Panic   string   `json:"panic"`
		}
		obs.Full, obs.Limited, obs.Direct, obs.Changed = []mdObs{}, []mdObs{}, []mdObs{}, []string{}
		obs.Merged.P, obs.Rev.P = ppolicies{}, ppolicies{}
		const now = 1000
		inBubble(t, now, func(t *testing.T) {
			n := len(sc.Pols)
			spec := worldSpec{Now: now, Ents: map[string]entity{}}
			name := func(i int) string { return fmt.Sprintf("E%d", i) }
			for i := 0; i <= n; i++ {
				e := name(i)
				ec := stmt{
					SID: 2 * i, Iss: e, Sub: e, Iat: 900, Exp: 5000, Keys: []string{"k" + e}, Signer: "k" + e, Sig: "ok", Typ: "es",
					Types: []string{"federation_entity"}, Fetch: e, Con: constraints{MPL: -1},
				}
				if i < n {
					ec.Hints = []string{name(i + 1)}
				}
				if i == 0 {
					ec.Claims = map[string]any{"metadata": metadataJSON(sc.MD)}
				}
				ent := entity{Host: []string{"h", "example"}, Resp: "ok", EC: ec, Subs: subMap{}}
				if i > 0 {
					s := stmt{
						SID: 2*i + 1, Iss: e, Sub: name(i - 1), Iat: 900, Exp: 5000, Keys: []string{"k" + name(i-1)}, Signer: "k" + e,
						Sig: "ok", Typ: "es", Con: constraints{MPL: -1}, Claims: map[string]any{},
					}
					if len(sc.Pols[i-1]) > 0 {
						s.Claims["metadata_policy"] = policiesJSON(sc.Pols[i-1])
					}
					if len(sc.Crits[i-1]) > 0 {
						s.Claims["metadata_policy_crit"] = sc.Crits[i-1]
					}
					ent.Subs[name(i-1)] = sub{Resp: "ok", Stmt: s}
				}
				spec.Ents[e] = ent
			}
			w := newWorld(spec)
			defer w.close()
			ta := w.eid(name(n))
			resolve := func(types []string) (o mdObs) {
				o.MD = pmetadata{}
				o.Panic = guarded(func() {
					req := apimodel.ResolveRequest{Subject: w.eid(name(0)), TrustAnchor: []string{ta}, EntityTypes: types}
					o.Possible = possible(req)
					m, err := oidfed.LocalMetadataResolver{}.Resolve(req)
					if err != nil {
						o.Err = true
						return
					}
					o.MD = observeMetadata(m)
				})
				return
			}
			if len(sc.Types) > 0 && len(sc.Types)%2 == 0 {
				obs.Limited = append(obs.Limited, resolve(sc.Types))
			}
			obs.Full = append(obs.Full, resolve(nil))
			if len(sc.Types) > 0 {
				obs.Limited = append(obs.Limited, resolve(sc.Types))
			}
			obs.Full = append(obs.Full, resolve(nil))
			obs.Panic = guarded(func() {
				r := oidfed.TrustResolver{TrustAnchors: oidfed.NewTrustAnchorsFromEntityIDs(ta), StartingEntity: w.eid(name(0))}
				chains := r.ResolveToValidChainsWithoutVerifyingMetadata()
				obs.Trusted = len(chains)
				r2 := oidfed.TrustResolver{TrustAnchors: oidfed.NewTrustAnchorsFromEntityIDs(ta), StartingEntity: w.eid(name(0))}
				obs.Chains = len(r2.ResolveToValidChains())
				if len(chains) != 1 {
					return
				}
				c := chains[0]
				before := make([]string, 0, len(c))
				for _, s := range c {
					before = append(before, sortedJSON(s.EntityStatementPayload))
				}
				pols := make([]*oidfed.MetadataPolicies, 0)
				rev := make([]*oidfed.MetadataPolicies, 0)
				for _, s := range c {
					pols = append(pols, s.MetadataPolicy)
					rev = append([]*oidfed.MetadataPolicies{s.MetadataPolicy}, rev...)
				}
				obs.Merged = observeMerge(pols...)
				obs.Rev = observeMerge(rev...)
				for k := 0; k < 2; k++ {
					var o mdObs
					o.MD = pmetadata{}
					merged, err := oidfed.MergeMetadataPolicies(pols...)
					if err == nil && c[0].Metadata != nil {
						mb := sortedJSON(merged)
						var m *oidfed.Metadata
						m, err = c[0].Metadata.ApplyPolicy(merged)
						if err == nil {
							o.MD = observeMetadata(m)
						}
						if sortedJSON(merged) != mb {
							obs.Changed = append(obs.Changed, "the combined policy")
						}
					}
					o.Err = err != nil
					obs.Direct = append(obs.Direct, o)
				}
				for i, s := range c {
					if sortedJSON(s.EntityStatementPayload) != before[i] {
						obs.Changed = append(obs.Changed, fmt.Sprintf("statement %d", i))
					}
				}
			})
		})
		sort.Strings(obs.Changed)
		return obs
	})
}
