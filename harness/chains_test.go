package zzverif

import (
	"encoding/json"
	"testing"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

// possible asks the local resolver whether something can be resolved
func possible(req apimodel.ResolveRequest) string {
	valid, invalid := oidfed.LocalMetadataResolver{}.ResolvePossible(req)
	switch {
	case valid && !invalid:
		return "possible"
	case invalid && !valid:
		return "impossible"
	case valid:
		return "both"
	}
	return "nothing"
}

// TestChains resolves trust chains in many small federations
func TestChains(t *testing.T) {
	runScenarios(t, func(t *testing.T, raw []byte) (res any) {
		var sc struct {
			World worldSpec `json:"world"`
			Req   reqSpec   `json:"req"`
		}
		if err := json.Unmarshal(raw, &sc); err != nil {
			t.Fatal(err)
		}
		var obs struct {
			Chains  [][]int  `json:"chains"`
			Trusted [][]int  `json:"trusted"`
			Log     []string `json:"log"`
			Panic   string   `json:"panic"`
			// Possible tells what is confirmed when asked whether the subject can be resolved (if no anchor is pinned)
			Possible string `json:"possible"`
		}
		obs.Chains, obs.Trusted = [][]int{}, [][]int{}
		inBubble(t, sc.World.Now, func(t *testing.T) {
			w := newWorld(sc.World)
			defer w.close()
			as := w.anchors(sc.Req.Anchors)
			obs.Panic = guarded(func() {
				r := oidfed.TrustResolver{TrustAnchors: as, StartingEntity: w.eid(sc.Req.Start), Types: sc.Req.Types}
				obs.Trusted = w.chainSIDs(r.ResolveToValidChainsWithoutVerifyingMetadata())
				obs.Log = append([]string{}, w.log...)
				r2 := oidfed.TrustResolver{TrustAnchors: as, StartingEntity: w.eid(sc.Req.Start), Types: sc.Req.Types}
				obs.Chains = w.chainSIDs(r2.ResolveToValidChains())
				for _, a := range sc.Req.Anchors {
					if a.Pin {
						return
					}
				}
				obs.Possible = possible(apimodel.ResolveRequest{
					Subject: w.eid(sc.Req.Start), TrustAnchor: as.EntityIDs(), EntityTypes: sc.Req.Types,
				})
			})
		})
		return obs
	})
}
