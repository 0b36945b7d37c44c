package zzverif

import (
	"encoding/json"
	"strings"
	"sync"
	"testing"
	"testing/synctest"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

type resolution struct {
	Chains  [][]int `json:"chains"`
	Trusted [][]int `json:"trusted"`
	MD      string  `json:"md"`
	Panic   string  `json:"panic"`
}

func (w *world) resolve(req reqSpec, order int) (o resolution) {
	o.Chains, o.Trusted = [][]int{}, [][]int{}
	as := w.anchors(req.Anchors)
	o.Panic = guarded(func() {
		newResolver := func() *oidfed.TrustResolver {
			return &oidfed.TrustResolver{TrustAnchors: as, StartingEntity: w.eid(req.Start), Types: req.Types}
		}
		steps := []func(){
			func() { o.Trusted = w.chainSIDs(newResolver().ResolveToValidChainsWithoutVerifyingMetadata()) },
			func() { o.Chains = w.chainSIDs(newResolver().ResolveToValidChains()) },
			func() {
				md, err := oidfed.LocalMetadataResolver{}.Resolve(
					apimodel.ResolveRequest{Subject: w.eid(req.Start), TrustAnchor: as.EntityIDs(), EntityTypes: req.Types},
				)
				if err == nil {
					o.MD = strings.ReplaceAll(sortedJSON(md), "/"+w.id+"/", "/W/")
					// what we were given is ours
					if md != nil && md.OpenIDProvider != nil {
						md.OpenIDProvider.OrganizationName = "modified"
					}
				}
			},
		}
		for i := range steps {
			steps[(i+order)%len(steps)]()
		}
	})
	return
}

// TestHistory does several resolutions that share a cache, possibly at the same time
func TestHistory(t *testing.T) {
	runScenarios(t, func(t *testing.T, raw []byte) any {
		var sc struct {
			World worldSpec `json:"world"`
			Par   bool      `json:"par"`
			Redis bool      `json:"redis"`
			Steps []struct {
				Now int     `json:"now"`
				Req reqSpec `json:"req"`
			} `json:"steps"`
		}
		if err := json.Unmarshal(raw, &sc); err != nil {
			t.Fatal(err)
		}
		type step struct {
			Warm resolution `json:"warm"`
			Cold resolution `json:"cold"`
		}
		obs := make([]step, len(sc.Steps))
		inBubble(t, sc.World.Now, func(t *testing.T) {
			if sc.Redis {
				f := useRedis(t)
				defer f.close()
			}
			w := newWorld(sc.World)
			defer w.close()
			for i := 0; i < len(sc.Steps); {
				j := i + 1
				for sc.Par && j < len(sc.Steps) && sc.Steps[j].Now == sc.Steps[i].Now {
					j++
				}
				sleepUntilTick(sc.Steps[i].Now)
				var wg sync.WaitGroup
				for k := i; k < j; k++ {
					if sc.Par {
						wg.Add(1)
						go func() {
							defer wg.Done()
							obs[k].Warm = w.resolve(sc.Steps[k].Req, k)
						}()
						continue
					}
					obs[k].Warm = w.resolve(sc.Steps[k].Req, k)
				}
				wg.Wait()
				synctest.Wait()
				for k := i; k < j; k++ {
					cold := newWorld(sc.World)
					obs[k].Cold = cold.resolve(sc.Steps[k].Req, 0)
					synctest.Wait()
					cold.close()
				}
				i = j
			}
		})
		return obs
	})
}
