package zzverif

import (
	"encoding/json"
	"hash/fnv"
	"net/http"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

type collectFilter struct {
	Kind    string       `json:"kind"`
	Vals    []string     `json:"vals"`
	Anchors []anchorSpec `json:"anchors"`
}
type collectReq struct {
	TA       string          `json:"ta"`
	HasTypes bool            `json:"hasTypes"`
	Types    []string        `json:"types"`
	Query    []string        `json:"query"`
	Filters  []collectFilter `json:"filters"`
}
type collectStep struct {
	At        int        `json:"at"`
	Coll      string     `json:"coll"`
	N         int        `json:"n"`
	Shared    bool       `json:"shared"`
	TAs       []string   `json:"tas"`
	Nest      string     `json:"nest"`
	Req       collectReq `json:"req"`
	HasClaims bool       `json:"hasClaims"`
	Claims    []string   `json:"claims"`
}
type collectedObs struct {
	E     string               `json:"e"`
	Types []string             `json:"types"`
	UI    objMap[objMap[pval]] `json:"ui"`
	Chain []int                `json:"chain"`
}
type collectRun struct {
	TA    string         `json:"ta"`
	Panic string         `json:"panic"`
	Res   []collectedObs `json:"res"`
}

func (w *world) messageSIDs(ms oidfed.JWSMessages) []int {
	out := []int{}
	for _, m := range ms {
		if m == nil {
			out = append(out, -2)
			continue
		}
		out = append(out, w.sidOf(m.RawJWT))
	}
	return out
}

func (w *world) observeCollected(cs []*oidfed.CollectedEntity) []collectedObs {
	out := []collectedObs{}
	for _, c := range cs {
		o := collectedObs{E: "?nil", Types: []string{}, UI: objMap[objMap[pval]]{}, Chain: []int{}}
		if c != nil {
			o.E = w.name(c.EntityID)
			o.Types = append(o.Types, c.EntityTypes...)
			sort.Strings(o.Types)
			if g, ok := generic(c.UIInfos).(map[string]any); ok {
				for t, x := range g {
					claims := objMap[pval]{}
					for k, v := range x.(map[string]any) {
						claims[k] = toPval(v)
					}
					o.UI[t] = claims
				}
			}
			o.Chain = w.messageSIDs(c.TrustChain)
		}
		out = append(out, o)
	}
	return out
}

func words(atoms []string) []string {
	out := []string{}
	for _, a := range atoms {
		out = append(out, atomJSON(a).(string))
	}
	return out
}

func (w *world) collectFilters(fs []collectFilter) (out []oidfed.EntityCollectionFilter) {
	for _, f := range fs {
		anchors := w.anchors(f.Anchors)
		switch f.Kind {
		case "chains":
			out = append(out, oidfed.EntityCollectionFilterVerifiedChains{TrustAnchors: anchors})
		case "grants":
			out = append(out, oidfed.EntityCollectionFilterOPSupportedGrantTypesIncludes(anchors.EntityIDs(), words(f.Vals)...))
		case "scopes":
			out = append(out, oidfed.EntityCollectionFilterOPSupportedScopesIncludes(anchors.EntityIDs(), words(f.Vals)...))
		case "automatic":
			out = append(out, oidfed.EntityCollectionFilterOPSupportsAutomaticRegistration(anchors.EntityIDs()))
		case "explicit":
			out = append(out, oidfed.EntityCollectionFilterOPSupportsExplicitRegistration(anchors.EntityIDs()))
		case "ops":
			out = append(out, oidfed.EntityCollectionFilterOPs())
		default:
			panic("unknown filter " + f.Kind)
		}
	}
	return
}

func (w *world) collector(s collectStep, more ...oidfed.EntityCollectionFilter) oidfed.EntityCollector {
	// applications might build their filters with room to spare
	filters := make([]oidfed.EntityCollectionFilter, 0, 8)
	filters = append(filters, w.collectFilters(s.Req.Filters)...)
	filters = append(filters, more...)
	switch s.Coll {
	case "simple":
		return &oidfed.SimpleEntityCollector{}
	case "op":
		return &oidfed.SimpleOPCollector{}
	case "verified":
		return oidfed.VerifiedChainsEntityCollector{}
	case "filterable":
		return oidfed.FilterableVerifiedChainsEntityCollector{Filters: filters}
	case "filterable-simple":
		return oidfed.FilterableVerifiedChainsEntityCollector{
			Collector: &oidfed.SimpleEntityCollector{}, Filters: filters,
		}
	}
	panic("unknown collector " + s.Coll)
}

// TestCollect collects entities
func TestCollect(t *testing.T) {
	runScenarios(t, func(t *testing.T, raw []byte) any {
		var sc struct {
			World worldSpec `json:"world"`
			Lists []struct {
				At   int      `json:"at"`
				E    string   `json:"e"`
				List []string `json:"list"`
			} `json:"lists"`
			Lat   int           `json:"lat"`
			Steps []collectStep `json:"steps"`
		}
		if err := json.Unmarshal(raw, &sc); err != nil {
			t.Fatal(err)
		}
		type stepObs struct {
			Runs    []collectRun `json:"runs"`
			Changed []string     `json:"changed"`
		}
		obs := make([]stepObs, len(sc.Steps))
		inBubble(t, sc.World.Now, func(t *testing.T) {
			w := newWorld(sc.World)
			defer w.close()
			if sc.Lat > 0 {
				w.latency = func(name, path string, r *http.Request) time.Duration {
					h := fnv.New32a()
					h.Write([]byte(name + path + r.URL.RawQuery[max(0, len(r.URL.RawQuery)-3):] + strconv.Itoa(sc.Lat)))
					return time.Duration(h.Sum32()%40) * time.Microsecond
				}
			}
			// without resolve endpoints the smart resolver has to come to the same results; it is given the identifiers of anchors only
			smart := len(sc.Steps)%2 == 0
			for _, s := range sc.Steps {
				for _, f := range s.Req.Filters {
					for _, a := range f.Anchors {
						smart = smart && !a.Pin
					}
				}
			}
			if smart {
				oidfed.DefaultMetadataResolver = oidfed.SmartRemoteMetadataResolver{}
			}
			defer func() { oidfed.DefaultMetadataResolver = oidfed.LocalMetadataResolver{} }()
			next := 0
			for si, s := range sc.Steps {
				o := &obs[si]
				for next < len(sc.Lists) && sc.Lists[next].At <= s.At {
					l := sc.Lists[next]
					sleepUntilTick(l.At)
					w.setStmt(l.E, func(e *entity) { e.List = l.List })
					next++
				}
				sleepUntilTick(s.At)
				o.Runs = make([]collectRun, s.N)
				o.Changed = []string{}
				req := func(ta string) apimodel.EntityCollectionRequest {
					r := apimodel.EntityCollectionRequest{TrustAnchor: w.eid(ta)}
					if s.Req.HasTypes {
						r.EntityTypes = append([]string{}, s.Req.Types...)
					}
					for _, l := range s.Req.Query {
						r.NameQuery += l
					}
					if s.HasClaims {
						r.Claims = append([]string{}, s.Claims...)
					}
					return r
				}
				one := req(s.Req.TA)
				before := sortedJSON(one)
				var wg sync.WaitGroup
				var c oidfed.EntityCollector
				var nested []oidfed.EntityCollectionFilter
				var nestedOnce atomic.Bool
				var nestedRun *collectRun
				if s.Nest != "" {
					// a filter of the application that itself collects with the same collector
					nested = append(
						nested, oidfed.NewEntityCollectionFilter(
							func(*oidfed.CollectedEntity) bool {
								if nestedOnce.CompareAndSwap(false, true) {
									r := &collectRun{TA: s.Nest, Res: []collectedObs{}}
									r.Panic = guarded(func() {
										r.Res = w.observeCollected(c.CollectEntities(req(s.Nest)))
									})
									nestedRun = r
								}
								return true
							},
						),
					)
				}
				c = w.collector(s, nested...)
				for i := range o.Runs {
					o.Runs[i].TA = s.Req.TA
					if len(s.TAs) > 0 {
						o.Runs[i].TA = s.TAs[i]
					}
					wg.Add(1)
					go func() {
						defer wg.Done()
						o.Runs[i].Res = []collectedObs{}
						o.Runs[i].Panic = guarded(func() {
							cc, r := c, one
							if len(s.TAs) > 0 {
								r = req(s.TAs[i])
							}
							if !s.Shared {
								cc, r = w.collector(s), req(o.Runs[i].TA)
							}
							o.Runs[i].Res = w.observeCollected(cc.CollectEntities(r))
						})
					}()
				}
				wg.Wait()
				if nestedRun != nil {
					o.Runs = append(o.Runs, *nestedRun)
				}
				if sortedJSON(one) != before {
					o.Changed = append(o.Changed, "request")
				}
				synctest.Wait()
			}
			// refreshes in the background
			time.Sleep(time.Minute)
		})
		return obs
	})
}
