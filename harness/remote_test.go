package zzverif

import (
	"encoding/json"
	"net/http"
	"net/url"
	"strings"
	"testing"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

type remoteAnswer struct {
	Kind string    `json:"kind"`
	Code string    `json:"code"`
	MD   pmetadata `json:"md"`
}
type remoteCollected struct {
	Kind string   `json:"kind"`
	IDs  []string `json:"ids"`
}
type remoteRequest struct {
	E      string   `json:"e"`
	Path   string   `json:"path"`
	Sub    string   `json:"sub"`
	TAs    []string `json:"tas"`
	Types  []string `json:"types"`
	Query  []string `json:"query"`
	Claims []string `json:"claims"`
}
type remoteStep struct {
	Kind string                     `json:"kind"`
	How  string                     `json:"how"`
	E    string                     `json:"e"`
	Ans  map[string]remoteAnswer    `json:"ans"`
	CAns map[string]remoteCollected `json:"cans"`
	Req  struct {
		Sub      string   `json:"sub"`
		TAs      []string `json:"tas"`
		TA       string   `json:"ta"`
		HasTypes bool     `json:"hasTypes"`
		Types    []string `json:"types"`
		Query    []string `json:"query"`
		Claims   []string `json:"claims"`
		Conf     []string `json:"conf"`
	} `json:"req"`
}
type remoteObs struct {
	Panic   string          `json:"panic"`
	Err     bool            `json:"err"`
	NoMD    bool            `json:"nomd"`
	MD      pmetadata       `json:"md"`
	Chain   []int           `json:"chain"`
	Valid   bool            `json:"valid"`
	Invalid bool            `json:"invalid"`
	Res     []string        `json:"res"`
	Reqs    []remoteRequest `json:"reqs"`
}

const ctJSON = "application/json"

func (w *world) remoteResolve(a remoteAnswer, sub string, tas []string) (int, string, string) {
	payload := map[string]any{"iss": "https://resolver.test", "sub": sub, "iat": tick(0), "exp": tick(1000000)}
	if len(tas) > 0 {
		payload["trust_anchor"] = tas[0]
	}
	rr := func(typ string) (int, string, string) {
		return 200, "application/resolve-response+jwt", makeJWT(payload, typHeaders[typ], "kResolver", "ok")
	}
	switch a.Kind {
	case "ok":
		payload["metadata"] = metadataJSON(a.MD)
		return rr("rr")
	case "nomd":
		return rr("rr")
	case "badtyp":
		payload["metadata"] = map[string]any{"openid_provider": map[string]any{"organization_name": "wrong type"}}
		return rr("es")
	case "badpayload":
		payload["metadata"] = "none"
		return rr("rr")
	case "error":
		status := 400
		if a.Code == "not_found" || a.Code == "invalid_subject" || a.Code == "invalid_trust_anchor" {
			status = 404
		} else if a.Code == "server_error" {
			status = 500
		}
		return status, ctJSON, string(mustJSON(map[string]any{"error": a.Code, "error_description": "because"}))
	case "errsuccess":
		return 200, ctJSON, `{"error":"server_error"}`
	case "garbage":
		return 200, "application/resolve-response+jwt", "this is not a jwt"
	case "empty":
		return 200, "application/resolve-response+jwt", ""
	case "plain404":
		return 404, "text/plain", "not found"
	case "plain500":
		return 500, "text/html", "<h1>oops</h1>"
	case "drop":
		return 0, "", ""
	}
	panic("unknown answer " + a.Kind)
}

func (w *world) remoteCollect(a remoteCollected) (int, string, string) {
	switch a.Kind {
	case "ok":
		es := []any{}
		for _, e := range a.IDs {
			es = append(es, map[string]any{"entity_id": w.eid(e), "entity_types": []string{"openid_provider"}})
		}
		return 200, ctJSON, string(mustJSON(map[string]any{"federation_entities": es, "last_updated": tick(0)}))
	case "garbage":
		return 200, ctJSON, `{"federation_entities":[`
	case "null":
		return 200, ctJSON, `{}`
	case "notjson":
		return 200, "text/plain", "nothing to see"
	case "error":
		return 400, ctJSON, `{"error":"unsupported_parameter"}`
	case "plain404":
		return 404, "text/plain", "not found"
	case "plain500":
		return 500, "text/html", "<h1>oops</h1>"
	case "drop":
		return 0, "", ""
	}
	panic("unknown answer " + a.Kind)
}

// TestRemote asks resolve and collection endpoints, and resolves locally
func TestRemote(t *testing.T) {
	runScenarios(t, func(t *testing.T, raw []byte) any {
		var sc struct {
			World worldSpec    `json:"world"`
			Steps []remoteStep `json:"steps"`
		}
		if err := json.Unmarshal(raw, &sc); err != nil {
			t.Fatal(err)
		}
		out := []remoteObs{}
		inBubble(t, sc.World.Now, func(t *testing.T) {
			w := newWorld(sc.World)
			defer w.close()
			for _, s := range sc.Steps {
				o := remoteObs{MD: pmetadata{}, Chain: []int{}, Res: []string{}, Reqs: []remoteRequest{}}
				w.handler = func(name, path string, q url.Values, r *http.Request) (int, string, string, bool) {
					if path != "resolve" && path != "collect" {
						return 0, "", "", false
					}
					x := remoteRequest{E: name, Path: path, TAs: []string{}, Types: append([]string{}, q["entity_type"]...),
						Query: []string{}, Claims: append([]string{}, q["claims"]...)}
					if sub := q.Get("sub"); sub != "" {
						x.Sub = w.name(sub)
					}
					for _, ta := range q["trust_anchor"] {
						x.TAs = append(x.TAs, w.name(ta))
					}
					if n := q.Get("name_query"); n != "" {
						x.Query = strings.Split(n, "")
					}
					o.Reqs = append(o.Reqs, x)
					var st int
					var ct, body string
					if path == "resolve" {
						st, ct, body = w.remoteResolve(s.Ans[name], q.Get("sub"), q["trust_anchor"])
					} else {
						st, ct, body = w.remoteCollect(s.CAns[name])
					}
					return st, ct, body, true
				}
				o.Panic = guarded(func() {
					if s.How == "collect" {
						req := apimodel.EntityCollectionRequest{
							TrustAnchor: w.eid(s.Req.TA), NameQuery: strings.Join(s.Req.Query, ""), Claims: s.Req.Claims,
						}
						if s.Req.HasTypes {
							req.EntityTypes = s.Req.Types
						}
						var c oidfed.EntityCollector
						if s.Kind == "simple" {
							c = oidfed.SimpleRemoteEntityCollector{EntityCollectionEndpoint: w.eid(s.E) + "/collect"}
						} else {
							c = oidfed.SmartRemoteEntityCollector{TrustAnchors: w.eids(s.Req.Conf)}
						}
						for _, e := range c.CollectEntities(req) {
							if e == nil {
								o.Res = append(o.Res, "?nil")
								continue
							}
							o.Res = append(o.Res, w.name(e.EntityID))
						}
						return
					}
					req := apimodel.ResolveRequest{Subject: w.eid(s.Req.Sub), TrustAnchor: w.eids(s.Req.TAs), EntityTypes: s.Req.Types}
					var r oidfed.MetadataResolver
					switch s.Kind {
					case "local":
						r = oidfed.LocalMetadataResolver{}
					case "simple":
						r = oidfed.SimpleRemoteMetadataResolver{ResolveEndpoint: w.eid(s.E) + "/resolve"}
					default:
						r = oidfed.SmartRemoteMetadataResolver{}
					}
					see := func(m *oidfed.Metadata, err error) {
						o.Err = err != nil
						if err == nil && m != nil {
							o.MD = observeMetadata(m)
						}
						o.NoMD = m == nil
					}
					switch s.How {
					case "resolve":
						see(r.Resolve(req))
					case "payload":
						p, err := r.ResolveResponsePayload(req)
						see(p.Metadata, err)
						if err == nil {
							o.Chain = w.messageSIDs(p.TrustChain)
						}
					case "possible":
						o.Valid, o.Invalid = r.ResolvePossible(req)
					}
				})
				out = append(out, o)
			}
		})
		return out
	})
}
